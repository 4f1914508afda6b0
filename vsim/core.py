"""The decision stream, the violation class, and the per-run context.

Every nondeterministic decision of a simulated run (generated operation,
schedule, fault, delay, random number) is drawn with `Ctx.choose`, from one
PRNG seeded by (VERIF_SEED, property, run index), and recorded.  The list of
recorded integers *is* the run: replaying the list repeats the execution,
and minimisation works on the list (0 is always the simplest alternative).
"""
import contextlib
import hashlib
import os
import random
import signal
import sys
import time
import traceback


REPO = os.environ.get('VSIM_REPO', '/repo')
TULIP_DIR = os.path.join(REPO, 'tulip') + os.sep


class Violation(Exception):
    """The property is broken. `kind` is the stable class of the failure."""

    def __init__(self, kind, msg=''):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The run's generated configuration is outside the property's scope."""


class SimHang(BaseException):
    """Raised by a seam when the code under test makes no progress."""


class CpuBudget(BaseException):
    """Raised when one run has used its CPU budget (no progress)."""


class WallBudget(BaseException):
    """Raised when one run has used its wall-clock budget."""


class HarnessError(Exception):
    """A fault of the machinery itself: never reported as a violation."""


def seed_int(*parts):
    h = hashlib.sha256(':'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Ctx:
    """Context of one simulated run."""

    def __init__(self, seed=None, choices=None, tier='quick', keep_log=False,
                 max_choices=200000):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.rec = list()
        self.tier = tier
        self.keep_log = keep_log
        self.events = list()
        self.n_events = 0
        self._digest = hashlib.sha256()
        self.faults = dict()
        self.probes = dict()
        self.states = set()
        self.now = 0.0  # simulated time
        self.steps = 0
        self.max_choices = max_choices
        self.sample = None
        self.nontrivial = False
        self.components = dict()

    # -- decisions -----------------------------------------------------
    def choose(self, n, label=''):
        """Integer in [0, n)."""
        if n <= 0:
            raise HarnessError(f'choose({n}) {label}')
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = min(max(0, v), n - 1)
        return self._put(v)

    def _put(self, v):
        self.pos += 1
        self.rec.append(v)
        if len(self.rec) > self.max_choices:
            raise HarnessError('too many choices in one run')
        return v

    def chance(self, p, label=''):
        """True with probability `p`; False is the simple alternative."""
        if self.replay is None:
            v = int(self.rng.random() < p)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = 1 if v else 0
        return bool(self._put(v))

    def pick(self, seq, label=''):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def weighted(self, pairs, label=''):
        """Pick from [(weight, value), ...]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        if self.replay is None:
            x = self.rng.random() * total
            idx = 0
            for idx, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    break
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            idx = min(max(0, v), len(pairs) - 1)
        self._put(idx)
        return pairs[idx][1]

    def integer(self, lo, hi, label=''):
        return lo + self.choose(hi - lo + 1, label)

    def real(self, lo=0.0, hi=1.0, bits=16, label=''):
        n = 1 << bits
        return lo + (hi - lo) * self.choose(n + 1, label) / n

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def shuffle(self, seq):
        a = list(seq)
        for i in range(len(a) - 1):
            j = i + self.choose(len(a) - i)
            a[i], a[j] = a[j], a[i]
        return a

    # -- observation ---------------------------------------------------
    def log(self, *event):
        """Record an event (never draws, never reads a clock)."""
        s = ' '.join(map(str, event))
        self.n_events += 1
        self._digest.update(s.encode('utf-8', 'replace') + b'\n')
        if self.keep_log:
            self.events.append(s)

    def digest(self):
        return self._digest.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('FAULT', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + int(n)

    def state(self, *sig):
        """Count a distinct state/interleaving signature."""
        if len(self.states) < 400:
            h = hashlib.sha256(repr(sig).encode()).digest()
            self.states.add(int.from_bytes(h[:6], 'big'))

    def tick(self, dt=1.0):
        self.now += dt
        self.steps += 1

    def component(self, name, kind):
        self.components[name] = kind

    def require(self, cond, kind, msg=''):
        if not cond:
            raise Violation(kind, msg)


class _Alarm:
    """CPU budget for one run (virtual time of this process only)."""

    def __init__(self, seconds, wall):
        self.seconds = seconds
        self.wall = wall

    def __enter__(self):
        def handler(signum, frame):
            raise CpuBudget()
        self.old = signal.signal(signal.SIGVTALRM, handler)
        def wall_handler(signum, frame):
            raise WallBudget()
        self.old_wall = signal.signal(signal.SIGALRM, wall_handler)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 5.0)
        signal.setitimer(signal.ITIMER_REAL, self.wall, 5.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGALRM, self.old_wall)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


def tulip_frames(tb):
    """Repository frames in a traceback, innermost last."""
    out = list()
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(
                os.path.realpath(TULIP_DIR)):
            out.append(f)
    return out


def has_tulip_frame(exc):
    return bool(tulip_frames(exc.__traceback__))


def execute(mod, seed=None, choices=None, tier='quick', keep_log=False,
            cpu_budget=None):
    """Run one simulated execution of a property; return a result dict."""
    ctx = Ctx(seed=seed, choices=choices, tier=tier, keep_log=keep_log)
    budget = cpu_budget or getattr(mod, 'CPU_BUDGET', 60)
    vio = None
    err = None
    discarded = False
    wall = getattr(mod, 'WALL_BUDGET', max(100, 3 * budget))
    cpu0 = time.process_time()
    out, sys.stdout = sys.stdout, (sys.stderr if os.environ.get("DBG") else _Null())
    try:
        with _Alarm(budget, wall):
            mod.run(ctx)
    except Violation as e:
        vio = dict(kind=e.kind, msg=e.msg[:4000])
    except Discard:
        discarded = True
    except SimHang as e:
        vio = dict(kind='no-progress', msg=str(e)[:2000])
    except CpuBudget as e:
        fr = tulip_frames(e.__traceback__)
        if fr:
            vio = dict(
                kind='no-progress',
                msg=f'used {budget} s of CPU without finishing')
        else:
            err = 'CPU budget exhausted outside the repository'
    except WallBudget as e:
        cpu = time.process_time() - cpu0
        if tulip_frames(e.__traceback__) and cpu < 0.1 * wall:
            vio = dict(
                kind='no-progress',
                msg=f'blocked: {wall} s without using the CPU\n' + ''.join(
                    traceback.format_exception(e))[-2000:])
        else:
            err = 'wall-clock budget exhausted'
    except HarnessError as e:
        err = ''.join(traceback.format_exception(e))[-3000:]
    except (Exception, SystemExit) as e:
        if has_tulip_frame(e):
            vio = dict(
                kind='unexpected-exception',
                msg=f'{type(e).__name__}: {e}'[:800] + '\n' + ''.join(
                    traceback.format_exception(e))[-2500:])
        else:
            err = ''.join(traceback.format_exception(e))[-3000:]
    finally:
        sys.stdout = out
    ctx.log('END', vio['kind'] if vio else ('discard' if discarded else 'ok'))
    r = dict(
        violation=vio, error=err, discarded=discarded,
        digest=ctx.digest(), faults=ctx.faults, probes=ctx.probes,
        states=list(ctx.states), now=ctx.now, steps=ctx.steps,
        n_events=ctx.n_events, nontrivial=ctx.nontrivial,
        sample=ctx.sample, components=ctx.components,
        n_choices=len(ctx.rec))
    if vio or keep_log or err:
        r['choices'] = ctx.rec
    if keep_log:
        r['events'] = ctx.events
    return r


_bound = dict()  # original object -> places in the repository bound to it


def _places(orig):
    """[(module, name)] of `from module import orig` in the repository."""
    mods = [(k, m) for k, m in list(sys.modules.items())
            if m is not None and (k == 'tulip' or k.startswith('tulip.'))]
    key = id(orig)
    n, places = _bound.get(key, (None, None))
    if n != len(mods):
        places = [(m, k) for _, m in mods for k, v in list(vars(m).items())
                  if v is orig and not k.startswith('__')]
        _bound[key] = len(mods), places
    return places


@contextlib.contextmanager
def rebound(pairs):
    """Replace objects that modules of the repository imported by name.

    `pairs` is [(original, replacement), ...]. The seams replace attributes
    of modules (`subprocess.Popen`); this reaches `from subprocess import
    Popen` too, so that the spelling of an import does not matter.
    """
    undo = list()
    try:
        for orig, new in pairs:
            for m, k in _places(orig):
                undo.append((m, k, orig))
                setattr(m, k, new)
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


class _Null:
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False
