"""C05: generated Python controllers behave as the machine, after crashes."""
import errno
import os
import resource
import signal
import shutil
import tempfile

from .. import mgen
from .. import specgen
from ..core import Violation

RUNS = {'quick': 8000, 'thorough': 300000}
RULE = ('A run draws a machine (random or synthesized), generates the '
        'controller as text or as a file on a faulty disk, and executes '
        'interleaved controller instances in lockstep with the transition '
        'table while injecting invalid inputs, dead-ends, crashes with only '
        'the saved state surviving, and corrupted saved states; non-trivial: '
        'at least 2 reachable states and 3 transitions.')
TIME_UNIT = 'moves'
STATE_MEASURE = '(machine size, instance state, outcome)'
ASSUMPTIONS = ['input ports are Python identifiers other than those the '
               'generated method itself uses (`self`, `output`)']
PROBES = ['move', 'invalid-input', 'deadend', 'restart', 'regenerated',
          'file', 'synthesized', 'no-inputs', 'disk-error-reported']


class Disk:
    """A scratch directory with injectable write faults."""

    def __init__(self, ctx, most=600):
        self.ctx = ctx
        self.most = most
        self.dir = tempfile.mkdtemp(prefix='ctl')
        self.path = os.path.join(self.dir, 'ctl.py')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, f):
        """Call `f(path)` under faults until one call succeeds."""
        ctx = self.ctx
        for _ in range(4):
            fault = ctx.weighted([
                (5, None), (1, 'full'), (1, 'short'), (1, 'no-directory'),
                (1, 'old-file')])
            path = self.path
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            if os.path.lexists(path):
                os.remove(path)
            if fault == 'full':
                # a link, so that nothing can replace the device
                os.symlink('/dev/full', path)
            elif fault == 'no-directory':
                path = os.path.join(self.dir, 'absent', 'ctl.py')
            elif fault == 'old-file':
                with open(path, 'w') as g:
                    g.write('garbage(\n' * 2000)
            elif fault == 'short':
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(
                    resource.RLIMIT_FSIZE, (ctx.integer(0, self.most), old[1]))
            try:
                f(path)
                ok = True
            except OSError as e:
                ok = False
                ctx.log('os error', errno.errorcode.get(e.errno))
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            if fault:
                ctx.fault(fault)
            if fault in ('full', 'short', 'no-directory'):
                if ok:
                    raise Violation(
                        'silent-loss', f'disk fault {fault}, but the '
                        'controller file was reported written')
                ctx.probe('disk-error-reported')
                continue
            if not ok:
                raise Violation('write', 'could not write without a fault')
            with open(path) as g:
                return g.read()
        return None


def generate(ctx, m, start):
    from tulip import dumpsmach
    kw = dict()
    name = 'TulipStrategy'
    if ctx.chance(0.4):
        name = kw['classname'] = 'Ctl'
    if start != 'Sinit' or ctx.chance(0.3):
        kw['start'] = start
    code = None
    if ctx.chance(0.4):
        disk = Disk(ctx)
        try:
            code = disk.write(
                lambda path: dumpsmach.write_python_case(path, m, **kw))
            ctx.probe('file')
        finally:
            disk.close()
    if code is None:
        code = dumpsmach.python_case(m, **kw)
    ns = dict()
    try:
        exec(compile(code, 'controller', 'exec'), ns)
    except Exception as e:
        raise Violation('not-python', f'{type(e).__name__}: {e}\n{code}')
    return ns[name]


class Inst:
    def __init__(self, cls, s):
        self.obj = cls()
        self.s = s
        self.saved = (self.obj.state, s)


def same(got, want):
    return set(got) == set(want) and all(
        type(got[k]) is type(want[k]) and got[k] == want[k]
        or got[k] == want[k] and not isinstance(want[k], str)
        for k in want)


def step(ctx, ref, inst, names):
    s = inst.s
    obj = inst.obj
    before = obj.state
    rows = ref.table[s]
    fault = None
    if not rows:
        inp = {k: v[0] for k, v in ref.ins.items()}
        fault = 'dead-end'
    elif ctx.chance(0.25):
        f = mgen.bad_inputs(ctx, ref, s)
        if f and f[0] in ('not-enabled', 'out-of-domain', 'wrong-type') and (
                ref.react(s, f[1]) is None):
            fault, inp = f
    if fault is None:
        inp = ctx.pick(rows)[0]
    else:
        ctx.fault(fault)
    err = None
    try:
        if ctx.chance(0.5):
            got = obj.move(**inp)
        else:
            got = obj.move(*[inp[k] for k in names])
    except Exception as e:
        err = type(e).__name__
        got = None
    ctx.log('move', s, sorted(inp.items()), err, got and sorted(got.items()))
    ctx.tick()
    ctx.state(len(ref.states), str(s), err)
    if fault:
        want = 'RuntimeError' if fault == 'dead-end' else 'ValueError'
        ctx.probe('deadend' if fault == 'dead-end' else 'invalid-input')
        if err != want:
            raise Violation(
                'fault-handling', f'{fault} at {s!r} with {inp}: {err}, '
                f'{got}; expected {want}')
        if obj.state != before:
            raise Violation(
                'state-after-fault', f'{fault} at {s!r} with {inp} moved the '
                'controller')
        return
    ctx.probe('move')
    t, o = ref.react(s, inp)
    if err:
        raise Violation('rejected', f'{inp} at {s!r}: {err}')
    if not same(got, o):
        raise Violation('outputs', f'{inp} at {s!r}: {got}, expected {o}')
    inst.s = t


def run(ctx):
    ctx.component('tulip.dumpsmach, generated controller', 'real')
    ctx.component('disk', 'real scratch directory with injected faults')
    if ctx.chance(0.05):
        from tulip import synth
        p = specgen.gen_problem(ctx, 'omega', 12)
        m = synth.synthesize(specgen.make_spec(ctx, p), rm_deadends=False)
        if m is None:
            p = None
        else:
            ctx.probe('synthesized')
            ref = mgen.table_of(
                m, {k: sorted(v, key=str) for k, v in m.inputs.items()},
                {k: sorted(v, key=str) for k, v in m.outputs.items()})
            # nondeterministic initial reactions have no executable meaning
            for s in ref.states:
                seen = set()
                keep = list()
                for i, o, t in ref.table[s]:
                    key = tuple(sorted(i.items()))
                    if key not in seen:
                        seen.add(key)
                        keep.append((i, o, t))
                if len(keep) != len(ref.table[s]):
                    ref.table[s] = keep
                    m = None
            if m is None:
                m = mgen.build(ctx, ref)
    else:
        p = None
    if p is None:
        ref = mgen.gen_machine(ctx, max_states=6)
        m = mgen.build(ctx, ref)
    ctx.sample = dict(ins=ref.ins, outs=ref.outs, init=str(ref.init), table={
        str(s): [(i, o, str(t)) for i, o, t in r]
        for s, r in ref.table.items()})
    ctx.log(ctx.sample)
    ctx.nontrivial = len(ref.reachable()) > 1 and sum(
        map(len, ref.table.values())) >= 3
    if not ref.ins:
        ctx.probe('no-inputs')
    start = ref.init
    if start != 'Sinit' and 'Sinit' in ref.states:
        start = 'Sinit'
    elif ctx.chance(0.2):
        start = ctx.pick(ref.states)
    cls = generate(ctx, m, start)
    insts = [Inst(cls, start) for _ in range(ctx.integer(1, 3))]
    names = list(insts[0].obj.input_vars)
    if sorted(names) != sorted(ref.ins):
        raise Violation('input_vars', f'{names}, the machine has {ref.ins}')
    for _ in range(ctx.integer(4, 24)):
        inst = ctx.pick(insts)
        op = ctx.weighted([(10, 'move'), (2, 'save'), (1, 'crash'),
                           (1, 'corrupt')])
        if op == 'move':
            step(ctx, ref, inst, names)
        elif op == 'save':
            inst.saved = (inst.obj.state, inst.s)
        elif op == 'crash':
            # only the saved state survives
            ctx.fault('crash-restart')
            ctx.probe('restart')
            if ctx.chance(0.3):
                cls = generate(ctx, m, start)
                ctx.probe('regenerated')
            saved = inst.saved
            inst.obj = cls()
            if ctx.chance(0.2):
                inst.s = start
            else:
                inst.obj.state, inst.s = saved
            inst.saved = (inst.obj.state, inst.s)
            ctx.log('crash', inst.s)
        else:
            ctx.fault('corrupt-state')
            keep = inst.obj.state
            inst.obj.state = 10**6
            try:
                inst.obj.move(**{k: v[0] for k, v in ref.ins.items()})
                ok = True
            except AssertionError:
                ok = False
            if ok:
                raise Violation('corrupt-state', 'moved from no state')
            inst.obj.state = keep
