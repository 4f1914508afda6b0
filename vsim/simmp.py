"""Simulated `multiprocessing`: workers, a queue, and a clock.

Each worker runs on its own (pickled) copy of its arguments, in this
process, as one event of a discrete-event simulation.  When workers run,
how long they take, when messages arrive, and which workers die is drawn
from the run.  A parent that waits for something that cannot happen any more
gets `SimHang`.
"""
import contextlib
import io
import multiprocessing as mp
import pickle
import queue
import sys
import threading
import time

from . import core


class _Stub:
    """Stands for the shared objects when arguments are pickled."""


class _Pickler(pickle.Pickler):
    def __init__(self, f, sim):
        super().__init__(f)
        self.sim = sim

    def persistent_id(self, obj):
        if isinstance(obj, Queue):
            return ('queue', obj.number)
        if isinstance(obj, Event):
            return ('event', obj.number)
        return None


class _Unpickler(pickle.Unpickler):
    def __init__(self, f, sim):
        super().__init__(f)
        self.sim = sim

    def persistent_load(self, pid):
        return self.sim.shared[pid[1]]


class Sim:
    def __init__(self, ctx, faults):
        self.ctx = ctx
        self.now = 0.0
        self.shared = list()
        self.procs = list()
        self.faults = faults
        self.fired = list()
        self.events = list()    # (time, order, function)
        self.n = 0
        self.current = None
        self.idle = 0
        self.order = list()

    def copy(self, obj):
        f = io.BytesIO()
        _Pickler(f, self).dump(obj)
        f.seek(0)
        return _Unpickler(f, self).load()

    def at(self, dt, fun):
        self.n += 1
        self.events.append((self.now + dt, self.n, fun))

    def step(self, until=None):
        """Process the next event; False if none (before `until`)."""
        if self.current is not None:
            raise core.HarnessError('worker waits: not simulated')
        if not self.events:
            return False
        e = min(self.events, key=lambda e: e[:2])
        if until is not None and e[0] > until:
            return False
        self.events.remove(e)
        self.now = max(self.now, e[0])
        self.idle = 0
        e[2]()
        return True

    def wait(self, cond, timeout, what):
        """Run the simulation until `cond()`; False after `timeout`."""
        until = None if timeout is None else self.now + max(0, timeout)
        while not cond():
            if self.step(until):
                continue
            if until is None:
                raise core.SimHang(
                    f'{what}: waits forever; workers: ' + ', '.join(
                        f'{p.name} {p.state}' for p in self.procs))
            self.now = until
            if not self.events:
                self.idle += 1
                if self.idle > 200:
                    raise core.SimHang(
                        f'{what}: polls forever; workers: ' + ', '.join(
                            f'{p.name} {p.state}' for p in self.procs))
            return False
        return True


class Event:
    def __init__(self, sim):
        self.sim = sim
        self.number = len(sim.shared)
        sim.shared.append(self)
        self.flag = False

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        return self.sim.wait(lambda: self.flag, timeout, 'Event.wait')


class Queue:
    def __init__(self, sim):
        self.sim = sim
        self.number = len(sim.shared)
        sim.shared.append(self)
        self.items = list()

    def put(self, obj, block=True, timeout=None):
        sim = self.sim
        # the feeder thread pickles
        obj = sim.copy(obj)
        p = sim.current
        if p is None:
            self.items.append((obj, None))
            return
        p.outbox.append((self, obj))

    put_nowait = put

    def get(self, block=True, timeout=None):
        sim = self.sim
        if not block:
            timeout = 0
        if sim.wait(lambda: self.items, timeout, 'Queue.get'):
            obj, p = self.items.pop(0)
            if p is not None:
                p.delivered()
            return obj
        raise queue.Empty()

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        self.sim.wait(lambda: False, 0, 'Queue.empty')
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class Process:
    sim = None
    daemon = False

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, *, daemon=None):
        sim = type(self).sim
        self.name = name or f'Process-{len(sim.procs) + 1}'
        self.pid = 10000 + len(sim.procs)
        self._target, self._args, self._kw = target, args, kwargs or dict()
        self.state = 'new'
        self.exitcode = None
        self.outbox = list()
        self.undelivered = 0
        self.fate = None
        sim.procs.append(self)

    @property
    def ident(self):
        return self.pid

    def start(self):
        sim, ctx = self.sim, self.sim.ctx
        self._args = sim.copy((self._args, self._kw))
        self.state = 'running'
        self.duration = ctx.weighted([
            (3, 1.0), (2, 5.0), (1, 0.0), (1, 40.0), (1, 250.0)])
        if self.duration >= 250:
            ctx.fault('slow-worker')
        self.fate = None
        if sim.faults and ctx.chance(sim.faults):
            self.fate = ctx.pick([
                'raises', 'killed', 'killed-after-sending', 'exits',
                'killed-at-exit', 'unpicklable', 'solver', 'solver',
                'solver'])
        sim.at(self.duration, self._run)

    def _end(self, code):
        if self.state == 'ended':
            return
        self.state = 'ended'
        self.exitcode = code
        self.sim.ctx.log('worker', self.name, 'ends', code)

    def _run(self):
        sim, ctx = self.sim, self.sim.ctx
        if self.state != 'running':
            return
        if self.fate in ('raises', 'killed', 'exits'):
            ctx.fault('worker-' + self.fate)
            sim.fired.append(self.fate)
            self._end({'raises': 1, 'killed': -9, 'exits': 0}[self.fate])
            return
        ctx.log('worker', self.name, 'runs at', sim.now)
        sim.order.append(self.name)
        args, kw = self._args
        saved = _module_state()
        sim.current = self
        try:
            with _solver(self) if self.fate == 'solver' else \
                    contextlib.nullcontext():
                self._target(*args, **kw)
        except core.Discard:
            raise
        except SystemExit:
            self._end(1)
        except Injected:
            ctx.log('worker', self.name, 'raised an injected failure')
            self._end(1)
        except Exception as e:
            ctx.log('worker', self.name, 'raised', type(e).__name__, str(e)[:200])
            sim.fired.append(f'{type(e).__name__}: {e}')
            self._end(1)
        finally:
            sim.current = None
            _restore(saved)
        if self.state == 'ended':
            return
        if self.fate == 'unpicklable':
            # the feeder thread drops what it cannot pickle
            ctx.fault('message-dropped')
            sim.fired.append(self.fate)
            self.outbox.clear()
        if self.fate == 'killed-after-sending':
            ctx.fault('worker-killed-after-sending')
            sim.fired.append(self.fate)
            self.outbox.clear()
            self._end(-9)
            return
        big = ctx.chance(0.6)   # does not fit the pipe
        for q, obj in self.outbox:
            self.undelivered += 1

            def arrive(q=q, obj=obj):
                if self.state == 'ended' and self.exitcode:
                    return
                q.items.append((obj, self if big else None))
                if not big:
                    self.delivered()
            sim.at(ctx.pick([0.0, 0.1, 3.0]), arrive)
        self.outbox.clear()
        if not self.undelivered:
            self._end(0)

    def delivered(self):
        self.undelivered -= 1
        if self.undelivered:
            return
        if self.fate == 'killed-at-exit':
            # everything was delivered
            self.sim.ctx.fault('worker-killed-at-exit')
            self.sim.fired.append(self.fate)
            self.sim.at(0.5, lambda: self._end(-9))
        else:
            self.sim.at(self.sim.ctx.pick([0.0, 2.0]), lambda: self._end(0))

    def is_alive(self):
        # things happen while the parent computes
        self.sim.wait(lambda: False, 0, 'is_alive')
        return self.state == 'running'

    def join(self, timeout=None):
        self.sim.wait(
            lambda: self.state == 'ended', timeout, f'join({self.name})')

    def terminate(self):
        if self.state == 'running':
            self._end(-15)

    kill = terminate

    def close(self):
        pass


class Injected(Exception):
    """Raised by the numeric solver."""


@contextlib.contextmanager
def _solver(proc):
    """The numeric solver fails at a call that the worker makes."""
    import polytope as pc
    real = pc.polytope.lpsolve
    at = proc.sim.ctx.pick([1, 2, 5, 15, 50, 200])
    n = [0]

    def lpsolve(*a, **kw):
        n[0] += 1
        if n[0] == at:
            proc.sim.ctx.fault('worker-solver-raises')
            proc.sim.fired.append('solver')
            raise Injected('no memory')
        return real(*a, **kw)
    pc.polytope.lpsolve = lpsolve
    try:
        yield
    finally:
        pc.polytope.lpsolve = real


def _module_state():
    m = sys.modules['tulip.abstract.discretization']
    return m, dict(vars(m))


def _restore(saved):
    m, d = saved
    for k in list(vars(m)):
        if k not in d:
            delattr(m, k)
    for k, v in d.items():
        setattr(m, k, v)


class _Logger:
    def __getattr__(self, name):
        import logging
        return getattr(logging.getLogger('simulated-worker'), name)


@contextlib.contextmanager
def patched(ctx, faults):
    """Replace `multiprocessing` and `time.sleep`."""
    sim = Sim(ctx, faults)
    Proc = type('Process', (Process,), dict(sim=sim))

    class Manager:
        """What the repository reaches of the module or of a context."""
        Process = Proc

        @staticmethod
        def Queue(maxsize=0):
            return Queue(sim)

        SimpleQueue = JoinableQueue = Queue

        @staticmethod
        def Event():
            return Event(sim)

        @staticmethod
        def log_to_stderr(level=None):
            import logging
            return logging.getLogger('simulated-worker')

        get_logger = log_to_stderr

        @staticmethod
        def current_process():
            return sim.current or type(
                'Main', (), dict(name='MainProcess', pid=1))()

        @staticmethod
        def get_context(method=None):
            return Manager

        @staticmethod
        def active_children():
            return [p for p in sim.procs if p.state == 'running']

    names = [k for k in vars(Manager) if not k.startswith('_')]
    old = {k: getattr(mp, k) for k in names}
    sleep = time.sleep
    for k in names:
        setattr(mp, k, getattr(Manager, k))

    def fake_sleep(dt):
        sim.wait(lambda: False, dt, 'sleep')
    time.sleep = fake_sleep
    pairs = [(v, getattr(Manager, k)) for k, v in old.items()]
    pairs.append((sleep, fake_sleep))
    try:
        with core.rebound(pairs):
            yield sim
    finally:
        time.sleep = sleep
        for k, v in old.items():
            setattr(mp, k, v)
        ctx.now += sim.now
