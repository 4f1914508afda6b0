"""C12: external solvers, as simulated processes that can fail."""
import logging
import os

from .. import gr1sim
from .. import simproc
from .. import specgen
from ..core import Discard, SimHang, Violation
from ..loop import Loop

RUNS = {'quick': 12000, 'thorough': 60000}
RULE = ('A run makes 1-4 calls (synthesize, is_realizable, check_syntax) for '
        'one or more drawn GR(1) specifications to simulated `gr1c` and '
        '`slugs` processes, with process and disk faults; non-trivial: a '
        'controller was obtained and played, or a fault was injected.')
TIME_UNIT = 'calls and reactions'
STATE_MEASURE = '(solver, call, fault, outcome) and loop states visited'
ASSUMPTIONS = [
    'the tools behave as documented when they do not fail: they are '
    'simulated by an independent parser and explicit solver',
    'specifications have at most 20 joint valuations',
    'with gr1c, ENVINIT mentions only inputs and SYSINIT only outputs '
    r'for qinit \A \E; with slugs, qinit is \A \E']
PROBES = ['realizable', 'unrealizable', 'gr1c', 'slugs', 'call-after-fault',
          'fault-reported']

FAULTS = [
    (6, None), (1, 'start'), (2, 'kill'), (2, 'short'), (1, 'code'),
    (2, 'noise'), (1, 'version'), (1, 'missing'), (2, 'disk')]


def run(ctx):
    ctx.component('tulip.interfaces.gr1c/slugs, tulip.synth, tulip.spec',
                  'real')
    ctx.component('gr1c, slugs, compiler.py, pipes, signals', 'simulated')
    ctx.component('temporary files', 'real, with injected errors')
    sim = simproc.Sim(ctx)
    with sim.running(['tulip.interfaces.gr1c', 'tulip.interfaces.slugs']):
        _run(ctx, sim)


def _run(ctx, sim):
    from tulip import synth
    from tulip.interfaces import gr1c
    tools = gr1sim.Tools(ctx)
    n = ctx.integer(1, 3)
    prob = dict()
    played = False
    faulty = False
    for k in range(n):
        ctx.tick()
        solver = ctx.pick(['gr1c', 'slugs'])
        if solver not in prob or ctx.chance(0.3):
            try:
                p = specgen.gen_problem(ctx, solver, max_states=16)
            except Discard:
                if k == 0:
                    raise
                return
            p.realizable = p.game.realizable()
            p.spec = specgen.make_spec(ctx, p)
            prob[solver] = p
        p = prob[solver]
        ctx.probe(solver)
        ctx.probe('realizable' if p.realizable else 'unrealizable')
        ops = ['synthesize', 'is_realizable']
        if solver == 'gr1c':
            ops.append('check_syntax')
        op = ctx.pick(ops)
        fault = ctx.weighted(FAULTS)
        ctx.log('call', k, solver, op, fault, specgen.describe(p))
        install(ctx, sim, tools, solver, fault)
        sim.fired = list()
        # at this level gr1c.synthesize also writes its input to a file
        debug = op == 'synthesize' and ctx.chance(0.1)
        logging.getLogger(gr1c.__name__).setLevel(5 if debug else 0)
        mach = value = err = None
        try:
            if op == 'synthesize':
                rm = p.never_blocked and ctx.chance(0.7)
                mach = synth.synthesize(
                    p.spec, solver=solver, rm_deadends=rm)
            elif op == 'is_realizable':
                value = synth.is_realizable(p.spec, solver=solver)
            else:
                from tulip import spec as _spec
                good = ctx.chance(0.6)
                text = _spec.translate(p.spec, 'gr1c')
                if not good:
                    text = damage(ctx, text)
                try:
                    gr1sim.parse_gr1c(text)
                    good = True
                except gr1sim.Syntax:
                    good = False
                value = gr1c.check_syntax(text)
        except SimHang:
            raise
        except Exception as e:
            err = e
        finally:
            logging.getLogger(gr1c.__name__).setLevel(0)
        fired = bool(sim.fired) or fault in ('noise', 'version', 'missing')
        faulty |= fired
        ctx.log('outcome', type(err).__name__, mach is not None, value)
        ctx.state(solver, op, fault if fired else None,
                  type(err).__name__, mach is not None, value)
        if err is not None:
            if not fired:
                raise err
            ctx.probe('fault-reported')
        elif op == 'synthesize':
            if mach is None:
                # only `gr1c.synthesize` may report an error as `None`
                wrong = p.realizable and (solver == 'slugs' or not fired)
                ctx.require(
                    not wrong, 'lost-controller',
                    f'{solver}: no controller, for a realizable '
                    'specification')
            else:
                ctx.require(
                    p.realizable, 'unsound',
                    f'{solver}: a controller for an unrealizable '
                    'specification')
                lp = Loop(ctx, p, mach)
                lp.explore()
                lp.walk(10)
                lp.adversary()
                played = True
        elif op == 'is_realizable':
            ctx.require(
                isinstance(value, bool), 'answer', f'{value!r}')
            ctx.require(
                p.realizable or not value, 'unsound',
                f'{solver}: realizable, though it is not')
            ctx.require(
                value or not p.realizable or fired, 'lost-verdict',
                f'{solver}: not realizable, though it is')
        else:
            ctx.require(good or not value, 'unsound-syntax',
                        f'syntax accepted:\n{text}')
            ctx.require(
                value or not good or fired, 'lost-syntax',
                f'syntax rejected:\n{text}')
        clean(ctx, sim, {'spec.gr1c'} if debug else set())
        if faulty and not fired:
            ctx.probe('call-after-fault')
    ctx.nontrivial = played or faulty
    ctx.sample = {s: specgen.describe(p) for s, p in prob.items()}


def install(ctx, sim, tools, solver, fault):
    sim.programs = dict(
        gr1c=tools.gr1c, slugs=tools.slugs, python=tools.python)
    sim.start_fault = sim.out_fault = sim.file_fault = None
    tools.noise = 0
    tools.version = ctx.pick(
        ['gr1c 0.13.0', 'gr1c 0.9.0', 'gr1c 0.10.2', 'gr1c 1.0.0'])
    files = {
        os.path.join(sim.bin, 'slugs'):
            not (fault == 'missing' and solver == 'slugs'
                 and ctx.chance(0.5)),
        os.path.join(sim.root, 'tools', 'StructuredSlugsParser',
                     'compiler.py'): True}
    if fault == 'missing':
        ctx.fault('tool-missing')
        if solver == 'gr1c':
            del sim.programs['gr1c']
        elif files[os.path.join(sim.bin, 'slugs')]:
            k = ctx.choose(2)
            if k == 0:
                files = {f: False if f.endswith('.py') else v
                         for f, v in files.items()}
            else:
                del sim.programs['python']
    for name, there in files.items():
        os.makedirs(os.path.dirname(name), exist_ok=True)
        if there:
            with open(name, 'w') as f:
                f.write('simulated\n')
            os.chmod(name, 0o755)
        elif os.path.exists(name):
            os.unlink(name)
    if fault == 'version':
        ctx.fault('unsupported-version')
        tools.version = ctx.pick(
            ['gr1c 0.8.9', 'gr1c', '', 'gr1c x.y', 'gr1c 0.5.0'])
    if fault == 'noise':
        ctx.fault('verbose-tool')
        tools.noise = ctx.pick([200, 5000, 70000, 200000])
    which = None
    if fault in ('start', 'kill', 'short', 'code'):
        # which of the processes of this call
        skip = [ctx.choose(2 if fault == 'start' else 3)]

        def which(key, argv):
            if '-V' in argv and fault != 'start':
                # losing the version is another fault
                return False
            if skip[0] > 0 and key != 'gr1c':
                skip[0] -= 1
                return False
            return True
    if fault == 'start':
        sim.start_fault = (which, ctx.pick(
            ['ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM']))
    elif fault == 'kill':
        sim.out_fault = (which, ('kill', size(ctx)))
    elif fault == 'short':
        def tool(key, argv):
            # a truncated compilation that reports success is a different
            # specification: nothing can detect it
            return key != 'python' and which(key, argv)
        sim.out_fault = (tool, ('short', size(ctx), ctx.pick([0, 1])))
    elif fault == 'code':
        sim.out_fault = (which, ('code', 0, ctx.pick([1, 2, 127, -11])))
    elif fault == 'disk':
        sim.file_fault = ctx.pick(['create', 'write', 'write'])


def size(ctx):
    return ctx.pick([0, 1, 30, 60, 100, 300, 1000, 3000])


def damage(ctx, text):
    k = ctx.choose(4)
    if k == 0:
        return 'foo'
    i = ctx.choose(len(text))
    if k == 1:
        return text[:i]
    if k == 2:
        return text[:i] + ' & ' + text[i:]
    return text[:i] + ctx.pick([')', '(', ' zz_top ', ';']) + text[i:]


def clean(ctx, sim, may):
    """No process and no file is left behind."""
    left = [p.argv[0] for p in sim.unreaped()]
    ctx.require(not left, 'process-left',
                f'processes never waited for: {left}')
    files = sim.leftovers()
    ctx.require(not files, 'file-left',
                f'temporary files left behind: {len(files)}')
    for name in may & set(os.listdir(sim.cwd)):
        os.unlink(os.path.join(sim.cwd, name))
    here = os.listdir(sim.cwd)
    ctx.require(not here, 'file-left', f'files in the directory: {here}')
    sim.procs.clear()
