"""C01: every closed loop with a synthesized controller satisfies the spec."""
from .. import specgen
from ..loop import Loop
from ..core import Discard, Violation

RUNS = {'quick': 9000, 'thorough': 40000}
RULE = ('A run draws a GR(1) specification (variables, formulas, options, '
        'solver), synthesizes a controller with the real code, and plays it '
        'against simulated environments with input faults; non-trivial: '
        'realizable, at least 3 distinct loop states and 5 loop edges.')
TIME_UNIT = 'reactions'
STATE_MEASURE = '(controller state, joint valuation) visited in walks'
ASSUMPTIONS = [
    'specifications have at most 20 joint valuations',
    'environment assumptions on steps do not mention next system values']
PROBES = ['realizable', 'unrealizable', 'environment-blocked',
          'liveness-hunt', 'gr1py']


def run(ctx):
    from tulip import synth
    solver = ctx.weighted([(4, 'omega'), (1, 'gr1py')])
    p = specgen.gen_problem(ctx, solver)
    # the oracle decides first, to spend runs on controllers
    ctx.component('solver', 'real')
    ctx.component('tulip.synth, tulip.spec, tulip.transys.machines', 'real')
    ctx.component('environment', 'simulated')
    rm = p.never_blocked and ctx.chance(0.7)
    spec = specgen.make_spec(ctx, p)
    ctx.log('spec', specgen.describe(p), 'rm', rm)
    mach = synth.synthesize(spec, solver=solver, rm_deadends=rm)
    if mach is None:
        ctx.probe('unrealizable')
        raise Discard()
    ctx.probe('realizable')
    if solver == 'gr1py':
        ctx.probe('gr1py')
    ctx.sample = specgen.describe(p)
    lp = Loop(ctx, p, mach)
    lp.explore()
    lp.walk(30)
    lp.adversary()
    ctx.probe('liveness-hunt')
    ctx.nontrivial = len(lp.succ) >= 3 and lp.n_edges >= 5
    if lp.moore_dep:
        # last, so that it hides nothing else
        ctx.probe('moore-choice-depends-on-input')
        raise Violation(
            'moore-choice',
            'a Moore controller enumerated by omega picks different '
            f'outputs for different inputs, at {lp.moore_dep[:3]}')
    ctx.log('nodes', len(mach), 'edges', lp.n_edges)
