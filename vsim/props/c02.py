"""C02: realizability verdicts equal the game's explicit-state solution."""
import copy

from .. import gr1model as gm
from .. import specgen
from ..core import Violation

RUNS = {'quick': 5000, 'thorough': 100000}
RULE = ('A run draws a GR(1) specification and options, asks the real code '
        'for a verdict through several routes (is_realizable, synthesize, '
        'repeated, reordered, other solver), in interpreters with different '
        'hash seeds, also after editing formulas and domains in place, and compares with an explicit-state fixpoint; '
        'non-trivial: the winning region is neither empty nor everything.')
TIME_UNIT = 'verdicts'
STATE_MEASURE = '(verdict, winning-region size, number of states, options)'
ASSUMPTIONS = [
    'specifications have at most 20 joint valuations',
    'environment assumptions on steps do not mention next system values']
PROBES = ['realizable', 'unrealizable', 'gr1py', 'both-solvers', 'edited-in-place',
          'blocked-environment']


def reorder(ctx, p):
    """The same problem, declared and written in another order."""
    q = copy.copy(p)
    for k in ('ev', 'sv', 'env_init', 'sys_init', 'env_safety',
              'sys_safety', 'env_prog', 'sys_prog'):
        setattr(q, k, ctx.shuffle(getattr(p, k)))
    q.style = ctx.choose(4)
    return q


def permuted(ctx, p):
    """The same problem, with the values of symbolic domains permuted."""
    q = copy.copy(p)

    def perm(v):
        if v.kind != 'str':
            return v
        return gm.Var(v.name, ctx.shuffle(v.dom), v.owner)
    q.ev = [perm(v) for v in p.ev]
    q.sv = [perm(v) for v in p.sv]
    return q


def edited(ctx, p):
    """A problem that differs in one formula or one domain, or `None`."""
    q = copy.copy(p)
    allv = p.ev + p.sv
    kw = dict(rich=False, vv=False)
    kind = ctx.choose(6)
    if kind >= 4 and q.solver == 'omega':
        opt = ctx.choose(3)
        if opt == 0:
            q.moore = not q.moore
        elif opt == 1:
            q.plus_one = not q.plus_one
        else:
            # keep within the contract of each `qinit`
            new = [x for x in specgen.QINITS if (
                not q.sys_init or x != r'\A \A') and (
                not q.env_init or x != r'\E \E')]
            q.qinit = ctx.pick(new)
            if q.env_init and p.qinit == r'\A \A' and q.qinit != p.qinit:
                return None
    elif kind == 0:
        q.sys_prog = [gm.gen_expr(ctx, allv, depth=1, **kw)]
    elif kind == 1:
        q.sys_safety = p.sys_safety + [gm.gen_expr(
            ctx, allv, frozenset(v.name for v in allv), depth=1, **kw)]
    elif kind == 2:
        q.sys_safety = p.sys_safety[1:]
    else:
        def grow(v):
            if v.kind == 'int' and ctx.chance(0.5):
                return gm.Var(
                    v.name, (v.dom[0], v.dom[1] + 1), v.owner)
            return v
        q.ev = [grow(v) for v in p.ev]
        q.sv = [grow(v) for v in p.sv]
        n = 1
        for v in q.ev + q.sv:
            n *= len(v.values)
        if n > 30:
            return None
    q.game = specgen.make_game(q)
    if not any(q.game.Einit):
        return None
    q.never_blocked = q.game.env_never_blocked()
    return q


def apply_edit(s, q):
    """Edit the `GRSpec` in place, as the documentation allows."""
    for k in ('env_init', 'sys_init', 'env_safety', 'sys_safety',
              'env_prog', 'sys_prog'):
        setattr(s, k, [gm.show(f, q.style) for f in getattr(q, k)])
    s.moore, s.plus_one, s.qinit = q.moore, q.plus_one, q.qinit
    for v in q.ev:
        s.env_vars[v.name] = v.dom
    for v in q.sv:
        s.sys_vars[v.name] = v.dom


def run(ctx):
    from tulip import synth
    ctx.component('solvers, tulip.synth, tulip.spec', 'real')
    solver = ctx.weighted([(4, 'omega'), (1, 'gr1py')])
    p = specgen.gen_problem(ctx, solver, verdict=True)
    want = p.game.realizable()
    ctx.log('spec', specgen.describe(p), 'want', want)
    ctx.sample = dict(specgen.describe(p), realizable=want)
    if not p.never_blocked:
        ctx.probe('blocked-environment')
    ctx.nontrivial = 0 < len(p.game.win) < p.game.N
    ctx.state(want, len(p.game.win), p.game.N, p.moore, p.plus_one, p.qinit)
    n = 1 + ctx.choose(4)
    specs = {id(p): specgen.make_spec(ctx, p)}
    current = p
    keep = [p]
    for i in range(n):
        ctx.tick()
        how = ctx.weighted([
            (3, 'same'), (2, 'fresh'), (2, 'reordered'), (2, 'permuted'),
            (2, 'edited'), (1, 'restored')])
        q = current
        if how == 'edited':
            q2 = edited(ctx, current)
            if q2 is None:
                how = 'same'
            else:
                keep.append(q2)
                s = specs.pop(id(current))
                apply_edit(s, q2)
                specs[id(q2)] = s
                current = q = q2
                ctx.probe('edited-in-place')
        elif how == 'restored':
            s = specs.pop(id(current))
            apply_edit(s, p)
            specs[id(p)] = s
            current = q = p
        want = q.game.realizable()
        ctx.probe('realizable' if want else 'unrealizable')
        routes = ['is_realizable']
        if specgen.synth_ok(q):
            routes.append('synthesize')
        route = ctx.pick(routes)
        sv = solver
        if (solver == 'gr1py' or (
                not q.moore and not q.plus_one and q.qinit == r'\A \E'
                and q.never_blocked and len(q.sys_prog) <= 1
                and not any(map(specgen.has_vv, specgen.formulas(q)))
                and all(v.kind != 'int' or v.dom[0] == 0
                        for v in q.ev + q.sv))) and ctx.chance(0.5):
            sv = 'omega' if solver == 'gr1py' else 'gr1py'
            ctx.probe('both-solvers')
        if sv == 'gr1py':
            ctx.probe('gr1py')
        if how in ('same', 'edited', 'restored'):
            s = specs[id(current)]
        elif how == 'fresh':
            s = specgen.make_spec(ctx, q)
        elif how == 'permuted':
            s = specgen.make_spec(ctx, permuted(ctx, q))
        else:
            s = specgen.make_spec(ctx, reorder(ctx, q))
        if route == 'is_realizable':
            got = synth.is_realizable(s, solver=sv)
            if not isinstance(got, (bool, int)):
                raise Violation('verdict-type', f'{got!r}')
            got = bool(got)
        else:
            m = synth.synthesize(s, solver=sv, rm_deadends=False)
            got = m is not None
        ctx.log('verdict', i, route, how, sv, got)
        if got != want:
            raise Violation(
                'wrong-verdict',
                f'{route} ({how}, {sv}) says '
                f'{"realizable" if got else "unrealizable"}; the explicit '
                f'game says {"realizable" if want else "unrealizable"}: '
                f'{specgen.describe(q)}')
