"""Generation of GR(1) problems: a GRSpec for TuLiP, a Game for the oracle."""
from . import gr1model as gm
from .core import Discard


QINITS = [r'\E \A', r'\A \E', r'\A \A', r'\E \E']
STRS = [['a', 'b'], ['a', 'b', 'c'], ['left', 'mid', 'right', 'up'],
        ['p0', 'p1', 'p2']]


def gen_vars(ctx, solver, max_states=20):
    """Random variables with at most `max_states` joint valuations."""
    out = dict(env=list(), sys=list())
    size = 1
    n_env = ctx.weighted([(5, 1), (1, 0), (3, 2)])
    n_sys = ctx.weighted([(5, 1), (4, 2)])
    names = dict(env=ctx.pick([['x', 'w'], ['u', 'x1']]),
                 sys=ctx.pick([['y', 'z'], ['v', 'out']]))
    for owner, n in (('env', n_env), ('sys', n_sys)):
        for i in range(n):
            kind = ctx.weighted(
                [(4, 'bool'), (4, 'int'), (3, 'str')]
                if solver != 'slugs' else [(4, 'bool'), (4, 'int')])
            if kind == 'bool':
                dom = 'boolean'
                m = 2
            elif kind == 'int':
                # gr1c's syntax has lower bound 0 in practice;
                # `omega` accepts any interval
                lo = 0
                if solver == 'omega':
                    lo = ctx.weighted([(4, 0), (2, 1), (1, -1)])
                elif solver == 'slugs':
                    lo = ctx.weighted([(4, 0), (1, 1), (1, 3)])
                m = ctx.integer(2, 4)
                dom = (lo, lo + m - 1)
            else:
                dom = ctx.shuffle(ctx.pick(STRS))
                m = len(dom)
            if size * m > max_states:
                dom = 'boolean'
                m = 2
                if size * m > max_states:
                    continue
            size *= m
            out[owner].append(gm.Var(names[owner][i], dom, owner))
    return out['env'], out['sys']


class Problem:
    pass


def gen_problem(ctx, solver='omega', max_states=20, allow_qinit=None,
                verdict=False):
    p = Problem()
    p.solver = solver
    ev, sv = gen_vars(ctx, solver, max_states)
    p.ev, p.sv = ev, sv
    allv = ev + sv
    if solver == 'omega':
        p.moore = ctx.chance(0.5)
        p.plus_one = ctx.chance(0.5)
        p.qinit = ctx.pick(allow_qinit or QINITS)
    else:
        p.moore = False
        p.plus_one = False
        p.qinit = ctx.pick(
            [r'\A \E'] if solver != 'gr1c'
            else [r'\A \E', r'\A \A', r'\E \E'])
    one = 1 if solver == 'gr1c' else 0
    en = frozenset(v.name for v in ev)
    sn = frozenset(v.name for v in sv)
    kw = dict(rich=False, vv=(solver == 'omega'))
    p.style = ctx.choose(4)

    def many(lo, hi, f):
        return [f() for _ in range(ctx.integer(lo, hi))]

    p.env_init, p.sys_init = list(), list()
    if p.qinit == r'\A \A':
        # (`gr1c` cannot tell these two apart, if there are no formulas)
        p.env_init = many(one, 2, lambda: gm.gen_expr(ctx, allv, depth=1, **kw))
    elif p.qinit == r'\E \E':
        p.sys_init = many(
            one, 2, lambda: gm.gen_expr(ctx, allv, depth=1, **kw))
    else:
        if ev:
            p.env_init = many(
                0, 1, lambda: gm.gen_expr(ctx, ev, depth=1, **kw))
        init_vars = sv if one else allv
        if one and not sv:
            raise Discard()
        p.sys_init = many(0, 1, lambda: gm.gen_expr(
            ctx, init_vars, depth=1, **kw))
    p.env_safety = list()
    if ev:
        p.env_safety = many(
            0, 1, lambda: gm.gen_expr(ctx, allv, en, depth=2, **kw))
    p.sys_safety = many(
        0, 2, lambda: gm.gen_expr(ctx, allv, en | sn, depth=2, **kw))
    p.env_prog = list()
    if ev:
        p.env_prog = many(
            0, 2, lambda: gm.gen_expr(ctx, allv, depth=1, **kw))
    p.sys_prog = many(
        # gr1py's own enumeration is wrong (and may diverge) with more goals
        0, 1 if solver == 'gr1py' else 2,
        lambda: gm.gen_expr(ctx, allv, depth=1, **kw))
    p.game = make_game(p)
    if not any(p.game.Einit):
        raise Discard()
    p.never_blocked = p.game.env_never_blocked()
    if not synth_ok(p) and not (verdict and solver == 'omega'):
        # the third-party solvers themselves fail on these deadlocks
        raise Discard()
    return p


def make_game(p):
    return gm.Game(
        p.ev, p.sv, p.env_init, p.sys_init, p.env_safety, p.sys_safety,
        p.env_prog, p.sys_prog, p.moore, p.plus_one, p.qinit)


def has_vv(f):
    return f[0] == 'cmpvv' or any(
        has_vv(x) for x in f[1:] if isinstance(x, tuple))


def formulas(p):
    return (p.env_init + p.sys_init + p.env_safety + p.sys_safety
            + p.env_prog + p.sys_prog)


def synth_ok(p):
    return p.never_blocked or not (p.solver == 'gr1py' or p.plus_one)


def doms(vs):
    return {v.name: v.dom for v in vs}


def make_spec(ctx, p):
    """Return a `GRSpec`, assembled as a user might assemble it."""
    from tulip import spec as _spec

    def strs(fs):
        return [gm.show(f, p.style) for f in fs]
    parts = dict(
        env_init=strs(p.env_init), sys_init=strs(p.sys_init),
        env_safety=strs(p.env_safety), sys_safety=strs(p.sys_safety),
        env_prog=strs(p.env_prog), sys_prog=strs(p.sys_prog))

    def new(**kw):
        s = _spec.GRSpec(
            doms(p.ev), doms(p.sv), **kw)
        s.moore = p.moore
        s.plus_one = p.plus_one
        s.qinit = p.qinit
        return s
    if ctx.chance(0.3):
        # conjunction of two specifications
        a, b = dict(), dict()
        for k, v in parts.items():
            m = ctx.choose(len(v) + 1)
            a[k], b[k] = v[:m], v[m:]
        s = new(**a) | new(**b)
        s.moore, s.plus_one, s.qinit = p.moore, p.plus_one, p.qinit
    else:
        s = new(**parts)
    return s


def describe(p):
    return dict(
        solver=p.solver, moore=p.moore, plus_one=p.plus_one, qinit=p.qinit,
        env_vars=doms(p.ev), sys_vars=doms(p.sv),
        env_init=[gm.show(f) for f in p.env_init],
        sys_init=[gm.show(f) for f in p.sys_init],
        env_safety=[gm.show(f) for f in p.env_safety],
        sys_safety=[gm.show(f) for f in p.sys_safety],
        env_prog=[gm.show(f) for f in p.env_prog],
        sys_prog=[gm.show(f) for f in p.sys_prog])
