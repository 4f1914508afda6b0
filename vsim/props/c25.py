"""C25: specifications keep their meaning when they are put together."""
import copy

from .. import gr1model as gm
from .. import specgen
from ..core import Discard, Violation
from ..loop import Loop
from .c05 import Disk

RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('A run draws a GR(1) specification, and either adds an LTL '
        'requirement (response, eventually, until, stability) in GR(1) '
        'form, synthesizes, and plays the controller against the '
        'environment with a monitor of the requirement; or puts a '
        'specification together by a history of conjunctions, copies, '
        'declarations, edits of the operands, substitutions and a formula '
        'that is split; non-trivial: the verdict depends on the requirement, '
        'or 3 operations.')
TIME_UNIT = 'steps of the history, and reactions'
STATE_MEASURE = '(kind, verdicts, options)'
ASSUMPTIONS = [
    'specifications have at most 12 joint valuations, requirements are over '
    'state formulas',
    'realizability of a requirement is compared where the form is complete: '
    'not for stability, and `until` where the system reads the '
    'environment first']
PROBES = ['response', 'eventually', 'until', 'stability', 'realizable',
          'unrealizable', 'requirement-matters', 'aux-taken', 'two-owners',
          'merged', 'copied', 'edited-operand', 'declared', 'bad-declaration',
          'mismatch', 'substituted', 'primed-substitution', 'split',
          'string-split', 'string-substitution', 'empty-part', 'rejected-syntax',
          'stored', 'disk-error', 'rejected-file', 'commented', 'reordered-domain']


def run(ctx):
    ctx.component('tulip.spec.gr1_fragment, tulip.spec.form, '
                  'tulip.spec.transformation, tulip.synth, omega', 'real')
    ctx.component('environment', 'simulated')
    k = ctx.weighted([(6, requirement), (3, assembly), (1.5, substitution),
                      (1.5, splitting), (1, storing)])
    k(ctx)


# ------------------------------------------------------------ requirements
def requirement(ctx):
    from tulip import synth
    from tulip.spec import gr1_fragment as gr1
    p = specgen.gen_problem(
        ctx, 'omega', max_states=12,
        allow_qinit=[r'\A \E', r'\A \E', r'\E \A', r'\E \E'])
    if not p.never_blocked:
        raise Discard()
    if ctx.chance(0.8):
        p = relaxed(ctx, p)
    allv = p.ev + p.sv
    kind = ctx.pick(['response', 'eventually', 'until', 'stability'])
    ctx.probe(kind)
    f = gm.gen_expr(ctx, allv, depth=1, rich=False)
    g = gm.gen_expr(ctx, allv, depth=1, rich=False)
    for _ in range(3):
        # prefer requirements that are not met by themselves
        if reference(p, kind, f, g).realizable() != p.game.realizable():
            break
        if ctx.chance(0.5):
            break
        f = gm.gen_expr(ctx, allv, depth=1, rich=False)
        g = gm.gen_expr(ctx, allv, depth=1, rich=False)
    aux = ctx.pick(['aux', 'c', 'done_0'])
    texts = [gm.show(f, p.style)]
    if kind in ('response', 'until'):
        texts.append(gm.show(g, p.style))
    make = getattr(gr1, f'{kind}_to_gr1')
    if ctx.chance(0.05):
        # a name that is taken
        names = sorted(names_of(f) | (names_of(g) if len(texts) > 1
                                      else set()))
        ctx.probe('aux-taken')
        rejected(lambda: make(*texts, aux=ctx.pick(names)), 'aux-taken',
                 f'{kind} {texts}')
        return
    conv = make(*texts, aux=aux)
    what = f'{kind}({", ".join(texts)})'
    ctx.log(specgen.describe(p), what)
    if aux not in conv.sys_vars or conv.env_vars:
        raise Violation('declared', f'{what}: {conv.sys_vars}')
    conv.moore, conv.plus_one, conv.qinit = p.moore, p.plus_one, p.qinit
    base = specgen.make_spec(ctx, p)
    env = {v.name for v in p.ev}
    if set(conv.sys_vars) & env:
        both = None
        if ctx.chance(0.3):
            # the caller has to say whose these variables are
            try:
                both = base | conv
            except ValueError:
                pass
        if both is not None:
            ctx.probe('two-owners')
            for h in (synth.is_realizable, synth.synthesize):
                rejected(lambda: h(both, solver='omega'), 'two-owners',
                         f'{what}, with {sorted(env)} also of the system')
    conv.sys_vars = {aux: 'boolean'}
    before = (picture(base), picture(conv))
    spec = base | conv if ctx.chance(0.5) else conv | base
    if (picture(base), picture(conv)) != before:
        raise Violation('changed', 'operands, by their conjunction')
    got = bool(synth.is_realizable(spec, solver='omega'))
    ref = reference(p, kind, f, g)
    want = ref.realizable()
    plain = p.game.realizable()
    complete = kind != 'until' or (
        not p.moore and p.qinit in (r'\A \E', r'\E \E'))
    ctx.probe('realizable' if got else 'unrealizable')
    ctx.state(kind, got, want, plain, p.moore, p.plus_one, p.qinit)
    if plain and not want:
        ctx.probe('requirement-matters')
    ctx.nontrivial = plain
    ctx.sample = dict(specgen.describe(p), requirement=what, realizable=got)
    if kind != 'stability':
        if got and not want:
            raise Violation(
                'unsound', f'{what} with {specgen.describe(p)} is said to be '
                'realizable')
        if want and not got and complete:
            raise Violation(
                'incomplete', f'{what} with {specgen.describe(p)} is said '
                'to be unrealizable')
    mach = synth.synthesize(
        spec, solver='omega', rm_deadends=ctx.chance(0.5))
    if (mach is not None) != got:
        raise Violation(
            'verdict', f'{what}: is_realizable says {got}, but synthesize '
            f'returns {mach}')
    if mach is None:
        return
    play(ctx, p, mach, aux, kind, f, g, what)


def relaxed(ctx, p):
    """Without the formulas of the system that cannot be satisfied."""
    p = copy.copy(p)
    for k in ('sys_safety', 'sys_prog', 'sys_init'):
        setattr(p, k, list(getattr(p, k)))
    while not p.game.realizable():
        ks = [k for k in ('sys_safety', 'sys_prog', 'sys_init')
              if getattr(p, k)]
        if not ks:
            break
        fs = getattr(p, ctx.pick(ks))
        del fs[ctx.choose(len(fs))]
        p.game = specgen.make_game(p)
    p.never_blocked = p.game.env_never_blocked()
    return p


def names_of(e):
    if not isinstance(e, tuple):
        return set()
    if e[0] in ('bool', 'cmp'):
        return {e[1]}
    if e[0] == 'cmpvv':
        return {e[1], e[4]}
    return set().union(*map(names_of, e[1:]))


def reference(p, kind, f, g):
    """The game with a monitor of the requirement.

    `mem` depends on the states before the current one.
    """
    mem = gm.Var('mem', 'boolean', 'sys')
    m, n = ('bool', 'mem', False), ('bool', 'mem', True)
    safety = list(p.sys_safety)
    if kind == 'response':
        up = ('and', ('or', f, m), ('not', g))
        goal = ('not', m)
    elif kind == 'eventually':
        up = ('or', f, m)
        goal = m
    elif kind == 'until':
        up = ('or', g, m)
        goal = m
        safety.append(('or', g, m, f))
    else:
        return p.game
    safety.append(('iff', n, up))
    return gm.Game(
        p.ev, p.sv + [mem], p.env_init, p.sys_init + [('not', m)],
        p.env_safety, safety, p.env_prog, p.sys_prog + [goal],
        p.moore, p.plus_one, p.qinit)


def play(ctx, p, mach, aux, kind, f, g, what):
    """The closed loop, with a monitor of the requirement."""
    q = copy.copy(p)
    q.sv = p.sv + [gm.Var(aux, 'boolean', 'sys')]
    q.game = specgen.make_game(q)
    lp = Loop(ctx, q, mach)
    lp.explore()
    lp.walk(15)
    lp.adversary()
    if lp.truncated:
        return
    st = q.game.st

    def step(mem, s):
        """The monitor reads `s`."""
        a = gm.ev(f, st[s])
        if kind == 'response':
            return (mem or a) and not gm.ev(g, st[s])
        if kind == 'eventually':
            return mem or a
        if kind == 'until':
            b = gm.ev(g, st[s])
            if not (mem or a or b):
                raise Violation(
                    'until', f'{what}: neither holds at {st[s]}')
            return mem or b
        return a
    succ = dict()
    todo = list()
    for *_, node, s in lp.inits:
        todo.append((node, s, step(False, s)))
    while todo:
        u = todo.pop()
        if u in succ:
            continue
        node, s, mem = u
        succ[u] = [(n, r, step(mem, r)) for n, r in lp.succ[(node, s)]]
        todo.extend(succ[u])
        ctx.tick()

    def bad(u):
        return u[2] if kind == 'response' else not u[2]
    # stability: a cycle may not contain a bad state; otherwise: it may not
    # consist of bad states
    nodes = [u for u in succ if kind == 'stability' or bad(u)]
    inside = set(nodes)

    def nxt(u):
        return [v for v in succ[u] if v in inside]
    for comp in gm.sccs(nodes, nxt):
        if len(comp) == 1 and comp[0] not in nxt(comp[0]):
            continue
        if not all(any(u[1] not in h for u in comp)
                   for h in q.game.holds):
            continue
        if any(map(bad, comp)):
            raise Violation(
                kind, f'{what} is not satisfied, by a behaviour that stays '
                f'in {[st[u[1]] for u in comp]}, where the assumptions '
                f'can hold; {specgen.describe(p)}')


# --------------------------------------------------------------- histories
PARTS = ['env_init', 'sys_init', 'env_safety', 'sys_safety', 'env_prog',
         'sys_prog']


def picture(s):
    return (
        copy.deepcopy(s.env_vars), copy.deepcopy(s.sys_vars),
        {k: list(getattr(s, k)) for k in PARTS},
        s.moore, s.plus_one, s.qinit)


def rejected(f, kind, what):
    try:
        r = f()
    except Exception as e:
        if isinstance(e, (NameError, AttributeError)):
            raise
        return
    raise Violation(kind, f'{what}: accepted, {r}')


def options(s, p):
    s.moore, s.plus_one, s.qinit = p.moore, p.plus_one, p.qinit


def same(p, s, what):
    """`s` has exactly the parts of `p`."""
    for d in (s.env_vars, s.sys_vars):
        if any(isinstance(x, list) and 'zz' in x for x in d.values()):
            raise Violation(
                'shared-domain', f'{what}: the list of values of a variable '
                f'is shared with an operand: {d}')
    if s.env_vars != specgen.doms(p.ev) or s.sys_vars != specgen.doms(p.sv):
        raise Violation(
            'variables', f'{what}: {s.env_vars} {s.sys_vars}, not '
            f'{specgen.describe(p)}')
    if (s.moore, s.plus_one, s.qinit) != (p.moore, p.plus_one, p.qinit):
        raise Violation('options', f'{what}: {s.moore} {s.plus_one}')
    for k in PARTS:
        want = sorted(gm.show(f, p.style) for f in getattr(p, k))
        if sorted(getattr(s, k)) != want:
            raise Violation(
                'formulas', f'{what}: {k} is {getattr(s, k)}, not {want}')


def verdict(ctx, p, s, what):
    from tulip import synth
    want = p.game.realizable()
    got = bool(synth.is_realizable(s, solver='omega'))
    ctx.tick()
    ctx.state(what.split()[0], got, p.moore, p.plus_one, p.qinit)
    ctx.probe('realizable' if want else 'unrealizable')
    if got != want:
        raise Violation(
            'verdict', f'{what}: realizable is {got}, not {want}: '
            f'{specgen.describe(p)} became {s.pretty()}')


def assembly(ctx):
    from tulip import spec as _spec
    p = specgen.gen_problem(ctx, 'omega', max_states=12)
    if not p.never_blocked:
        raise Discard()
    ctx.log(specgen.describe(p))
    n = ctx.integer(1, 4)
    parts = [{k: list() for k in PARTS} for _ in range(n)]
    for k in PARTS:
        for f in getattr(p, k):
            ctx.pick(parts)[k].append(gm.show(f, p.style))
    specs = list()
    where = [ctx.subset(p.ev + p.sv, 0.4) for _ in range(n)]
    for v in p.ev + p.sv:
        if not any(v in w for w in where):
            ctx.pick(where).append(v)
    for w, d in zip(where, parts):
        e = {v.name: v.dom for v in w if v.owner == 'env'}
        s = {v.name: v.dom for v in w if v.owner == 'sys'}
        if ctx.chance(0.4):
            ctx.probe('declared')
            t = _spec.GRSpec(**d)
            declare(ctx, t, w)
        else:
            t = _spec.GRSpec(
                e, s, **{k: (x[0] if len(x) == 1 and ctx.chance(0.3) else
                             ctx.pick([list, tuple])(x))
                         for k, x in d.items()})
        options(t, p)
        specs.append(t)
    if ctx.chance(0.15):
        mismatch(ctx, specs)
    order = ctx.shuffle(specs)
    before = [picture(s) for s in order]
    total = order[0]
    for s in order[1:]:
        ctx.probe('merged')
        total = total | s
    if [picture(s) for s in order] != before:
        raise Violation('changed', 'operands, by their conjunction')
    same(p, total, 'conjunction')
    n_ops = n
    for _ in range(ctx.integer(0, 3)):
        n_ops += 1
        op = ctx.choose(4)
        if op == 0:
            ctx.probe('copied')
            other = total.copy()
            if ctx.chance(0.5):
                total, other = other, total
            spoil(ctx, other)
        elif op == 1 and len(order) > 1:
            ctx.probe('edited-operand')
            spoil(ctx, ctx.pick([s for s in order if s is not total]))
        elif op == 2:
            # formulas that are true
            a = _spec.GRSpec(
                **{ctx.pick(['sys_safety', 'env_prog', 'sys_prog']):
                   [ctx.pick(['True', 'TRUE'])]})
            options(a, p)
            verdict(ctx, p, total | a, 'extended')
        elif op == 3:
            syntax(ctx, p, total)
        same(p, total, 'history')
    verdict(ctx, p, total, 'conjunction')
    if ctx.chance(0.3):
        # again, with the caches that are now filled
        verdict(ctx, p, total.copy(), 'copied')
    if ctx.chance(0.5):
        again(ctx, p, total)
        n_ops += 1
    ctx.nontrivial = n_ops >= 3
    ctx.sample = dict(specgen.describe(p), specs=n, operations=n_ops)


def again(ctx, p, s):
    """A specification that is edited after it has been used."""
    from tulip import synth
    strs = [v for v in p.ev + p.sv if v.kind == 'str']
    if strs and ctx.chance(0.6):
        ctx.probe('reordered-domain')
        for d in (s.env_vars, s.sys_vars):
            for dom in d.values():
                if isinstance(dom, list):
                    dom.reverse()
        mach = synth.synthesize(s, solver='omega')
        try:
            if (mach is not None) != p.game.realizable():
                raise Violation('verdict', f'{mach}')
            if mach is not None:
                lp = Loop(ctx, p, mach)
                lp.explore()
                lp.walk(15)
                lp.adversary()
        except Violation as e:
            raise Violation(
                'reordered-domain', 'the controller is for the values '
                f'before they were reordered: {picture(s)}, {e}')
        return
    q = copy.copy(p)
    for k in ('sys_safety', 'env_prog', 'sys_prog'):
        fs = list(getattr(q, k))
        if fs and ctx.chance(0.5):
            i = ctx.choose(len(fs))
            getattr(s, k).remove(gm.show(fs[i], p.style))
            del fs[i]
        if ctx.chance(0.4) and (q.ev or k != 'env_prog'):
            f = gm.gen_expr(
                ctx, p.ev + p.sv,
                frozenset(v.name for v in p.sv) if k == 'sys_safety'
                else frozenset(), depth=1, rich=False)
            fs.append(f)
            getattr(s, k).append(gm.show(f, p.style))
        setattr(q, k, fs)
    q.game = specgen.make_game(q)
    same(q, s, 'edited')
    verdict(ctx, q, s, 'edited')


def declare(ctx, t, vs):
    for v in vs:
        env = v.owner == 'env'
        if v.dom == 'boolean':
            t.declare(v.name, env=env)
        else:
            t.declare(env=env, **{v.name: v.dom})
    if vs and ctx.chance(0.3):
        ctx.probe('bad-declaration')
        v = ctx.pick(vs)
        env = v.owner == 'env'
        before = picture(t)
        if ctx.chance(0.5):
            rejected(lambda: t.declare(v.name, env=not env), 'declaration',
                     f'{v.name} with two owners')
        elif v.dom != 'boolean':
            rejected(lambda: t.declare(v.name, env=env), 'declaration',
                     f'{v.name} with two domains')
        if picture(t) != before:
            raise Violation('changed', 'by a declaration that is rejected')


def mismatch(ctx, specs):
    """Conjuncts that do not agree."""
    s = ctx.pick(specs)
    t = s.copy()
    vs = [k for k, d in s.sys_vars.items()]
    ctx.probe('mismatch')
    if vs and ctx.chance(0.6):
        t.sys_vars[ctx.pick(vs)] = (0, 77)
    elif s.env_vars and ctx.chance(0.6):
        t.env_vars[ctx.pick(list(s.env_vars))] = (0, 77)
    else:
        k = ctx.choose(3)
        if k == 0:
            t.moore = not t.moore
        elif k == 1:
            t.plus_one = not t.plus_one
        else:
            t.qinit = r'\E \A' if t.qinit != r'\E \A' else r'\A \E'
    rejected(lambda: s | t, 'mismatch', f'{picture(s)} and {picture(t)}')
    rejected(lambda: s | picture(t)[2], 'mismatch', 'a `dict`')


def spoil(ctx, s):
    """Edit a specification that the result does not depend on."""
    k = ctx.choose(3)
    if k == 0:
        s.sys_safety.append('False')
        s.env_prog.insert(0, 'False')
    elif k == 1:
        for d in (s.env_vars, s.sys_vars):
            for v, dom in list(d.items()):
                if isinstance(dom, list):
                    dom.append('zz')
                else:
                    del d[v]
    else:
        s.moore = not s.moore
        s.qinit = r'\E \E'
        del s.sys_prog[:]


def syntax(ctx, p, s):
    """The rules of GR(1) are checked."""
    before = picture(s)
    s.check_syntax()
    if picture(s) != before:
        raise Violation('changed', 'by `check_syntax`')
    b = [v for v in p.sv if v.dom == 'boolean']
    if not b:
        return
    v = ctx.pick(b).name
    k = ctx.pick(['env_init', 'sys_init', 'env_prog', 'env_safety'])
    if ctx.chance(0.1):
        k = 'sys_prog'
    t = s.copy()
    getattr(t, k).append(ctx.pick([f"({v}')", f'X({v})', f'!(X {v})']))
    ctx.probe('rejected-syntax')
    rejected(t.check_syntax, 'syntax', f'{k} with {getattr(t, k)}')


# ------------------------------------------------------------ substitution
def has_str(p, *more):
    strs = {v.name for v in p.ev + p.sv if v.kind == 'str'}
    return any(strs & names_of(f) for f in specgen.formulas(p) + list(more))


def prime(e):
    if not isinstance(e, tuple):
        return e
    if e[0] == 'bool':
        return ('bool', e[1], True)
    if e[0] == 'cmp':
        return ('cmp', e[1], True) + e[3:]
    if e[0] == 'cmpvv':
        return ('cmpvv', e[1], True, e[3], e[4], True)
    return (e[0],) + tuple(map(prime, e[1:]))


def replaced(e, defs):
    if not isinstance(e, tuple):
        return e
    if e[0] == 'bool' and e[1] in defs:
        return prime(defs[e[1]]) if e[2] else defs[e[1]]
    if e[0] in ('bool', 'cmp', 'cmpvv', 'const'):
        return e
    return (e[0],) + tuple(replaced(x, defs) for x in e[1:])


def primed_names(e):
    if not isinstance(e, tuple):
        return set()
    if e[0] == 'bool':
        return {e[1]} if e[2] else set()
    return set().union(*map(primed_names, e[1:]))


def substitution(ctx):
    from tulip.spec import form
    p = specgen.gen_problem(ctx, 'omega', max_states=12)
    if not p.never_blocked:
        raise Discard()
    allv = p.ev + p.sv
    defs = {f'd{i}': gm.gen_expr(ctx, allv, depth=1, rich=False)
            for i in range(ctx.integer(1, 2))}
    dv = [gm.Var(k, 'boolean', 'sys') for k in defs]
    raw = {k: list(getattr(p, k)) for k in PARTS}
    full = frozenset(v.name for v in p.sv + dv)
    for _ in range(ctx.integer(1, 3)):
        k = ctx.pick(['sys_safety', 'sys_prog', 'env_prog'])
        if k == 'env_prog' and not p.ev:
            continue
        f = gm.gen_expr(
            ctx, allv + dv + dv, full if k == 'sys_safety' else frozenset(),
            depth=2, rich=False)
        if primed_names(f) & set(defs):
            ctx.probe('primed-substitution')
        raw[k].append(f)
    q = copy.copy(p)
    for k in PARTS:
        setattr(q, k, [replaced(f, defs) for f in raw[k]])
    q.game = specgen.make_game(q)
    q.never_blocked = q.game.env_never_blocked()
    strings = has_str(q)
    if strings and ctx.chance(0.85):
        raise Discard()
    ctx.log(specgen.describe(q), {k: gm.show(f) for k, f in defs.items()})
    from tulip import spec as _spec
    doms = specgen.doms(p.sv)
    doms.update({k: 'boolean' for k in defs})
    s = _spec.GRSpec(
        specgen.doms(p.ev), doms,
        **{k: [gm.show(f, p.style) for f in fs] for k, fs in raw.items()})
    options(s, p)
    ctx.tick()
    form.replace_dependent_vars(
        s, {k: gm.show(f, p.style) for k, f in defs.items()})
    ctx.probe('substituted')
    for k in defs:
        del s.sys_vars[k]
    ctx.nontrivial = True
    ctx.sample = specgen.describe(q)
    quoted(ctx, q, s, strings, 'string-substitution', 'substituted')


def quoted(ctx, p, s, strings, kind, what):
    """The verdict; symbolic values have to stay quoted."""
    if not strings:
        verdict(ctx, p, s, what)
        return
    ctx.probe(kind)
    try:
        verdict(ctx, p, s, what)
    except ValueError as e:
        if 'Undefined variable' not in str(e):
            raise
        raise Violation(
            kind, f'values of variables lost their quotes: {picture(s)[2]}')


# --------------------------------------------------------------- splitting
def splitting(ctx):
    from tulip.spec import gr1_fragment as gr1
    p = specgen.gen_problem(ctx, 'omega', max_states=12)
    if not p.never_blocked:
        raise Discard()
    strings = has_str(p)
    if strings and ctx.chance(0.85):
        raise Discard()
    sides = dict()
    for side in ('env', 'sys'):
        fs = list()
        for k, op in (('init', ''), ('safety', '[]'), ('prog', '[]<>')):
            for f in getattr(p, f'{side}_{k}'):
                t = f'({gm.show(f, p.style)})'
                if op == '[]<>' and ctx.chance(0.3):
                    op = ctx.pick(['[] <> ', 'G F ', '[](<>'])
                t = op + t
                if op.count('(') > op.count(')'):
                    t += ')'
                fs.append(t)
        if not fs:
            raise Discard()
        sides[side] = conj(ctx, ctx.shuffle(fs))
    text = f'({sides["env"]}) -> ({sides["sys"]})'
    ctx.log(text)
    s = gr1.str_to_grspec(text)
    ctx.probe('split')
    s.env_vars, s.sys_vars = specgen.doms(p.ev), specgen.doms(p.sv)
    options(s, p)
    ctx.tick()
    ctx.nontrivial = True
    ctx.sample = text
    for k in PARTS:
        if not any(getattr(s, k)) and getattr(p, k):
            raise Violation('lost', f'{k} of {text}: {picture(s)[2]}')
    hollow = [k for k in PARTS if '' in getattr(s, k)]
    for k in hollow:
        setattr(s, k, [x for x in getattr(s, k) if x])
    quoted(ctx, p, s, strings, 'string-split', 'split')
    if hollow:
        ctx.probe('empty-part')
        raise Violation(
            'empty-part', f'{hollow} of str_to_grspec("{text}") contain an '
            'empty formula')


def conj(ctx, fs):
    """A conjunction, in some nesting."""
    if len(fs) == 1:
        return fs[0]
    k = ctx.integer(1, len(fs) - 1)
    a, b = conj(ctx, fs[:k]), conj(ctx, fs[k:])
    if ctx.chance(0.5):
        a = f'({a})'
    if ctx.chance(0.5):
        b = f'({b})'
    return f'{a} {ctx.pick(["&&", "&"])} {b}'


# ----------------------------------------------------------------- storing
def storing(ctx):
    """Specifications as files."""
    from tulip import spec as _spec
    from tulip.spec import gr1_fragment as gr1
    p = specgen.gen_problem(ctx, 'omega', max_states=12)
    if not p.never_blocked:
        raise Discard()
    s = specgen.make_spec(ctx, p)
    whole = ctx.chance(0.5)
    if whole:
        ltl = s
    else:
        # a formula of LTL
        f, g = (gm.show(gm.gen_expr(ctx, p.ev + p.sv, depth=1, rich=False),
                        p.style) for _ in range(2))
        ltl = _spec.LTL(
            ctx.pick([f'[](({f}) -> <>({g}))', f'({f}) U ({g})',
                      f'<>[]({f})\n && []<>({g})']),
            specgen.doms(p.ev), specgen.doms(p.sv))
    text = ltl.dumps(timestamp=ctx.chance(0.3))
    formula = ltl.formula
    ctx.log(ltl.dumps())
    ctx.tick()
    if ctx.chance(0.4):
        text = commented(ctx, text)
    disk = Disk(ctx, max(1, len(text) - 5))
    try:
        def write(path):
            with open(path, 'w') as fd:
                fd.write(text)
        if disk.write(write) is None:
            ctx.probe('disk-error')
            return
        if ctx.chance(0.1):
            try:
                r = _spec.LTL.load(disk.path)
            except ValueError as e:
                raise Violation('load', f'by name: {e}')
        else:
            with open(disk.path) as fd:
                r = _spec.LTL.load(fd)
        if ctx.chance(0.15):
            ctx.probe('rejected-file')
            bad = ctx.pick([
                text.replace('0  #', '7  #', 1),
                text.replace('0  #', 'v  #', 1),
                text.replace('%%', '%', 1), text + '\n%%\n',
                text.replace('PUT:\n', 'PUT:\nq : real;\n', 1)])
            rejected(lambda: _spec.LTL.loads(bad), 'malformed', bad)
    finally:
        disk.close()
    ctx.probe('stored')
    ctx.nontrivial = True
    ctx.sample = ltl.dumps()
    if r.formula.split() != formula.split():
        raise Violation('formula', f'{r.formula} from {text}')
    for got, vs in ((r.input_variables, p.ev), (r.output_variables, p.sv)):
        want = {v.name: set(v.dom) if isinstance(v.dom, list) else v.dom
                for v in vs}
        if got == want:
            continue
        trimmed = {
            k: {x.strip() if isinstance(x, str) else x for x in d}
            if isinstance(d, set) else d for k, d in got.items()}
        if trimmed == want:
            raise Violation(
                'elements', f'values with spaces: {got}, from {text}')
        raise Violation('variables', f'{got} from {text}')
    if not whole or has_str(p) or not all(
            any(getattr(p, f'{side}_{k}') for k in ('init', 'safety', 'prog'))
            for side in ('env', 'sys')):
        return
    # the formula that was read
    t = gr1.str_to_grspec(r.formula)
    for k in PARTS:
        setattr(t, k, [x for x in getattr(t, k) if x])
    t.env_vars, t.sys_vars = specgen.doms(p.ev), specgen.doms(p.sv)
    options(t, p)
    verdict(ctx, p, t, 'stored')


def commented(ctx, text):
    """The same file with comments and blank lines."""
    ctx.probe('commented')
    lines = list()
    for line in text.split('\n'):
        if ctx.chance(0.3):
            lines.append(ctx.pick(['', '  ', '# [] : ;', '#']))
        if line.endswith(';') and ctx.chance(0.3):
            line += '  # a variable; of : the {plant}'
        lines.append(line)
    return '\n'.join(lines)
