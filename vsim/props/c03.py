"""C03: synthesis against transition systems plays those very systems."""
import itertools
import re

from .. import gr1model as gm
from ..core import Discard, Violation
from ..loop import Loop

RUNS = {'quick': 3500, 'thorough': 60000}
RULE = ('A run draws transition systems for the system and/or environment '
        '(labels, actions, several action types, dead-ends), a formula over '
        'their states, and options; the oracle is a game played directly on '
        'the transition systems; non-trivial: realizable and at least 3 '
        'loop states.')
TIME_UNIT = 'reactions'
STATE_MEASURE = '(controller state, joint valuation) visited in walks'
ASSUMPTIONS = [
    'transition systems have at most 4 states, games at most 130 joint '
    'valuations',
    'environment transition systems give the environment a choice for '
    'every system action']
PROBES = ['realizable', 'unrealizable', 'sys-ts', 'env-ts', 'many',
          'deadend', 'partly-labelled', 'sparse-integers', 'mutex-actions',
          'previous', 'env-deadend', 'concurrent-actions',
          'other-variable-name', 'own-options', 'substituted']


def chosen(d, kind, value):
    """Is `value` the action of type `kind` in valuation `d`?

    Actions that may be concurrent are Boolean variables.
    """
    return d[kind] == value if kind in d else bool(d[value])


class TS:
    """The reference transition system."""

    def __init__(self, owner, var, states, init, trans, aps, label, acts,
                 must, ignore):
        self.owner = owner
        self.var = var
        self.states = states
        self.init = init
        self.trans = trans  # [(u, v, {act: value}, previous keys)]
        self.aps = aps
        self.label = label
        self.acts = acts  # {type: [values]}
        self.must = must  # {type: 'xor' | 'mutex'}
        self.ignore = ignore


def gen_ts(ctx, owner, var, prefix, acts, must, allow_ignore=True):
    n = ctx.integer(2, 4 if owner == 'sys' else 3)
    kind = ctx.choose(3)
    if kind == 0:
        states = list(range(n))
    elif kind == 1:
        states = [f'{prefix}{i}' for i in range(n)]
    else:
        off = ctx.integer(1, 3)
        step = 1
        if owner == 'sys' and ctx.chance(0.6):
            step = 2
            ctx.probe('sparse-integers')
        states = [off + step * i for i in range(n)]
    init = [s for s in states if ctx.chance(0.4)] or [ctx.pick(states)]
    aps = [f'{prefix}_p', f'{prefix}_q'][:ctx.choose(3)]
    label = {s: frozenset(ctx.subset(aps)) for s in states}
    trans = list()
    keys = set()

    def add(u, v, lab, prev=()):
        k = (u, v, tuple(sorted(lab.items())))
        if k in keys:
            return
        # an unlabelled edge excludes labelled ones between the same states
        if any(a == u and b == v and (not c) != (not lab)
               for a, b, c in [x[:3] for x in trans]):
            return
        keys.add(k)
        trans.append((u, v, lab, tuple(prev)))
    mine = [t for t in acts]
    for u in states:
        if owner == 'sys':
            if ctx.chance(0.06):
                ctx.probe('deadend')
                continue
            for _ in range(ctx.integer(1, 3)):
                v = ctx.pick(states)
                lab = {t: ctx.pick(acts[t]) for t in mine
                       if ctx.chance(0.6)}
                prev = [t for t in lab
                        if 'sys' in t and ctx.chance(0.1)]
                if prev:
                    ctx.probe('previous')
                add(u, v, lab, prev)
        else:
            if ctx.chance(0.06):
                ctx.probe('env-deadend')
                continue
            # every system action leaves the environment a move
            st = [t for t in mine if 'sys' in t]
            et = [t for t in mine if 'env' in t]
            if not st or ctx.chance(0.5):
                for _ in range(ctx.integer(1, 3)):
                    add(u, ctx.pick(states),
                        {t: ctx.pick(acts[t]) for t in et
                         if ctx.chance(0.6)})
            else:
                t0 = ctx.pick(st)
                for a in acts[t0]:
                    for _ in range(ctx.integer(1, 2)):
                        lab = {t0: a}
                        lab.update({t: ctx.pick(acts[t]) for t in et
                                    if ctx.chance(0.6)})
                        add(u, ctx.pick(states), lab)
    ignore = allow_ignore and ctx.chance(0.2)
    return TS(owner, var, states, init, trans, aps, label, acts, must,
              ignore)


def make_fts(ctx, t):
    from tulip import transys
    env = [dict(name=k, values=transys_set(v), setter=True)
           for k, v in t.acts.items() if 'env' in k]
    sy = [dict(name=k, values=transys_set(v), setter=True)
          for k, v in t.acts.items() if 'sys' in k]
    default = ({k for k in t.acts} <= {'env_actions', 'sys_actions'})
    if default:
        f = transys.FTS()
        if 'env_actions' in t.acts:
            f.env_actions.add_from(t.acts['env_actions'])
        if 'sys_actions' in t.acts:
            f.sys_actions.add_from(t.acts['sys_actions'])
    else:
        f = transys.FTS(env_actions=env, sys_actions=sy)
    for k, m in t.must.items():
        if 'env' in k:
            f.env_actions_must = m
        else:
            f.sys_actions_must = m
    f.owner = t.owner
    f.states.add_from(ctx.shuffle(t.states))
    f.states.initial.add_from(t.init)
    f.atomic_propositions.add_from(t.aps)
    for s in t.states:
        f.states[s]['ap'] = set(t.label[s])
    for u, v, lab, prev in ctx.shuffle(t.trans):
        if prev:
            # not a typed label: as the documentation of 'previous' asks
            f.transitions.add(u, v, **lab)
            for k, d in f[u][v].items():
                if all(d.get(a) == b for a, b in lab.items()) and {
                        a for a in d if a in t.acts} == set(lab):
                    d['previous'] = set(prev)
        else:
            f.transitions.add(u, v, **lab)
    return f


def transys_set(v):
    from tulip.transys.mathset import MathSet
    return MathSet(v)


class TSGame(gm.Game):
    """The game whose board is the transition systems themselves."""

    def __init__(self, tss, acts, must, ev, sv, parts, moore, plus_one,
                 qinit, env_acts_owner, sys_acts_present, max_n):
        self.ev, self.sv = ev, sv
        self.moore, self.plus_one, self.qinit = moore, plus_one, qinit
        self.env_prog = parts['env_prog'] or [gm.TRUE]
        self.sys_prog = parts['sys_prog'] or [gm.TRUE]
        self.parts = parts
        self.tss = tss
        self.E = self._universe(ev, [t for t in tss if t.owner == 'env'])
        self.S = self._universe(sv, [t for t in tss if t.owner == 'sys'])
        self.nE, self.nS = len(self.E), len(self.S)
        if self.nE * self.nS > max_n:
            raise Discard()
        self._build()

    @staticmethod
    def _universe(vs, tss):
        out = list()
        for d in gm.Game._vals(vs):
            ok = all(
                d[t.var] in t.label and all(
                    d[p] == (p in t.label[d[t.var]]) for p in t.aps)
                for t in tss)
            if ok:
                out.append(d)
        return out

    def _build(self):
        parts = self.parts
        self.N = self.nE * self.nS
        self.st = [self.state(e, s)
                   for e in range(self.nE) for s in range(self.nS)]
        q_ = self.qinit

        def ts_init(d, owners):
            return all(d[t.var] in t.init for t in self.tss
                       if t.owner in owners and not t.ignore)

        def formulas(k, d, n=None):
            return all(gm.ev(f, d, n) for f in parts[k])
        both = q_ == r'\A \A'
        self.Einit = [
            formulas('env_init', d) and
            ts_init(d, ('env', 'sys') if both else ('env',))
            for d in self.st]
        self.Sinit = [
            formulas('sys_init', d) and
            (both or ts_init(d, ('sys',))) for d in self.st]
        self.Estep, self.Sstep = list(), list()
        for q in range(self.N):
            d = self.st[q]
            self.Estep.append([
                formulas('env_safety', d, n) and self._env_ts(d, n)
                for n in self.E])
            self.Sstep.append([
                formulas('sys_safety', d, n) and self._sys_ts(d, n)
                for n in self.st])
        self.goals = [{q for q in range(self.N) if gm.ev(g, self.st[q])}
                      for g in self.sys_prog]
        self.holds = [{q for q in range(self.N) if not gm.ev(g, self.st[q])}
                      for g in self.env_prog]

    def _env_ts(self, d, n):
        for t in self.tss:
            out = [x for x in t.trans if x[0] == d[t.var]]
            if t.owner == 'env':
                ok = any(
                    v == n[t.var] and all(
                        chosen(n if 'env' in k else d, k, a)
                        for k, a in lab.items())
                    for _, v, lab, _ in out)
                if not ok:
                    return False
            else:
                # the environment may only pick actions that the system
                # has a transition for
                if not out:
                    continue
                combs = [{k: a for k, a in lab.items() if 'env' in k}
                         for _, _, lab, _ in out]
                if any(not c for c in combs):
                    continue
                if not any(all(chosen(n, k, a) for k, a in c.items())
                           for c in combs):
                    return False
        return True

    def _sys_ts(self, d, n):
        for t in self.tss:
            if t.owner != 'sys':
                continue
            ok = False
            for u, v, lab, prev in t.trans:
                if u == d[t.var] and v == n[t.var] and all(
                        chosen(d if k in prev else n, k, a)
                        for k, a in lab.items()):
                    ok = True
                    break
            if not ok:
                return False
        return True


class P:
    pass


def substituted(ctx, tss, fts, texts):
    """Write states where the formulas mention propositions."""
    from tulip import synth
    table = dict()
    for t, f in zip(tss, fts):
        got = synth.map_ap_to_states(f)
        want = {p: {s for s in t.states if p in t.label[s]}
                for p in t.aps}
        if got != want:
            raise Violation(
                'proposition-states', f'map_ap_to_states: {got}, but the '
                f'states with each proposition are {want}')
        sub = synth.build_dependent_var_table(f, t.var)
        if set(sub) != set(t.aps):
            raise Violation(
                'proposition-states', f'build_dependent_var_table has '
                f'{sorted(sub)}, not {sorted(t.aps)}')
        table.update(sub)
    if not table:
        return texts
    ctx.probe('substituted')
    names = re.compile(r'\b({})\b'.format('|'.join(table)))
    return {
        k: [names.sub(lambda m: table[m.group(1)], x) for x in v]
        for k, v in texts.items()}


def run(ctx):
    from tulip import synth
    from tulip import spec as _spec
    ctx.component('omega solver, tulip.synth, tulip.spec, tulip.transys',
                  'real')
    ctx.component('environment', 'simulated')
    many = ctx.chance(0.3)
    moore, plus_one = ctx.chance(0.5), ctx.chance(0.5)
    acts, must = dict(), dict()
    use_sys = many or ctx.chance(0.75)
    names = ('loc', 'eloc')
    if not many and ctx.chance(0.25):
        ctx.probe('other-variable-name')
        names = ('room', 'other')
    use_env = (many and ctx.chance(0.5)) or not use_sys or ctx.chance(0.35)
    two = ctx.chance(0.15)
    if ctx.chance(0.7):
        acts['env_actions' if not two else 'env_alpha'] = ['ea', 'eb']
        if two and ctx.chance(0.4):
            acts['env_beta'] = ['ga', 'gb']
    if ctx.chance(0.6):
        acts['sys_actions' if not two else 'sys_alpha'] = ['sa', 'sb']
    for k in acts:
        must[k] = 'xor'
    em = 'mutex' if ctx.chance(0.2) else 'xor'
    sm = 'mutex' if ctx.chance(0.2) and not use_env else 'xor'
    if ctx.chance(0.1):
        em = None
    if ctx.chance(0.1) and not use_env:
        sm = None
    for k in acts:
        must[k] = em if 'env' in k else sm
    if None in must.values():
        ctx.probe('concurrent-actions')
    if 'mutex' in must.values():
        ctx.probe('mutex-actions')
    tss = list()
    if use_sys:
        ctx.probe('sys-ts')
        tss.append(gen_ts(ctx, 'sys', names[0], 's', acts, must))
        if many and ctx.chance(0.5):
            ctx.probe('many')
            tss.append(gen_ts(ctx, 'sys', 'door', 'd', acts, must))
    if use_env:
        ctx.probe('env-ts')
        t = gen_ts(ctx, 'env', names[1], 'e', acts, must)
        if plus_one:
            t.aps = []
            t.label = {s: frozenset() for s in t.states}
        tss.append(t)
    for t in tss:
        part = {bool([k for k in x[2] if 'env' in k]) for x in t.trans}
        if t.owner == 'sys' and len(part) > 1:
            ctx.probe('partly-labelled')
    # some of the initial conditions need an environment part
    qs = [r'\A \E', r'\A \A', r'\E \A']
    if not use_env:
        qs.append(r'\E \E')
    qinit = ctx.pick(qs)
    ev, sv = list(), list()
    for k, vals in acts.items():
        if must[k] is None:
            for a in vals:
                (ev if 'env' in k else sv).append(gm.Var(
                    a, 'boolean', 'env' if 'env' in k else 'sys'))
            continue
        dom = list(vals) + ([k + 'none'] if must[k] == 'mutex' else [])
        (ev if 'env' in k else sv).append(
            gm.Var(k, dom, 'env' if 'env' in k else 'sys'))
    for t in tss:
        dst = ev if t.owner == 'env' else sv
        if isinstance(t.states[0], str):
            dom = list(t.states)
        else:
            dom = (min(t.states), max(t.states))
        dst.append(gm.Var(t.var, dom, t.owner))
        for a in t.aps:
            dst.append(gm.Var(a, 'boolean', t.owner))
    xe, xs = list(), list()
    if ctx.chance(0.4):
        xe.append(gm.Var('x', 'boolean', 'env'))
    if ctx.chance(0.4):
        xs.append(gm.Var('y', 'boolean', 'sys'))
    ev += xe
    sv += xs
    if not sv:
        xs.append(gm.Var('y', 'boolean', 'sys'))
        sv += xs
    allv = ev + sv
    en = frozenset(v.name for v in ev)
    sn = frozenset(v.name for v in sv)
    kw = dict(rich=False, vv=False)

    def many_f(lo, hi, f):
        return [f() for _ in range(ctx.integer(lo, hi))]
    parts = dict(
        env_init=[], sys_init=[],
        env_safety=many_f(0, 1, lambda: gm.gen_expr(
            ctx, xe, en, depth=1, **kw)) if xe else [],
        sys_safety=many_f(0, 1, lambda: gm.gen_expr(
            ctx, allv, en | sn, depth=1, **kw)),
        env_prog=many_f(0, 1, lambda: gm.gen_expr(
            ctx, ev, depth=1, **kw)) if ev else [],
        sys_prog=many_f(0, 2, lambda: gm.gen_expr(
            ctx, allv, depth=1, **kw)))
    g = TSGame(tss, acts, must, ev, sv, parts, moore, plus_one, qinit,
               None, None, 130)
    if not any(g.Einit):
        raise Discard()
    never_blocked = g.env_never_blocked()
    if plus_one and not never_blocked:
        raise Discard()
    want = g.realizable()
    style = ctx.choose(4)
    fts = [make_fts(ctx, t) for t in tss]
    texts = {k: [gm.show(f, style) for f in v] for k, v in parts.items()}
    if ctx.chance(0.25) and not style & 1:
        texts = substituted(ctx, tss, fts, texts)
    spec = _spec.GRSpec(
        {v.name: v.dom for v in xe}, {v.name: v.dom for v in xs}, **texts)
    spec.moore, spec.plus_one, spec.qinit = moore, plus_one, qinit
    desc = dict(
        moore=moore, plus_one=plus_one, qinit=qinit, acts=acts, must=must,
        ts=[dict(owner=t.owner, states=t.states, init=t.init,
                 trans=t.trans, ignore=t.ignore,
                 label={str(k): sorted(v) for k, v in t.label.items()})
            for t in tss],
        spec={k: [gm.show(f) for f in v] for k, v in parts.items()},
        many=many)
    ctx.log(desc, want)
    ctx.sample = desc
    rm = never_blocked and ctx.chance(0.5)
    if many:
        d = {t.var: f for t, f in zip(tss, fts)}
        kw2 = dict()
        ign = {t.var for t in tss if t.ignore}
        if ign or ctx.chance(0.5):
            kw2['ignore_init'] = ign
        if not never_blocked:
            raise Discard()
        mach = synth.synthesize_many(spec, d, **kw2)
    else:
        kw2 = dict()
        for t, f in zip(tss, fts):
            if t.var not in ('loc', 'eloc') or ctx.chance(0.1):
                f.state_varname = t.var
            if ctx.chance(0.1):
                ctx.probe('own-options')
                f.moore, f.plus_one, f.qinit = moore, plus_one, qinit
            if t.owner == 'sys':
                kw2.update(sys=f, ignore_sys_init=t.ignore)
            else:
                kw2.update(env=f, ignore_env_init=t.ignore)
        if ctx.chance(0.3):
            got = bool(synth.is_realizable(spec, **kw2))
            if got != want:
                raise Violation(
                    'wrong-verdict', f'is_realizable says {got}, the game '
                    f'on the transition systems says {want}')
        mach = synth.synthesize(spec, rm_deadends=rm, **kw2)
    got = mach is not None
    if got != want:
        raise Violation(
            'wrong-verdict', f'synthesis says {got}, the game on the '
            f'transition systems says {want}: {desc}')
    ctx.probe('realizable' if want else 'unrealizable')
    if not want:
        return
    p = P()
    p.game, p.ev, p.sv = g, ev, sv
    p.moore, p.plus_one, p.qinit = moore, plus_one, qinit
    lp = Loop(ctx, p, mach)
    lp.explore()
    lp.walk(20)
    lp.adversary()
    ctx.nontrivial = len(lp.succ) >= 3
    ctx.log('nodes', len(mach), 'edges', lp.n_edges)
