"""C14: compositions run as their components; policies achieve their values."""
import copy
import itertools
import json
import os
import pickle

from ..core import Discard, Violation

RUNS = {'quick': 8000, 'thorough': 40000}
BATCHES = {'quick': 32, 'thorough': 400}
RULE = ('A run draws components (Kripke structures, weighted ones, Markov '
        'chains and decision processes), composes them, runs the composition '
        'against its components, and, for probabilistic ones, compares '
        'model checking and the policy with a reference; non-trivial: a '
        'composition of at least 2 components with at least 6 states.')
TIME_UNIT = 'joint steps'
STATE_MEASURE = '(types of components, joint state)'
ASSUMPTIONS = [
    'components have at most 4 states; at most 3 components',
    'model checking compares with 1e-4, the precision of the tool is 1e-6',
    'probabilistic components have one transition for each pair of states '
    'and action']
PROBES = ['ks', 'wks', 'mc', 'mdp', 'nested', 'mc-checked', 'mdp-checked',
          'policy', 'policy-applied', 'disk-error', 'edited', 'custom-op',
          'thirds', 'empty-label', 'deadlock', 'wrong-types',
          'read-back', 'function', 'replaced', 'saved-function',
          'unsaved-function', 'labels-of-system']
TOL = 1e-4


class Comp:
    """Reference component."""

    def __init__(self, kind, states, init, label, trans, aps, acts):
        self.kind = kind
        self.states = states
        self.init = init
        self.label = label
        self.trans = trans  # [(u, v, {attr: value})]
        self.aps = aps
        self.acts = acts


def split(ctx, n):
    """Probabilities that sum to 1."""
    if n == 1:
        return [1.0]
    k = ctx.choose(4)
    if k == 0:
        w = [ctx.integer(1, 4) for _ in range(n)]
        ctx.probe('thirds')
    elif k == 1:
        w = [1] * n
    elif k == 2:
        w = [1] * (n - 1) + [ctx.pick([9, 30, 99])]
    else:
        w = [2 ** ctx.choose(3) for _ in range(n)]
    s = sum(w)
    return [x / s for x in w]


def gen_comp(ctx, kind, prefix):
    n = ctx.integer(2, 4 if kind in ('ks', 'wks') else 3)
    off = ctx.choose(2)
    states = ctx.pick([
        [f'{prefix}{i}' for i in range(n)],
        [i + off for i in range(n)]])
    init = [ctx.pick(states)]
    if kind in ('ks', 'wks') and ctx.chance(0.3):
        init = sorted(set(init + [ctx.pick(states)]), key=str)
    # distinct labels
    names = [f'{prefix}_{i}' for i in range(n)]
    label = {s: {names[i]} for i, s in enumerate(states)}
    if kind in ('ks', 'wks') and ctx.chance(0.4):
        label = {s: set(ctx.subset(names)) for s in states}
    acts = list()
    if kind == 'mdp':
        acts = [[f'{prefix}go', f'{prefix}stop', f'{prefix}turn'][k]
                for k in range(ctx.integer(1, 3))]
        if ctx.chance(0.3):
            acts = list(range(len(acts)))
    trans = list()
    for u in states:
        if kind in ('ks', 'wks'):
            if ctx.chance(0.08):
                ctx.probe('deadlock')
                continue
            vs = ctx.subset(states) or [ctx.pick(states)]
            for v in vs:
                if kind == 'ks':
                    trans.append((u, v, {}))
                else:
                    cs = {ctx.choose(4)}
                    if ctx.chance(0.2):
                        cs.add(ctx.choose(4))
                    for c in sorted(cs):
                        trans.append((u, v, dict(cost=c)))
            continue
        for a in ((ctx.subset(acts) or [ctx.pick(acts)])
                  if kind == 'mdp' else [None]):
            vs = ctx.subset(states) or [ctx.pick(states)]
            for v, pr in zip(vs, split(ctx, len(vs))):
                d = dict(probability=pr)
                if a is not None:
                    d['action'] = a
                trans.append((u, v, d))
    return Comp(kind, states, init, label, trans, names, acts)


def build(ctx, c):
    import tulip.transys as trs
    cls = dict(ks=trs.KripkeStructure, wks=trs.WeightedKripkeStructure,
               mc=trs.MarkovChain, mdp=trs.MarkovDecisionProcess)[c.kind]
    m = cls()
    m.name = 'component'
    m.states.add_from(ctx.shuffle(c.states))
    m.states.initial.add_from(c.init)
    m.atomic_propositions.add_from(c.aps)
    for s in c.states:
        m.states[s]['ap'] = set(c.label[s])
    if c.kind == 'mdp':
        m.actions.add_from(c.acts)
    for u, v, d in ctx.shuffle(c.trans):
        m.transitions.add(u, v, **d)
    return m


def joint(comps, op):
    """Reference composition: labels and transitions of joint states."""
    label, trans = dict(), dict()
    for s in itertools.product(*[c.states for c in comps]):
        label[s] = set().union(*[c.label[x] for c, x in zip(comps, s)])
        out = list()
        rows = [[t for t in c.trans if t[0] == x]
                for c, x in zip(comps, s)]
        for ts in itertools.product(*rows):
            to = tuple(t[1] for t in ts)
            d = dict()
            costs = [t[2]['cost'] for t in ts if 'cost' in t[2]]
            if costs:
                d['cost'] = op(costs)
            pr = [t[2]['probability'] for t in ts if 'probability' in t[2]]
            if pr:
                v = 1.0
                for x in pr:
                    v *= x
                d['probability'] = v
            acts = [t[2]['action'] for t in ts if 'action' in t[2]]
            if acts:
                d['action'] = acts[0] if len(acts) == 1 else tuple(acts)
            out.append((to, d))
        trans[s] = out
    return label, trans


def key(d):
    return tuple(sorted(
        (k, round(v, 12) if isinstance(v, float) else v)
        for k, v in d.items()))


def flat(s):
    out = list()
    for x in s:
        if isinstance(x, tuple):
            out.extend(flat(x))
        else:
            out.append(x)
    return tuple(out)


def flat_attr(d):
    d = dict(d)
    if isinstance(d.get('action'), tuple):
        d['action'] = flat(d['action'])
    return d


def content(m):
    return (
        sorted(map(repr, m.states())), sorted(map(repr, m.states.initial)),
        sorted((repr(s), sorted(m.states[s]['ap'])) for s in m.states()),
        sorted(map(repr, m.transitions(data=True))),
        sorted(m.atomic_propositions))


def check(ctx, comps, ts, op, name):
    label, trans = joint(comps, op)
    states = {flat(s): s for s in ts.states()}
    if set(states) != set(label) or len(states) != len(ts):
        raise Violation('states', f'{name}: {sorted(states, key=repr)}')
    init = set(itertools.product(*[c.init for c in comps]))
    if {flat(s) for s in ts.states.initial} != init:
        raise Violation('initial', f'{name}: {list(ts.states.initial)}')
    aps = set().union(*[c.aps for c in comps])
    if set(ts.atomic_propositions) != aps:
        raise Violation('aps', f'{name}: {list(ts.atomic_propositions)}')
    for f, s in states.items():
        if set(ts.states[s]['ap']) != label[f]:
            raise Violation(
                'label', f'{name}: {s} has {ts.states[s]["ap"]}, '
                f'its components have {label[f]}')
        got = sorted(((flat(v), key(flat_attr(d)))
                      for _, v, d in ts.transitions.find([s])), key=repr)
        want = {(v, key(flat_attr(d))) for v, d in trans[f]}
        if set(got) != want or len(got) != len(set(got)):
            raise Violation(
                'transitions', f'{name}: from {s}: {got}, the components '
                f'allow {sorted(want, key=repr)}')


def walk(ctx, comps, ts, kinds):
    """The components follow the composition."""
    s = ctx.pick(sorted(ts.states.initial, key=repr))
    for _ in range(12):
        ctx.tick()
        ctx.state(kinds, repr(s))
        out = sorted(ts.transitions.find([s]), key=repr)
        if not out:
            return
        _, v, d = ctx.pick(out)
        fs, fv = flat(s), flat(v)
        ctx.log(repr(s), repr(v), sorted(map(repr, d.items())))
        for c, a, b in zip(comps, fs, fv):
            if not any(t[0] == a and t[1] == b for t in c.trans):
                raise Violation('step', f'{s} -> {v} by {d}')
        s = v


# -- reference for probabilities -------------------------------------------

class Ref:
    """The reachable part of the reference composition."""

    def __init__(self, comps):
        self.label, trans = joint(comps, sum)
        init = tuple(c.init[0] for c in comps)
        self.init = init
        self.dist = dict()
        todo = [init]
        while todo:
            s = todo.pop()
            if s in self.dist:
                continue
            row = dict()
            for v, d in trans[s]:
                row.setdefault(d.get('action'), {})
                r = row[d.get('action')]
                r[v] = r.get(v, 0) + d['probability']
                todo.append(v)
            self.dist[s] = row

    def until(self, safe, goal, mode, bound=None, policy=None):
        """Probability of `safe U goal`."""
        x = {s: 1.0 if goal(s) else 0.0 for s in self.dist}
        n = bound if bound is not None else 20000
        best = max if mode == 'max' else min
        for _ in range(n):
            y = dict()
            for s, row in self.dist.items():
                if goal(s):
                    y[s] = 1.0
                elif not safe(s):
                    y[s] = 0.0
                else:
                    rows = row.items()
                    if policy is not None:
                        rows = [(policy[s], row[policy[s]])]
                    y[s] = best(
                        sum(p * x[v] for v, p in r.items())
                        for _, r in rows)
            diff = max(abs(y[s] - x[s]) for s in x)
            x = y
            if diff < 1e-13:
                return x
        if bound is None:
            # slow convergence of the reference
            raise Discard()
        return x


def formula(ctx, ref, mdp):
    """A formula for the tool, and its meaning."""
    states = sorted(ref.dist, key=repr)
    names = sorted(set().union(*[ref.label[s] for s in states]))
    a, b, c = (ctx.pick(names) for _ in range(3))
    lab = ref.label
    mode = ctx.pick(['max', 'min']) if mdp else 'max'
    op = f'P{mode}' if mdp else 'P'
    kind = ctx.choose(5)
    dual = False
    bound = None
    if kind == 0:
        txt = f'F "{a}"'

        def safe(s): return True

        def goal(s): return a in lab[s]
    elif kind == 1:
        txt = f'!"{a}" U "{b}"'

        def safe(s): return a not in lab[s]

        def goal(s): return b in lab[s]
    elif kind == 2:
        txt = f'!("{a}" & "{b}") U ("{c}")'

        def safe(s): return not (a in lab[s] and b in lab[s])

        def goal(s): return c in lab[s]
    elif kind == 3:
        bound = ctx.integer(0, 4)
        txt = f'F<={bound} ("{a}" & "{b}")'

        def safe(s): return True

        def goal(s): return a in lab[s] and b in lab[s]
    else:
        txt = f'G !"{a}"'
        dual = True

        def safe(s): return True

        def goal(s): return a in lab[s]
    inner = mode
    if dual and mdp:
        inner = 'min' if mode == 'max' else 'max'
    want = ref.until(safe, goal, inner, bound)
    if dual:
        want = {s: 1 - v for s, v in want.items()}

    def value(policy):
        v = ref.until(safe, goal, inner, bound, policy)
        return {s: 1 - w for s, w in v.items()} if dual else v
    return f'{op}=? [ {txt} ]', want, value, bound


def probabilistic(ctx, comps, ts, models):
    from tulip.interfaces import stormpy as si
    from tulip.transys.compositions import apply_policy
    from .c05 import Disk
    ref = Ref(comps)
    by = {flat(s): s for s in ts.states()}
    mdp = any(c.kind == 'mdp' for c in comps)
    txt, want, value, bound = formula(ctx, ref, mdp)
    ctx.log(txt)
    disk = Disk(ctx, 90)
    try:
        if ctx.chance(0.4):
            # files of models under disk faults
            ok = disk.write(lambda path: si.to_prism_file(ts, path))
            if ok is None:
                ctx.probe('disk-error')
            elif ctx.chance(0.5):
                read_back(ctx, si, disk.path, ref, mdp)
        extract = mdp and bound is None and ctx.chance(0.7)
        path = os.path.join(disk.dir, 'model.nm')
        before = content(ts)
        res = si.model_checking(ts, txt, path, extract)
        if content(ts) != before:
            raise Violation('changed', 'by model checking')
    finally:
        disk.close()
    policy = None
    if extract:
        res, policy = res
    ctx.probe('mdp-checked' if mdp else 'mc-checked')
    for s, v in want.items():
        try:
            got = res[by[s]]
        except (KeyError, ValueError):
            raise Violation('no-value', f'{s}')
        if abs(got - v) > TOL:
            raise Violation(
                'value', f'{txt} at {s} is {got}, the reference says {v}; '
                f'{ref.dist}')
    if policy is None:
        return
    ctx.probe('policy')
    pol = dict()
    for s in ref.dist:
        try:
            a = policy[by[s]]
        except (KeyError, ValueError):
            raise Violation('no-action', f'policy has no action at {s}')
        a = flat(a) if isinstance(a, tuple) else a
        rows = {flat(k) if isinstance(k, tuple) else k: k
                for k in ref.dist[s]}
        if a not in rows:
            raise Violation(
                'disabled-action', f'policy takes {a} at {s}, where '
                f'{list(rows)} are possible; {txt} {ref.dist}')
        pol[s] = rows[a]
    v = value(pol)
    for s in v:
        if abs(v[s] - want[s]) > 10 * TOL:
            raise Violation(
                'policy-value', f'{txt} at {s}: the policy achieves {v[s]}, '
                f'not {want[s]}; {pol} {ref.dist}')
    save_function(ctx, policy, {
        json_value(by[s]): (dict(action=json_value(policy[by[s]])),
                            sorted(ref.label[s])) for s in ref.dist}, None)
    # the induced chain
    total = {s: policy[by[s]] if s in ref.dist else
             next(iter(ts.transitions.find([by[s]])))[2]['action']
             for s in by}
    mc = apply_policy(ts, {by[s]: a for s, a in total.items()})
    ctx.probe('policy-applied')
    import tulip.transys as trs
    if type(mc) is not trs.MarkovChain:
        raise Violation('induced', f'{type(mc)}')
    if {flat(s) for s in mc.states.initial} != {ref.init}:
        raise Violation('induced', 'initial states')
    for s, t in by.items():
        if set(mc.states[t]['ap']) != ref.label[s]:
            raise Violation('induced', f'label of {s}')
        got = dict()
        for _, w, d in mc.transitions.find([t]):
            if set(d) != {'probability'}:
                raise Violation('induced', f'{d}')
            got[flat(w)] = got.get(flat(w), 0) + d['probability']
        if s in ref.dist:
            exp = ref.dist[s][pol[s]]
            if set(got) != set(exp) or any(
                    abs(got[w] - exp[w]) > 1e-9 for w in exp):
                raise Violation('induced', f'{s}: {got} instead of {exp}')
    if content(ts) != before:
        raise Violation('changed', 'by applying a policy')


def json_value(v):
    return tuple(json_value(x) for x in v) if (
        isinstance(v, (list, tuple))) else v


def save_function(ctx, f, want, system):
    """Its file lists the function, or saving it raises an error."""
    from .c05 import Disk
    disk = Disk(ctx, 91)
    try:
        args = () if system is None else (system,)
        ok = disk.write(lambda path: f.save(path, *args))
        if ok is None:
            ctx.probe('unsaved-function')
            return
        ctx.probe('saved-function')
        with open(disk.path) as fd:
            rows = json.load(fd)
    finally:
        disk.close()
    got = dict()
    for row in rows:
        row = dict(row)
        state, labels = json_value(row.pop('state')), row.pop('labels')
        k = state
        others = getattr(f, '_vsim_inputs', None)
        if others:
            k = (state,) + tuple(json_value(row.pop(x)) for x in others)
        if k in got:
            raise Violation('file', f'{k} twice in {rows}')
        got[k] = ({a: json_value(b) for a, b in row.items()},
                  sorted(labels))
    if got != want:
        raise Violation('file', f'of a function: {got}, not {want}')


def function(ctx):
    """A history of a function of states and inputs."""
    import tulip.transys as trs
    from tulip.transys.mathfunc import FunctionOnLabeledState
    ctx.probe('function')
    inputs = ctx.pick([['state'], ['state', 'mode'], ['mode', 'state'],
                       ['load', 'state', 'mode'], ['mode', 'load', 'state']])
    outputs = ctx.pick([['action'], ['action', 'next'],
                        ['next', 'action', 'power']])
    a = ctx.pick([list, tuple])(inputs)
    b = ctx.pick([list, tuple])(outputs)
    if len(inputs) == 1 and ctx.chance(0.7):
        a = 'state'
    if len(outputs) == 1 and ctx.chance(0.7):
        b = 'action'
    f = FunctionOnLabeledState(a, b)
    others = [x for x in inputs if x != 'state']
    f._vsim_inputs = others
    name = ctx.pick([lambda i: f's{i}', lambda i: i, lambda i: (i, 'x')])
    states = [name(i) for i in range(3)]
    ts = trs.FTS()
    ts.atomic_propositions.update(['p', 'q'])
    aps = dict()
    for s in states:
        aps[s] = ctx.subset(['p', 'q'])
        ts.states.add(s, ap=set(aps[s]))
    model = dict()

    def argument():
        key = dict(state=ctx.pick(states))
        for x in others:
            key[x] = ctx.choose(2)
        t = tuple(key[x] for x in inputs)
        return key, t[0] if len(t) == 1 else t
    for _ in range(ctx.integer(1, 14)):
        ctx.tick()
        key, t = argument()
        k = (key['state'],) + tuple(key[x] for x in others)
        out = tuple(ctx.pick(['go', 'stop', 0, None]) for _ in outputs)
        val = out[0] if len(out) == 1 else out
        if k in model:
            ctx.probe('replaced')
        labels = ctx.subset(['odd', 'even'])
        kind = ctx.pick([list, set, trs.MathSet, None])
        if kind is None:
            labels = list()
            f.add(t, val)
        else:
            f.add(t, val, kind(labels))
        model[k] = (out, labels)
        ctx.state('function', len(inputs), len(outputs), len(model))
        if len(f) != len(model):
            raise Violation('function', f'{len(f)} values: {model}')
        # all the values
        for _ in range(4):
            key, t = argument()
            k = (key['state'],) + tuple(key[x] for x in others)
            try:
                got = f[t]
            except KeyError:
                if k in model:
                    raise Violation('function', f'no value at {t}: {model}')
                continue
            if k not in model:
                raise Violation('function', f'{got} at {t}: {model}')
            want = model[k][0]
            want = want[0] if len(want) == 1 else want
            if got != want:
                raise Violation('function', f'{got}, not {want}, at {t}')
    system = None
    if ctx.chance(0.4):
        ctx.probe('labels-of-system')
        system = ts
    want = dict()
    for k, (out, labels) in model.items():
        k2 = json_value(k) if others else json_value(k[0])
        if system is not None:
            labels = aps[k[0]]
        want[k2] = (dict(zip(outputs, out)), sorted(labels))
    save_function(ctx, f, want, system)
    text = str(f)
    if text.count('->') != len(model):
        raise Violation('function', text)
    ctx.nontrivial = len(model) > 2
    ctx.sample = dict(function=[inputs, outputs, len(model)])


def read_back(ctx, si, path, ref, mdp):
    """The file describes the same model."""
    m = si.to_tulip_transys(path)
    ctx.probe('read-back')
    if len(m) != len(ref.dist):
        raise Violation('file', f'{len(m)} states, not {len(ref.dist)}')
    by = dict()
    for s in m.states():
        for r in ref.dist:
            if set(m.states[s]['ap']) == ref.label[r]:
                by[s] = r
    if len(set(by.values())) != len(ref.dist):
        raise Violation('file', f'labels {by}')
    if [by[s] for s in m.states.initial] != [ref.init]:
        raise Violation('file', 'initial state')
    for s, r in by.items():
        got = dict()
        for _, w, d in m.transitions.find([s]):
            got.setdefault(d.get('action'), {})[by[w]] = d['probability']

        rest = list(ref.dist[r].values())
        for row in got.values():
            # (the file has decimals)
            same = [x for x in rest if set(x) == set(row) and
                    all(abs(x[w] - row[w]) <= 2e-6 for w in x)]
            if not same:
                raise Violation(
                    'file', f'{r}: {row}, not one of {rest}')
            rest.remove(same[0])
        if rest:
            raise Violation('file', f'{r}: {rest} is missing')


def run(ctx):
    from tulip.transys import compositions as cmp
    ctx.component('tulip.transys.compositions, tulip.interfaces.stormpy, '
                  'stormpy', 'real')
    ctx.component('file system', 'scratch directory with faults')
    if ctx.chance(0.1):
        function(ctx)
        return
    prob = ctx.chance(0.5)
    if prob:
        pool = [(2, 'mc'), (3, 'mdp'), (1, 'ks')]
        n = ctx.integer(1, 2)
    else:
        pool = [(1, 'ks'), (2, 'wks')]
        n = ctx.integer(1, 3)
    kinds = [ctx.weighted(pool) for _ in range(n)]
    if ctx.chance(0.03):
        wrong(ctx)
        return
    comps = [gen_comp(ctx, k, 'abc'[i]) for i, k in enumerate(kinds)]
    if prob and any(c.kind == 'ks' for c in comps):
        # a Kripke structure in a probabilistic composition must be
        # deterministic, for the probabilities to sum to 1
        for c in comps:
            if c.kind == 'ks':
                nxt = dict()
                for t in c.trans:
                    nxt.setdefault(t[0], t)
                for s in c.states:
                    nxt.setdefault(s, (s, s, {}))
                c.trans = list(nxt.values())
                c.label = {s: {c.aps[i]} for i, s in enumerate(c.states)}
                c.init = c.init[:1]
        if all(c.kind == 'ks' for c in comps):
            prob = False
    if ctx.chance(0.15):
        comps[0].aps.append('never')
        ctx.probe('empty-label')
    for c in comps:
        ctx.probe(c.kind)
    ctx.sample = dict(kinds=kinds, comps=[dict(
        states=c.states, init=c.init, trans=c.trans,
        label={str(k): sorted(v) for k, v in c.label.items()})
        for c in comps])
    ctx.log(ctx.sample)
    models = [build(ctx, c) for c in comps]
    before = [content(m) for m in models]
    op = sum
    kw = dict()
    if ctx.chance(0.3):
        ctx.probe('custom-op')

        def biggest(*values):
            return max(v for v in values if v is not None)
        op = max
        kw['transition_attr_operations'] = ops = {'cost': biggest}
    nested = len(models) == 3 and ctx.chance(0.5)
    if nested:
        ctx.probe('nested')
        inner = cmp.synchronous_parallel(models[:2], **kw)
        ts = cmp.synchronous_parallel([inner, models[2]], **kw)
    else:
        ts = cmp.synchronous_parallel(models, **kw)
    if kw and set(ops) != {'cost'}:
        raise Violation('argument-changed', f'{sorted(ops)}')
    check(ctx, comps, ts, op, 'composition')
    if [content(m) for m in models] != before:
        raise Violation('changed', 'components, by the composition')
    walk(ctx, comps, ts, tuple(kinds))
    ctx.nontrivial = len(models) >= 2 and len(ts) >= 6
    if prob:
        probabilistic(ctx, comps, ts, models)
    # edits of one do not reach the other
    if ctx.chance(0.5):
        ctx.probe('edited')
        if ctx.chance(0.5):
            m = ctx.pick(models)
            s = ctx.pick(sorted(m.states(), key=repr))
            m.states[s]['ap'].clear()
            m.states.add('new-state')
            check(ctx, comps, ts, op, 'composition, after an edit of a part')
        else:
            for s in list(ts.states()):
                ts.states[s]['ap'].clear()
            ts.states.add('new-state')
            ts.atomic_propositions.add('new-ap')
            if [content(m) for m in models] != before:
                raise Violation(
                    'changed', 'components, by an edit of the composition')
    elif ctx.chance(0.3):
        ctx.fault('saved-and-loaded')
        ts2 = pickle.loads(pickle.dumps(ts))
        check(ctx, comps, ts2, op, 'loaded composition')


def wrong(ctx):
    """Types that cannot be composed are rejected."""
    from tulip.transys import compositions as cmp
    import tulip.transys as trs
    ctx.probe('wrong-types')
    ctx.fault('wrong-type')
    c = gen_comp(ctx, 'ks', 'a')
    bad = ctx.pick([trs.FTS, trs.MealyMachine, trs.BuchiAutomaton])()
    try:
        cmp.synchronous_parallel([build(ctx, c), bad])
    except TypeError:
        pass
    else:
        raise Violation('accepted', f'{type(bad)}')
    try:
        cmp.apply_policy(build(ctx, gen_comp(ctx, 'mc', 'b')), dict())
    except TypeError:
        return
    raise Violation('accepted', 'policy for a Markov chain')
