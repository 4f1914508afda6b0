"""C11: labeled graphs keep their labels typed, through rejected operations."""
import collections
import copy
import pickle

from ..core import Violation

RUNS = {'quick': 6000, 'thorough': 250000}
RULE = ('A run draws label types, and a history of operations on a labeled '
        'graph (and on copies of it), with faults injected: inadmissible '
        'labels, unknown nodes and label names, callers whose iterators '
        'fail halfway. After each operation the graph is compared to a '
        'reference model; non-trivial: at least 2 nodes, 2 edges, and one '
        'rejected operation.')
TIME_UNIT = 'operations'
STATE_MEASURE = '(graph kind, operation, outcome, nodes, edges)'
ASSUMPTIONS = [
    'at most 7 nodes, 3 label types for nodes and for edges, 4 values each',
    'left open: labels of a node that is added anew without giving them; an '
    'edge without labels, added where labeled edges exist']
PROBES = ['rejected', 'prefix', 'duplicate-edge', 'subscript', 'shrunk',
          'copied', 'removed-initial', 'default-mutated', 'adjacency',
          'found', 'reach', 'deadends', 'tuple']


class Guard:
    """Label type with symbolic semantics (a label is a set of letters)."""

    def __init__(self, values):
        self.values = set(values)

    def __contains__(self, x):
        return isinstance(x, frozenset) and x <= self.values

    def __call__(self, value, desired):
        return bool(value & desired)

    def __eq__(self, other):
        return isinstance(other, Guard) and self.values == other.values

    def __hash__(self):
        return 1


class Type:
    """Reference label type."""

    def __init__(self, name, kind, values, default=None, has_default=False):
        self.name = name
        self.kind = kind
        self.values = list(values)
        self.default = default
        self.has_default = has_default

    def valid(self, x):
        if self.kind == 'any':
            return True
        if self.kind in ('set', 'list'):
            return any(type(x) is type(v) and x == v for v in self.values)
        if self.kind == 'power':
            return isinstance(x, (set, frozenset)) and all(
                v in self.values for v in x)
        if self.kind == 'guard':
            return isinstance(x, frozenset) and all(
                v in self.values for v in x)
        if self.kind == 'cost':
            return isinstance(x, (int, float)) and x >= 0
        if self.kind == 'prob':
            return isinstance(x, (int, float)) and 0 <= x <= 1
        raise ValueError(self.kind)

    def good(self, ctx):
        if self.kind == 'any':
            return ctx.pick(['x', 3, ('t', 1)])
        if self.kind in ('set', 'list'):
            if not self.values:
                return None
            return ctx.pick(self.values)
        if self.kind == 'power':
            return set(ctx.subset(self.values))
        if self.kind == 'guard':
            return frozenset(ctx.subset(self.values))
        if self.kind == 'cost':
            return ctx.pick([0, 1, 2.5])
        if self.kind == 'prob':
            return ctx.pick([0, 0.5, 1])

    def bad(self, ctx):
        if self.kind in ('set', 'list'):
            return ctx.pick(['zz', 'zzz', 77])
        if self.kind == 'power':
            return ctx.pick([{'zz'}, set(self.values) | {'zz'}])
        if self.kind == 'guard':
            return frozenset(ctx.pick([['zz'], self.values + ['zz']]))
        if self.kind == 'cost':
            return ctx.pick([-1, -0.5, 'free', None])
        if self.kind == 'prob':
            return ctx.pick([-0.25, 1.5, 'high', None])
        return None

    def match(self, value, desired):
        if self.kind == 'guard':
            return bool(value & desired)
        return value == desired


class Model:
    def __init__(self):
        self.nodes = dict()
        self.edges = dict()  # (u, v) -> list of labels
        self.initial = set()
        self.ntypes = dict()
        self.etypes = dict()

    def copy(self):
        return copy.deepcopy(self)

    def types(self, edge):
        return self.etypes if edge else self.ntypes

    def defaults(self, edge):
        return {k: copy.deepcopy(t.default)
                for k, t in self.types(edge).items() if t.has_default}

    def verdict(self, label, edge, check=True):
        types = self.types(edge)
        for k, x in label.items():
            if k in types:
                if not types[k].valid(x):
                    return 'value'
        if check and any(k not in types for k in label):
            return 'key'
        return None

    def consistent(self):
        return all(
            t[k].valid(x)
            for t, ls in (
                (self.ntypes, self.nodes.values()),
                (self.etypes, [x for y in self.edges.values() for x in y]))
            for lab in ls for k, x in lab.items() if k in t)

    def remove_node(self, n):
        del self.nodes[n]
        self.initial.discard(n)
        for e in [e for e in self.edges if n in e]:
            del self.edges[e]

    def succ(self, n):
        return {v for (u, v), ls in self.edges.items() if u == n and ls}

    def pred(self, n):
        return {u for (u, v), ls in self.edges.items() if v == n and ls}


def listing(ls):
    return sorted(repr(sorted((k, norm(v)) for k, v in x.items()))
                  for x in ls)


def norm(v):
    if isinstance(v, (set, frozenset)):
        return 'set:' + repr(sorted(map(repr, v)))
    return type(v).__name__ + ':' + repr(v)


def compare(ctx, g, m, what):
    got = dict(g.nodes(data=True))
    if set(got) != set(m.nodes):
        raise Violation('nodes', f'after {what}: nodes {sorted(map(repr, got))}, '
                        f'should be {sorted(map(repr, m.nodes))}')
    for n, lab in m.nodes.items():
        if dict(got[n]) != lab:
            raise Violation('node-label', f'after {what}: node {n!r} has '
                            f'label {dict(got[n])}, should be {lab}')
    edges = collections.defaultdict(list)
    for u, v, lab in g.edges(data=True):
        edges[u, v].append(dict(lab))
    want = {e: ls for e, ls in m.edges.items() if ls}
    if set(edges) != set(want):
        raise Violation('edges', f'after {what}: edges {sorted(map(repr, edges))}'
                        f', should be {sorted(map(repr, want))}')
    for e in want:
        if listing(edges[e]) != listing(want[e]):
            raise Violation(
                'edge-label', f'after {what}: edges {e} with labels '
                f'{edges[e]}, should be {want[e]}')
        if len(set(listing(edges[e]))) != len(edges[e]):
            raise Violation(
                'duplicate', f'after {what}: edges {e} with the same label, '
                f'{edges[e]}')
    init = list(g.states.initial)
    if set(init) != m.initial or len(init) != len(m.initial):
        raise Violation('initial', f'after {what}: initial states {init}, '
                        f'should be {m.initial}')
    if len(g.states) != len(m.nodes) or len(g.transitions) != sum(
            map(len, want.values())):
        raise Violation('size', f'after {what}: {len(g.states)} states, '
                        f'{len(g.transitions)} transitions')
    if g.is_consistent() != m.consistent():
        raise Violation(
            'consistent', f'after {what}: is_consistent() is '
            f'{g.is_consistent()}')


# -- building --------------------------------------------------------------

def gen_types(ctx, prefix):
    from tulip.transys import mathset
    specs = list()
    types = dict()
    for i in range(ctx.integer(0, 3)):
        name = f'{prefix}{i}'
        kind = ctx.pick(['set', 'power', 'list', 'any', 'guard'])
        values = [f'a{i}', f'b{i}', f'c{i}'][:ctx.integer(1, 3)]
        t = Type(name, kind, values)
        if kind == 'set':
            dom = mathset.MathSet(values)
            default = values[0]
        elif kind == 'power':
            dom = mathset.PowerSet(values)
            default = ctx.pick([set(), {values[0]}])
        elif kind == 'list':
            dom = list(values)
            default = values[-1]
        elif kind == 'any':
            dom = None
            default = 'x'
        else:
            dom = Guard(values)
            default = frozenset(values)
        spec = dict(name=name, values=dom)
        if ctx.chance(0.4):
            t.default = default
            t.has_default = True
            spec['default'] = copy.deepcopy(default)
        if kind == 'power':
            spec['setter'] = dom.math_set
        elif kind == 'set':
            spec['setter'] = True
        specs.append(spec)
        types[name] = t
    return specs, types


def build(ctx):
    from tulip import transys as trs
    m = Model()
    kind = ctx.weighted([
        (5, 'generic'), (4, 'fts'), (1, 'kripke'), (1, 'weighted'),
        (1, 'mdp'), (1, 'parity'), (1, 'labeled-game')])
    ap = Type('ap', 'power', [], set(), True)
    if kind == 'generic':
        ns, m.ntypes = gen_types(ctx, 'n')
        es, m.etypes = gen_types(ctx, 'e')
        g = trs.LabeledDiGraph(ns or None, es or None)
    elif kind == 'fts':
        g = trs.FTS()
        m.ntypes = dict(ap=ap)
        m.etypes = dict(env_actions=Type('env_actions', 'set', []),
                        sys_actions=Type('sys_actions', 'set', []))
    elif kind == 'kripke':
        g = trs.transys.KripkeStructure()
        m.ntypes = dict(ap=ap)
    elif kind == 'weighted':
        g = trs.transys.WeightedKripkeStructure()
        m.ntypes = dict(ap=ap)
        m.etypes = dict(cost=Type('cost', 'cost', []))
    elif kind == 'mdp':
        g = trs.transys.MarkovDecisionProcess()
        m.ntypes = dict(ap=ap)
        m.etypes = dict(probability=Type('probability', 'prob', []),
                        action=Type('action', 'set', []))
    elif kind == 'parity':
        c = ctx.integer(1, 4)
        g = trs.automata.ParityGame(c)
        m.ntypes = dict(color=Type('color', 'list', range(c), 0, True),
                        player=Type('player', 'list', [0, 1], 0, True))
    else:
        g = trs.transys.LabeledGameGraph()
        m.ntypes = dict(ap=ap, player=Type('player', 'list', [0, 1], 0, True))
    return kind, g, m


def grow(ctx, kind, g, m, edge, name, value):
    """Add a value to a label type through the attribute of the graph."""
    t = m.types(edge)[name]
    if t.kind == 'power':
        dom = getattr(g, name)
        if name == 'ap' and ctx.chance(0.5):
            dom = g.atomic_propositions
        if ctx.chance(0.5):
            dom.add(value)
        else:
            dom |= [value]
    elif t.kind == 'set':
        dom = getattr(g, name)
        if ctx.chance(0.5):
            dom.add(value)
        else:
            dom.add_from([value])
    else:
        return False
    if value not in t.values:
        t.values.append(value)
    return True


def shrink(ctx, g, m, edge, name):
    t = m.types(edge)[name]
    if t.kind not in ('power', 'set') or not t.values:
        return False
    x = ctx.pick(t.values)
    if t.has_default and (x == t.default or isinstance(
            t.default, set) and x in t.default):
        return False
    getattr(g, name).remove(x)
    t.values.remove(x)
    ctx.probe('shrunk')
    return True


# -- operations ------------------------------------------------------------

def gen_label(ctx, m, edge, p_bad=0.15, p_key=0.08, p=0.6):
    """A label; and whether a fault was injected in it."""
    lab = dict()
    for k, t in m.types(edge).items():
        if not ctx.chance(p):
            continue
        if ctx.chance(p_bad):
            x = t.bad(ctx)
            if x is not None:
                ctx.fault('inadmissible-label')
                lab[k] = x
                continue
        x = t.good(ctx)
        if x is not None:
            lab[k] = x
    if ctx.chance(p_key):
        ctx.fault('unknown-label-name')
        lab['other'] = ctx.pick(['u', 'w'])
    return lab


def split(ctx, lab):
    """Pass some of the label as `attr_dict`, some as keywords."""
    how = ctx.choose(3)
    if how == 0:
        return None, dict(lab)
    if how == 1:
        return dict(lab), dict()
    d, kw = dict(), dict()
    for k, v in lab.items():
        (d if ctx.chance(0.5) else kw)[k] = v
    return d, kw


NODES = ['s0', 's1', 's10', 's2', 4, ('p', 1), 's']


def a_node(ctx, m, p_unknown=0.12):
    if m.nodes and not ctx.chance(p_unknown):
        return ctx.pick(list(m.nodes))
    return ctx.pick(NODES)


class Boom(Exception):
    pass


def stream(ctx, items, p=0.15):
    """The caller's iterable; it may fail after some elements."""
    if not ctx.chance(p):
        kind = ctx.choose(3)
        if kind == 0:
            return list(items), None
        if kind == 1:
            return tuple(items), None
        return iter(list(items)), None
    k = ctx.choose(len(items) + 1)
    ctx.fault('failing-iterator')
    def gen():
        for x in items[:k]:
            yield x
        raise Boom()
    return gen(), k


def apply_node(ctx, m, g, n, lab, check):
    """Model of adding a node. Returns the reason it is rejected."""
    full = m.defaults(False)
    full.update(lab)
    why = m.verdict(full, False, check)
    if why:
        return why
    if n in m.nodes:
        old = m.nodes[n]
        # labels not given: the old ones, or the defaults
        for k in m.defaults(False):
            if k not in lab and k in old:
                now = dict(g.nodes[n]).get(k, '?')
                if now != full[k] and now != old[k]:
                    raise Violation(
                        'node-label', f'label {k} of node {n!r} turned from '
                        f'{old[k]} to {now}, when the node was added again')
                full[k] = copy.deepcopy(now)
        old.update(full)
    else:
        m.nodes[n] = copy.deepcopy(full)
    return None


def apply_edge(m, u, v, lab, check):
    if u not in m.nodes or v not in m.nodes:
        return 'node'
    full = m.defaults(True)
    full.update(lab)
    why = m.verdict(full, True, check)
    ls = m.edges.setdefault((u, v), list())
    if any(not x for x in ls):
        return 'unlabeled'
    if why == 'value':
        return why
    if listing([full])[0] in listing(ls):
        return 'same' if not why else 'same?'
    if why:
        return why
    if not full and ls:
        return 'mixing'
    ls.append(copy.deepcopy(full))
    return None


def attempt(f):
    try:
        f()
        return None
    except Boom as e:
        return e
    except Exception as e:
        return e


def expect(ctx, why, err, what):
    """The outcome of an operation that the model rejects (or not)."""
    if why is None and err is not None:
        raise Violation('rejects', f'{what}: {type(err).__name__}: {err}')
    if why is not None and err is None:
        raise Violation(
            'accepts', f'{what}: accepted, though should be rejected ({why})')
    if isinstance(err, NameError):
        raise Violation('rejects', f'{what}: {type(err).__name__}: {err}')
    if err is not None:
        ctx.probe('rejected')


def unchanged(before, now, what):
    if before != now:
        raise Violation(
            'caller', f'{what}: changes the argument of the caller from '
            f'{before} to {now}')


def op_node(ctx, g, m):
    n = a_node(ctx, m, 0.6)
    lab = gen_label(ctx, m, False)
    check = not ctx.chance(0.2)
    d, kw = split(ctx, lab)
    before = copy.deepcopy(d)
    if ctx.chance(0.5):
        f = lambda: g.states.add(n, d, check, **kw)
    else:
        f = lambda: g.add_node(n, d, check=check, **kw)
    what = f'add node {n!r} {d} {kw} check={check}'
    err = attempt(f)
    why = apply_node(ctx, m, g, n, lab, check)
    expect(ctx, why, err, what)
    unchanged(before, d, what)
    return what, why


def op_nodes(ctx, g, m):
    items = list()
    for _ in range(ctx.integer(1, 4)):
        n = a_node(ctx, m, 0.6)
        if ctx.chance(0.4) and not isinstance(n, tuple):
            items.append((n, gen_label(ctx, m, False, p_bad=0.1, p_key=0.04)))
        else:
            items.append(n)
    common = gen_label(ctx, m, False, p_bad=0.05, p_key=0.03, p=0.2)
    check = not ctx.chance(0.2)
    src, k = stream(ctx, items)
    before = copy.deepcopy(items)
    what = f'add nodes {items} {common} check={check} failing at {k}'
    if common or ctx.chance(0.5):
        f = lambda: g.states.add_from(src, check, **common)
    else:
        def f():
            s = g.states
            s |= src
        check = True
    err = attempt(f)
    why = None
    snap = m.copy()
    used = items if k is None else items[:k]
    for x in used:
        lab = dict(common)
        n = x
        if isinstance(x, tuple) and isinstance(x[-1], dict):
            n, extra = x
            lab.update(extra)
        # the label left open is read at the end of the batch
        if n in m.nodes:
            for key in m.defaults(False):
                if key not in lab:
                    now = dict(g.nodes[n]).get(key, '?') if n in g else '?'
                    lo = [y for y in used if (
                        y == n or isinstance(y, tuple) and y[0] == n)]
                    if len(lo) > 1:
                        # several times in the batch: all open
                        m.nodes[n][key] = copy.deepcopy(now)
        why = apply_node(ctx, m, g, n, lab, check)
        if why:
            break
    if why is None and k is not None:
        why = 'iterator'
    if why:
        ctx.probe('prefix')
    expect(ctx, why, err, what)
    unchanged(before, items, what)
    del snap
    return what, why


def op_edge(ctx, g, m):
    u, v = a_node(ctx, m), a_node(ctx, m)
    lab = gen_label(ctx, m, True)
    if ctx.chance(0.3) and m.edges.get((u, v)):
        lab = copy.deepcopy(ctx.pick(m.edges[u, v]))
        d_ = m.defaults(True)
        if ctx.chance(0.5):
            lab = {k: x for k, x in lab.items()
                   if k not in d_ or d_[k] != x}
    check = not ctx.chance(0.2)
    if not set(lab) - set(m.etypes) and ctx.chance(0.5):
        check = True
    d, kw = split(ctx, lab)
    before = copy.deepcopy(d)
    if ctx.chance(0.5):
        f = lambda: g.transitions.add(u, v, d, check, **kw)
    else:
        f = lambda: g.add_edge(u, v, attr_dict=d, check=check, **kw)
    what = f'add edge {u!r} {v!r} {d} {kw} check={check}'
    err = attempt(f)
    why = apply_edge(m, u, v, lab, check)
    why = settle(ctx, g, m, u, v, why, err, what)
    unchanged(before, d, what)
    return what, why


def settle(ctx, g, m, u, v, why, err, what):
    if why == 'mixing':
        # left open: accepted, or rejected
        if err is None:
            m.edges[u, v].append(dict())
        return why
    if why == 'same?':
        return why
    if why == 'same':
        ctx.probe('duplicate-edge')
        why = None
    expect(ctx, why, err, what)
    return why


def op_edges(ctx, g, m):
    common = gen_label(ctx, m, True, p_bad=0.05, p_key=0.03, p=0.2)
    items = list()
    for _ in range(ctx.integer(1, 4)):
        u, v = a_node(ctx, m, 0.05), a_node(ctx, m, 0.05)
        if ctx.chance(0.6):
            items.append((u, v, gen_label(
                ctx, m, True, p_bad=0.06, p_key=0.02)))
        else:
            items.append((u, v))
    check = not ctx.chance(0.15)
    # labels of elements take precedence
    mix = m.copy()
    for x in items:
        lab = dict(common)
        if len(x) == 3:
            lab.update(x[2])
        if apply_edge(mix, x[0], x[1], lab, check) in ('mixing', 'same?'):
            return None
    d, kw = split(ctx, common)
    comb = ctx.chance(0.25)
    before = copy.deepcopy((items, d))
    if comb:
        us = [x[0] for x in items]
        vs = [x[1] for x in items]
        mix = m.copy()
        for u in us:
            for v in vs:
                if apply_edge(mix, u, v, dict(common), check) in (
                        'mixing', 'same?'):
                    return None
        what = f'add combinations {us} {vs} {d} {kw} check={check}'
        err = attempt(lambda: g.transitions.add_comb(us, vs, d, check, **kw))
        todo = [(u, v) for u in us for v in vs]
        k = None
    else:
        src, k = stream(ctx, items)
        what = f'add edges {items} {d} {kw} check={check} failing at {k}'
        if ctx.chance(0.5):
            f = lambda: g.transitions.add_from(src, d, check, **kw)
        else:
            f = lambda: g.add_edges_from(src, d, check, **kw)
        err = attempt(f)
        todo = items if k is None else items[:k]
    why = None
    for x in todo:
        lab = dict(common)
        if len(x) == 3:
            lab.update(x[2])
        why = apply_edge(m, x[0], x[1], lab, check)
        if why == 'same':
            why = None
        if why:
            break
    if why is None and k is not None:
        why = 'iterator'
    if why:
        ctx.probe('prefix')
    expect(ctx, why, err, what)
    unchanged(before, (items, d), what)
    return what, why


def op_adj(ctx, g, m):
    import numpy as np
    import scipy.sparse as sp
    if not m.nodes:
        return None
    n = ctx.integer(1, 3)
    rows = [[int(ctx.chance(0.4)) for _ in range(n)] for _ in range(n)]
    states = [a_node(ctx, m, 0.08) for _ in range(n)]
    lab = gen_label(ctx, m, True, p_bad=0.05, p_key=0.0)
    order = [(i, j) for i in range(n) for j in range(n) if rows[i][j]]
    as_dict = ctx.chance(0.4)
    arg = {i: s for i, s in enumerate(states)} if as_dict else list(states)
    missing = any(s not in m.nodes for s in states)
    a = sp.lil_array(np.array(rows, dtype=float))
    d, kw = split(ctx, lab)
    if not missing:
        full = m.defaults(True)
        full.update(lab)
        if not full or not m.verdict(full, True):
            mix = m.copy()
            for i, j in order:
                if apply_edge(mix, states[i], states[j], dict(lab), True) in (
                        'mixing', 'same?', 'unlabeled'):
                    return None
        elif not order:
            pass
    oblong = ctx.chance(0.05)
    if oblong:
        ctx.probe('matrix-not-square')
        a = sp.lil_array(np.array(
            [row + [0] for row in rows], dtype=float))
    what = f'add adjacency {rows} {arg} {d} {kw}'
    before = copy.deepcopy((arg, d))
    err = attempt(lambda: g.transitions.add_adj(a, arg, d, **kw))
    why = None
    if oblong:
        why = 'matrix'
    elif missing:
        why = 'node'
        ctx.fault('unknown-state')
    else:
        for i, j in order:
            w = apply_edge(m, states[i], states[j], dict(lab), True)
            if w == 'same':
                w = None
            why = why or w
    expect(ctx, why, err, what)
    unchanged(before, (arg, d), what)
    ctx.probe('adjacency')
    return what, why


def op_subscript(ctx, g, m):
    if not m.nodes:
        return None
    if ctx.chance(0.6) or not any(m.edges.values()):
        n = ctx.pick(list(m.nodes))
        lab = gen_label(ctx, m, False, p_bad=0.4, p_key=0.1)
        if not lab:
            return None
        k = ctx.pick(sorted(lab))
        x = lab[k]
        if ctx.chance(0.5):
            def f():
                g.states[n][k] = x
        else:
            def f():
                g.nodes[n][k] = x
        what = f'set label of node {n!r}, {k}={x!r}'
        err = attempt(f)
        why = m.verdict({k: x}, False, check=False)
        expect(ctx, why, err, what)
        if why is None:
            m.nodes[n][k] = copy.deepcopy(x)
        ctx.probe('subscript')
        return what, why
    u, v = ctx.pick(sorted([e for e, ls in m.edges.items() if ls], key=repr))
    lab = gen_label(ctx, m, True, p_bad=0.4, p_key=0.05)
    if not lab:
        return None
    k = ctx.pick(sorted(lab))
    x = lab[k]
    keys = sorted(g[u][v])
    key = ctx.pick(keys)
    old = dict(g[u][v][key])
    new = dict(old)
    new[k] = x
    why = m.verdict({k: x}, True, check=False)
    if why is None and listing([new])[0] in listing(m.edges[u, v]):
        return None
    def f():
        g[u][v][key][k] = x
    what = f'set label of edge {u!r} {v!r} {old}, {k}={x!r}'
    err = attempt(f)
    expect(ctx, why, err, what)
    if why is None:
        i = listing_index(m.edges[u, v], old)
        m.edges[u, v][i] = copy.deepcopy(new)
    ctx.probe('subscript')
    return what, why


def listing_index(ls, lab):
    for i, x in enumerate(ls):
        if x == lab:
            return i
    raise Violation('edge-label', f'no edge with label {lab} in {ls}')


def op_default(ctx, g, m):
    """Change in place a set that a node got by default."""
    got = [(n, k) for n in m.nodes for k, t in m.ntypes.items()
           if t.kind == 'power' and t.has_default and t.values
           and isinstance(g.nodes[n].get(k), set)]
    if not got:
        return None
    n, k = ctx.pick(sorted(got, key=repr))
    # only if this node alone holds the set
    mine = g.nodes[n][k]
    fresh = ctx.chance(0.7)
    x = ctx.pick(m.ntypes[k].values)
    if fresh:
        n = ctx.pick(NODES)
        if n in m.nodes:
            return None
        g.add_node(n)
        m.nodes[n] = m.defaults(False)
        mine = g.nodes[n].get(k)
    else:
        return None
    mine.add(x)
    m.nodes[n][k].add(x)
    ctx.probe('default-mutated')
    return f'add node {n!r}, and change its {k} in place', None


def op_remove(ctx, g, m):
    what = ctx.weighted([(3, 'node'), (1, 'nodes'), (3, 'edge'),
                         (3, 'edges'), (2, 'labeled')])
    if what == 'node':
        n = a_node(ctx, m)
        err = attempt(lambda: g.states.remove(n))
        why = None if n in m.nodes else 'node'
        if why is None:
            if n in m.initial:
                ctx.probe('removed-initial')
            m.remove_node(n)
        expect(ctx, why, err, f'remove node {n!r}')
        return f'remove node {n!r}', why
    if what == 'nodes':
        ns = [a_node(ctx, m) for _ in range(ctx.integer(1, 2))]
        src, k = stream(ctx, ns)
        err = attempt(lambda: g.states.remove_from(src))
        why = None
        for n in ns if k is None else ns[:k]:
            if n not in m.nodes:
                why = 'node'
                break
            m.remove_node(n)
        if why is None and k is not None:
            why = 'iterator'
        expect(ctx, why, err, f'remove nodes {ns}')
        return f'remove nodes {ns}', why
    pairs = sorted([e for e, ls in m.edges.items() if ls], key=repr)
    if not pairs:
        return None
    def pair():
        if ctx.chance(0.1):
            return a_node(ctx, m), a_node(ctx, m)
        return ctx.pick(pairs)
    def drop(u, v, lab):
        if (u, v) in m.edges:
            m.edges[u, v] = [] if lab is None else [
                x for x in m.edges[u, v] if x != lab]
    if what == 'edge':
        u, v = pair()
        err = attempt(lambda: g.transitions.remove(u, v))
        drop(u, v, None)
        what = f'remove edges between {u!r} and {v!r}'
        expect(ctx, None, err, what)
        return what, None
    if what == 'labeled':
        u, v = pair()
        ls = m.edges.get((u, v)) or [dict()]
        lab = copy.deepcopy(ctx.pick(ls))
        if not lab:
            return None
        if ctx.chance(0.2):
            lab = {k: x for k, x in lab.items() if ctx.chance(0.5)}
        if not lab:
            return None
        d, kw = split(ctx, lab)
        before = copy.deepcopy(d)
        if ctx.chance(0.5):
            f = lambda: g.transitions.remove(u, v, d, **kw)
        else:
            f = lambda: g.remove_labeled_edge(u, v, d, **kw)
        what = f'remove edge {u!r} {v!r} {d} {kw}'
        err = attempt(f)
        drop(u, v, lab)
        expect(ctx, None, err, what)
        unchanged(before, d, what)
        return what, None
    items = list()
    for _ in range(ctx.integer(1, 3)):
        u, v = pair()
        if ctx.chance(0.5):
            ls = m.edges.get((u, v)) or [dict(other='q')]
            items.append((u, v, copy.deepcopy(ctx.pick(ls))))
        else:
            items.append((u, v))
    src, k = stream(ctx, items)
    what = f'remove edges {items} failing at {k}'
    before = copy.deepcopy(items)
    err = attempt(lambda: g.transitions.remove_from(src))
    for x in items if k is None else items[:k]:
        drop(x[0], x[1], x[2] if len(x) == 3 else None)
    why = None if k is None else 'iterator'
    expect(ctx, why, err, what)
    unchanged(before, items, what)
    return what, why


def op_initial(ctx, g, m):
    what = ctx.pick(['add', 'add_from', 'remove', 'ior'])
    if what == 'add':
        n = a_node(ctx, m, 0.2)
        err = attempt(lambda: g.states.initial.add(n))
        why = None if n in m.nodes else 'node'
        if why is None:
            m.initial.add(n)
        else:
            ctx.fault('unknown-state')
        what = f'initial state {n!r}'
    elif what == 'remove':
        if not m.initial:
            return None
        n = ctx.pick(sorted(m.initial, key=repr))
        err = attempt(lambda: g.states.initial.remove(n))
        m.initial.discard(n)
        why = None
        what = f'not initial state {n!r}'
    else:
        ns = [a_node(ctx, m, 0.1) for _ in range(ctx.integer(1, 3))]
        src, k = stream(ctx, ns)
        if what == 'ior':
            def f():
                i = g.states.initial
                i |= src
        else:
            f = lambda: g.states.initial.add_from(src)
        err = attempt(f)
        why = None
        if k is not None:
            why = 'iterator'
        elif any(n not in m.nodes for n in ns):
            why = 'node'
            ctx.fault('unknown-state')
        else:
            m.initial.update(ns)
        what = f'initial states {ns} failing at {k}'
    expect(ctx, why, err, what)
    return what, why


def op_type(ctx, kind, g, m):
    sides = [(e, k) for e in (False, True) for k, t in m.types(e).items()
             if t.kind in ('power', 'set')]
    if not sides:
        return None
    e, k = ctx.pick(sides)
    if ctx.chance(0.2):
        if shrink(ctx, g, m, e, k):
            return f'shrink {k}', None
        return None
    x = ctx.pick(['d0', 'd1', 'd2', 'd3'])
    grow(ctx, kind, g, m, e, k, x)
    return f'grow {k} {x}', None


def matches(types, lab, want):
    if lab == want:
        return True
    if set(lab) != set(want):
        return False
    for k, v in lab.items():
        if k not in types:
            return None
        if not types[k].match(v, want[k]):
            return False
    return True


def op_find(ctx, g, m):
    if not m.consistent():
        return None
    ctx.probe('found')
    if ctx.chance(0.5):
        lab = gen_label(ctx, m, False, p_bad=0, p_key=0)
        if m.nodes and ctx.chance(0.5):
            lab = copy.deepcopy(ctx.pick(list(m.nodes.values())))
        sub = None
        arg = None
        if ctx.chance(0.5) and m.nodes:
            sub = ctx.subset(list(m.nodes))
            arg = ctx.pick([list, set, tuple])(sub)
            if arg in [(), ('p', 1)]:
                arg = list(sub)
            if ctx.chance(0.3):
                sub = [ctx.pick(list(m.nodes))]
                arg = sub[0]
        want = [n for n in m.nodes if sub is None or n in sub]
        if lab:
            ok = {n: matches(m.ntypes, m.nodes[n], lab) for n in want}
            if None in ok.values():
                return None
            want = [n for n in want if ok[n]]
        d, kw = split(ctx, lab)
        before = copy.deepcopy(d)
        what = f'find states {arg} {d} {kw}'
        res = g.states.find(arg, d, **kw)
        got = [n for n, _ in res]
        if len(got) != len(set(got)) or set(got) != set(want):
            raise Violation('find', f'{what}: {got}, should be {want}')
        for n, x in res:
            if dict(x) != m.nodes[n]:
                raise Violation('find', f'{what}: label {x} of {n}')
        unchanged(before, d, what)
        return what, None
    lab = gen_label(ctx, m, True, p_bad=0, p_key=0)
    alle = [x for ls in m.edges.values() for x in ls]
    if alle and ctx.chance(0.6):
        lab = copy.deepcopy(ctx.pick(alle))
    fro = to = None
    if m.nodes and ctx.chance(0.4):
        fro = ctx.subset(list(m.nodes))
    if m.nodes and ctx.chance(0.4):
        to = ctx.subset(list(m.nodes))
    want = list()
    for (u, v), ls in m.edges.items():
        if fro is not None and u not in fro or to is not None and v not in to:
            continue
        for x in ls:
            if lab:
                if not x:
                    return None  # left open
                ok = matches(m.etypes, x, lab)
                if ok is None:
                    return None
                if not ok:
                    continue
            want.append((u, v, x))
    d, kw = split(ctx, lab)
    before = copy.deepcopy(d)
    what = f'find edges {fro} {to} {d} {kw}'
    res = g.transitions.find(fro, to, d, **kw)
    def rep(ts):
        return sorted(repr((u, v)) + listing([x])[0] for u, v, x in ts)
    if rep(res) != rep(want):
        raise Violation('find', f'{what}: {res}, should be {want}')
    unchanged(before, d, what)
    return what, None


def op_reach(ctx, g, m):
    if not m.nodes:
        return None
    ctx.probe('reach')
    sub = ctx.subset(list(m.nodes))
    want = set().union(*map(m.succ, sub)) if sub else set()
    got = g.states.post(sub)
    if set(got) != want:
        raise Violation('post', f'post({sub}) is {got}, should be {want}')
    want = set().union(*map(m.pred, sub)) if sub else set()
    got = g.states.pre(sub)
    if set(got) != want:
        raise Violation('pre', f'pre({sub}) is {got}, should be {want}')
    n = ctx.pick(list(m.nodes))
    for f, step, name in (
            (g.states.forward_reachable, m.succ, 'forward'),
            (g.states.backward_reachable, m.pred, 'backward')):
        seen = set()
        todo = [n]
        while todo:
            for v in step(todo.pop()):
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        got = attempt_value(f, n, name)
        if set(got) - {n} != seen - {n}:
            raise Violation('reach', f'{name} reachable from {n!r}: {got}, '
                            f'should be {seen}')
    if g.states.is_terminal(n) != (not m.succ(n)):
        raise Violation('terminal', f'{n!r}')
    if g.has_deadends() != any(not m.succ(x) for x in m.nodes):
        raise Violation('terminal', 'has_deadends')
    return 'reachability', None


def attempt_value(f, x, name):
    try:
        return f(x)
    except Exception as e:
        raise Violation('reach', f'{name} reachable from {x!r}: '
                        f'{type(e).__name__}: {e}')


def op_deadends(ctx, g, m):
    ctx.probe('deadends')
    err = attempt(g.remove_deadends)
    had = bool(m.nodes)
    while True:
        dead = [n for n in m.nodes if not m.succ(n)]
        if not dead:
            break
        for n in dead:
            m.remove_node(n)
    why = 'empty' if had and not m.nodes else None
    expect(ctx, why, err, 'remove deadends')
    return 'remove deadends', why


def op_copy(ctx, g, m):
    how = ctx.pick(['deepcopy', 'pickle'])
    if not m.consistent():
        return g
    try:
        if how == 'deepcopy':
            h = copy.deepcopy(g)
        else:
            h = pickle.loads(pickle.dumps(g))
    except Exception as e:
        raise Violation('copy', f'{how}: {type(e).__name__}: {e}')
    ctx.probe('copied')
    return h


def op_color(ctx, g, m):
    want = max((x['color'] for x in m.nodes.values() if 'color' in x),
               default=-1)
    if any('color' not in x for x in m.nodes.values()):
        return None
    if g.max_color != want:
        raise Violation('color', f'maximum color {g.max_color}, should be '
                        f'{want}')
    for k in (0, 1):
        got = set(g.player_states(k))
        if got != {n for n, x in m.nodes.items() if x['player'] == k}:
            raise Violation('player', f'states of player {k}: {got}')
    for e in g.edges():
        if g.edge_controlled_by(e) != m.nodes[e[0]]['player']:
            raise Violation('player', f'edge {e}')
    return 'color', None


def op_add_initial(ctx, g, m):
    from tulip.transys import transys
    if not m.consistent():
        return None
    t = m.ntypes['ap']
    labs = [set(ctx.subset(t.values)) for _ in range(ctx.integer(1, 2))]
    err = attempt(lambda: transys.add_initial_states(g, labs))
    m.initial.update(n for n, x in m.nodes.items() if x == {'ap': x.get('ap')}
                     and x['ap'] in labs)
    expect(ctx, None, err, f'initial states labeled {labs}')
    return f'initial states labeled {labs}', None


def from_tuple(ctx):
    """A transition system from a tuple, or from a sequence of labels."""
    from tulip.transys import transys
    ctx.probe('tuple')
    m = Model()
    m.ntypes = dict(ap=Type('ap', 'power', [], set(), True))
    m.etypes = dict(env_actions=Type('env_actions', 'set', []),
                    sys_actions=Type('sys_actions', 'set', []))
    ap = ['p', 'q', 'rr']
    n = ctx.integer(1, 4)
    labels = [set(ctx.subset(ap)) for _ in range(n)]
    pre = ctx.pick(['s', None, 'x_'])
    how = ctx.pick(['tuple', 'line', 'cycle'])
    try:
        if how == 'tuple':
            base = [f'q{i}' for i in range(n)] if pre is None and \
                ctx.chance(0.5) else list(range(n))
            def name(i):
                return base[i] if pre is None else f'{pre}{base[i]}'
            init = ctx.subset(range(n))
            given = ctx.pick(['pairs', 'list', 'none'])
            acts = ctx.pick([None, ['go', 'stop']])
            trans = list()
            for i in range(n):
                for j in range(n):
                    if ctx.chance(0.4):
                        a = (ctx.pick(acts),) if acts else ()
                        trans.append((base[i], base[j]) + a)
            lab = None
            if given == 'pairs':
                lab = [(base[i], labels[i]) for i in range(n)]
            elif given == 'list':
                lab = copy.deepcopy(labels)
            else:
                labels = [set() for _ in labels]
            def some(x):
                if x is None or ctx.chance(0.6):
                    return x
                return iter(x)
            g = transys.tuple2fts(
                some(base), some([base[i] for i in init]), some(ap),
                some(lab), some(acts), some(trans),
                prepend_str=pre)
            for i in range(n):
                m.nodes[name(i)] = dict(ap=set(labels[i]))
            m.initial = {name(i) for i in init}
            ix = {b: i for i, b in enumerate(base)}
            for t in trans:
                d = dict(sys_actions=t[2]) if acts else dict()
                m.edges.setdefault(
                    (name(ix[t[0]]), name(ix[t[1]])), list()).append(d)
            m.ntypes['ap'].values = list(ap)
            m.etypes['sys_actions'].values = list(acts or [])
        else:
            args = [next(iter(x)) if len(x) == 1 and ctx.chance(0.5) else x
                    for x in labels]
            k = 0
            if how == 'line':
                k = ctx.choose(3)
                g = transys.line_labeled_with(copy.deepcopy(args), k)
            else:
                g = transys.cycle_labeled_with(copy.deepcopy(args))
            for i in range(n):
                m.nodes[f's{k + i}'] = dict(ap=set(labels[i]))
            for i in range(n - 1):
                m.edges[f's{k + i}', f's{k + i + 1}'] = [dict()]
            if how == 'cycle':
                m.edges[f's{n - 1}', 's0'] = [dict()]
            m.ntypes['ap'].values = sorted(set().union(*labels))
    except Violation:
        raise
    except Exception as e:
        raise Violation('tuple', f'{how}: {type(e).__name__}: {e}')
    return 'fts', g, m


def run(ctx):
    ctx.component('tulip.transys.labeled_graphs, transys, mathset', 'real')
    ctx.component('callers of the graph (iterators that fail)', 'simulated')
    tup = ctx.chance(0.12)
    if tup:
        kind, g, m = from_tuple(ctx)
    else:
        kind, g, m = build(ctx)
    twins = [(g, m, kind)]
    compare(ctx, g, m, 'building')
    rejected = 0
    big = False
    for _ in range(ctx.integer(6, 30)):
        ctx.tick()
        g, m, kind = twins[ctx.choose(len(twins))]
        op = ctx.weighted([
            (6, 'edge'), (6, 'node'), (3, 'nodes'), (3, 'edges'),
            (3, 'initial'), (3, 'subscript'), (4, 'type'), (3, 'remove'),
            (4, 'find'), (2, 'reach'), (1, 'adj'), (1, 'default'),
            (1, 'deadends'), (1, 'copy'), (1, 'special')])
        if op == 'copy':
            if len(twins) < 3:
                h = op_copy(ctx, g, m)
                if h is not g:
                    twins.append((h, m.copy(), kind))
                    compare(ctx, *twins[-1][:2], 'copying')
            continue
        f = dict(edge=op_edge, node=op_node, nodes=op_nodes, edges=op_edges,
                 initial=op_initial, subscript=op_subscript, remove=op_remove,
                 find=op_find, reach=op_reach, adj=op_adj,
                 default=op_default, deadends=op_deadends).get(op)
        if op == 'type':
            res = op_type(ctx, kind, g, m)
        elif op == 'special':
            if kind == 'parity':
                res = op_color(ctx, g, m)
            elif kind == 'fts':
                res = op_add_initial(ctx, g, m)
            else:
                res = None
        else:
            res = f(ctx, g, m)
        if res is None:
            continue
        what, why = res
        ctx.log(what, why)
        rejected += why is not None
        ctx.state(kind, op, why, len(m.nodes), sum(map(len, m.edges.values())))
        for i, (h, mm, _) in enumerate(twins):
            compare(ctx, h, mm, what if h is g else f'{what} (on a copy)')
        if len(m.nodes) > 1 and sum(map(len, m.edges.values())) > 1:
            big = True
    ctx.nontrivial = big and rejected > 0
    ctx.sample = dict(kind=kind, nodes=len(m.nodes), rejected=rejected)
