"""C16: products of Büchi automata and transition systems."""
from ..core import Violation

RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('A run builds an automaton (at most 4 states, by a history of '
        'additions and removals, or by `tuple2ba`) and a transition system '
        '(at most 6 states, with or without actions), computes both eager '
        'products, and expands the on-the-fly product in a drawn order, '
        'with repetitions and a system that can grow; non-trivial: the '
        'product has a transition.')
TIME_UNIT = 'edits and expansions'
STATE_MEASURE = 'partial expansions (sets of expanded and known states)'
ASSUMPTIONS = [
    'guards are letters (sets of propositions), or {True} for any letter',
    'labels of the transition system are subsets of its propositions']
PROBES = ['eager', 'on-the-fly', 'grown', 'repeated', 'dead-end', 'actions',
          'any-letter', 'removed-accepting', 'removed-state', 'tuple2ba',
          'no-initial', 'empty-product', 'alphabet', 'rabin',
          'rabin-removed', 'rabin-rejected']


class Model:
    """The definitions, over plain sets."""

    def __init__(self):
        self.S = list()
        self.S0 = set()
        self.L = dict()
        self.T = set()          # (s, t, label)
        self.Q = list()
        self.Q0 = set()
        self.F = set()
        self.D = set()          # (q, r, letter)

    def step(self, q, letter):
        return {r for p, r, x in self.D
                if p == q and x in (letter, frozenset({True}))}

    def initial(self):
        return {(s, r) for s in self.S0 for q in self.Q0
                for r in self.step(q, self.L[s])}

    def succ(self, sq):
        s, q = sq
        return {((t, r), label) for u, t, label in self.T if u == s
                for r in self.step(q, self.L[t])}

    def product(self):
        seen = set(self.initial())
        todo = list(seen)
        edges = set()
        while todo:
            u = todo.pop()
            for v, label in self.succ(u):
                edges.add((u, v, label))
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return seen, edges

    def acc(self, nodes):
        return {u for u in nodes if u[1] in self.F}


def run(ctx):
    ctx.component('tulip.transys.products, automata, transys', 'real')
    from tulip.transys import products
    if ctx.chance(0.12):
        rabin(ctx)
        return
    m = Model()
    props = ['p', 'q', 'r'][:ctx.integer(1, 3)]
    ba = make_ba(ctx, m, props)
    if len(props) > 1 and ctx.chance(0.2):
        # the system has fewer propositions
        props = props[1:]
    ts, named = make_ts(ctx, m, props)
    ctx.log('S0', sorted(map(str, m.S0)), 'Q0', sorted(map(str, m.Q0)))
    if ctx.chance(0.05):
        letters(ctx, ts)
    before = (picture(ts), picture(ba))
    want = m.product()
    if not m.S0:
        ctx.probe('no-initial')
    if not want[0]:
        ctx.probe('empty-product')
    ctx.probe('eager')
    # eager products
    ctx.tick()
    prod, persistent = products.ts_ba_sync_prod(ts, ba)
    compare(ctx, 'ts_ba', m, prod, want, persistent, 'actions')
    ctx.require(
        set(prod.states.initial) == m.initial(), 'initial',
        f'{set(prod.states.initial)} for {m.initial()}')
    for u, d in prod.nodes(data=True):
        ctx.require(set(d['ap']) == {u[1]}, 'label', f'{u} {d}')
    ctx.tick()
    prod = products.ba_ts_sync_prod(ba, ts)
    compare(ctx, 'ba_ts', m, prod, want, prod.accepting, 'letter')
    ctx.require(
        set(prod.states.initial) == m.initial(), 'initial',
        f'{set(prod.states.initial)} for {m.initial()}')
    ctx.require(
        before == (picture(ts), picture(ba)), 'changed-arguments',
        'a product changes the graphs that it is given')
    # on the fly
    lazy(ctx, m, ba, ts, named)
    ctx.nontrivial = bool(want[1])
    ctx.sample = f'{len(m.S)}x{len(m.Q)}'


def letters(ctx, ts):
    """An automaton over an alphabet that is not a powerset."""
    from tulip import transys as trs
    from tulip.transys import products
    ctx.probe('alphabet')
    sigma = {'a', 'b', ('c', 1)}
    trans = {(ctx.choose(2), ctx.choose(2), ctx.pick(sorted(sigma, key=str)))
             for _ in range(ctx.integer(1, 5))}
    ba = trs.tuple2ba(
        [0, 1], [0], [1], set(sigma), sorted(trans, key=str),
        atomic_proposition_based=False)
    got = {(u, v, d['letter']) for u, v, d in ba.edges(data=True)}
    ctx.require(
        got == trans and set(ba.accepting) == {1} and
        set(ba.alphabet) == sigma, 'tuple2ba', f'{ba}')
    for f in (lambda: products.ba_ts_sync_prod(ba, ts),
              lambda: products.ts_ba_sync_prod(ts, ba)):
        try:
            f()
        except ValueError:
            pass
        else:
            raise Violation(
                'ill-defined', 'product with an automaton whose letters '
                'are not sets of propositions')


def rabin(ctx):
    """A history of states and pairs of a Rabin automaton."""
    from tulip import transys as trs
    from tulip.transys import automata
    ctx.probe('rabin')
    a = automata.DRA() if ctx.chance(0.5) else automata.RabinAutomaton(
        atomic_proposition_based=True)
    a.atomic_propositions.update(['p'])
    name = ctx.pick([lambda i: f'q{i}', lambda i: i, lambda i: ('q', i)])
    states, pairs, edges = list(), list(), set()
    fresh = 0

    def some():
        return ctx.subset(states, 0.4)
    for _ in range(ctx.integer(3, 20)):
        ctx.tick()
        op = ctx.pick(['state', 'state', 'pair', 'extend', 'remove-state',
                       'remove-state', 'remove-pair', 'edge', 'stranger',
                       'no-pair'])
        ctx.log('rabin', op)
        if op == 'state' or not states:
            a.states.add(name(fresh))
            states.append(name(fresh))
            fresh += 1
        elif op == 'pair':
            g, b = some(), some()
            kind = ctx.pick([list, set, tuple])
            a.accepting.add(kind(g), kind(b))
            pairs.append((set(g), set(b)))
        elif op == 'extend' and pairs:
            k = ctx.choose(len(pairs))
            g, b = some(), some()
            a.accepting.add_states(k, g, b)
            pairs[k][0].update(g)
            pairs[k][1].update(b)
        elif op == 'remove-state':
            u = ctx.pick(states)
            if any(u in g | b for g, b in pairs):
                ctx.probe('rabin-removed')
            if ctx.chance(0.5):
                a.states.remove(u)
            else:
                a.states.remove_from([u])
            states.remove(u)
            for g, b in pairs:
                g.discard(u)
                b.discard(u)
            edges = {e for e in edges if u not in e}
        elif op == 'remove-pair' and pairs:
            k = ctx.choose(len(pairs))
            g, b = pairs[k]
            a.accepting.remove(sorted(g, key=str), sorted(b, key=str))
            del pairs[pairs.index((g, b))]
        elif op == 'edge':
            u, v = ctx.pick(states), ctx.pick(states)
            if (u, v) not in edges:
                a.transitions.add(u, v, letter={'p'})
                edges.add((u, v))
        elif op == 'stranger':
            # only states can be good or bad
            g, b = some() + ['stranger'], some()
            if ctx.chance(0.5):
                g, b = b, g
            rejected(ctx, a.accepting.add, ValueError, g, b)
        elif op == 'no-pair':
            rejected(ctx, a.accepting.add_states, IndexError,
                     len(pairs) + ctx.choose(2), [], [])
            g, b = set(some()), set(some())
            if (g, b) not in pairs:
                rejected(ctx, a.accepting.remove, ValueError, g, b)
        got = [(set(g), set(b)) for g, b in a.accepting]
        ctx.require(
            got == pairs and
            [(set(g), set(b)) for g, b in a.accepting()] == pairs,
            'rabin-pairs', f'after {op}: {got}, not {pairs}')
        for k, (g, b) in enumerate(pairs):
            ctx.require(
                set(a.accepting.good(k)) == g and
                set(a.accepting.bad(k)) == b and
                tuple(map(set, a.accepting[k])) == (g, b), 'rabin-pairs',
                f'pair {k}')
        ctx.require(
            set(a.nodes) == set(states) and
            {(u, v) for u, v in a.edges()} == edges, 'rabin-graph',
            f'after {op}: {list(a.nodes)} {list(a.edges())}')
        ctx.require(
            a.accepting.has_superset(a.states) and
            not a.accepting.has_superset(trs.BA().states),
            'rabin-superset', op)
        ctx.state('rabin', len(states), len(pairs), op)
    ctx.nontrivial = bool(pairs)
    ctx.sample = f'rabin {len(states)} {len(pairs)}'


def rejected(ctx, f, error, *args):
    ctx.probe('rabin-rejected')
    try:
        f(*args)
    except error:
        return
    raise Violation('accepted', f'{f.__name__}{args}')


def picture(g):
    def plain(v):
        return frozenset(v) if isinstance(v, (set, list)) else v
    return (
        frozenset((u, frozenset((k, plain(v)) for k, v in d.items()))
                  for u, d in g.nodes(data=True)),
        frozenset((u, v, frozenset((k, plain(x)) for k, x in d.items()))
                  for u, v, d in g.edges(data=True)),
        frozenset(g.states.initial),
        frozenset(getattr(g, 'accepting', ())))


def letters_of(m, edges):
    return {(u, v, m.L[v[0]]) for u, v, _ in edges}


def edges_of(g, kind):
    r = set()
    for u, v, d in g.edges(data=True):
        if kind == 'letter':
            x = frozenset(d['letter'])
        else:
            x = frozenset(d.items())
        r.add((u, v, x))
    return r


def compare(ctx, name, m, g, want, accepting, kind):
    nodes, edges = want
    if kind == 'letter':
        edges = letters_of(m, edges)
    got = set(g.nodes)
    ctx.require(
        got == nodes, 'states',
        f'{name}: missing {nodes - got}, extra {got - nodes}')
    got = edges_of(g, kind)
    ctx.require(
        got == edges, 'transitions',
        f'{name}: missing {edges - got}, extra {got - edges}')
    got = set(accepting)
    ctx.require(
        got == m.acc(nodes), 'accepting',
        f'{name}: {got} for {m.acc(nodes)}')


def make_ba(ctx, m, props):
    from tulip import transys as trs
    letters = list()
    for k in range(2 ** len(props)):
        letters.append(frozenset(
            x for i, x in enumerate(props) if k >> i & 1))
    anyl = ctx.chance(0.3)
    if anyl:
        letters += [frozenset({True})] * 3
        ctx.probe('any-letter')
    aps = list(props) + ([True] if anyl else [])
    n = ctx.integer(1, 4)
    name = ctx.pick([
        lambda i: f'q{i}', lambda i: i, lambda i: ('q', i)])
    states = [name(i) for i in range(n)]

    def draw():
        m.Q = list(states)
        m.Q0 = set(ctx.subset(states, 0.4)) or {states[0]}
        m.F = set(ctx.subset(states, 0.4))
        for _ in range(ctx.integer(1, 4 * n)):
            m.D.add((ctx.pick(states), ctx.pick(states),
                     ctx.pick(letters)))
    if ctx.chance(0.2):
        draw()
        ctx.probe('tuple2ba')
        pre = None
        if all(isinstance(x, (str, int)) for x in states) and (
                ctx.chance(0.3)):
            pre = 'z'
        ba = trs.tuple2ba(
            list(states), sorted(m.Q0, key=str), sorted(m.F, key=str),
            aps, [(u, v, set(x)) for u, v, x in sorted(m.D, key=repr)],
            prepend_str=pre)
        if pre:
            def w(x):
                return pre + str(x)
            m.Q = [w(x) for x in m.Q]
            m.Q0 = {w(x) for x in m.Q0}
            m.F = {w(x) for x in m.F}
            m.D = {(w(u), w(v), x) for u, v, x in m.D}
        return ba
    ba = trs.BA()
    ba.atomic_propositions.update(aps)
    draw()
    ba.states.add_from(states)
    for x in sorted(m.Q0, key=str):
        ba.states.initial.add(x)
    ba.accepting.update(sorted(m.F, key=str))
    for u, v, x in sorted(m.D, key=repr):
        ba.transitions.add(u, v, letter=set(x))
    # a history of edits
    for k in range(ctx.weighted([(2, 0), (1, 2), (1, 5)])):
        ctx.tick()
        op = ctx.pick(['add-edge', 'add', 'remove', 'remove-edge', 'accept',
                       'initial', 'unaccept'])
        ctx.log('edit', op)
        u, v = ctx.pick(m.Q), ctx.pick(m.Q)
        if op == 'add-edge':
            x = ctx.pick(letters)
            if (u, v, x) not in m.D:
                ba.transitions.add(u, v, letter=set(x))
                m.D.add((u, v, x))
        elif op == 'add':
            w = name(10 + k)
            ba.states.add(w)
            m.Q.append(w)
        elif op == 'remove' and len(m.Q) > 1:
            ctx.probe('removed-accepting' if u in m.F else 'removed-state')
            if ctx.chance(0.5):
                ba.states.remove(u)
            else:
                ba.states.remove_from([u])
            m.Q.remove(u)
            m.Q0.discard(u)
            m.F.discard(u)
            m.D = {e for e in m.D if u not in e[:2]}
        elif op == 'remove-edge':
            es = sorted((e for e in m.D), key=repr)
            if es:
                u, v, x = e = ctx.pick(es)
                ba.transitions.remove(u, v, letter=set(x))
                m.D.discard(e)
        elif op == 'accept':
            ba.accepting.add(u)
            m.F.add(u)
        elif op == 'unaccept':
            if u in m.F:
                ba.accepting.remove(u)
                m.F.discard(u)
        elif op == 'initial':
            ba.states.initial.add(u)
            m.Q0.add(u)
    ctx.require(
        set(ba.nodes) == set(m.Q) and set(ba.accepting) == m.F and
        set(ba.states.initial) == m.Q0 and edges_of(ba, 'letter') == m.D,
        'edits', f'{ba}')
    return ba


def make_ts(ctx, m, props):
    from tulip import transys as trs
    ts = trs.FTS()
    ts.atomic_propositions.update(props)
    named = ctx.chance(0.5)
    if named:
        ctx.probe('actions')
        ts.sys_actions.update(['go', 'stop'])
        ts.env_actions.update(['rain', 'sun'])
    n = ctx.integer(1, 6)
    name = ctx.pick([
        lambda i: f's{i}', lambda i: i, lambda i: ('s', i)])
    for i in range(n):
        add_state(ctx, m, ts, name(i), props)
    m.S0 = set(ctx.subset(m.S, 0.4))
    if not m.S0 and ctx.chance(0.9):
        m.S0 = {m.S[0]}
    ts.states.initial.update(sorted(m.S0, key=str))
    for _ in range(ctx.integer(0, 2 * n)):
        add_edge(ctx, m, ts, named)
    ts._vsim_name = name
    return ts, named


def add_state(ctx, m, ts, s, props):
    x = frozenset(ctx.subset(props))
    ts.states.add(s, ap=set(x))
    m.S.append(s)
    m.L[s] = x


def add_edge(ctx, m, ts, named):
    u, v = ctx.pick(m.S), ctx.pick(m.S)
    label = dict()
    if named:
        label['sys_actions'] = ctx.pick(['go', 'stop'])
        label['env_actions'] = ctx.pick(['rain', 'sun'])
    e = (u, v, frozenset(label.items()))
    if e in m.T:
        return
    ts.transitions.add(u, v, attr_dict=label)
    m.T.add(e)


def lazy(ctx, m, ba, ts, named):
    from tulip import transys as trs
    ctx.probe('on-the-fly')
    g = trs.OnTheFlyProductAutomaton(ba, ts)
    known = set(m.initial())
    edges = dict()         # expanded states
    check(ctx, m, g, known, edges)
    props = [x for x in ts.atomic_propositions]
    for k in range(ctx.integer(0, 14)):
        ctx.tick()
        op = ctx.weighted([(6, 'expand'), (1, 'grow'), (1, 'grow-state')])
        if op == 'grow':
            add_edge(ctx, m, ts, named)
            ctx.probe('grown')
            continue
        if op == 'grow-state':
            add_state(ctx, m, ts, ts._vsim_name(100 + k), sorted(props))
            continue
        if not known:
            break
        # successors of new states, in any order; or again
        fresh = sorted((u for u in known if u not in edges), key=repr)
        if fresh and ctx.chance(0.85):
            u = ctx.pick(fresh)
        else:
            u = ctx.pick(sorted(known, key=repr))
            if u in edges:
                ctx.probe('repeated')
        expand(ctx, m, g, known, edges, u)
    if ctx.chance(0.5):
        # the states that are known can have been expanded before
        ctx.tick()
        g.add_all_states()
        todo = sorted(known, key=repr)
        while todo:
            u = todo.pop()
            s = m.succ(u)
            edges[u] = s
            for v, _ in s:
                if v not in known:
                    known.add(v)
                    todo.append(v)
    else:
        while True:
            stale = sorted(
                (u for u in known if edges.get(u) != m.succ(u)), key=repr)
            if not stale:
                break
            ctx.tick()
            expand(ctx, m, g, known, edges, ctx.pick(stale))
    check(ctx, m, g, known, edges)
    compare(ctx, 'on-the-fly', m, g, m.product(), g.accepting, 'letter')


def expand(ctx, m, g, known, edges, u):
    s = m.succ(u)
    if not s:
        ctx.probe('dead-end')
    new = {v for v, _ in s} - known
    ctx.log('expand', u)
    got = g.add_successors(*u)
    ctx.require(
        set(got) == new, 'new-states', f'{u}: {got} for {new}')
    known |= new
    edges[u] = edges.get(u, set()) | s
    check(ctx, m, g, known, edges)


def check(ctx, m, g, known, edges):
    """Only what was visited is there, and all of it."""
    ctx.state(frozenset(known), frozenset(edges))
    ctx.require(
        set(g.states.initial) == m.initial(), 'initial',
        f'{set(g.states.initial)} for {m.initial()}')
    want = {(u, v, m.L[v[0]]) for u, s in edges.items() for v, _ in s}
    got = set(g.nodes)
    ctx.require(
        got == known, 'states',
        f'on-the-fly: missing {known - got}, extra {got - known}')
    got = edges_of(g, 'letter')
    ctx.require(
        got == want, 'transitions',
        f'on-the-fly: missing {want - got}, extra {got - want}')
    ctx.require(
        set(g.accepting) == m.acc(known), 'accepting',
        f'on-the-fly: {set(g.accepting)} for {m.acc(known)}')
