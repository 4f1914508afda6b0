"""C20: minimum-violation planning, and shortest paths."""
import itertools

from ..core import Violation

RUNS = {'quick': 7000, 'thorough': 30000}
RULE = ('A run draws a (weighted) Kripke structure (at most 7 states), a '
        'prioritized specification (at most 3 rules with at most 2 states '
        'each, on at most 3 levels), and then plans, moves along the plan, '
        'and replans while roads open and close, prices change, labels '
        'move, and rules are added; each plan is compared with the optimum '
        'of a relaxation (Bellman-Ford) over the product as defined; '
        'non-trivial: a plan with at least 2 moves was found.')
TIME_UNIT = 'moves and edits'
STATE_MEASURE = 'pairs (product state, cost so far) on plans'
ASSUMPTIONS = [
    'a rule is violated by a step iff its automaton has no transition, '
    'between the automaton states of the step, labeled with the '
    'propositions of the target (this is how the product is documented '
    'in `mvp.py`)',
    'costs of transitions are nonnegative']
PROBES = ['plan', 'no-plan', 'violation', 'level-tie', 'zero-cost', 'replan',
          'closed', 'opened', 'repriced', 'relabeled', 'new-rule',
          'not-accepting', 'parallel', 'substring-names', 'numbers', 'mixed',
          'unweighted', 'no-initial', 'empty-level', 'dijkstra', 'null-name']
INF = float('inf')


class World:
    def __init__(self):
        self.S = list()
        self.S0 = set()
        self.L = dict()
        self.T = set()           # (s, t, cost)
        self.rules = list()      # (Q, Q0, F, D, priority, level)


def run(ctx):
    ctx.component('tulip.mvp, graph_algorithms, cost, transys', 'real')
    w = World()
    aps = ['a', 'b'][:ctx.integer(1, 2)] + ['g']
    vectors(ctx)
    if ctx.chance(0.25):
        dijkstra(ctx)
    weighted = not ctx.chance(0.2)
    if not weighted:
        ctx.probe('unweighted')
    ks = make_ks(ctx, w, aps, weighted)
    spec = make_spec(ctx, w, aps)
    best = 0
    for k in range(ctx.weighted([(2, 1), (2, 2), (2, 4)])):
        if k:
            ctx.probe('replan')
            edit(ctx, w, ks, spec, aps, weighted)
        path = plan(ctx, w, ks, spec)
        best = max(best, len(path))
        if path and ctx.chance(0.5):
            # the robot moves along the plan, and plans again from there
            i = ctx.choose(len(path))
            ctx.tick(i + 1)
            for s in sorted(w.S0, key=repr):
                ks.states.initial.remove(s)
            w.S0 = {path[i]}
            ks.states.initial.add(path[i])
    ctx.nontrivial = best > 2
    ctx.sample = f'{len(w.S)} states, {len(w.rules)} rules'


NAMES = [
    lambda i: f's{i}', lambda i: 's' + 'x' * i, lambda i: i,
    lambda i: ('s', i), lambda i: [i, f's{i}', ('t', i)][i % 3],
    lambda i: ['null', 'null0', 'n', 'nullnull', 'u'][i % 5] + '_' * (i // 5)]
KINDS = ['', 'substring-names', 'numbers', '', 'mixed', 'null-name']


def make_ks(ctx, w, aps, weighted):
    from tulip import transys as trs
    ks = trs.WeightedKripkeStructure() if weighted else trs.KripkeStructure()
    ks.atomic_propositions.add_from(aps)
    n = ctx.weighted([(1, 1), (1, 2), (2, 3), (2, 5), (1, 7)])
    i = ctx.choose(len(NAMES))
    if KINDS[i]:
        ctx.probe(KINDS[i])
    w.S = [NAMES[i](j) for j in range(n)]
    order = list(w.S)
    ctx.shuffle(order)
    for s in order:
        ks.states.add(s)
    for s in w.S:
        label(ctx, w, ks, s, aps)
    w.S0 = set(ctx.subset(w.S, 0.3))
    if not w.S0 and ctx.chance(0.9):
        w.S0 = {w.S[0]}
    if not w.S0:
        ctx.probe('no-initial')
    ks.states.initial.add_from(sorted(w.S0, key=repr))
    if ctx.chance(0.5) and n > 2:
        # a long way to the goal
        for s in w.S[:-1]:
            w.L[s] -= {'g'}
            ks.states[s]['ap'] = set(w.L[s])
        w.L[w.S[-1]] |= {'g'}
        ks.states[w.S[-1]]['ap'] = set(w.L[w.S[-1]])
        for u, v in zip(w.S, w.S[1:]):
            road(ctx, w, ks, weighted, u, v)
    for _ in range(ctx.weighted([
            (1, 0), (2, n // 2), (2, n), (1, 3 * n)])):
        road(ctx, w, ks, weighted)
    return ks


def label(ctx, w, ks, s, aps):
    x = frozenset(ctx.subset(aps[:-1], 0.4)) | frozenset(
        ['g'] if ctx.chance(0.2) else [])
    w.L[s] = x
    ks.states[s]['ap'] = set(x)


def road(ctx, w, ks, weighted, u=None, v=None):
    if u is None:
        u, v = ctx.pick(w.S), ctx.pick(w.S)
    c = ctx.weighted([(2, 0), (2, 1), (1, 2), (1, 5), (1, 0.5)])
    if not weighted:
        c = 0
    if (u, v, c) in w.T:
        return
    if any(e[:2] == (u, v) for e in w.T):
        ctx.probe('parallel')
    if weighted:
        ks.transitions.add(u, v, cost=c)
    else:
        ks.transitions.add(u, v)
    w.T.add((u, v, c))


def make_spec(ctx, w, aps):
    from tulip.spec.prioritized_safety import PrioritizedSpecification
    spec = PrioritizedSpecification()
    for _ in range(ctx.integer(1, 3)):
        rule(ctx, w, spec, aps)
    return spec


def rule(ctx, w, spec, aps):
    from tulip.transys.automata import FiniteStateAutomaton
    fa = FiniteStateAutomaton()
    fa.atomic_propositions.add_from(aps)
    q = ctx.integer(1, 2)
    names = ctx.pick([['q', 'q1'], [0, 1], ['x', 'y'], [('q',), 'q']])[:q]
    order = list(names)
    ctx.shuffle(order)
    fa.states.add_from(order)
    init = ctx.subset(names, 0.3) or [names[0]]
    fa.states.initial.add_from(init)
    acc = list(names)
    if q > 1 and ctx.chance(0.4):
        acc = [ctx.pick(names)]
        ctx.probe('not-accepting')
    fa.accepting.add_from(acc)
    letters = [frozenset(x) for k in range(len(aps) + 1)
               for x in itertools.combinations(aps, k)]
    D = set()
    p = ctx.pick([0.3, 0.6])
    for u in names:
        for v in names:
            for x in letters:
                if ctx.chance(p if u == v else p / 2):
                    D.add((u, v, x))
    todo = sorted(D, key=repr)
    ctx.shuffle(todo)
    for u, v, x in todo:
        fa.transitions.add(u, v, letter=set(x))
    priority = ctx.integer(1, 3)
    level = ctx.weighted([(3, 0), (2, 1), (1, 2)])
    spec.add_rule(fa, priority=priority, level=level)
    w.rules.append((names, set(init), set(acc), D, priority, level))
    levels = {r[5] for r in w.rules}
    if levels != set(range(max(levels) + 1)):
        ctx.probe('empty-level')
    # the rules are ordered by level, and as given within a level
    w.rules.sort(key=lambda r: r[5])
    ctx.require(
        [(r.priority(), r.level()) for r in spec] ==
        [(r[4], r[5]) for r in w.rules] and
        spec.get_num_levels() == max(levels) + 1 and
        len(spec) == len(w.rules), 'rules', 'order of rules')


def edit(ctx, w, ks, spec, aps, weighted):
    for _ in range(ctx.integer(1, 3)):
        ctx.tick()
        op = ctx.pick(['close', 'open', 'price', 'label', 'rule'])
        es = sorted(w.T, key=repr)
        if op == 'close' and es:
            e = ctx.pick(es)
            if weighted:
                ks.transitions.remove(e[0], e[1], {'cost': e[2]})
            else:
                ks.transitions.remove(e[0], e[1])
            w.T.discard(e)
            ctx.fault('road-closed')
            ctx.probe('closed')
        elif op == 'open':
            road(ctx, w, ks, weighted)
            ctx.fault('road-opened')
            ctx.probe('opened')
        elif op == 'price' and es and weighted:
            u, v, c = ctx.pick(es)
            d = ctx.integer(0, 4)
            if (u, v, d) in w.T:
                continue
            ks.transitions.remove(u, v, {'cost': c})
            ks.transitions.add(u, v, cost=d)
            w.T.discard((u, v, c))
            w.T.add((u, v, d))
            ctx.fault('repriced')
            ctx.probe('repriced')
        elif op == 'label':
            label(ctx, w, ks, ctx.pick(w.S), aps)
            ctx.fault('relabeled')
            ctx.probe('relabeled')
        elif op == 'rule' and len(w.rules) < 3:
            rule(ctx, w, spec, aps)
            ctx.probe('new-rule')


# -- reference ----------------------------------------------------------------
def step_cost(w, qs, rs, x, c):
    n = max(r[5] for r in w.rules) + 1
    cost = [0] * n
    for q, r, (_, _, _, D, prio, level) in zip(qs, rs, w.rules):
        if (q, r, x) not in D:
            cost[level] += prio
    return tuple(cost) + (c,)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def optimum(w):
    """Least cost of reaching the goal, by relaxation, or `None`."""
    Q = list(itertools.product(*(r[0] for r in w.rules)))
    Q0 = list(itertools.product(*(sorted(r[1], key=repr) for r in w.rules)))
    dist = dict()
    for s in w.S0:
        for q in Q:
            for p in Q0:
                d = step_cost(w, p, q, w.L[s], 0)
                if (s, q) not in dist or d < dist[s, q]:
                    dist[s, q] = d
    edges = [((u, p), (v, q), step_cost(w, p, q, w.L[v], c))
             for u, v, c in w.T for p in Q for q in Q]
    more = True
    while more:
        more = False
        for x, y, c in edges:
            if x not in dist:
                continue
            d = add(dist[x], c)
            if y not in dist or d < dist[y]:
                dist[y] = d
                more = True
    ends = [d for (s, q), d in dist.items() if 'g' in w.L[s] and
            all(a in r[2] for a, r in zip(q, w.rules))]
    return min(ends) if ends else None


def plan(ctx, w, ks, spec):
    from tulip import mvp
    ctx.tick()
    before = picture(ks), [picture(r.automaton()) for r in spec]
    cost, path, product_path, wpa = mvp.solve(ks, 'g', spec)
    ctx.require(
        before == (picture(ks), [picture(r.automaton()) for r in spec]),
        'changed-arguments', 'planning changes the system or the rules')
    want = optimum(w)
    ctx.log('plan', path, str(cost), want)
    if want is None:
        ctx.probe('no-plan')
        ctx.require(
            cost == INF and not path and not product_path, 'no-plan',
            f'a plan {path} of cost {cost} to a goal that is unreachable')
        return list()
    ctx.probe('plan')
    ctx.require(
        path, 'incomplete', f'no plan, though one has cost {want}')
    got = tuple(cost)
    ctx.require(
        got == want, 'optimal', f'cost {got} but the least cost is {want}')
    check_path(ctx, w, path, product_path, got)
    check_product(ctx, w, wpa, product_path, got)
    if any(got[:-1]):
        ctx.probe('violation')
    if sum(1 for x in got[:-1] if x) > 1:
        ctx.probe('level-tie')
    if not any(got):
        ctx.probe('zero-cost')
    return path


def check_path(ctx, w, path, product_path, got):
    """The path is an execution of the system with the cost returned."""
    ctx.require(
        len(product_path) == len(path) + 1 and
        [x[0] for x in product_path[1:]] == path and
        product_path[0][0] not in w.S, 'path',
        f'{path} for {product_path}')
    ctx.require(path[0] in w.S0, 'not-initial', f'{path}')
    ctx.require('g' in w.L[path[-1]], 'not-goal', f'{path}')
    p = product_path[0][1]
    ctx.require(
        all(a in r[1] for a, r in zip(p, w.rules)), 'rule-initial',
        f'{product_path}')
    q = product_path[-1][1]
    ctx.require(
        all(a in r[2] for a, r in zip(q, w.rules)), 'rule-accepting',
        f'{product_path}')
    sums = [step_cost(w, p, product_path[1][1], w.L[path[0]], 0)]
    for (u, p), (v, q) in zip(product_path[1:], product_path[2:]):
        prices = [c for a, b, c in w.T if (a, b) == (u, v)]
        ctx.require(prices, 'not-executable', f'{path}: {u} -> {v}')
        sums.append(step_cost(w, p, q, w.L[v], min(prices)))
        ctx.state(str((u, p)), str(sums[-1]))
    total = sums[0]
    for x in sums[1:]:
        total = add(total, x)
    ctx.require(total == got, 'cost', f'{got} for a path of cost {total}')


def check_product(ctx, w, wpa, product_path, got):
    """A random transition of the product automaton has its cost."""
    Q = list(itertools.product(*(r[0] for r in w.rules)))
    null = product_path[0][0]
    ctx.require(
        set(wpa.states) == {(s, q) for s in w.S + [null] for q in Q},
        'product-states', '')
    for _ in range(2):
        u, p = ctx.pick(product_path)
        v, q = ctx.pick(w.S), ctx.pick(Q)
        have = sorted(tuple(d['cost']) for a, b, d in
                      wpa.transitions.find([(u, p)], [(v, q)]))
        if u == null:
            initial = all(a in r[1] for a, r in zip(p, w.rules))
            prices = [0] if v in w.S0 and initial else []
        else:
            prices = [c for a, b, c in w.T if (a, b) == (u, v)]
        want = sorted(step_cost(w, p, q, w.L[v], c) for c in prices)
        ctx.require(
            have == want, 'product-transitions',
            f'{(u, p)} -> {(v, q)}: {have} for {want}')


def picture(g):
    def plain(v):
        return frozenset(v) if isinstance(v, (set, list)) else v
    return (
        frozenset((u, frozenset((k, plain(v)) for k, v in d.items()))
                  for u, d in g.nodes(data=True)),
        frozenset((u, v, frozenset((k, plain(x)) for k, x in d.items()))
                  for u, v, d in g.edges(data=True)),
        frozenset(g.states.initial),
        frozenset(getattr(g, 'accepting', ())))


# -- parts --------------------------------------------------------------------
def vectors(ctx):
    """Costs are added entrywise and ordered lexicographically."""
    from tulip.transys.cost import VectorCost
    n = ctx.integer(1, 3)
    a, b = ([ctx.integer(0, 2) for _ in range(n)] for _ in range(2))
    x, y = VectorCost(a), VectorCost(b)
    for name, got, want in (
            ('<', x < y, a < b), ('>', x > y, a > b), ('==', x == y, a == b),
            ('<=', x <= y, a <= b), ('>=', x >= y, a >= b),
            ('!=', x != y, a != b), ('+', list(x + y), list(add(a, b))),
            ('+1', list(x + 1), [u + 1 for u in a]),
            ('sum', list(sum([x, y])), list(add(a, b))),
            ('inf', x < INF, True)):
        ctx.require(got == want, 'vector', f'{a} {name} {b}: {got}')
    if ctx.chance(0.1):
        for f in (lambda: x + VectorCost(a + [0]),
                  lambda: x < VectorCost(a + [0])):
            try:
                f()
            except ValueError:
                continue
            raise Violation('vector', 'costs of different length are mixed')


def dijkstra(ctx):
    from tulip import transys as trs
    from tulip.transys import graph_algorithms as alg
    ctx.probe('dijkstra')
    w = World()
    ks = make_ks(ctx, w, ['g'], True)
    sources = ctx.subset(w.S, 0.4) or [w.S[0]]
    targets = ctx.subset(w.S, 0.3)
    dist = {s: 0 for s in sources}
    for _ in w.S:
        for u, v, c in w.T:
            if u in dist and dist[u] + c < dist.get(v, INF):
                dist[v] = dist[u] + c
    want = min([dist[t] for t in targets if t in dist], default=INF)
    if len(sources) == 1 and ctx.chance(0.5):
        cost, path = alg.dijkstra_single_source_multiple_targets(
            ks, sources[0], targets)
    else:
        cost, path = alg.dijkstra_multiple_sources_multiple_targets(
            ks, sources, targets)
    ctx.require(cost == want, 'shortest', f'{cost} for {want}: {path}')
    if want == INF:
        ctx.require(not path, 'shortest', f'{path} for no path')
        return
    ctx.require(
        path and path[0] in sources and path[-1] in targets,
        'shortest', f'{path} from {sources} to {targets}')
    total = 0
    for u, v in zip(path, path[1:]):
        prices = [c for a, b, c in w.T if (a, b) == (u, v)]
        ctx.require(prices, 'shortest', f'{path} is not a path')
        total += min(prices)
    ctx.require(total == cost, 'shortest', f'{path} costs {total}')
