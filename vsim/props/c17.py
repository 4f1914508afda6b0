"""C17: an abstraction and its system, in lockstep."""
from ..core import Violation

RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('A run draws a transition system (at most 7 states), computes its '
        'bisimulation and dual-simulation abstractions, and plays lockstep '
        'games in both directions from all related states (one side moves, '
        'the other answers through the returned maps); non-trivial: '
        'an abstraction has fewer cells than states, or a cell was split.')
TIME_UNIT = 'moves'
STATE_MEASURE = 'related pairs (state, cell) visited in the games'
ASSUMPTIONS = [
    'the label of a state is its set of propositions, in any order',
    'actions on transitions are not part of the relation (the abstraction '
    'drops them, as documented)']
PROBES = ['bi', 'dual', 'split', 'merged', 'overlap', 'dead-end',
          'self-loop', 'initial', 'no-initial', 'parallel', 'action-types', 'label-order']


def run(ctx):
    ctx.component('tulip.transys.transys.simu_abstract', 'real')
    from tulip import transys as trs
    sys_, env = 'sys_actions', 'env_actions'
    if ctx.chance(0.15):
        ctx.probe('action-types')
        sys_, env = 'sys_alice', 'env_weather'
        ts = trs.FTS(
            [dict(name=env, values=trs.MathSet(), setter=True)],
            [dict(name=sys_, values=trs.MathSet(), setter=True)])
    else:
        ts = trs.FTS()
    props = ['alpha', 'b', 'gamma', 'dd'][:ctx.integer(1, 4)]
    ts.atomic_propositions.update(props)
    n = ctx.integer(1, 7)
    name = ctx.pick([lambda i: f's{i}', lambda i: i, lambda i: ('s', i)])
    states = [name(i) for i in range(n)]
    labels = [frozenset(ctx.subset(props))
              for _ in range(ctx.integer(1, 3))]
    lab = dict()
    for s in states:
        lab[s] = x = ctx.pick(labels)
        # the same set, in another order
        y = set()
        order = ctx.shuffle(sorted(x))
        for p in order:
            y.add(p)
        if order != sorted(x):
            ctx.probe('label-order')
        ts.states.add(s, ap=y)
    init = set(ctx.subset(states, 0.3))
    if not init and ctx.chance(0.8):
        init = {states[0]}
    ctx.probe('initial' if init else 'no-initial')
    ts.states.initial.update(sorted(init, key=str))
    post = {s: set() for s in states}
    named = ctx.chance(0.3)
    if named:
        ts.actions[sys_].update(['go', 'stop'])
        ts.actions[env].update(['rain'])
    for _ in range(ctx.integer(0, 2 * n)):
        u, v = ctx.pick(states), ctx.pick(states)
        if named:
            a = ctx.pick(['go', 'stop'])
            if any(d[sys_] == a for _, w, d in
                   ts.edges(u, data=True) if w == v):
                continue
            if v in post[u]:
                ctx.probe('parallel')
            ts.transitions.add(u, v, attr_dict={sys_: a, env: 'rain'})
        elif v not in post[u]:
            ts.transitions.add(u, v)
        post[u].add(v)
        if u == v:
            ctx.probe('self-loop')
    if any(not post[s] for s in states):
        ctx.probe('dead-end')
    before = picture(ts)
    for kind in ctx.shuffle(['bi', 'dual']):
        ctx.probe(kind)
        g, part = trs.transys.simu_abstract(ts, kind)
        ctx.require(
            picture(ts) == before, 'changed-arguments',
            'the given system has changed')
        check(ctx, kind, states, lab, post, init, g, part)
        # the two are separate systems
        g.actions[sys_].add('fly')
        g.atomic_propositions.add('new')
        ctx.require(
            picture(ts) == before, 'shared',
            'changes of the abstraction change the system')
    ctx.sample = f'{n} states'


def picture(ts):
    return (
        frozenset((u, frozenset(d['ap'])) for u, d in ts.nodes(data=True)),
        frozenset((u, v, frozenset(d.items()))
                  for u, v, d in ts.edges(data=True)),
        frozenset(ts.states.initial), frozenset(ts.atomic_propositions),
        frozenset((k, frozenset(v)) for k, v in ts.actions.items()))


def check(ctx, kind, states, lab, post, init, g, part):
    up, down = part['ts2simu'], part['simu2ts']
    cells = set(g.nodes)
    what = f'{kind}: {dict(down)} {sorted(map(str, g.edges()))}'
    ctx.require(
        set(up) == set(states) and set(down) == cells, 'maps', what)
    for s in states:
        ctx.require(len(set(up[s])) >= 1, 'cover', f'{s} {what}')
        for c in up[s]:
            ctx.require(s in down[c], 'maps', f'{s} {c} {what}')
    for c in cells:
        ctx.require(len(down[c]) >= 1, 'empty-cell', f'{c} {what}')
        for s in down[c]:
            ctx.require(c in up[s], 'maps', f'{s} {c} {what}')
            ctx.require(
                set(g.nodes[c]['ap']) == lab[s], 'label',
                f'{c}: {g.nodes[c]["ap"]}, {s}: {set(lab[s])} {what}')
    ctx.require(
        set(g.states.initial) == {c for s in init for c in up[s]},
        'initial', f'{init} {set(g.states.initial)} {what}')
    nxt = {c: set(g.successors(c)) for c in cells}
    if kind == 'bi':
        for s in states:
            ctx.require(len(up[s]) == 1, 'partition', f'{s} {what}')
        want = coarsest(states, lab, post)
        ctx.require(
            len(cells) == want, 'not-coarsest',
            f'{len(cells)} cells, {want} classes: {what}')
    else:
        if any(len(up[s]) > 1 for s in states):
            ctx.probe('overlap')
    if len(cells) > len(set(lab.values())):
        ctx.probe('split')
        ctx.nontrivial = True
    if len(cells) < len(states):
        ctx.probe('merged')
        ctx.nontrivial = True
    # a move of the abstraction is a move of any state in the cell
    for c in sorted(cells):
        for d in sorted(nxt[c]):
            for s in sorted(down[c], key=str):
                ctx.require(
                    post[s] & set(down[d]), 'abstract-move',
                    f'cell {c} moves to {d}, {s} cannot: {what}')
    # a move of the system is a move of a cell that contains the state
    sim = {(s, c) for s in states for c in up[s]}
    while True:
        bad = {(s, c) for s, c in sim
               if not all(any((t, d) in sim for d in nxt[c])
                          for t in post[s])}
        if not bad:
            break
        sim -= bad
    for s in states:
        ctx.require(
            any((s, c) in sim for c in up[s]), 'concrete-move',
            f'no cell follows {s}: {what}')
    play(ctx, post, nxt, down, sim, what)


def coarsest(states, lab, post):
    block = {s: lab[s] for s in states}
    n = len(set(block.values()))
    while True:
        block = {
            s: (lab[s], block[s], frozenset(block[t] for t in post[s]))
            for s in states}
        ids = {b: i for i, b in enumerate(sorted(
            set(block.values()), key=repr))}
        block = {s: ids[b] for s, b in block.items()}
        m = len(ids)
        if m == n:
            return m
        n = m


def play(ctx, post, nxt, down, sim, what):
    """Joint executions: one moves, the other answers."""
    pairs = sorted(sim, key=str)
    for _ in range(2):
        s, c = ctx.pick(pairs)
        for _ in range(ctx.integer(1, 8)):
            ctx.tick()
            ctx.state(s, c)
            if ctx.chance(0.5):
                moves = sorted(post[s], key=str)
                if not moves:
                    break
                t = ctx.pick(moves)
                ds = sorted(d for d in nxt[c] if (t, d) in sim)
                if not ds:
                    raise Violation('concrete-move', f'{s} {c} {t} {what}')
                s, c = t, ctx.pick(ds)
            else:
                ds = sorted(nxt[c])
                if not ds:
                    break
                d = ctx.pick(ds)
                ts_ = sorted(
                    (t for t in post[s] if t in down[d]), key=str)
                if not ts_:
                    raise Violation('abstract-move', f'{s} {c} {d} {what}')
                t = ctx.pick(ts_)
                if (t, d) not in sim:
                    break
                s, c = t, d
            ctx.log('pair', s, c)
