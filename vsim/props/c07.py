"""C07: transitions of abstractions can be executed on the plant."""
import copy

import numpy as np
import polytope as pc

from .. import hyb
from ..core import Discard, Violation

RUNS = {'quick': 480, 'thorough': 20000}
BATCHES = {'quick': 32, 'thorough': 400}
CPU_BUDGET = 120
WALL_BUDGET = 600
RULE = ('A run draws a plant, a partition and options, abstracts it, and '
        'drives the plant along random transitions of the abstraction from '
        'random states of the start region, against adversarial disturbances '
        'and solver failures; plants with one state are compared with exact '
        'intervals; non-trivial: at least 2 executed transitions '
        'between different regions.')
TIME_UNIT = 'plant steps'
STATE_MEASURE = '(options, number of regions, start, end)'
ASSUMPTIONS = [
    'missing transitions are looked for with one state dimension',
    'plants have 1 or 2 state dimensions, horizon at most 3',
    'start states are at least 1e-4 inside their region',
    'solver failures are injected in the controller computation, not within '
    'the polytope library']
PROBES = ['executed', 'from-corner', 'bi', 'dual', 'conservative', 'pwa', 'open-loop',
          'horizon>1', 'refined', 'union-target', 'solver-failed-raised',
          'solver-failed-survived', 'repeat', 'random-volumes', 'bands',
          'qp-did-not-converge', 'covered', 'grid', 'exact',
          'line', 'absent']
TOL = 2e-5


def constraint_margin(ab, i, x):
    """Where intermediate states must stay."""
    if ab.disc_params['conservative']:
        reg = ab.ppp.regions[i]
        ps = hyb.polys(reg)
        if len(ps) == 1:
            return hyb.margin(ps[0], x)
        hull = pc.qhull(np.vstack([pc.extreme(p) for p in ps]))
        return hyb.margin(hull, x)
    # same propositions, same dynamics
    return hyb.region_margin(ab.ppp2pwa(i)[1], x)


def drive(ctx, ab, i, j, x, opts, faulty, retry=False):
    """Take the plant from `x` in region `i` to region `j`.

    With `retry`, failed computations are repeated without failures.
    """
    from tulip.abstract import find_controller as fc
    ss = ab.ppp2sys(i)[1]
    N = ab.disc_params['N']
    closed = ab.disc_params['closed_loop']
    n, m = ss.A.shape[0], ss.B.shape[1]
    path = [x]
    seq = None
    for k in range(N):
        if seq is None or closed:
            ab2 = copy.copy(ab)
            h = N - k
            ab2.disc_params = dict(ab.disc_params, N=h)
            kw = dict(ord=opts['ord'])
            if opts['Q'] is not None:
                kw['Q'] = opts['Q'] * np.eye(h * m)
            if opts['R'] is not None:
                kw['R'] = opts['R'] * np.eye(h * n)
                kw['r'] = np.full((h * n, 1), opts['R'])
            if opts['mid'] is not None:
                kw['mid_weight'] = opts['mid']
            before = {k: v.copy() for k, v in kw.items()
                      if isinstance(v, np.ndarray)}
            fired = list()

            def plan(what):
                if faulty and ctx.chance(0.4):
                    how = ctx.pick([4, 2, 1, 'error'])
                    fired.append(how)
                    return how
                return None
            err = None
            for _ in range(2):
                fired.clear()
                state = np.random.get_state()
                try:
                    with hyb.solver_faults(ctx, plan):
                        u = fc.get_input(x, ss, ab2, i, j, **kw)
                    err = None
                    break
                except Exception as e:
                    err = e
                    ctx.log('raised', type(e).__name__)
                    if not fired:
                        break
                    ctx.probe('solver-failed-raised')
                    if not retry:
                        return None
                    faulty = False
            if err is not None:
                if opts['ord'] == 2:
                    # the interior-point solver may fail to converge
                    try:
                        fc.get_input(x, ss, ab2, i, j, **dict(kw, ord=1))
                        ctx.probe('qp-did-not-converge')
                        return None
                    except Exception:
                        pass
                if k > 0 or opts['multi']:
                    # numerical tolerance at the edge of the feasible set,
                    # or a target of several pieces and an inner horizon
                    marg = closer(ctx, ab2, fc, ss, i, j, x, kw, opts)
                    if marg:
                        return None
                raise Violation(
                    'not-executable',
                    f'{i} -> {j} at {x.tolist()}, step {k} of {N}: '
                    f'{type(err).__name__}: {err}; options {opts} '
                    f'{ab.disc_params}')
            if fired:
                ctx.probe('solver-failed-survived')
            elif opts['repeat']:
                # (the polytope library uses random directions)
                ctx.probe('repeat')
                np.random.set_state(state)
                with hyb.solver_faults(ctx, plan):
                    try:
                        u2 = fc.get_input(x, ss, ab2, i, j, **kw)
                    except Exception as e:
                        if not fired:
                            raise Violation(
                                'not-repeatable', f'{type(e).__name__}: {e}')
                        u2 = u
                if not fired and not np.allclose(u, u2, atol=1e-9):
                    raise Violation('not-repeatable', f'{u} then {u2}')
            for key, v in before.items():
                if not np.array_equal(v, kw[key]):
                    raise Violation('arguments-changed', key)
            u = np.asarray(u)
            if u.shape != (h, m) or not np.isfinite(u).all():
                raise Violation('input-shape', f'{u}')
            seq = list(u)
        a = seq.pop(0)
        if not hyb.input_ok(ss, x, a, TOL):
            raise Violation(
                'input-not-allowed',
                f'{i} -> {j} at {x.tolist()}, step {k}: {a.tolist()}')
        x = hyb.step(ctx, ss, x, a)
        path.append(x)
        ctx.tick()
        ctx.log('x', *[f'{v:.6f}' for v in x])
        if k < N - 1:
            mg = constraint_margin(ab, i, x)
            if mg < -TOL:
                raise Violation(
                    'leaves-early',
                    f'{i} -> {j}: step {k + 1} of {N} at {x.tolist()} is '
                    f'{-mg:.4g} outside of the allowed set; path {path}; '
                    f'{ab.disc_params}')
    mg = hyb.region_margin(ab.ppp.regions[j], x)
    if mg < -TOL:
        raise Violation(
            'misses-target',
            f'{i} -> {j}: ends {-mg:.4g} outside at {x.tolist()}; '
            f'path {path}; options {opts} {ab.disc_params}')
    return x


def closer(ctx, ab2, fc, ss, i, j, x, kw, opts):
    """Is there a solution within the tolerance of `x`?"""
    for d in (1e-6, 1e-5):
        for s in range(2 ** len(x)):
            y = x + d * np.array([1 if s >> k & 1 else -1
                                  for k in range(len(x))])
            try:
                fc.get_input(y, ss, ab2, i, j, **kw)
                return True
            except Exception:
                pass
    return False


def check_abstraction(ctx, ab, ppp, props):
    """Labels and maps."""
    n = len(ab.ppp.regions)
    if set(ab.ts.nodes()) != set(ab.ppp2ts) or len(ab.ppp2ts) != n:
        raise Violation('states', f'{list(ab.ts.nodes())} {n}')
    for k, reg in enumerate(ab.ppp.regions):
        label = set(ab.ts.states[ab.ppp2ts[k]]['ap'])
        x = hyb.sample(ctx, reg)
        if x is None:
            continue
        for name, p in props.items():
            mg = hyb.region_margin(p, x)
            if abs(mg) < 1e-4:
                continue
            if (mg > 0) != (name in label):
                raise Violation(
                    'label', f'region {k} has {label}, but {name} at '
                    f'{x.tolist()} is {mg > 0}')


def check_cover(ctx, ab, ppp, props, box, dual, mapped):
    """Each plant state is in a cell, with its label and dynamics."""
    from tulip.abstract import find_controller as fc
    n = len(ab.ppp.regions)
    pwa = hasattr(ab.pwa, 'list_subsys')
    for _ in range(12):
        x = np.array([hyb.grid(ctx, lo, hi, 1024) for lo, hi in box])
        # (not a multiple of what the cells are cut with)
        x = x + 1e-3 * np.array([0.37, 0.61][:len(x)])
        if hyb.margin(ppp.domain, x) < 1e-3:
            continue
        mg = [hyb.region_margin(r, x) for r in ab.ppp.regions]
        if max(mg) < -1e-4:
            raise Violation('not-covered', f'{x.tolist()} is in no cell')
        inside = [k for k in range(n) if mg[k] > 1e-4]
        if not dual and len(inside) > 1:
            raise Violation('overlap', f'{x.tolist()} is in {inside}')
        k = fc.find_discrete_state(x, ab.ppp)
        if inside and (k is None or k > min(inside) or mg[k] < -1e-4):
            raise Violation(
                'mapped', f'{x.tolist()} to {k}, but it is in {inside}')
        ctx.probe('covered')
        for k in inside:
            label = {p for p in props
                     if hyb.region_margin(props[p], x) > 0}
            near = any(abs(hyb.region_margin(props[p], x)) < 1e-4
                       for p in props)
            if not near and set(ab.ts.states[ab.ppp2ts[k]]['ap']) != label:
                raise Violation('label', f'cell {k} at {x.tolist()}: {label}')
            if set(ab.ts.states[ab.ppp2ts[k]]['ap']) != set(
                    ab.ppp.regions[k].props):
                raise Violation('label', f'cell {k} and its state')
            if not mapped:
                continue
            for what, (m, r) in (
                    ('orig', ab.ppp2orig(k)), ('pwa', ab.ppp2pwa(k))):
                if hyb.region_margin(r, x) < -1e-4:
                    raise Violation(
                        f'{what}-map', f'cell {k} to {m} at {x.tolist()}')
            i, reg = ab.ts2ppp(ab.ppp2ts[k])
            if i != k or reg is not ab.ppp.regions[k]:
                raise Violation('state-map', f'state of cell {k} to {i}')
            m, sub = ab.ppp2sys(k)
            both = ab.ppp2trans(k)
            if both[0] is not ab.ppp2pwa(k)[1] or both[1] is not sub:
                raise Violation('system-map', f'{both} of cell {k}')
            if pwa and sub is not ab.pwa.list_subsys[m] or \
                    hyb.region_margin(sub.domain, x) < -1e-4:
                raise Violation(
                    'system-map', f'cell {k} to {m} at {x.tolist()}')
        outside = x + np.array([b - a for a, b in box])
        if fc.find_discrete_state(outside, ab.ppp) is not None:
            raise Violation('mapped', f'{outside.tolist()}, out of the domain')


def refine(ctx, ppp, props, box):
    """Partition cut by a grid."""
    from tulip.abstract import prop2partition as p2p
    ctx.probe('grid')
    per = ctx.integer(1, 3)
    dim = len(box)
    if ctx.chance(0.5):
        per = [ctx.integer(1, 3) for _ in range(dim)]
    n = per if isinstance(per, list) else [per] * dim
    size = [(hi - lo) / k for (lo, hi), k in zip(box, n)]
    how = ctx.choose(3)
    if how == 0:
        kw = dict(num_grid_pnts=per)
    elif how == 1:
        kw = dict(grid_size=size)
    else:
        s = max(size)
        size = [s] * dim
        kw = dict(grid_size=s)
    old = [(np.copy(r.bounding_box), set(r.props)) for r in ppp.regions]
    g = p2p.add_grid(ppp, **kw)
    for (a, b), r in zip(old, ppp.regions):
        if not np.array_equal(a, r.bounding_box) or b != r.props:
            raise Violation('grid', 'the given partition changed')
    for r in g.regions:
        lo, hi = (np.asarray(v).flatten() for v in r.bounding_box)
        for k in range(dim):
            if hi[k] - lo[k] > size[k] + 1e-6:
                raise Violation('grid', f'cell of size {hi - lo}, {kw}')
    check_adjacency(g)
    return g


def check_adjacency(ppp):
    adj = ppp.adj.toarray() if hasattr(ppp.adj, 'toarray') else ppp.adj
    for i, a in enumerate(ppp.regions):
        for j, b in enumerate(ppp.regions):
            if bool(adj[i, j]) != (i == j or bool(pc.is_adjacent(a, b))):
                raise Violation('adjacency', f'regions {i}, {j}')


def multiple(ab, i, j):
    return (len(hyb.polys(ab.ppp.regions[j])) > 1 or
            len(hyb.polys(ab.ppp.regions[i])) > 1)


def exact(ctx, ab, edges):
    """All transitions of a plant with one state are executable."""
    if not ab.disc_params['closed_loop']:
        return
    N = ab.disc_params['N']
    ctx.probe('exact')
    for i, j in edges:
        ss = ab.ppp2sys(i)[1]
        if ss.B.shape != (1, 1) or ss.Uset.dim != 1 or ss.A[0, 0] <= 0:
            return
        start = hyb.spans(ab.ppp.regions[i])
        if ab.disc_params['conservative']:
            stay = [(start[0][0], start[-1][1])]
        else:
            stay = hyb.spans(ab.ppp2pwa(i)[1])
        win = hyb.winning(ss, start, stay, hyb.spans(ab.ppp.regions[j]), N)
        for lo, hi in start:
            lo, hi = lo + 1e-4, hi - 1e-4
            if lo < hi and not any(
                    p - 1e-5 <= lo and hi <= q + 1e-5 for p, q in win):
                raise Violation(
                    'not-executable',
                    f'{i} -> {j} from {start} staying in {stay}, but it is '
                    f'possible from {win}; {ab.disc_params}')


def complete(ctx, ab, edges):
    """No transition between neighbours is missing."""
    adj = ab.ppp.adj
    adj = adj.toarray() if hasattr(adj, 'toarray') else np.asarray(adj)
    n = len(ab.ppp.regions)
    have = set(edges)
    for i in range(n):
        ss = ab.ppp2sys(i)[1]
        start = hyb.spans(ab.ppp.regions[i])
        stay = hyb.spans(ab.ppp2pwa(i)[1])
        if ab.disc_params['conservative']:
            stay = start
        for j in range(n):
            target = hyb.spans(ab.ppp.regions[j])
            if (i, j) in have or not adj[i, j] or any(
                    len(p) != 1 for p in (start, stay, target)):
                continue
            (lo, hi), = start
            (c, d), = target
            # with a margin
            win = hyb.winning(ss, start, [(stay[0][0] + 1e-3, stay[0][1] - 1e-3)],
                          [(c + 1e-3, d - 1e-3)], ab.disc_params['N'])
            ctx.probe('absent')
            if any(p <= lo + 1e-9 and hi - 1e-9 <= q for p, q in win):
                raise Violation(
                    'missing', f'{i} -> {j} from {start} to {target} '
                    f'staying in {stay}; {ab.disc_params}')


def touching(ab):
    """Neighbours are the cells whose closures touch."""
    adj = ab.ppp.adj
    adj = adj.toarray() if hasattr(adj, 'toarray') else np.asarray(adj)
    cells = [hyb.spans(r) for r in ab.ppp.regions]
    for i, a in enumerate(cells):
        for j, b in enumerate(cells):
            gap = min(max(p[0], q[0]) - min(p[1], q[1])
                      for p in a for q in b)
            if 1e-9 < gap < 1e-5:
                continue
            if bool(adj[i, j]) != (gap <= 1e-9):
                raise Violation(
                    'adjacency', f'cells {a}, {b}: {adj[i, j]}')


def line(ctx):
    """Plants with one state and little authority, several steps."""
    from tulip import abstract
    import tulip.hybrid as hyb_
    ctx.probe('line')
    L = float(ctx.integer(2, 4))
    box = [[0., L]]
    domain = pc.box2poly(box)
    umax = ctx.pick([0.1, 0.2, 0.3, 0.5, 0.8])
    u = pc.box2poly([[-umax, umax * ctx.pick([1, 1, 0.25])]])
    E = W = None
    if ctx.chance(0.4):
        E, w = np.eye(1), ctx.pick([0.02, 0.05])
        W = pc.box2poly([[-w, w]])

    def system(dom):
        A = np.array([[ctx.pick([1., 1., 0.75, 1.25, 0.5])]])
        K = np.array([[ctx.pick([0., 0.3, -0.3, 0.6, -0.6, 0.1])]])
        return hyb_.LtiSysDyn(
            A=A, B=np.eye(1), E=E, K=K, Uset=u, Wset=W, domain=dom)
    ssys = system(domain)
    if ctx.chance(0.2):
        c = L / 2
        ssys = hyb_.PwaSysDyn(
            [system(pc.box2poly([[0., c]])), system(pc.box2poly([[c, L]]))],
            domain)
    props = dict()
    for k in range(ctx.integer(1, 2)):
        a = ctx.choose(8) * L / 8
        props['pq'[k]] = pc.box2poly(
            [[a, min(L, a + ctx.integer(1, 4) * L / 8)]])
    ppp = abstract.prop2part(domain, props)
    o = dict(
        N=ctx.weighted([(1, 1), (3, 2), (2, 3)]), closed_loop=True,
        conservative=ctx.chance(0.6), simu_type=ctx.pick(['bi', 'bi', 'dual']),
        trans_length=ctx.pick([1, 1, 2]), remove_trans=ctx.chance(0.2),
        min_cell_volume=L * ctx.pick([0.1, 0.04, 0.02]))
    ctx.sample = dict(plant=hyb.describe(ssys), options=o, box=box,
                      props={k: [v.A.tolist(), v.b.tolist()]
                             for k, v in props.items()})
    ctx.log(ctx.sample)
    ab = abstract.discretize(ppp, ssys, **o)
    check_abstraction(ctx, ab, ppp, props)
    edges = sorted((ab.ppp2ts.index(u), ab.ppp2ts.index(v))
                   for u, v in set(ab.ts.transitions()))
    ctx.log('regions', len(ab.ppp.regions), 'edges', edges)
    ctx.state('line', o['simu_type'], o['N'], o['conservative'],
              len(ab.ppp.regions), len(edges))
    exact(ctx, ab, edges)
    complete(ctx, ab, edges)
    touching(ab)
    ctx.nontrivial = len(edges) >= 2 and len(ab.ppp.regions) >= 3


def gen_options(ctx, dim, dual):
    N = ctx.weighted([(2, 1), (2, 2), (1 if dim == 1 else 0.3, 3)])
    conservative = ctx.chance(0.35)
    closed = not ctx.chance(0.3)
    return dict(
        N=N, closed_loop=closed, conservative=conservative,
        simu_type='dual' if dual else 'bi',
        trans_length=ctx.weighted([(3, 1), (1, 2)]),
        remove_trans=ctx.chance(0.2))


def run(ctx):
    from tulip import abstract
    ctx.component('tulip.abstract, tulip.hybrid', 'real')
    ctx.component('polytope, cvxopt/GLPK', 'real, failures injected')
    ctx.component('plant and disturbance', 'simulated')
    # dual simulation produces overlapping cells, perhaps very many
    if ctx.chance(0.4):
        with hyb.seeded(ctx, 10000):
            return line(ctx)
    dual = ctx.chance(0.35)
    with hyb.seeded(ctx, 1000 if dual else 10000):
        dim = ctx.weighted([(3, 1), (2, 2)])
        if dim == 2 and ctx.chance(0.15):
            ssys, ppp, props, box = hyb.gen_bands(ctx)
            ctx.probe('bands')
        else:
            ssys, domain, box = hyb.gen_plant(ctx, dim)
            ppp, props = hyb.gen_partition(ctx, domain, box)
            if ctx.chance(0.2):
                ppp = refine(ctx, ppp, props, box)
        vol = np.prod([b - a for a, b in box])
        o = gen_options(ctx, dim, dual)
        o['min_cell_volume'] = vol * ctx.pick(
            [0.3, 0.2, 0.15] if dual else
            [0.3, 0.15, 0.1] if dim == 2 else [0.2, 0.1, 0.05])
        ctx.sample = dict(dim=dim, plant=hyb.describe(ssys), options=o,
                          props={k: [v.A.tolist(), v.b.tolist()]
                                 for k, v in props.items()})
        ctx.log(ctx.sample)
        before = hyb.describe(ssys)
        ab = abstract.discretize(ppp, ssys, **o)
        if hyb.describe(ssys) != before:
            raise Violation('plant-changed', '')
        pwa = hasattr(ssys, 'list_subsys')
        ctx.probe(o['simu_type'])
        for name, c in (('pwa', pwa), ('conservative', o['conservative']),
                        ('open-loop', not o['closed_loop']),
                        ('horizon>1', o['N'] > 1),
                        ('refined', len(ab.ppp.regions) > len(ppp.regions))):
            if c:
                ctx.probe(name)
        check_abstraction(ctx, ab, ppp, props)
        check_cover(ctx, ab, ppp, props, box, dual, True)
        if len(ab.ppp.regions) <= 10:
            bad = hyb.wrong_neighbours(ab.ppp)
            if bad:
                raise Violation('adjacency', bad)
        edges = sorted((ab.ppp2ts.index(u), ab.ppp2ts.index(v))
                       for u, v in set(ab.ts.transitions()))
        ctx.log('regions', len(ab.ppp.regions), 'edges', edges)
        if not edges:
            return
        if dim == 1:
            exact(ctx, ab, edges)
        faulty = ctx.chance(0.3)
        succ = dict()
        for i, j in edges:
            succ.setdefault(i, []).append(j)
        done = 0
        # from the corners of a region
        for _ in range(2):
            i, j = ctx.pick(edges)
            opts = dict(ord=1, Q=None, R=None, mid=None, repeat=False,
                        multi=multiple(ab, i, j))
            for x in hyb.corners(ab.ppp.regions[i])[:8]:
                if drive(ctx, ab, i, j, x, opts, False) is not None:
                    done += i != j
                    ctx.probe('from-corner')
        x, i = None, None
        for _ in range(8):
            if x is None or i not in succ:
                i = ctx.pick(sorted(succ))
                x = hyb.sample(ctx, ab.ppp.regions[i])
                if x is None:
                    continue
            j = ctx.pick(succ[i])
            multi = multiple(ab, i, j)
            opts = dict(
                ord=ctx.weighted([(3, 1), (1, 2), (1, np.inf)]),
                Q=ctx.pick([None, None, 1.0, 0.1]),
                R=ctx.pick([None, None, None, 0.1]),
                mid=ctx.pick([None, None, 3, 0]),
                repeat=ctx.chance(0.3), multi=multi)
            if multi:
                ctx.probe('union-target')
            ctx.state(o['simu_type'], o['N'], o['conservative'],
                      o['closed_loop'], pwa, len(ab.ppp.regions), i, j)
            y = drive(ctx, ab, i, j, x, opts, faulty)
            if y is None:
                x = None
                continue
            ctx.probe('executed')
            done += i != j
            if hyb.region_margin(ab.ppp.regions[j], y) > 1e-4:
                x, i = y, j
            else:
                x = None
        ctx.nontrivial = done >= 2
