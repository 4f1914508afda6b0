"""C10: abstractions of switched systems are abstractions of the plant."""
import numpy as np
import polytope as pc

from .. import hyb, reach, switched
from ..core import Discard, Violation

RUNS = {'quick': 300, 'thorough': 15000}
BATCHES = {'quick': 32, 'thorough': 300}
CPU_BUDGET = 120
WALL_BUDGET = 600
RULE = ('A run draws a switched system and options, abstracts it, and '
        'drives the plant along transitions of the merged abstraction while '
        'the environment and the system switch modes, against adversarial '
        'disturbances; non-trivial: at least two modes, and two executed '
        'transitions between different regions.')
TIME_UNIT = 'plant steps'
STATE_MEASURE = '(modes, regions, mode, start, end)'
ASSUMPTIONS = [
    'plants have 1 or 2 state dimensions',
    'executability is decided by a linear program over the vertices of the '
    'disturbance set, tolerance 2e-5; completeness only for convex regions, '
    'with a margin of 1e-3']
PROBES = ['executed', 'modes>1', 'pwa', 'union-target', 'missing-checked', 'exact',
          'horizon>1', 'refined', 'stuck', 'sliver']
TOL = 2e-5


def subsystem(dyn, region):
    """The subsystem whose domain contains the region."""
    best = None
    for p in hyb.polys(region):
        r, c = pc.cheby_ball(p)
        if best is None or r > best[0]:
            best = (r, np.array(c).flatten())
    ms = [(hyb.region_margin(s.domain, best[1]), k)
          for k, s in enumerate(dyn.list_subsys)]
    return dyn.list_subsys[max(ms)[1]]


def hull(region):
    ps = hyb.polys(region)
    if len(ps) == 1:
        return ps[0]
    return pc.qhull(np.vstack([pc.extreme(p) for p in ps]))


def close(ri, rj):
    """Do regions touch along a facet (or overlap)?"""
    def grow(p, d):
        nrm = np.linalg.norm(p.A, axis=1)
        return pc.Polytope(p.A, p.b + d * nrm)
    for p in hyb.polys(ri):
        for q in hyb.polys(rj):
            isect = grow(p, 1e-4).intersect(grow(q, 1e-4))
            if not pc.is_fulldim(isect):
                continue
            v = np.array(pc.extreme(isect), dtype=float)
            if p.dim == 1:
                return True
            size = max(np.linalg.norm(a - b) for a in v for b in v)
            if size > 0.05:
                return True
    return False


def label_at(props, x):
    """Propositions at x; None if near a boundary."""
    out = set()
    for name, p in props.items():
        mg = hyb.region_margin(p, x)
        if abs(mg) < 1e-4:
            return None
        if mg > 0:
            out.add(name)
    return out


def check_maps(ctx, ab, sw, ppp, props, box, overlap):
    n = len(ab.ppp.regions)
    states = list(ab.ppp2ts)
    if set(ab.ts.nodes()) != set(states) or len(states) != n:
        raise Violation('states', f'{list(ab.ts.nodes())} {n}')
    if set(ab.ts.atomic_propositions) != set(props):
        raise Violation('propositions', str(ab.ts.atomic_propositions))
    if set(ab.modes) != set(sw.modes):
        raise Violation('modes', f'{set(ab.modes)}')
    for i, reg in enumerate(ab.ppp.regions):
        for x in [hyb.sample(ctx, reg) for _ in range(2)]:
            if x is None:
                continue
            label = set(ab.ts.states[states[i]]['ap'])
            want = label_at(props, x)
            if want is not None and want != label:
                raise Violation(
                    'label', f'region {i} has {label}, {want} at {x}')
            for mode in sw.modes:
                k = ab.ppp2modes[mode][i]
                parent = ab.modes[mode].ppp.regions[k]
                if hyb.region_margin(parent, x) < -TOL:
                    raise Violation(
                        'parent', f'region {i}, {mode}: {x} is outside of '
                        f'region {k} of the mode')
                cell = ab.ppp2pwa(mode, i)[1]
                if hyb.region_margin(cell, x) < -TOL:
                    raise Violation(
                        'cell', f'region {i}, {mode}: {x} is outside of '
                        f'its propositional cell')
                y = hyb.sample(ctx, cell)
                if y is not None and label_at(props, y) not in (None, label):
                    raise Violation(
                        'cell-label', f'region {i}, {mode}: {label}, '
                        f'{label_at(props, y)} at {y}')
                own = subsystem(sw.dynamics[mode], reg)
                if ab.ppp2sys(mode, i)[1] is not own:
                    raise Violation('subsystem', f'region {i}, {mode}')
            if overlap:
                continue
            for j, other in enumerate(ab.ppp.regions):
                if j != i and hyb.region_margin(other, x) > 1e-4:
                    raise Violation(
                        'overlap', f'regions {i} and {j} at {x}')
    # coverage
    for _ in range(12):
        x = np.array([hyb.grid(ctx, a + 1e-3, b - 1e-3, 97)
                      for a, b in box])
        if hyb.region_margin(ab.ppp.domain, x) < 1e-4:
            continue
        mg = max(hyb.region_margin(r, x) for r in ab.ppp.regions)
        if mg < -1e-4:
            raise Violation('uncovered', f'{x} is in no region ({mg})')
    # common refinement of the regions of two modes
    modes = list(sw.modes)
    if len(modes) < 2:
        return
    a, b = ctx.shuffle(modes)[:2]
    pairs = [(p, q) for r in ab.modes[a].ppp.regions
             for q in ab.modes[b].ppp.regions for p in hyb.polys(r)
             for q in hyb.polys(q)]
    k = ctx.choose(len(pairs))
    for p, q in (pairs[k:] + pairs[:k])[:150]:
        both = p.intersect(q)
        r, x = pc.cheby_ball(both)
        if x is None or r < 1e-3:
            continue
        ctx.probe('sliver', r < 2e-2)
        x = np.array(x).flatten()
        mg = max(hyb.region_margin(r, x) for r in ab.ppp.regions)
        if mg < -1e-4:
            raise Violation('uncovered', f'{x} is in no region ({mg})')


def exact(ctx, ab, edges, parts):
    """All transitions of plants with one state, exactly."""
    for mode, i, j in edges:
        ss, stay, targets, N, closed = parts(mode, i, j)
        if (not closed or ss.B.shape != (1, 1) or ss.Uset.dim != 1 or
                ss.A[0, 0] <= 0):
            continue
        ctx.probe('exact')
        start = hyb.spans(ab.ppp.regions[i])
        win = hyb.winning(
            ss, start, hyb.spans(stay),
            hyb.spans(ab.ppp.regions[j]), N)
        for lo, hi in start:
            lo, hi = lo + 1e-4, hi - 1e-4
            if lo < hi and not any(
                    p - 1e-5 <= lo and hi <= q + 1e-5 for p, q in win):
                raise Violation(
                    'not-executable',
                    f'{mode}: {i} -> {j} from {start} staying in '
                    f'{hyb.spans(stay)}, but it is possible from {win}')


def run(ctx):
    from tulip import abstract
    ctx.component('tulip.abstract, tulip.hybrid', 'real')
    ctx.component('polytope, cvxopt/GLPK', 'real')
    ctx.component('plant, disturbance, mode switching', 'simulated')
    with hyb.seeded(ctx, 1200):
        dim = ctx.weighted([(6, 1), (2, 2)])
        sw, ppp, props, box, kind = switched.gen(ctx, dim)
        modes = list(sw.modes)
        params = switched.gen_params(ctx, modes, dim, box)
        ctx.sample = switched.describe(sw, params)
        ctx.log(ctx.sample)
        ab = abstract.discretize_switched(ppp, sw, params)
        n = len(ab.ppp.regions)
        overlap = params is not None and any(
            d.get('simu_type') == 'dual' for d in params.values())
        ctx.probe('modes>1', len(modes) > 1)
        ctx.probe('refined', n > len(ppp.regions))
        check_maps(ctx, ab, sw, ppp, props, box, overlap)
        index = {s: i for i, s in enumerate(ab.ppp2ts)}
        by_name = {(str(e), str(s)): (e, s) for e, s in modes}
        edges = set()
        for u, v, d in ab.ts.transitions(data=True):
            mode = by_name.get((d.get('env_actions'), d.get('sys_actions')))
            if mode is None:
                raise Violation('actions', str(d))
            edges.add((mode, index[u], index[v]))
        edges = sorted(edges, key=repr)
        ctx.log('regions', n, 'edges', len(edges))

        def parts(mode, i, j):
            ss = subsystem(sw.dynamics[mode], ab.ppp.regions[i])
            e = switched.effective(params, mode)
            cons = params is not None and params[mode].get('conservative')
            if cons:
                stay = hull(ab.ppp.regions[i])
            else:
                stay = hull(ab.ppp2pwa(mode, i)[1])
            return (ss, stay, hyb.polys(ab.ppp.regions[j]), e['N'],
                    e['closed_loop'])

        def fail(kind, mode, i, j, x, N):
            raise Violation(
                kind, f'{mode}: {i} -> {j} at {x.tolist()}, horizon {N}; '
                f'regions {ab.ppp.regions[i]} {ab.ppp.regions[j]}')
        if n <= 12:
            bad = hyb.wrong_neighbours(ab.ppp)
            if bad:
                raise Violation('adjacency', bad)
        if dim == 1:
            exact(ctx, ab, edges, parts)
        done = 0
        # is each transition executable from the corners of the region
        for mode, i, j in ctx.shuffle(edges)[:12]:
            ss, stay, targets, N, closed = parts(mode, i, j)
            ctx.probe('horizon>1', N > 1)
            ctx.probe('union-target', len(targets) > 1)
            ctx.state(len(modes), n, mode, i, j)
            for x in hyb.corners(ab.ppp.regions[i])[:8]:
                try:
                    u = reach.plan_any(
                        ss, x, [stay], targets, N, closed, -TOL)
                except reach.TooLarge:
                    break
                if u is None:
                    fail('not-executable', mode, i, j, x, N)
                done += i != j
                ctx.probe('executed')
        # transitions that are missing
        have = set(edges)
        cand = [(m, i, j) for m in modes for i in range(n) for j in range(n)
                if (m, i, j) not in have
                and len(hyb.polys(ab.ppp.regions[i])) == 1
                and len(hyb.polys(ab.ppp.regions[j])) == 1]
        for mode, i, j in ctx.shuffle(cand)[:10]:
            if params is not None and params[mode].get('conservative'):
                continue
            ri, rj = ab.ppp.regions[i], ab.ppp.regions[j]
            if i != j and not close(ri, rj):
                continue
            if parts(mode, i, j)[3] > 2:
                # the polytope library fails to project many dimensions
                continue
            if pc.cheby_ball(ri)[0] < 0.01:
                continue
            ss, stay, targets, N, closed = parts(mode, i, j)
            xs = np.array(pc.extreme(hyb.polys(ri)[0]), dtype=float)
            try:
                ok = all(
                    reach.plan(ss, x, stay, targets[0], N, closed, 1e-3)
                    is not None for x in xs)
            except reach.TooLarge:
                continue
            ctx.probe('missing-checked')
            if ok:
                fail('missing', mode, i, j, xs[0], N)
        # closed loop with mode switching
        x = None
        envs = sorted({e for e, s in modes}, key=repr)
        for _ in range(10):
            if x is None:
                i = ctx.choose(n)
                x = hyb.sample(ctx, ab.ppp.regions[i])
                if x is None:
                    continue
            env = ctx.pick(envs)
            ways = [e for e in edges if e[1] == i and e[0][0] == env]
            if not ways:
                ctx.probe('stuck')
                x = None
                continue
            mode, _, j = ctx.pick(ways)
            ss, stay, targets, N, closed = parts(mode, i, j)
            ok = True
            y = x
            for k in range(N):
                try:
                    u = reach.plan_any(
                        ss, y, [stay], targets, N - k, closed, -TOL)
                except reach.TooLarge:
                    ok = False
                    break
                if u is None:
                    if not closed and k:
                        ok = False  # open loop: not replanned
                        break
                    fail('not-executable', mode, i, j, y, N - k)
                y = hyb.step(ctx, ss, y, u)
                ctx.tick()
                ctx.log('x', *[f'{v:.6f}' for v in y])
            if not ok:
                x = None
                continue
            done += i != j
            if hyb.region_margin(ab.ppp.regions[j], y) > 1e-4:
                x, i = y, j
            else:
                x = None
        ctx.probe('pwa', any(len(d.list_subsys) > 1
                             for d in sw.dynamics.values()))
        ctx.nontrivial = len(modes) > 1 and done >= 2
