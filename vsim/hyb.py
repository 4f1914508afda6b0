"""Random continuous plants, abstractions, and their simulation."""
import contextlib
import sys

import numpy as np
import polytope as pc
import polytope.solvers
import scipy.optimize

from . import core

DYADIC = 64


def grid(ctx, lo, hi, n=16):
    """Number on a grid of n+1 points in [lo, hi]."""
    return lo + (hi - lo) * ctx.choose(n + 1) / n


@contextlib.contextmanager
def seeded(ctx, most=None, constant=False):
    """Randomised algorithms (volumes, projections) draw from the run.

    The run is out of scope after `most` draws.  If `constant`, then each
    algorithm draws the same numbers whenever it is called.
    """
    root = np.random.SeedSequence(ctx.choose(1 << 30, 'numpy seed'))
    real = np.random.default_rng
    np.random.seed(root.generate_state(1)[0])
    n = [0]

    def default_rng(seed=None):
        if seed is None:
            n[0] += 1
            if most is not None and n[0] > most:
                raise core.Discard()
            seed = np.random.SeedSequence(
                entropy=root.entropy,
                spawn_key=(1 if constant else n[0],))
        return real(seed)
    np.random.default_rng = default_rng
    project = pc.polytope.projection

    def projection(*a, **kw):
        np.random.seed(root.generate_state(1)[0])
        return project(*a, **kw)
    if constant:
        pc.polytope.projection = projection
    try:
        yield
    finally:
        np.random.default_rng = real
        pc.polytope.projection = project
        ctx.probe('random-volumes', n[0])


def halfplane_cut(ctx, box):
    """A convex piece of the box, perhaps with a slanted side."""
    dim = len(box)
    sub = list()
    for lo, hi in box:
        a = ctx.choose(3)
        b = ctx.integer(1, 3)
        w = (hi - lo) / 4
        sub.append([lo + a * w, min(hi, lo + (a + b) * w)])
    p = pc.box2poly(sub)
    if dim >= 2 and ctx.chance(0.5):
        c = np.array([grid(ctx, -1, 1, 8) for _ in range(dim)])
        if np.abs(c).sum() < 1e-6:
            c = np.ones(dim)
        if ctx.chance(0.3):
            c = np.sign(c) + (c == 0)
        mid = np.array([(lo + hi) / 2 for lo, hi in sub])
        b = c.dot(mid) + grid(ctx, 0, 0.3, 3) * np.abs(c).sum()
        p = pc.reduce(pc.Polytope(
            np.vstack([p.A, c]), np.hstack([p.b, b])))
    return p


def gen_matrices(ctx, dim, m, dist, dependent, steep=0.2):
    """One LTI subsystem (without a domain)."""
    if ctx.chance(0.5):
        A = np.eye(dim)
    else:
        A = np.eye(dim) * grid(ctx, 0.5, 1.25, 6)
        if dim > 1:
            A[0, 1] = grid(ctx, -0.5, 0.5, 8)
            A[1, 0] = grid(ctx, -0.5, 0.5, 8)
    if m == dim and ctx.chance(0.6):
        B = np.eye(dim)
    else:
        B = np.array([[grid(ctx, -1, 1, 8) for _ in range(m)]
                      for _ in range(dim)])
    K = np.array([[grid(ctx, -0.5, 0.5, 8)] for _ in range(dim)])
    if ctx.chance(0.5):
        K = K * 0
    E = Wset = None
    if dist:
        E = np.eye(dim)
        if ctx.chance(0.3):
            E[0, 0] = 0.5
        w = grid(ctx, 0.02, 0.2, 9)
        Wset = pc.box2poly([[-w, w]] * dim)
        if ctx.chance(0.3):
            Wset = pc.box2poly([[-w / 2, w]] * dim)
        if dim == 2 and ctx.chance(0.15):
            # a disc, more or less
            k = ctx.pick([3, 5, 12])
            a = 2 * np.pi * (np.arange(k) + 0.1) / k
            Wset = pc.Polytope(
                np.column_stack([np.cos(a), np.sin(a)]), np.full(k, w))
    umax = grid(ctx, 0.3, 2.0, 17)
    if ctx.chance(0.25):
        # thin slivers of states that just miss the target
        umax += ctx.pick([-1e-3, 1e-3, -3e-3, 3e-3])
    ubox = [[-umax, umax] for _ in range(m)]
    if ctx.chance(0.3):
        ubox[0][0] = -umax / 2
    if not dependent:
        Uset = pc.box2poly(ubox)
    else:
        # |u| <= umax - c * x[0]
        c = grid(ctx, 0, steep, 4)
        rows, b = list(), list()
        for k in range(m):
            for s, lim in ((1, ubox[k][1]), (-1, -ubox[k][0])):
                r = np.zeros(m + dim)
                r[k] = s
                r[m] = c
                rows.append(r)
                b.append(lim)
        # bounded in the state, too
        for k in range(dim):
            for s in (1, -1):
                r = np.zeros(m + dim)
                r[m + k] = s
                rows.append(r)
                b.append(50.)
        Uset = pc.Polytope(np.array(rows), np.array(b, dtype=float))
    return dict(A=A, B=B, E=E, K=K, Uset=Uset, Wset=Wset)


def gen_plant(ctx, dim, pwa=None, dist=None, domain=None, box=None,
              dependent=None):
    """Continuous plant, its domain."""
    import tulip.hybrid as hyb
    if box is None:
        box = [[0., float(ctx.integer(2, 4))] for _ in range(dim)]
    if domain is None:
        domain = pc.box2poly(box)
    m = 1 if dim == 1 else ctx.weighted([(3, 2), (1, 1)])
    dist = ctx.chance(0.6) if dist is None else dist
    dependent = ctx.chance(0.2) if dependent is None else dependent
    pwa = ctx.chance(0.3) if pwa is None else pwa
    if not pwa:
        d = gen_matrices(ctx, dim, m, dist, dependent)
        if not d['K'].any() and ctx.chance(0.5):
            del d['K']
        if d['E'] is None and ctx.chance(0.5):
            del d['E'], d['Wset']
        if ctx.chance(0.2):
            ctx.probe('from_lti')
            return hyb.PwaSysDyn.from_lti(domain=domain, **d), domain, box
        return hyb.LtiSysDyn(domain=domain, **d), domain, box
    axis = ctx.choose(dim)
    lo, hi = box[axis]
    cut = lo + (hi - lo) * ctx.integer(1, 3) / 4
    left = [list(x) for x in box]
    right = [list(x) for x in box]
    left[axis][1] = cut
    right[axis][0] = cut
    subs = list()
    for b in (left, right):
        d = gen_matrices(ctx, dim, m, dist, dependent)
        subs.append(hyb.LtiSysDyn(
            domain=pc.box2poly(b).intersect(domain), **d))
    return hyb.PwaSysDyn(subs, domain), domain, box


def gen_partition(ctx, domain, box, most=2):
    from tulip.abstract import prop2part
    props = dict()
    for k in range(ctx.integer(1, most)):
        p = halfplane_cut(ctx, box).intersect(domain)
        if pc.is_fulldim(p) and pc.cheby_ball(p)[0] > 0.1:
            props['pqr'[k]] = p
    if not props:
        raise core.Discard()
    ppp = prop2part(domain, props)
    return ppp, props


def gen_bands(ctx):
    """Diagonal bands that are reached almost, or just, everywhere."""
    import tulip.hybrid as hyb
    from tulip.abstract import prop2part
    top = 2.9
    box = [[0., top], [0., top]]
    domain = pc.box2poly(box)
    high = ctx.pick([4., 3.5, 4.5])
    cuts = [high - ctx.pick([2, 1.5, 1, 0.5]), high]
    props = dict()
    for k, c in enumerate(cuts):
        props['pq'[k]] = pc.reduce(pc.Polytope(
            np.vstack([domain.A, [1, 1]]), np.hstack([domain.b, c])))
    gap = cuts[1] - cuts[0]
    umax = gap / 2 + ctx.pick([-1e-3, -5e-4, -2e-3, 0, 1e-3, 0.1])
    s = hyb.LtiSysDyn(
        A=np.eye(2), B=np.eye(2), Uset=pc.box2poly([[-umax, umax]] * 2),
        domain=domain)
    return s, prop2part(domain, props), props, box


def describe(ssys):
    subs = getattr(ssys, 'list_subsys', None) or [ssys]
    return [dict(
        A=s.A.tolist(), B=s.B.tolist(), K=s.K.flatten().tolist(),
        E=None if s.E is None else s.E.tolist(),
        U=[s.Uset.A.tolist(), s.Uset.b.tolist()],
        W=[s.Wset.A.tolist(), s.Wset.b.tolist()]
        if pc.is_fulldim(s.Wset) else None) for s in subs]


def polys(region):
    return list(region) if len(region) else [region]


def margin(poly, x):
    """Signed distance to the boundary of a polytope (in > 0)."""
    nrm = np.sqrt((poly.A ** 2).sum(axis=1))
    return ((poly.b - poly.A.dot(x)) / np.where(nrm == 0, 1, nrm)).min()


def region_margin(region, x):
    return max((margin(p, x) for p in polys(region)), default=-np.inf)


def sample(ctx, region, least=1e-4):
    """Point of a region, biased to its corners."""
    ps = [p for p in polys(region) if pc.cheby_ball(p)[0] > 2 * least]
    if not ps:
        return None
    p = ctx.pick(ps)
    r, c = pc.cheby_ball(p)
    c = np.array(c).flatten()
    v = np.array(pc.extreme(p), dtype=float)
    a = v[ctx.choose(len(v))]
    b = v[ctx.choose(len(v))]
    t = ctx.pick([0, 0, 0.5, 1])
    e = (1 - t) * a + t * b
    s = ctx.pick([0.9995, 0.99, 0.5, 0.0])
    for _ in range(60):
        x = c + s * (e - c)
        if margin(p, x) >= least:
            return x
        s *= 0.9 if s < 0.9 else 0.99
    return c


def corners(region, least=1e-4):
    """Points just inside of each vertex."""
    out = list()
    for p in polys(region):
        r, c = pc.cheby_ball(p)
        if r <= 2 * least:
            continue
        c = np.array(c).flatten()
        for v in np.array(pc.extreme(p), dtype=float):
            x = v + (c - v) * min(1, 1.5 * least / r)
            if margin(p, x) >= least:
                out.append(x)
    return out


def disturbances(ss):
    if ss.E is None or np.all(ss.E == 0) or not pc.is_fulldim(ss.Wset):
        return None
    return np.array(pc.extreme(ss.Wset), dtype=float)


def step(ctx, ss, x, u):
    """One step of the plant under an adversarial disturbance."""
    y = ss.A.dot(x) + ss.B.dot(u) + ss.K.flatten()
    w = disturbances(ss)
    if w is not None:
        d = w[ctx.choose(len(w))]
        k = ctx.pick([1.0, 1.0, 0.5, 0.0])
        if k:
            ctx.fault('disturbance')
        y = y + ss.E.dot(k * d)
    return y


def input_ok(ss, x, u, tol):
    if ss.Uset.dim == len(u):
        return margin(ss.Uset, u) >= -tol
    return margin(ss.Uset, np.hstack([u, x])) >= -tol


@contextlib.contextmanager
def solver_faults(ctx, plan):
    """Optimisation solvers fail when `plan()` says so.

    Only calls from the repository's own code are affected, the polytope
    library's internal calls are not.
    """
    real_lp = pc.polytope.lpsolve
    import cvxopt
    real_qp = cvxopt.solvers.qp
    tulip = core.TULIP_DIR

    def lp(*a, **kw):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(tulip):
            how = plan('lp')
            if how == 'error':
                ctx.fault('lp-raises')
                raise ValueError('injected: LP solver')
            if how is not None:
                ctx.fault('lp-status')
                r = dict(real_lp(*a, **kw))
                n = len(a[0])
                r.update(status=how, x=None if how != 1 else np.zeros(n),
                         fun=None if how != 1 else -1e9)
                return r
        return real_lp(*a, **kw)

    def qp(*a, **kw):
        how = plan('qp')
        if how == 'error':
            ctx.fault('qp-raises')
            raise ValueError('injected: Rank(A) < p')
        sol = dict(real_qp(*a, **kw))
        if how is not None:
            ctx.fault('qp-status')
            sol['status'] = 'unknown'
            sol['x'] = cvxopt.matrix(0., (len(sol['x']), 1))
            sol['primal objective'] = -1e9
        return sol
    pc.polytope.lpsolve = lp
    cvxopt.solvers.qp = qp
    show = cvxopt.solvers.options.get('show_progress')
    cvxopt.solvers.options['show_progress'] = False
    try:
        yield
    finally:
        pc.polytope.lpsolve = real_lp
        cvxopt.solvers.qp = real_qp
        cvxopt.solvers.options['show_progress'] = show


def apart(a, b):
    """Distance, of a sort, of two polytopes (<= 0: they touch)."""
    A = np.vstack([a.A, b.A])
    bb = np.hstack([a.b, b.b])
    nrm = np.linalg.norm(A, axis=1)
    keep = nrm > 1e-9
    A, bb, nrm = A[keep], bb[keep], nrm[keep]
    A = np.column_stack([A / nrm[:, None], -np.ones(len(A))])
    c = np.zeros(A.shape[1])
    c[-1] = 1
    r = scipy.optimize.linprog(
        c, A_ub=A, b_ub=bb / nrm, bounds=[(None, None)] * len(c),
        method='highs')
    if r.status == 3:
        return -1.
    if r.status != 0:
        return None
    return r.fun


def wrong_neighbours(ppp):
    """Pair of regions whose adjacency is not that their closures touch."""
    adj = ppp.adj
    adj = adj.toarray() if hasattr(adj, 'toarray') else np.asarray(adj)
    n = len(ppp.regions)
    if adj.shape != (n, n):
        return f'shape {adj.shape} for {n} regions'
    for i in range(n):
        for j in range(i, n):
            ds = [apart(a, b) if i != j else -1.
                  for a in polys(ppp.regions[i])
                  for b in polys(ppp.regions[j])]
            if not ds or any(d is None for d in ds):
                continue
            d = min(ds)
            for u, v in ((i, j), (j, i)):
                if d <= 1e-9 and not adj[u, v]:
                    return f'regions {u}, {v} touch'
                if d > 1e-5 and adj[u, v]:
                    return f'regions {u}, {v} are {d} apart'
    return None


def spans(region):
    """Intervals of a set of numbers."""
    out = list()
    for p in polys(region):
        lo, hi = (float(np.asarray(v).flatten()[0]) for v in p.bounding_box)
        if hi > lo:
            out.append((lo, hi))
    return join(out)


def join(ints):
    out = list()
    for lo, hi in sorted(ints):
        if out and lo <= out[-1][1] + 1e-6:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def extent(poly):
    lo, hi = (float(np.asarray(v).flatten()[0]) for v in poly.bounding_box)
    return lo, hi


def winning(ss, start, stay, target, N):
    """Exact states that can be brought to the target in `N` steps."""
    a, b, k = ss.A[0, 0], ss.B[0, 0], ss.K.flatten()[0]
    u = sorted(b * v for v in extent(ss.Uset))
    d = disturbances(ss)
    w = [0.] if d is None else [float(ss.E.dot(v)[0]) for v in d]
    cur = target
    for step in range(N):
        back = list()
        for lo, hi in cur:
            lo, hi = lo - min(w), hi - max(w)
            if hi < lo:
                continue
            back.append(((lo - k - u[1]) / a, (hi - k - u[0]) / a))
        within = start if step == N - 1 else stay
        cur = join([
            (max(p[0], q[0]), min(p[1], q[1]))
            for p in back for q in within
            if max(p[0], q[0]) <= min(p[1], q[1])])
    return cur
