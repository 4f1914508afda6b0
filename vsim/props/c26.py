"""C26: partitions of the state space have exact regions and neighbours."""
import copy
import itertools
import warnings

import numpy as np
import polytope as pc

from .. import hyb
from ..core import Violation

RUNS = {'quick': 1200, 'thorough': 60000}
RULE = ('A run draws a domain of one to three dimensions and propositions '
        '(boxes, slanted pieces, that touch, nest, coincide, are empty in '
        'the domain, or cover it), partitions it, and refines the partition '
        'by convex pieces, by the subsystems of a plant, and by grids, in '
        'any order; each partition is compared with the arrangement of all '
        'cuts; non-trivial: a refinement with at least 3 regions.')
TIME_UNIT = 'refinements'
STATE_MEASURE = '(kind of refinement, number of regions, of pieces, options)'
ASSUMPTIONS = [
    'polytopes with cuts on a grid of 1/4, or slanted, and at most 40 cells',
    'points within 1e-4 of slanted cuts are not claimed']
PROBES = ['convex', 'pwa', 'grid', 'slanted', 'touching', 'nonconvex-region', 'thin-cells',
          'solver-raises', 'rejected', 'tampered', 'corner-neighbours',
          'prop-outside', 'prop-everywhere', 'no-props', 'three-dimensions',
          'ppp2ts', 'equal-props', 'refined-twice', 'edited-result']
TOL = 1e-6
NEAR = 1e-4


class Injected(Exception):
    """Raised by the numeric solver."""


class Faults:
    """The numeric solver fails at a call."""

    def __init__(self, at):
        self.at = at
        self.n = 0

    def __enter__(self):
        self.real = pc.polytope.lpsolve

        def lp(*a, **kw):
            self.n += 1
            if self.n == self.at:
                raise Injected()
            return self.real(*a, **kw)
        pc.polytope.lpsolve = lp
        return self

    def __exit__(self, *a):
        pc.polytope.lpsolve = self.real


def box_of(ctx, box, snap=4):
    """A box on the grid, that may reach out of the domain."""
    sub = list()
    for lo, hi in box:
        n = int((hi - lo) * snap)
        a = ctx.integer(-1, n - 1)
        b = ctx.integer(a + 1, n + 1)
        sub.append([lo + a / snap, lo + b / snap])
    return sub


class World:
    """Domain, propositions, and the cuts that were made."""

    def __init__(self, ctx):
        self.dim = dim = ctx.weighted([(2, 1), (6, 2), (1, 3)])
        if dim == 3:
            ctx.probe('three-dimensions')
        self.snap = 2 if dim == 3 else ctx.pick([1, 2, 4])
        lo = ctx.pick([0., 0., -1., 0.5])
        self.box = [[lo, lo + ctx.integer(1, 2 if dim == 3 else 3)]
                    for _ in range(dim)]
        self.slanted = dim == 2 and ctx.chance(0.35)
        self.domain = pc.box2poly(self.box)
        self.cuts = list()      # (normal, offset)
        if self.slanted:
            ctx.probe('slanted')
            if ctx.chance(0.4):
                d = hyb.halfplane_cut(ctx, self.box)
                if pc.cheby_ball(d)[0] > 0.2:
                    self.domain = d
        self.cut(self.domain)
        self.props = dict()
        n = ctx.weighted([(1, 0), (4, 1), (6, 2), (3, 3)])
        if dim == 3:
            n = min(n, 2)
        for k in range(n):
            self.props['pqr'[k]] = self.prop(ctx)
        for p in self.props.values():
            self.cut(p)
        if not self.props:
            ctx.probe('no-props')

    def prop(self, ctx):
        if self.props and ctx.chance(0.1):
            ctx.probe('equal-props')
            return copy.deepcopy(
                self.props[ctx.pick(sorted(self.props))])
        how = ctx.choose(12)
        if how == 0:
            # touches the domain from outside
            ctx.probe('prop-outside')
            sub = [list(x) for x in self.box]
            sub[0] = [sub[0][1], sub[0][1] + 1.]
            return pc.box2poly(sub)
        if how == 1:
            ctx.probe('prop-everywhere')
            return pc.box2poly([[a - 1., b + 1.] for a, b in self.box])
        if self.props and how < 5:
            # shares a side, or a corner, with another
            q = self.props[ctx.pick(sorted(self.props))]
            lo, hi = (np.asarray(v).flatten() for v in q.bounding_box)
            sub = list()
            for k in range(self.dim):
                w = max(ctx.choose(5) / self.snap, 1 / self.snap)
                sub.append(ctx.pick([
                    [hi[k], hi[k] + w], [lo[k] - w, lo[k]],
                    [lo[k], hi[k]], [lo[k], lo[k] + w]]))
            ctx.probe('touching')
            return pc.box2poly([[float(a), float(b)] for a, b in sub])
        if self.slanted and ctx.chance(0.7):
            for _ in range(5):
                p = hyb.halfplane_cut(ctx, self.box)
                if pc.is_fulldim(p) and pc.cheby_ball(p)[0] > 0.1:
                    return p
        return pc.box2poly(box_of(ctx, self.box, self.snap))

    def cut(self, poly):
        for q in hyb.polys(poly):
            for a, b in zip(q.A, q.b):
                n = np.linalg.norm(a)
                if n > 1e-9:
                    self.cuts.append((a / n, b / n))

    def far(self, x, least):
        """Is the point away from all cuts?"""
        return all(abs(a.dot(x) - b) >= least for a, b in self.cuts)

    def breakpoints(self):
        out = [set(x) for x in self.box]
        for a, b in self.cuts:
            k = int(np.argmax(np.abs(a)))
            if abs(abs(a[k]) - 1) > 1e-9:
                continue
            v = round(b / a[k], 9)
            if self.box[k][0] - 1e-9 <= v <= self.box[k][1] + 1e-9:
                out[k].add(v)
        r = list()
        for k in range(self.dim):
            vs = sorted(out[k])
            r.append([v for j, v in enumerate(vs)
                      if j == 0 or v - vs[j - 1] > 1e-7])
        return r

    def atoms(self):
        """Boxes that no cut crosses."""
        bs = self.breakpoints()
        return [
            (idx, [(bs[k][i], bs[k][i + 1]) for k, i in enumerate(idx)])
            for idx in itertools.product(
                *(range(len(b) - 1) for b in bs))]

    def label(self, x):
        return {k for k, p in self.props.items()
                if hyb.region_margin(p, x) > 0}


def points_of(ctx, w):
    """Points at which a partition is compared, with their atoms."""
    if not w.slanted:
        out = list()
        for idx, sub in w.atoms():
            mid = np.array([(a + b) / 2 for a, b in sub])
            out.append((mid, idx))
            c = np.array([ctx.pick(s) for s in sub])
            wd = min(b - a for a, b in sub)
            if wd > 1e-2:
                out.append((c + (mid - c) * 2e-3 / wd, idx))
        return out
    out = list()
    near = list()
    for p in [w.domain] + list(w.props.values()):
        near.extend(np.array(pc.extreme(p), dtype=float))
    for _ in range(40):
        if ctx.chance(0.4):
            x = near[ctx.choose(len(near))] + np.array([
                ctx.pick([-1, 1, 0.3, -0.3]) * 1e-3,
                ctx.pick([-1, 1, 0.4, -0.4]) * 1e-3])
        else:
            x = np.array([hyb.grid(ctx, a, b, 512) + 3.3e-4 * (k + 1)
                          for k, (a, b) in enumerate(w.box)])
        if w.far(x, NEAR):
            out.append((x, None))
    return out


def snapshot(ppp):
    adj = ppp.adj
    if hasattr(adj, 'toarray'):
        adj = adj.toarray()
    return (
        [([(q.A.tolist(), q.b.tolist()) for q in hyb.polys(r)],
          sorted(r.props)) for r in ppp.regions],
        None if adj is None else adj.tolist(),
        [(k, [(q.A.tolist(), q.b.tolist()) for q in hyb.polys(v)])
         for k, v in (ppp.prop_regions or {}).items()],
        [(q.A.tolist(), q.b.tolist()) for q in hyb.polys(ppp.domain)])


def check(ctx, w, ppp, what):
    """Compare a partition with the arrangement of the cuts."""
    n = len(ppp.regions)
    if len(ppp) != n or list(ppp) != list(ppp.regions):
        raise Violation('container', f'{what}')
    where = dict()
    pieces = [dict() for _ in range(n)]
    for x, idx in points_of(ctx, w):
        mg = [hyb.region_margin(r, x) for r in ppp.regions]
        inside = [k for k in range(n) if mg[k] > TOL]
        if hyb.margin(w.domain, x) <= 0:
            if inside:
                raise Violation(
                    'outside-domain', f'{what}: {x.tolist()} in {inside}')
            continue
        if len(inside) != 1:
            raise Violation(
                'overlap' if inside else 'not-covered',
                f'{what}: {x.tolist()} in {inside} of {n} regions')
        k = inside[0]
        want = w.label(x)
        got = set(ppp.regions[k].props)
        mine = ppp.reg2props(k)
        if mine != want:
            raise Violation('label', f'{what}: reg2props({k})')
        mine.add('edited')
        got = set(ppp.regions[k].props) if got == want else got
        if got != want:
            raise Violation(
                'label', f'{what}: {x.tolist()} in region {k} with {got}, '
                f'but {want}')
        if idx is not None:
            if where.setdefault(idx, k) != k:
                raise Violation('cut', f'{what}: atom {idx} is divided')
        pieces[k][idx] = x
    for k in range(n):
        if not pieces[k] and not w.slanted:
            raise Violation('empty-region', f'{what}: region {k}')
    neighbours(ctx, w, ppp, what, where)
    return where


def neighbours(ctx, w, ppp, what, where):
    n = len(ppp.regions)
    adj = ppp.adj
    adj = adj.toarray() if hasattr(adj, 'toarray') else np.asarray(adj)
    if adj.shape != (n, n):
        raise Violation('adjacency', f'{what}: shape {adj.shape} for {n}')
    if not np.isin(adj, (0, 1)).all():
        raise Violation('adjacency', f'{what}: {adj.tolist()}')
    if w.slanted:
        bad = hyb.wrong_neighbours(ppp)
        if bad:
            raise Violation('adjacency', f'{what}: {bad}')
        return
    cells = [[] for _ in range(n)]
    for idx, k in where.items():
        cells[k].append(idx)
    for i in range(n):
        for j in range(n):
            gap = min((max(abs(a - b) for a, b in zip(p, q))
                       for p in cells[i] for q in cells[j]), default=9)
            if bool(adj[i, j]) != (gap <= 1):
                raise Violation(
                    'adjacency', f'{what}: regions {i}, {j} at distance '
                    f'{gap}, adjacent: {adj[i, j]}')
            if gap == 1 and min(
                    sum(abs(a - b) for a, b in zip(p, q))
                    for p in cells[i] for q in cells[j]) > 1:
                ctx.probe('corner-neighbours')


def within(w, new, old, parents, what):
    """Each region is in the one that it came from."""
    if len(parents) != len(new.regions):
        raise Violation('map', f'{what}: {len(parents)} entries')
    for k, r in enumerate(new.regions):
        for p in hyb.polys(r):
            rad, c = pc.cheby_ball(p)
            if rad < 1e-5:
                continue
            x = np.array(c).flatten()
            if hyb.region_margin(old[parents[k]], x) < -TOL:
                raise Violation(
                    'map', f'{what}: region {k} is not in {parents[k]}')


def convex(ctx, w, ppp):
    from tulip.abstract import prop2partition as p2p
    ctx.probe('convex')
    new, maps = p2p.part2convex(ppp)
    for k, r in enumerate(new.regions):
        if len(hyb.polys(r)) != 1:
            raise Violation('not-convex', f'region {k}')
    within(w, new, ppp.regions, list(maps), 'part2convex')
    return new


def gen_pwa(ctx, w):
    """Plant whose subsystems divide the domain."""
    import tulip.hybrid as hybrid
    outer = [list(x) for x in w.box]
    if ctx.chance(0.2):
        outer = [[a - 1., b + 1.] for a, b in outer]
    parts = [outer]
    for _ in range(ctx.integer(0, 2)):
        k = ctx.choose(len(parts))
        b = parts.pop(k)
        axis = ctx.choose(w.dim)
        lo, hi = b[axis]
        m = ctx.integer(1, 3)
        c = lo + (hi - lo) * m / 4
        left, right = [list(x) for x in b], [list(x) for x in b]
        left[axis][1] = c
        right[axis][0] = c
        parts[k:k] = [left, right]
    subs = list()
    for b in parts:
        d = pc.box2poly(b)
        w.cut(d)
        subs.append(hybrid.LtiSysDyn(
            A=np.eye(w.dim), B=np.eye(w.dim),
            Uset=pc.box2poly([[-1., 1.]] * w.dim), domain=d))
    return hybrid.PwaSysDyn(subs, pc.box2poly(outer))


def pwa(ctx, w, ppp):
    from tulip.abstract import prop2partition as p2p
    ctx.probe('pwa')
    ssys = gen_pwa(ctx, w)
    new, subsys, parents = p2p.pwa_partition(ssys, ppp)
    within(w, new, ppp.regions, list(parents), 'pwa_partition')
    within(w, new, [s.domain for s in ssys.list_subsys],
           list(subsys), 'subsystems')
    return new


def grid(ctx, w, ppp):
    from tulip.abstract import prop2partition as p2p
    ctx.probe('grid')
    lo, hi = (np.asarray(v).flatten() for v in w.domain.bounding_box)
    dim = w.dim
    most = 2 if dim == 3 else 3
    how = ctx.choose(4)
    n = [ctx.integer(1, most) for _ in range(dim)]
    if how == 0:
        n = [n[0]] * dim
        size = [(b - a) / k for a, b, k in zip(lo, hi, n)]
        kw = dict(num_grid_pnts=n[0])
    elif how == 1:
        size = [(b - a) / k for a, b, k in zip(lo, hi, n)]
        kw = dict(num_grid_pnts=list(n))
    elif how == 2:
        size = [float((b - a) * ctx.pick([0.25, 0.5, 0.75, 1, 2])
                      if dim < 3 else (b - a) * ctx.pick([0.5, 0.75, 1]))
                for a, b in zip(lo, hi)]
        if ctx.chance(0.3):
            # what remains for the last cells is thin
            ctx.probe('thin-cells')
            k = ctx.choose(dim)
            n = ctx.integer(1, most - 1)
            size[k] = float(hi[k] - lo[k] - ctx.pick(
                [4e-3, 1e-3, 1e-2])) / n
        kw = dict(grid_size=list(size))
    else:
        s = float(max(hi - lo) * ctx.pick([0.5, 0.75, 0.4, 1]))
        size = [s] * dim
        kw = dict(grid_size=s)
    given = copy.deepcopy(kw)
    new = p2p.add_grid(ppp, **kw)
    if kw != given:
        raise Violation('argument-changed', f'{kw} {given}')
    for k, r in enumerate(new.regions):
        a, b = (np.asarray(v).flatten() for v in r.bounding_box)
        if any(y - x > s + 1e-6 for x, y, s in zip(a, b, size)):
            raise Violation('cell-size', f'region {k}: {b - a}, {kw}')
    for k in range(dim):
        c = lo[k]
        while c + size[k] < hi[k] - 1e-9:
            c += size[k]
            a = np.zeros(dim)
            a[k] = 1
            w.cuts.append((a, c))
    return new


def to_ts(ctx, w, ppp):
    """The transition system of a partition."""
    from tulip.abstract import prop2partition as p2p
    ctx.probe('ppp2ts')
    adj = ppp.adj
    adj = adj.toarray() if hasattr(adj, 'toarray') else np.asarray(adj)
    ts, states = p2p.ppp2ts(ppp)
    states = list(states)
    n = len(ppp.regions)
    if len(set(states)) != n or set(ts.states()) != set(states):
        raise Violation('ppp2ts', f'states {states}')
    if set(ts.atomic_propositions) != set(w.props):
        raise Violation('ppp2ts', f'{ts.atomic_propositions}')
    edges = {(states.index(u), states.index(v))
             for u, v in ts.transitions()}
    want = {(i, j) for i in range(n) for j in range(n) if adj[i, j]}
    if edges != want or len(list(ts.transitions())) != len(want):
        raise Violation('ppp2ts', f'edges {edges ^ want}')
    for s, r in zip(states, ppp.regions):
        if set(ts.states[s]['ap']) != set(r.props):
            raise Violation('ppp2ts', f'label of {s}')
    keep = snapshot(ppp)
    for s in states:
        ts.states[s]['ap'] = set()
    if snapshot(ppp) != keep:
        raise Violation('shared', 'labels of the transition system')


def predicates(ctx, w, ppp):
    """Are wrong labels noticed?"""
    if not ppp.preserves_predicates():
        raise Violation('preserves', 'exact partition')
    if not w.props:
        return
    k = ctx.choose(len(ppp.regions))
    big = max(pc.cheby_ball(p)[0] for p in hyb.polys(ppp.regions[k]))
    if big < 0.05:
        return
    bad = copy.deepcopy(ppp)
    bad.regions[k].props ^= {ctx.pick(sorted(w.props))}
    ctx.probe('tampered')
    if bad.preserves_predicates():
        raise Violation(
            'preserves', f'region {k} labeled {bad.regions[k].props}')
    if not ppp.preserves_predicates():
        raise Violation('shared', 'copy of a partition')


def refused(ctx, f, errs, what):
    ctx.fault(f'bad-{what}')
    try:
        f()
    except errs:
        ctx.probe('rejected')
        return
    raise Violation('accepted', what)


def reject(ctx, w, ppp):
    """Constructions that are wrong."""
    from tulip.abstract import prop2partition as p2p
    from tulip import hybrid
    P = p2p.PropPreservingPartition
    n = len(ppp.regions)
    keep = snapshot(ppp)
    how = ctx.choose(8)

    def make(**kw):
        d = dict(domain=ppp.domain, regions=ppp.regions, adj=ppp.adj,
                 prop_regions=ppp.prop_regions)
        d.update(kw)
        return lambda: P(**d)
    if how == 0:
        out = pc.Region([pc.box2poly([
            [b - ctx.pick([0., 0.1]), b + 1.] for _, b in w.box])], set())
        rs = list(ppp.regions)
        rs.insert(ctx.choose(n + 1), out)
        refused(ctx, make(regions=rs, adj=None), ValueError,
                'region-out-of-domain')
        if len(P(domain=ppp.domain, regions=rs, check=False)) != n + 1:
            raise Violation('container', 'unchecked')
    elif how == 1:
        rs = copy.deepcopy(ppp.regions)
        rs[ctx.choose(n)].props.add('undeclared')
        refused(ctx, make(regions=rs), ValueError, 'undeclared')
    elif how == 2:
        refused(ctx, make(adj=np.ones((n, n + 1))), ValueError, 'adjacency')
    elif how == 3:
        m = n + ctx.pick([1, -1])
        refused(ctx, make(adj=np.ones((m, m))), ValueError, 'adjacency')
    elif how == 4:
        bad = ctx.pick([['p'], {'p'}, 'p', 3])
        refused(ctx, make(prop_regions=bad), TypeError, 'prop_regions')
    elif how == 5:
        kw = ctx.pick([
            dict(), dict(grid_size=1., num_grid_pnts=2),
            dict(grid_size=[1.] * (w.dim + 1)), dict(grid_size='1'),
            dict(grid_size=[]), dict(num_grid_pnts=[2] * (w.dim + 1)),
            dict(num_grid_pnts=1.5), dict(num_grid_pnts=[1.5] * w.dim),
            dict(num_grid_pnts=[2] * (w.dim - 1)),
            dict(grid_size=0.), dict(grid_size=-1.),
            dict(grid_size=[1.] * (w.dim - 1) + [0.]),
            dict(num_grid_pnts=0), dict(num_grid_pnts=-2),
            dict(num_grid_pnts=[1] * (w.dim - 1) + [-1]),
            dict(grid_size=float('nan'))])
        refused(ctx, lambda: p2p.add_grid(ppp, **kw), Exception,
                'grid-arguments')
    elif how == 6:
        # does not cover the domain
        box = [list(x) for x in w.box]
        k = ctx.choose(w.dim)
        lo, hi = (np.asarray(v).flatten() for v in w.domain.bounding_box)
        if ctx.chance(0.5):
            box[k][1] = float(hi[k] - 0.1)
        else:
            box[k][0] = float(lo[k] + 0.1)
        if box[k][0] > box[k][1] - 0.1:
            return
        s = hybrid.LtiSysDyn(
            A=np.eye(w.dim), B=np.eye(w.dim),
            Uset=pc.box2poly([[-1., 1.]] * w.dim), domain=pc.box2poly(box))
        s = hybrid.PwaSysDyn([s], pc.box2poly(box))
        refused(ctx, lambda: p2p.pwa_partition(s, ppp), Exception,
                'plant-elsewhere')
    else:
        # none of these is an error
        p = P(domain=ppp.domain, regions=ppp.regions, adj=None,
              prop_regions=ppp.prop_regions)
        p.regions.pop()
        p.regions.append(pc.Region([], set()))
        p.prop_regions['new'] = pc.box2poly(w.box)
    if snapshot(ppp) != keep:
        raise Violation('argument-changed', f'rejected input {how}')


def with_faults(ctx, f, what):
    """The numeric solver may fail, then the caller tries again."""
    if not ctx.chance(0.15):
        return f()
    at = ctx.pick([1, 2, 5, 20, 60])
    ctx.fault('lp-raises')
    with Faults(at):
        try:
            return f()
        except Injected:
            ctx.probe('solver-raises')
    return None


def run(ctx):
    from tulip.abstract import prop2partition as p2p
    ctx.component('tulip.abstract.prop2partition', 'real')
    ctx.component('polytope, GLPK', 'real, failures injected')
    with warnings.catch_warnings(), hyb.seeded(ctx):
        warnings.simplefilter('ignore')
        w = World(ctx)
        ctx.sample = dict(
            box=w.box, slanted=w.slanted,
            props={k: [v.A.tolist(), v.b.tolist()]
                   for k, v in w.props.items()})
        ctx.log(ctx.sample)
        given = copy.deepcopy((w.domain, w.props))
        ppp = with_faults(
            ctx, lambda: p2p.prop2part(w.domain, w.props), 'prop2part')
        if ppp is None:
            ppp = p2p.prop2part(w.domain, w.props)
        show = lambda d: [(k, v.A.tolist(), v.b.tolist())
                          for k, v in d.items()]
        if show(given[1]) != show(w.props) or not np.array_equal(
                given[0].A, w.domain.A):
            raise Violation('argument-changed', 'prop2part')
        if ctx.chance(0.3):
            # the caller goes on to use its own objects
            ctx.probe('edited-result')
            mine, w.props = w.props, given[1]
            for v in mine.values():
                v.A, v.b = -v.A, v.b + 5
            mine['z'] = pc.box2poly(w.box)
        check(ctx, w, ppp, 'prop2part')
        if any(len(hyb.polys(r)) > 1 for r in ppp.regions):
            ctx.probe('nonconvex-region')
        done = 0
        ops = dict(convex=convex, pwa=pwa, grid=grid)
        for _ in range(ctx.integer(1, 3)):
            ctx.tick()
            name = ctx.pick(sorted(ops))
            if len(ppp.regions) > (12 if name == 'grid' else 30):
                break
            before = snapshot(ppp)
            cuts = list(w.cuts)
            new = with_faults(ctx, lambda: ops[name](ctx, w, ppp), name)
            if snapshot(ppp) != before:
                raise Violation('argument-changed', name)
            if new is None:
                # as if it were not called
                w.cuts = cuts
                check(ctx, w, ppp, f'after a fault in {name}')
                continue
            ctx.log(name, len(new.regions))
            check(ctx, w, new, name)
            ctx.state(name, len(new.regions), w.slanted, w.dim,
                      sum(len(hyb.polys(r)) for r in new.regions))
            done += 1
            if ctx.chance(0.3):
                # the old partition is edited by its owner
                keep = snapshot(new)
                for r in ppp.regions:
                    r.props.add('edited')
                ppp.prop_regions['edited'] = ppp.domain
                ppp.regions.reverse()
                if snapshot(new) != keep:
                    raise Violation('shared', name)
            ppp = new
        if done > 1:
            ctx.probe('refined-twice')
        if ctx.chance(0.7):
            to_ts(ctx, w, ppp)
        if ctx.chance(0.4) and len(ppp.regions) < 15:
            predicates(ctx, w, ppp)
        if ctx.chance(0.5):
            reject(ctx, w, ppp)
        ctx.nontrivial = done > 0 and len(ppp.regions) >= 3
