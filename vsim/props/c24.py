"""C24: sets from which a target is reachable."""
import numpy as np
import polytope as pc

from .. import hyb, reach
from ..core import Discard, Violation

RUNS = {'quick': 1200, 'thorough': 60000}
BATCHES = {'quick': 32, 'thorough': 400}
CPU_BUDGET = 60
WALL_BUDGET = 300
RULE = ('A run draws an affine plant, a start set, a target, a set to stay '
        'in and options, computes the set from which the target is reachable, '
        'and plays from its corners and from random states against '
        'adversarial disturbances, and looks for states outside of it from '
        'which the game is won; non-trivial: a game was played to its end.')
TIME_UNIT = 'plant steps'
STATE_MEASURE = '(mode, horizon, shapes of the sets, outcome)'
ASSUMPTIONS = [
    'plants have 1 or 2 state dimensions, horizon at most 3',
    'states are at least 1e-4 inside of the set',
    'completeness with a margin of 1e-3, for convex sets']
PROBES = ['closed', 'open', 'all-horizon', 'union-start', 'union-target',
          'trans-set', 'played', 'outside', 'empty', 'feasible',
          'not-feasible', 'seq-inside', 'seq-outside', 'drift', 'dependent',
          'waits', 'reuse']
TOL = 2e-6
SLACK = 1e-3


class Injected(Exception):
    pass


def gen_set(ctx, box, dim, union=0.25):
    """Convex piece, or a union of two."""
    p = hyb.halfplane_cut(ctx, box)
    if not pc.is_fulldim(p) or pc.cheby_ball(p)[0] < 0.05:
        raise Discard()
    if ctx.chance(union):
        q = hyb.halfplane_cut(ctx, box)
        if pc.is_fulldim(q) and pc.cheby_ball(q)[0] > 0.05:
            r = pc.Region([p, q])
            return r
    if ctx.chance(0.2):
        return pc.Region([p])
    return p


def snap(p):
    return [(q.A.copy(), q.b.copy()) for q in hyb.polys(p)]


def unchanged(before, p):
    now = hyb.polys(p)
    return len(now) == len(before) and all(
        np.array_equal(a, q.A) and np.array_equal(b, q.b)
        for (a, b), q in zip(before, now))


def show(p):
    return [[q.A.tolist(), q.b.tolist()] for q in hyb.polys(p)]


class Case:
    """Plant, sets and options."""

    def __init__(self, ctx):
        import tulip.hybrid as hybrid
        self.dim = dim = ctx.integer(1, 2)
        self.box = [[0., float(ctx.integer(2, 4))] for _ in range(dim)]
        m = 1 if dim == 1 else ctx.weighted([(3, 2), (1, 1)])
        self.mode = ctx.weighted([
            (4, 'closed'), (3, 'open'), (2, 'all-horizon')])
        dep = ctx.chance(0.4 if self.mode == 'open' and dim == 1 else 0.2)
        d = hyb.gen_matrices(
            ctx, dim, m, ctx.chance(0.6), dep,
            steep=ctx.pick([0.2, 0.6]))
        if d['E'] is not None and dim == 2 and ctx.chance(0.15):
            # fewer disturbances than states
            d['E'] = np.array([[1.], [hyb.grid(ctx, -1, 1, 8)]])
            w = hyb.grid(ctx, 0.02, 0.2, 9)
            d['Wset'] = pc.box2poly([[-w, w]])
        self.ss = hybrid.LtiSysDyn(domain=pc.box2poly(self.box), **d)
        if self.ss.K.any():
            ctx.probe('drift')
        if dep:
            ctx.probe('dependent')
        self.P1 = gen_set(ctx, self.box, dim)
        self.P2 = gen_set(ctx, self.box, dim)
        if len(hyb.polys(self.P1)) > 1:
            ctx.probe('union-start')
        if len(hyb.polys(self.P2)) > 1:
            ctx.probe('union-target')
        ctx.probe(self.mode)
        self.N = ctx.weighted([(2, 1), (3, 2), (1, 3)])
        if self.mode == 'open' and dim == 1:
            self.N = ctx.integer(1, 3)
        if self.mode == 'open' and dim == 2:
            # projections from many dimensions are not reliable
            self.N = min(self.N, 2)
        self.trans = None
        how = ctx.choose(4)
        if how == 1:
            self.trans = pc.box2poly(self.box)
        elif how == 2:
            # start within the set to stay in
            self.trans = pc.box2poly(
                [[lo - 1., hi + 1.] for lo, hi in self.box])
        elif how == 3:
            self.trans = gen_set(
                ctx, self.box, dim, 0.25 if self.mode != 'open' else 0)
            if self.mode == 'open':
                self.trans = hyb.polys(self.trans)[0]
        if self.trans is not None:
            ctx.probe('trans-set')

    def stay(self):
        return self.P1 if self.trans is None else self.trans

    def kw(self):
        d = dict(closed_loop=self.mode != 'open',
                 use_all_horizon=self.mode == 'all-horizon')
        if self.trans is not None:
            d['trans_set'] = self.trans
        return d

    def text(self):
        return (f'{self.mode} N={self.N} P1={show(self.P1)} '
                f'P2={show(self.P2)} trans='
                f'{None if self.trans is None else show(self.trans)} '
                f'{hyb.describe(self.ss)}')


def run(ctx):
    from tulip.abstract import feasible as fsb
    ctx.component('tulip.abstract.feasible, tulip.hybrid, polytope', 'real')
    ctx.component('plant and disturbance', 'simulated')
    with hyb.seeded(ctx, most=200, constant=True):
        case = Case(ctx)
        sets = [case.P1, case.P2] + (
            [case.trans] if case.trans is not None else [])
        before = [snap(p) for p in sets]
        mats = [x.copy() for x in (case.ss.A, case.ss.B, case.ss.E,
                                   case.ss.K)]
        S = compute(ctx, fsb, case)
        for b, p in zip(before, sets):
            if not unchanged(b, p):
                raise Violation('argument-changed', case.text())
        for b, p in zip(mats, (case.ss.A, case.ss.B, case.ss.E, case.ss.K)):
            if not np.array_equal(b, p):
                raise Violation('argument-changed', case.text())
        empty = not pc.is_fulldim(S)
        if empty:
            ctx.probe('empty')
        ctx.state(case.mode, case.N, len(hyb.polys(case.P1)),
                  len(hyb.polys(case.P2)), case.trans is None, empty,
                  case.dim)
        if not empty:
            inside(ctx, fsb, case, S)
        outside(ctx, case, S)
        if ctx.chance(0.4):
            feasible(ctx, fsb, case)
        if ctx.chance(0.5):
            sequence(ctx, case)


def compute(ctx, fsb, case):
    if ctx.chance(0.1):
        # a solver that fails
        real = pc.polytope.lpsolve
        n = [ctx.integer(1, 40)]

        def lp(*a, **kw):
            n[0] -= 1
            if n[0] == 0:
                ctx.fault('lp-raises')
                raise Injected('LP solver')
            return real(*a, **kw)
        pc.polytope.lpsolve = lp
        try:
            fsb.solve_feasible(
                case.P1, case.P2, case.ss, case.N, **case.kw())
            if n[0] <= 0:
                raise Violation('solver-failure-ignored', case.text())
        except Injected:
            pass
        finally:
            pc.polytope.lpsolve = real
    S = fsb.solve_feasible(case.P1, case.P2, case.ss, case.N, **case.kw())
    if ctx.chance(0.1):
        # nothing is left behind by other calls
        ctx.probe('reuse')
        try:
            fsb.solve_feasible(case.P2, case.P1, case.ss, 1)
        except Exception:
            pass
        R = fsb.solve_feasible(
            case.P1, case.P2, case.ss, case.N, **case.kw())
        for x in points(ctx, S, 3):
            if hyb.region_margin(R, x) < -TOL:
                raise Violation('not-repeatable', case.text())
    return S


def points(ctx, region, n):
    if not pc.is_fulldim(region):
        return []
    c = hyb.corners(region)
    out = [ctx.pick(c) for _ in range(min(n, len(c)))]
    for _ in range(n):
        x = hyb.sample(ctx, region)
        if x is not None:
            out.append(x)
    return out


def inside(ctx, fsb, case, S):
    """From `S` the target is reached."""
    n = 4 if case.mode == 'open' and case.dim == 1 else 2
    for x in points(ctx, S, n):
        mg = hyb.region_margin(case.P1, x)
        if mg < -TOL:
            raise Violation(
                'not-in-start', f'{x.tolist()} is {-mg} outside of P1; '
                f'{case.text()}')
        if case.mode == 'open':
            start = [p for p in hyb.polys(case.P1)
                     if hyb.margin(p, x) >= -TOL]
            stays = start if case.trans is None else [case.trans]
            try:
                u = attempt(case, x, stays, hyb.polys(case.P2),
                            case.N, False)
            except reach.TooLarge:
                continue
            if u is None:
                raise Violation(
                    'not-reachable', f'from {x.tolist()}; {case.text()}')
            ctx.probe('played')
            ctx.nontrivial = True
            continue
        play(ctx, fsb, case, x)
        ctx.probe('played')
        ctx.nontrivial = True


def inner(fsb, case, h, cache):
    """Where the game has to be after a step, with `h` steps left."""
    if h not in cache:
        if h == 0:
            cache[h] = hyb.polys(case.P2)
        else:
            T = fsb.solve_feasible(
                case.stay(), case.P2, case.ss, h, **case.kw())
            cache[h] = [p for p in hyb.polys(T) if pc.is_fulldim(p)]
    return cache[h]


def attempt(case, x, stays, targets, n, closed, k=0):
    """Plan, with errors that grow with the steps `k` so far."""
    for slack in (0, -1e-7, -TOL * 8**k):
        u = reach.plan_any(case.ss, x, stays, targets, n, closed, slack)
        if u is not None:
            return u
    return None


def play(ctx, fsb, case, x):
    """Closed loop, the disturbance is an adversary."""
    convex = all(len(hyb.polys(p)) == 1
                 for p in (case.P1, case.P2, case.stay()))
    path = [x]
    cache = dict()
    for k in range(case.N):
        h = case.N - k
        u = None
        if case.mode == 'closed' and convex:
            try:
                u = attempt(
                    case, x, hyb.polys(case.stay()),
                    hyb.polys(case.P2), h, True, k)
            except reach.TooLarge:
                return
        else:
            targets = list(inner(fsb, case, h - 1, cache))
            if case.mode == 'all-horizon' and h > 1:
                targets = hyb.polys(case.P2) + targets
                both = case.P2.union(
                    pc.Region(inner(fsb, case, h - 1, cache)),
                    check_convex=True)
                targets += hyb.polys(pc.reduce(both))
            u = attempt(case, x, [None], targets, 1, True, k)
        if u is None:
            raise Violation(
                'not-reachable', f'step {k} of {case.N} at {x.tolist()}, '
                f'path {path}; {case.text()}')
        x = hyb.step(ctx, case.ss, x, u)
        path.append(x)
        ctx.tick()
        ctx.log('x', *[f'{v:.6f}' for v in x])
        if hyb.region_margin(case.P2, x) >= -1e-4 and (
                case.mode == 'all-horizon' or h == 1):
            if h > 1:
                ctx.probe('waits')
            return
        if h > 1 and hyb.region_margin(case.stay(), x) < -1e-4:
            raise Violation(
                'leaves', f'path {path}; {case.text()}')
    raise Violation('misses-target', f'path {path}; {case.text()}')


def wins(case, x):
    """Can the target be reached from `x`, with a margin? (else None)"""
    P1, P2 = hyb.polys(case.P1), hyb.polys(case.P2)
    stay = hyb.polys(case.stay())
    if case.mode == 'open' and case.trans is None:
        stay = [p for p in P1 if hyb.margin(p, x) > SLACK]
    elif case.N > 1 and (
            len(P2) > 1 or len(stay) > 1 or
            (case.mode == 'open' and case.dim > 1)):
        return None
    if case.mode == 'open' and case.N * case.ss.B.shape[1] > 2:
        return None
    first = case.N
    if case.mode == 'all-horizon' and case.N > 1:
        # documented as an underapproximation: in the plane, unions are
        # divided into pieces, and what reaches a piece is what counts
        if case.dim > 1:
            return None
        first = 1
    for n in range(first, case.N + 1):
        try:
            u = reach.plan_any(
                case.ss, x, stay, P2, n, case.mode != 'open', SLACK)
        except reach.TooLarge:
            return None
        if u is not None:
            return n
    return None


def outside(ctx, case, S):
    """States from which the target can be reached are in `S`."""
    empty = not pc.is_fulldim(S)
    for x in points(ctx, case.P1, 4):
        if hyb.region_margin(case.P1, x) < 10 * SLACK and ctx.chance(0.5):
            # corners of the start set are rarely in the interior
            continue
        if not empty and hyb.region_margin(S, x) >= -SLACK:
            continue
        n = wins(case, x)
        ctx.probe('outside')
        if n is not None:
            raise Violation(
                'missing', f'{x.tolist()} in {n} steps; {case.text()}')


def feasible(ctx, fsb, case):
    """The verdict on a whole set."""
    r = fsb.is_feasible(case.P1, case.P2, case.ss, case.N, **case.kw())
    if r:
        ctx.probe('feasible')
        for x in points(ctx, case.P1, 2):
            if case.mode != 'open':
                play(ctx, fsb, case, x)
                continue
            stays = [p for p in hyb.polys(case.P1)
                     if hyb.margin(p, x) >= -TOL]
            if case.trans is not None:
                stays = [case.trans]
            try:
                u = attempt(case, x, stays, hyb.polys(case.P2),
                            case.N, False)
            except reach.TooLarge:
                return
            if u is None:
                raise Violation('not-feasible', f'{x} {case.text()}')
        return
    ctx.probe('not-feasible')
    if any(len(hyb.polys(p)) > 1 for p in (
            case.P1, case.P2, case.stay())):
        return
    if case.mode == 'all-horizon':
        # an underapproximation; exact for a single step
        if case.N > 1:
            return
    p = hyb.polys(case.P1)[0]
    v = np.array(pc.extreme(p), dtype=float)
    if case.mode == 'open' and case.N * case.ss.B.shape[1] > 2:
        return
    try:
        if all(reach.plan_any(
                case.ss, x, hyb.polys(case.stay()), hyb.polys(case.P2),
                case.N, case.mode != 'open', SLACK) is not None for x in v):
            raise Violation('is-feasible', case.text())
    except reach.TooLarge:
        return


def sequence(ctx, case):
    """An input sequence, without disturbance."""
    from tulip.abstract import find_controller as fc
    ss = case.ss
    x = hyb.sample(ctx, case.P1)
    if x is None:
        return
    stay, target = case.stay(), case.P2
    n = ctx.integer(1, 3)
    m = ss.B.shape[1]
    seq = np.array([[hyb.grid(ctx, -1, 1, 16) for _ in range(m)]
                    for _ in range(n)])
    if ctx.chance(0.6):
        # steered
        y = x
        for k in range(n):
            goal = hyb.sample(ctx, stay if k < n - 1 else target)
            if goal is None:
                return
            seq[k] = np.linalg.lstsq(
                ss.B, goal - ss.A.dot(y) - ss.K.flatten(), rcond=None)[0]
            y = ss.A.dot(y) + ss.B.dot(seq[k]) + ss.K.flatten()
    worst = list()
    y = x
    for k in range(n):
        y = ss.A.dot(y) + ss.B.dot(seq[k]) + ss.K.flatten()
        worst.append(hyb.region_margin(stay if k < n - 1 else target, y))
    if any(abs(w) < 1e-5 for w in worst):
        return
    want = min(worst) > 0
    ctx.probe('seq-inside' if want else 'seq-outside')
    keep = seq.copy(), x.copy()
    got = fc.is_seq_inside(x, seq, ss, stay, target)
    if bool(got) != want:
        raise Violation(
            'sequence', f'{got} for margins {worst}, {x} {seq} {case.text()}')
    if not np.array_equal(keep[0], seq) or not np.array_equal(keep[1], x):
        raise Violation('argument-changed', 'is_seq_inside')
