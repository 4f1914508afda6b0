"""C09: parallel abstraction of switched systems gives the serial result."""
import numpy as np

from .. import hyb, simmp, switched
from ..core import Discard, Violation

RUNS = {'quick': 260, 'thorough': 15000}
BATCHES = {'quick': 32, 'thorough': 300}
CPU_BUDGET = 120
WALL_BUDGET = 600
RULE = ('A run draws a switched system and options, abstracts it serially, '
        'then several times with simulated worker processes under different '
        'schedules and worker faults, and compares the results; non-trivial: '
        'at least two modes and two regions.')
TIME_UNIT = 's (simulated clock of the worker processes)'
STATE_MEASURE = '(order of completion of the workers, fates, outcome)'
ASSUMPTIONS = [
    'each worker is atomic: it shares nothing with others but the queue',
    'a worker killed while writing to the queue is not simulated',
    'randomised volumes are a function of the polytope in these runs']
PROBES = ['parallel', 'reordered', 'failure-reported', 'survived-failure',
          'default-params', 'int-labels', 'modes>1']


def key(ab, i):
    return tuple(sorted(
        (repr(mode), int(ab.ppp2modes[mode][i])) for mode in ab.modes))


def geometry(reg):
    out = list()
    for p in hyb.polys(reg):
        ab = np.hstack([p.A, p.b.reshape(-1, 1)])
        nrm = np.linalg.norm(p.A, axis=1, keepdims=True)
        ab = ab / np.where(nrm == 0, 1, nrm)
        out.append(tuple(sorted(
            tuple(0.0 if abs(v) < 5e-7 else round(float(v), 6) for v in row)
            for row in ab)))
    return tuple(sorted(out))


def points(box):
    axes = [np.linspace(a + 0.00713, b - 0.00317, 23 if len(box) > 1 else 61)
            for a, b in box]
    return np.array(np.meshgrid(*axes)).reshape(len(box), -1).T


def inside(reg, pts):
    out = np.zeros(len(pts), dtype=int)
    for p in hyb.polys(reg):
        m = (p.b - pts.dot(p.A.T)).min(axis=1)
        out = np.where(m > 1e-6, 1, np.where(
            (m > -1e-6) & (out != 1), -1, out))
    return out


def canon(ab, box):
    """The content of a switched abstraction, without the order of regions."""
    n = len(ab.ppp.regions)
    keys = [key(ab, i) for i in range(n)]
    if len(set(keys)) != n:
        raise Violation('regions-repeat', f'{keys}')
    st = list(ab.ppp2ts)
    of = {s: k for s, k in zip(st, keys)}
    pts = points(box)
    regions = {keys[i]: (
        sorted(ab.ppp.regions[i].props),
        sorted(ab.ts.states[st[i]]['ap']),
        inside(ab.ppp.regions[i], pts).tolist()) for i in range(n)}
    edges = sorted(
        (of[u], of[v], tuple(sorted((k, str(a)) for k, a in d.items())))
        for u, v, d in ab.ts.transitions(data=True))
    modes = dict()
    for mode, a in ab.modes.items():
        modes[repr(mode)] = (
            [geometry(r) for r in a.ppp.regions],
            sorted((a.ppp2ts.index(u), a.ppp2ts.index(v))
                   for u, v in set(a.ts.transitions())),
            sorted((k, repr(v)) for k, v in a.disc_params.items()),
            [sorted(a.ts.states[s]['ap']) for s in a.ppp2ts])
    adj = ab.ppp.adj
    adj = adj.toarray() if hasattr(adj, 'toarray') else np.asarray(adj)
    near = sorted((keys[i], keys[j])
                  for i in range(n) for j in range(n) if adj[i, j])
    return dict(regions=regions, edges=edges, modes=modes, adj=near,
                aps=sorted(ab.ts.atomic_propositions),
                env=sorted(map(str, ab.ts.env_actions)),
                sys=sorted(map(str, ab.ts.sys_actions)))


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if k in ('edges', 'adj'):
                return (f'{k}: only serial {set(a[k]) - set(b[k])}, only '
                        f'parallel {set(b[k]) - set(a[k])}, '
                        f'{len(a[k])} and {len(b[k])}')
            if isinstance(a[k], dict):
                for i in set(a[k]) | set(b[k]):
                    if a[k].get(i) != b[k].get(i):
                        return (f'{k}[{i}]: {a[k].get(i)} vs '
                                f'{b[k].get(i)}')
            return f'{k}: {a[k]} vs {b[k]}'
    return None


def run(ctx):
    from tulip import abstract
    ctx.component('tulip.abstract (serial and parallel)', 'real')
    ctx.component('multiprocessing', 'simulated')
    ctx.component('polytope, cvxopt/GLPK', 'real')
    with hyb.seeded(ctx, 1200, constant=True):
        dim = ctx.weighted([(6, 1), (1, 2)])
        sw, ppp, props, box, kind = switched.gen(ctx, dim)
        modes = list(sw.modes)
        params = switched.gen_params(ctx, modes, dim, box)
        ctx.sample = switched.describe(sw, params)
        ctx.log(ctx.sample)
        saved = repr(params)
        ctx.probe('default-params', params is None)
        ctx.probe('int-labels', kind != 'str')
        ctx.probe('modes>1', len(modes) > 1)
        serial = canon(abstract.discretize_switched(ppp, sw, params), box)
        n = len(serial['regions'])
        ctx.log('serial', n, len(serial['edges']))
        for _ in range(ctx.integer(1, 3)):
            faults = ctx.pick([0, 0, 0.3])
            out = None
            with simmp.patched(ctx, faults) as sim:
                try:
                    out = abstract.multiproc_discretize_switched(
                        ppp, sw, params)
                except Exception as e:
                    if not sim.fired:
                        raise
                    ctx.log('raised', type(e).__name__, str(e))
                    if any(':' in f for f in sim.fired):
                        raise Violation('worker-failed', str(sim.fired))
                    ctx.probe('failure-reported')
                names = [p.name for p in sim.procs]
                ctx.probe('parallel', bool(names))
                ctx.probe('reordered', sim.order != names)
                ctx.state(tuple(sim.order), tuple(p.fate for p in sim.procs),
                          out is None)
            if out is None:
                continue
            if sim.fired:
                ctx.probe('survived-failure')
            d = diff(serial, canon(out, box))
            if d:
                raise Violation('differs-from-serial', d)
        if repr(params) != saved:
            raise Violation('arguments-changed', f'{saved} to {params}')
        ctx.nontrivial = len(modes) > 1 and n > 1
