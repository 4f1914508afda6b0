"""Random switched systems."""
import numpy as np
import polytope as pc

from . import hyb
from .core import Discard


def gen(ctx, dim):
    """Switched system, partition, propositions, box."""
    import tulip.hybrid as th
    box = [[0., float(ctx.integer(2, 3))] for _ in range(dim)]
    domain = pc.box2poly(box)
    ppp, props = hyb.gen_partition(ctx, domain, box, most=2)
    shape = ctx.weighted([
        (3, (1, 2)), (2, (2, 1)), (1, (1, 1)), (1, (2, 2)), (1, (1, 3))])
    env = ['e', 'env1'][:shape[0]]
    sys_ = ['s', 'sys1', 'third'][:shape[1]]
    kind = ctx.weighted([(3, 'str'), (1, 'default'), (1, 'int')])
    if kind == 'int':
        env = [7, 3][:shape[0]]
        sys_ = [4, 2, 9][:shape[1]]
    if kind == 'default':
        env, sys_ = list(range(shape[0])), list(range(shape[1]))
    modes = [(e, s) for e in env for s in sys_]
    if len(modes) > 1 and ctx.chance(0.2):
        modes = ctx.subset(modes, 0.7) or modes[:1]
    modes = ctx.shuffle(modes)
    dyn = dict()
    p = None
    for mode in modes:
        if p is not None and ctx.chance(0.3):
            p = variant(ctx, th, p, domain)
        else:
            p, _, _ = hyb.gen_plant(ctx, dim, domain=domain, box=box)
        if not isinstance(p, th.PwaSysDyn):
            p = th.PwaSysDyn([p], domain)
        dyn[mode] = p
    kw = dict()
    if kind != 'default':
        kw = dict(env_labels=env, disc_sys_labels=sys_)
    switched = th.SwitchedSysDyn(shape, dyn, domain, **kw)
    return switched, ppp, props, box, kind


def variant(ctx, th, plant, domain):
    """Almost the same plant: its cells meet others in thin slivers."""
    f = 1 + ctx.pick([0.03, 0.01, 0.06, 0.002])
    subs = list()
    for s in plant.list_subsys:
        U = s.Uset
        subs.append(th.LtiSysDyn(
            A=s.A, B=s.B, K=s.K, Uset=pc.Polytope(U.A, U.b * f),
            domain=s.domain, **(
                dict(E=s.E, Wset=s.Wset) if s.Wset.dim else dict())))
    return th.PwaSysDyn(subs, domain)


def gen_params(ctx, modes, dim, box):
    """Discretization parameters of each mode, perhaps None."""
    if ctx.chance(0.1):
        return None
    vol = np.prod([b - a for a, b in box])
    out = dict()
    N = ctx.weighted([(3, 1), (2, 2)])
    for mode in modes:
        d = dict(min_cell_volume=float(vol * ctx.pick([0.3, 0.2, 0.15])))
        if ctx.chance(0.9) or dim > 1:
            d['N'] = N
        if ctx.chance(0.6):
            d['trans_length'] = ctx.weighted([(4, 1), (1, 2)])
        if ctx.chance(0.5):
            d['closed_loop'] = ctx.chance(0.6)
        if ctx.chance(0.3):
            d['conservative'] = ctx.chance(0.6)
        if ctx.chance(0.1):
            d['simu_type'] = ctx.pick(['bi', 'dual'])
        out[mode] = d
    return out


def effective(params, mode):
    if params is None:
        return dict(N=1, trans_length=1, closed_loop=True)
    d = params[mode]
    return dict(N=d.get('N', 10), trans_length=d.get('trans_length', 1),
                closed_loop=d.get('closed_loop', True))


def describe(switched, params):
    return dict(modes=[
        [repr(m), hyb.describe(d),
         repr(params if params is None else params[m])]
        for m, d in switched.dynamics.items()])
