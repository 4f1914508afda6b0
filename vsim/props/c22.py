"""C22: models of hybrid systems are consistent, or rejected."""
import itertools
import warnings

import numpy as np
import polytope as pc

from ..core import Violation

RUNS = {'quick': 1600, 'thorough': 60000}
RULE = ('A run is a history of constructions of affine, piecewise affine and '
        'switched systems that share parts, with malformed parts and '
        'inconsistent time data at any point; the model says which are '
        'consistent, and what the time data of every system is after each '
        'construction; non-trivial: a piecewise system was built and one '
        'construction rejected.')
TIME_UNIT = 'constructions'
STATE_MEASURE = '(kind of system, fault, outcome)'
ASSUMPTIONS = ['domains are boxes with corners on a grid of 1/4']
PROBES = ['lti', 'pwa', 'switched', 'from_lti', 'from_pwa', 'shared-part',
          'not-overwritten', 'covers-more', 'region-domain', 'empty']
SEM = [(None, None), ('discrete', None), ('sampled', None), ('sampled', 0.5),
       (None, 1), ('sampled', 2)]
BAD_TIME = [('continuous', None), ('discrete', 1), ('sampled', 0),
            ('sampled', -1.5), (None, -1), ('sampled', '1'), ('Discrete', None)]


def box(b):
    return pc.box2poly([[float(x), float(y)] for x, y in b])


def union(bs):
    if len(bs) == 1:
        return box(bs[0])
    return pc.Region([box(b) for b in bs])


def volume(b):
    return float(np.prod([max(0, y - x) for x, y in b]))


def meet(a, b):
    return [(max(x, u), min(y, v)) for (x, y), (u, v) in zip(a, b)]


def covered(big, parts):
    """Are the boxes `big` covered by the boxes `parts`?"""
    for b in big:
        cuts = [sorted({x, y} | {
            c for p in parts for c in p[k] if x < c < y})
            for k, (x, y) in enumerate(b)]
        for cell in itertools.product(*[
                list(zip(c, c[1:])) for c in cuts]):
            if not any(volume(meet(cell, p)) > 0 for p in parts):
                return False
    return True


class Model:
    """What is known of a system: its kind, time data, and parts."""

    def __init__(self, obj, kind, time, parts=(), **kw):
        self.obj, self.kind, self.time = obj, kind, time
        self.parts = list(parts)
        self.__dict__.update(kw)

    def push(self, time):
        self.time = time
        for p in self.parts:
            p.push(time)


def run(ctx):
    from tulip import hybrid as hyb
    ctx.component('tulip.hybrid, polytope', 'real')
    ctx.component('user who builds and shares systems', 'simulated')
    pool = list()
    st = dict(pwa=0, rejected=0)
    dim = ctx.integer(1, 2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(ctx.integer(3, 12)):
            ctx.tick()
            op = ctx.weighted([(3, lti), (4, pwa), (3, switched), (0.3, empty)])
            op(ctx, hyb, pool, dim, st)
            check(pool)
    ctx.nontrivial = st['pwa'] > 0 and st['rejected'] > 0


def empty(ctx, hyb, pool, dim, st):
    """Models without parts, which are given later."""
    (sem, step), fault = times(ctx)
    over = ctx.chance(0.5)
    d = box(gen_box(ctx, dim))
    ctx.probe('empty')
    if ctx.chance(0.5):
        s = expect(ctx, st, 'empty pwa', fault, lambda: hyb.PwaSysDyn(
            ctx.pick([None, []]), d, sem, step, over))
        parts = s and s.list_subsys
    else:
        s = expect(ctx, st, 'empty switched', fault, lambda:
                   hyb.SwitchedSysDyn(
                       (1, 1), ctx.pick([None, {}]), d, time_semantics=sem,
                       timestep=step, overwrite_time=over))
        parts = s and s.dynamics
    if s is None:
        return
    if parts or (s.time_semantics, s.timestep) != (sem, step):
        raise Violation('content', f'{parts} {s.time_semantics} {s.timestep}')


def check(pool):
    for m in pool:
        got = (m.obj.time_semantics, m.obj.timestep)
        if got != m.time:
            raise Violation(
                'time-data', f'{m.kind}: {got} instead of {m.time}')
        if m.kind == 'lti':
            for k, v in m.arrays.items():
                x = getattr(m.obj, k)
                if not np.array_equal(x, v):
                    raise Violation('content', f'{k} = {x} instead of {v}')
            if m.obj.domain is not m.domain or m.obj.Uset is not m.Uset:
                raise Violation('content', 'domain or Uset')
            if m.Wset is None:
                if not pc.is_empty(m.obj.Wset):
                    raise Violation('content', 'Wset')
            elif m.obj.Wset is not m.Wset:
                raise Violation('content', 'Wset')
        elif m.kind == 'pwa':
            if len(m.obj.list_subsys) != len(m.parts) or any(
                    a is not b.obj
                    for a, b in zip(m.obj.list_subsys, m.parts)):
                raise Violation('content', 'subsystems')
            if m.obj.domain is not m.domain:
                raise Violation('content', 'domain')
        else:
            d = m.obj
            if list(d.env_labels) != m.env or list(
                    d.disc_sys_labels) != m.sys:
                raise Violation('content', 'labels of modes')
            if d.all_mode_combs != list(itertools.product(m.env, m.sys)):
                raise Violation('content', f'{d.all_mode_combs}')
            if set(d.modes) != set(m.modes):
                raise Violation('content', f'modes {d.modes}')
            for k, p in m.modes.items():
                if d.dynamics[k] is not p.obj:
                    raise Violation('content', f'dynamics of {k}')
        if not str(m.obj):
            raise Violation('content', 'str')


def expect(ctx, st, what, fault, call):
    """Result of the construction, None if it was rejected as it should."""
    ctx.log(what, fault)
    try:
        r = call()
    except (ValueError, TypeError) as e:
        if fault is None:
            raise
        ctx.log('rejected', type(e).__name__)
        ctx.state(what, fault, type(e).__name__)
        st['rejected'] += 1
        return None
    ctx.state(what, fault, 'built')
    if fault is not None:
        raise Violation('accepted', f'{what} with {fault}')
    return r


def times(ctx, p=0.15):
    if ctx.chance(p):
        ctx.fault('bad-time-data')
        return ctx.pick(BAD_TIME), 'bad time data'
    return ctx.pick(SEM), None


def gen_box(ctx, dim):
    b = list()
    for _ in range(dim):
        x = ctx.choose(8)
        b.append((x / 4, (x + ctx.integer(1, 8)) / 4))
    return b


def arr(ctx, n, m):
    return np.array([[ctx.integer(-4, 4) / 4 for _ in range(m)]
                     for _ in range(n)]).reshape(n, m)


def lti_parts(ctx, dim, n_in=None, n_dist=None):
    m = ctx.integer(1, 2) if n_in is None else n_in
    p = ctx.integer(0, 2) if n_dist is None else n_dist
    d = dict(A=arr(ctx, dim, dim), B=arr(ctx, dim, m))
    d['Uset'] = box([(-1, 1)] * (m + (dim if ctx.chance(0.3) else 0)))
    if p:
        d['E'] = arr(ctx, dim, p)
        d['Wset'] = box([(-0.25, 0.25)] * p)
    if ctx.chance(0.5):
        d['K'] = arr(ctx, dim, 1)
    return d


def lti(ctx, hyb, pool, dim, st, b=None, n_in=None, n_dist=None, faults=0.3):
    """A new affine system."""
    d = lti_parts(ctx, dim, n_in, n_dist)
    b = gen_box(ctx, dim) if b is None else b
    d['domain'] = box(b)
    (sem, step), fault = times(ctx, faults / 2)
    m = d['B'].shape[1]
    if fault is None and ctx.chance(faults):
        kinds = {
            'A not square': dict(A=arr(ctx, dim, dim + 1)),
            'A is a vector': dict(A=np.ones(dim)),
            'rows of B': dict(B=arr(ctx, dim + 1, m)),
            'B is a vector': dict(B=np.ones(dim)),
            'dimension of Uset': dict(Uset=box([(0, 1)] * (m + dim + 1))),
            'type of Uset': dict(Uset=pc.Region([box([(0, 1)] * m)] * 2)),
            'no polytope': dict(Uset=[[0, 1]] * m),
            'dimension of domain': dict(domain=box([(0, 1)] * (dim + 1))),
            'type of domain': dict(domain=[(0, 1)] * dim),
            'rows of E': dict(E=arr(ctx, dim + 1, 1),
                              Wset=box([(0, 1)])),
            'dimension of Wset': dict(E=arr(ctx, dim, 1),
                                      Wset=box([(0, 1)] * 2)),
            'rows of K': dict(K=arr(ctx, dim + 1, 1)),
            'columns of K': dict(K=arr(ctx, dim, 2))}
        fault = ctx.pick(list(kinds))
        ctx.fault(fault)
        d.update(kinds[fault])
    keep = {k: v.copy() for k, v in d.items() if isinstance(v, np.ndarray)}
    names = ctx.shuffle(list(d))
    kw = {k: d[k] for k in names}
    how = 'lti'
    if sem is None and step is None and ctx.chance(0.3):
        how = 'from_lti'
        cls = ctx.pick([hyb.PwaSysDyn, hyb.SwitchedSysDyn])
        s = expect(ctx, st, f'{how} {cls.__name__}', fault,
                   lambda: cls.from_lti(**kw))
    else:
        s = expect(ctx, st, how, fault, lambda: hyb.LtiSysDyn(
            **kw, time_semantics=sem, timestep=step))
    for k, v in keep.items():
        if not np.array_equal(d[k], v):
            raise Violation('argument-changed', k)
    if s is None:
        return None
    ctx.probe(how)
    arrays = dict(A=keep['A'], B=keep['B'],
                  E=keep.get('E', np.zeros([dim, 1])),
                  K=keep.get('K', np.zeros([dim, 1])))
    chain = list()
    if how == 'from_lti':
        if cls is hyb.SwitchedSysDyn:
            if list(s.dynamics) != [(0, 0)]:
                raise Violation('content', f'modes {list(s.dynamics)}')
            chain.append(s)
            s = s.dynamics[0, 0]
        chain.append(s)
        if len(s.list_subsys) != 1:
            raise Violation('content', 'subsystems')
        s = s.list_subsys[0]
    x = Model(s, 'lti', (sem, step), arrays=arrays, box=b,
              domain=d['domain'], Uset=d['Uset'], Wset=d.get('Wset'),
              shape=(dim, m, arrays['E'].shape[1]))
    pool.append(x)
    top = x
    if chain:
        top = Model(chain[-1], 'pwa', (None, None), [x], domain=d['domain'],
                    boxes=[b], shape=x.shape)
        pool.append(top)
        if len(chain) == 2:
            top = Model(chain[0], 'switched', (None, None), [top], env=[0],
                        sys=[0], modes={(0, 0): top})
            if chain[0].cts_ss is not d['domain']:
                raise Violation('content', 'cts_ss')
            pool.append(top)
    return x


def pwa(ctx, hyb, pool, dim, st):
    """A piecewise affine system, perhaps of parts used before."""
    dom = gen_box(ctx, dim)
    pieces = [dom]
    for _ in range(ctx.choose(4)):
        k = ctx.choose(len(pieces))
        ax = ctx.choose(dim)
        x, y = pieces[k][ax]
        if y - x < 0.5:
            continue
        c = x + ctx.integer(1, int((y - x) * 4) - 1) / 4
        p, q = list(pieces[k]), list(pieces[k])
        p[ax], q[ax] = (x, c), (c, y)
        pieces[k:k + 1] = [p, q]
    domain = [dom]
    n_in = ctx.integer(1, 2)
    n_dist = ctx.integer(0, 2)
    subs = list()
    odd = None
    if ctx.chance(0.12) and len(pieces) > 1:
        odd = ctx.choose(len(pieces))
        ctx.fault('dimensions-differ')
    old = [m for m in pool if m.kind == 'lti' and
           m.shape[:2] == (dim, n_in) and m.shape[2] == max(n_dist, 1)]
    change = ctx.weighted([
        (4, None), (1, 'drop'), (1, 'shrink'), (1, 'grow'), (0.5, 'twice'),
        (0.5, 'smaller-domain'), (0.5, 'region'), (0.5, 'reuse')])
    if change in ('drop', 'shrink', 'grow'):
        k = ctx.choose(len(pieces))
        if change == 'drop' and len(pieces) > 1:
            pieces.pop(k)
        else:
            ax = ctx.choose(dim)
            p = list(pieces[k])
            x, y = p[ax]
            if change == 'grow':
                p[ax] = ctx.pick([(x - 0.25, y), (x, y + 0.25)])
            elif y - x > 0.25:
                p[ax] = ctx.pick([(x + 0.25, y), (x, y - 0.25)])
            pieces[k] = p
    elif change == 'smaller-domain' and len(pieces) > 1:
        domain = [pieces[0]]
    elif change == 'region' and len(pieces) > 1:
        domain = list(pieces)
    ctx.shuffle(pieces)
    for k, b in enumerate(pieces):
        reuse = [m for m in old if m.box == b]
        if reuse and odd != k and ctx.chance(0.5):
            subs.append(ctx.pick(reuse))
            ctx.probe('shared-part')
            continue
        kw = dict(n_in=n_in, n_dist=n_dist)
        if odd == k:
            if ctx.chance(0.5):
                kw['n_in'] = 3 - n_in
            else:
                kw['n_dist'] = 2 if n_dist < 2 else 1
        s = lti(ctx, hyb, pool, dim, st, b, faults=0, **kw)
        subs.append(s)
    if change == 'twice':
        subs.append(ctx.pick(subs))
    elif change == 'reuse' and old:
        subs.append(ctx.pick(old))
    boxes = [s.box for s in subs]
    (sem, step), fault = times(ctx)
    if fault is None:
        if len({s.shape for s in subs}) > 1:
            fault = 'dimensions'
        elif not covered(domain, boxes):
            ctx.fault('gap')
            fault = 'gap'
        elif any(volume(meet(a, b)) > 0
                 for a, b in itertools.combinations(boxes, 2)):
            ctx.fault('overlap')
            fault = 'overlap'
    d = union(domain)
    if ctx.chance(0.05):
        ctx.fault('no-domain')
        d = ctx.pick([None, dom])
        fault = 'no domain'
    over = True
    if ctx.chance(0.3):
        over = False
        ctx.probe('not-overwritten')
        if fault != 'bad time data' and ctx.chance(0.6):
            sem, step = subs[0].time
        if fault is None and any(s.time != (sem, step) for s in subs):
            ctx.fault('time-data-differ')
            fault = 'time data differ'
    lst = [s.obj for s in subs]
    args = list(lst)
    s = expect(ctx, st, 'pwa', fault, lambda: hyb.PwaSysDyn(
        args, d, sem, step, over))
    if len(args) != len(lst) or any(a is not b for a, b in zip(args, lst)):
        raise Violation('argument-changed', 'list of subsystems')
    if s is None:
        return None
    st['pwa'] += 1
    ctx.probe('pwa')
    if isinstance(d, pc.Region):
        ctx.probe('region-domain')
    if sum(map(volume, boxes)) > sum(map(volume, domain)) + 1e-9:
        ctx.probe('covers-more')
    m = Model(s, 'pwa', (sem, step), subs, domain=d, boxes=boxes,
              shape=subs[0].shape)
    m.push((sem, step))
    pool.append(m)
    if over and ctx.chance(0.1):
        ctx.probe('from_pwa')
        sw = hyb.SwitchedSysDyn.from_pwa(lst, d)
        m.push((None, None))
        m.time = (sem, step)
        inner = Model(sw.dynamics[0, 0], 'pwa', (None, None), subs, domain=d,
                      boxes=boxes, shape=m.shape)
        pool.append(inner)
        pool.append(Model(sw, 'switched', (None, None), [inner], env=[0],
                          sys=[0], modes={(0, 0): inner}))
    return m


def switched(ctx, hyb, pool, dim, st):
    pwas = [m for m in pool if m.kind == 'pwa']
    if not pwas:
        return
    shape = (ctx.integer(1, 3), ctx.integer(1, 2))
    env, sys_ = list(range(shape[0])), list(range(shape[1]))
    kw = dict()
    fault = None
    if ctx.chance(0.5):
        env = ctx.shuffle(['e', 'f', 'g'])[:shape[0]]
        kw['env_labels'] = list(env)
        if ctx.chance(0.15):
            ctx.fault('number-of-labels')
            fault = 'number of labels'
            kw['env_labels'] = env + ['more']
    if ctx.chance(0.5):
        sys_ = ctx.shuffle(['a', 'b'])[:shape[1]]
        kw['disc_sys_labels'] = list(sys_)
        if ctx.chance(0.15):
            ctx.fault('number-of-labels')
            fault = 'number of labels'
            kw['disc_sys_labels'] = sys_[1:]
    modes = list(itertools.product(env, sys_))
    if ctx.chance(0.3):
        modes = ctx.subset(modes, 0.6) or modes[:1]
    dyn = {k: ctx.pick(pwas) for k in ctx.shuffle(modes)}
    objs = {k: p.obj for k, p in dyn.items()}
    if len(set(map(id, objs.values()))) < len(objs):
        ctx.probe('shared-part')
    if ctx.chance(0.1):
        ctx.fault('unknown-mode')
        fault = 'unknown mode'
        a, b = ctx.pick(list(objs))
        objs[ctx.pick([(a, 'no'), ('no', b), (b, a, 0), 'mode'])] = objs[a, b]
    if fault is None and ctx.chance(0.1):
        ctx.fault('not-piecewise')
        fault = 'not piecewise'
        objs[ctx.pick(list(objs))] = ctx.pick(
            [m.obj for m in pool if m.kind != 'pwa'] or [None])
    (sem, step), bad = times(ctx)
    fault = fault or bad
    over = True
    if ctx.chance(0.3):
        over = False
        ctx.probe('not-overwritten')
        if not bad and ctx.chance(0.6):
            sem, step = next(iter(dyn.values())).time
        if fault is None and any(
                p.time != (sem, step) for p in dyn.values()):
            ctx.fault('time-data-differ')
            fault = 'time data differ'
        if fault is None and any(
                x.time != (sem, step)
                for p in dyn.values() for x in p.parts):
            ctx.fault('time-data-of-parts-differ')
            fault = 'time data differ'
    space = box(gen_box(ctx, dim))
    if ctx.chance(0.05):
        ctx.fault('type-of-space')
        fault = 'type of the continuous space'
        space = [(0, 1)] * dim
    args = dict(objs)
    s = expect(ctx, st, 'switched', fault, lambda: hyb.SwitchedSysDyn(
        shape, args, space, time_semantics=sem, timestep=step,
        overwrite_time=over, **kw))
    if list(args) != list(objs):
        raise Violation('argument-changed', 'dynamics')
    if s is None:
        return
    ctx.probe('switched')
    if s.cts_ss is not space or tuple(s.disc_domain_size) != shape:
        raise Violation('content', 'cts_ss or size')
    m = Model(s, 'switched', (sem, step), list(dyn.values()),
              env=env, sys=sys_, modes=dyn)
    if over:
        m.push((sem, step))
    pool.append(m)
