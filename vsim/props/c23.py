"""C23: mathematical sets and typed dictionaries have exact content."""
import copy
import itertools
import pickle
import warnings

from ..core import Violation

RUNS = {'quick': 10000, 'thorough': 300000}
RULE = ('A run is a history of operations on sets, subsets, power sets, '
        'products and typed dictionaries that are made from each other, with '
        'hashable and unhashable elements, iterators that fail halfway, and '
        'elements that have to be rejected; all objects are compared with '
        'the model after each operation; non-trivial: at least 6 operations, '
        'one of them rejected.')
TIME_UNIT = 'operations'
STATE_MEASURE = '(kind of object, operation, outcome)'
ASSUMPTIONS = ['elements with well-defined equality, not mutated while in '
               'the set', 'dicts with type constraints that are containers']
PROBES = ['unhashable', 'tuple-with-unhashable', 'iterator', 'live-superset',
          'pop', 'typed', 'copy', 'product', 'power', 'itself', 'equal-keys']

POOL = [0, 1, 2, 'a', 'b', '', None, (1, 2), 1.0, -1, frozenset([3]), (),
        [1], [1, 2], [], {'a': 1}, {4, 5}, set(), [[1], 2],
        (1, [2]), ([1], [2]), (1, (2, [3])), ({}, 1)]


class Broken(Exception):
    """Raised by an iterator of the caller."""


def has(els, x):
    return any(x == e for e in els)


def put(els, x):
    if not has(els, x):
        els.append(x)


def drop(els, x):
    for k, e in enumerate(els):
        if x == e:
            del els[k]
            return


def same(a, b):
    """Are the lists equal, up to order?"""
    b = list(b)
    for x in a:
        for k, y in enumerate(b):
            if x == y:
                del b[k]
                break
        else:
            return False
    return not b


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


class M:
    """Model of an object."""

    def __init__(self, kind, obj, els, sup=None):
        self.kind, self.obj, self.els, self.sup = kind, obj, els, sup


def run(ctx):
    from tulip.transys import mathset as ms
    ctx.component('tulip.transys.mathset', 'real')
    ctx.component('callers, their iterators, and arguments', 'simulated')
    pool = [M('set', ms.MathSet(), [])]
    st = dict(ops=0, rejected=0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(ctx.integer(4, 25)):
            ctx.tick()
            st['ops'] += 1
            op = ctx.weighted([
                (4, new), (10, sets), (3, subsets), (2, power), (4, typed),
                (1, product), (1, functions)])
            op(ctx, ms, pool, st)
            for m in pool:
                check(ms, m)
    ctx.nontrivial = st['ops'] >= 6 and st['rejected'] > 0


def check(ms, m):
    if m.kind in ('set', 'sub'):
        got = list(m.obj)
        if not same(got, m.els):
            raise Violation('content', f'{m.kind}: {got} not {m.els}')
        if len(m.obj) != len(m.els):
            raise Violation('length', f'{len(m.obj)} {m.els}')
        if bool(m.obj) != bool(m.els):
            raise Violation('length', f'{bool(m.obj)}')
        for x in POOL:
            if (x in m.obj) != has(m.els, x):
                raise Violation(
                    'membership', f'{x!r} in {m.obj!r}, {m.els}')
        str(m.obj)
        if m.kind == 'sub':
            if m.obj.superset is not m.sup:
                raise Violation('superset')
    elif m.kind == 'power':
        if len(m.obj) != 2**len(m.els):
            raise Violation('length', f'power set {m.els}')
    elif m.kind == 'dict':
        if dict(m.obj) != m.els or len(m.obj) != len(m.els):
            raise Violation('dict', f'{dict(m.obj)} not {m.els}')
        for k in m.els:
            if m.obj[k] != m.els[k] or k not in m.obj:
                raise Violation('dict', f'{k}')
        ok = all(allowed(m.sup, k, v) for k, v in m.els.items())
        if m.obj.is_consistent() != ok:
            raise Violation(
                'consistent', f'{m.els} {m.sup}: {m.obj.is_consistent()}')


def element(ctx):
    k = ctx.choose(len(POOL))
    x = POOL[k]
    if not hashable(x):
        ctx.probe('unhashable')
        if isinstance(x, tuple):
            ctx.probe('tuple-with-unhashable')
    return copy.deepcopy(x)


def elements(ctx, n=5):
    return [element(ctx) for _ in range(ctx.choose(n + 1))]


class Fails:
    """Iterable that fails after some elements."""

    def __init__(self, items, n):
        self.items, self.n = items, n

    def __iter__(self):
        yield from self.items[:self.n]
        raise Broken()


def collection(ctx, ms, pool):
    """Return `(iterable, elements, fails)`."""
    how = ctx.weighted([
        (4, 'list'), (2, 'tuple'), (2, 'set'), (2, 'iterator'), (1, 'dict'),
        (3, 'mathset'), (1, 'range'), (1, 'str'), (1, 'fails')])
    if how == 'mathset':
        m = ctx.pick([m for m in pool if m.kind in ('set', 'sub')])
        return m.obj, list(m.els), False
    if how == 'range':
        n = ctx.choose(4)
        return range(n), list(range(n)), False
    if how == 'str':
        return 'aab', ['a', 'b'], False
    items = elements(ctx)
    if how == 'set':
        items = {x for x in items if hashable(x)}
        return items, list(items), False
    if how == 'dict':
        items = [x for x in items if hashable(x)]
        items = dict.fromkeys(items, 0)
        return items, list(items), False
    els = list()
    for x in items:
        put(els, x)
    if how == 'list':
        return items, els, False
    if how == 'tuple':
        return tuple(items), els, False
    ctx.probe('iterator')
    if how == 'iterator':
        return iter(items), els, False
    ctx.fault('iterator-fails')
    n = ctx.choose(len(items) + 1)
    return Fails(items, n), els, True


def rejected(ctx, st, what, call, kinds):
    """Call what has to be rejected."""
    try:
        r = call()
    except kinds as e:
        st['rejected'] += 1
        ctx.fault('rejected-' + what)
        ctx.state(what, type(e).__name__)
        return
    raise Violation('accepted', f'{what}: {r!r}')


def extend(ctx, st, m, call, els, fails, what):
    """Call that adds elements to `m`."""
    if not fails:
        call()
        for x in els:
            put(m.els, x)
        ctx.state(m.kind, what, 'ok')
        return
    try:
        call()
    except Broken:
        st['rejected'] += 1
    else:
        raise Violation('swallowed', f'{what}: error of the iterator')
    resync(m, els)


def resync(m, els):
    """Some of `els` may have been added before the iterator failed."""
    got = list(m.obj)
    if any(not has(got, x) for x in m.els) or any(
            not has(m.els, x) and not has(els, x) for x in got):
        raise Violation('content', f'{got} {m.els} {els}')
    m.els = got


def fresh(pool, m):
    pool.append(m)
    if len(pool) > 6:
        del pool[1]


def new(ctx, ms, pool, st):
    kind = ctx.weighted([
        (3, 'set'), (3, 'sub'), (1, 'power'), (2, 'dict'), (1, 'copy')])
    ctx.log('new', kind)
    if kind == 'copy':
        ctx.probe('copy')
        m = ctx.pick(pool)
        if m.kind == 'dict':
            # copies are made through assignments
            if not m.obj.is_consistent():
                return
        f = ctx.pick([copy.deepcopy, copy.copy,
                      lambda x: pickle.loads(pickle.dumps(x))])
        if f is copy.copy and m.kind != 'dict':
            # shallow: shares its content
            return
        if m.kind == 'sub' and isinstance(m.sup, (dict, range)):
            return
        obj = f(m.obj)
        if type(obj) is not type(m.obj):
            raise Violation('copy', f'{type(obj)}')
        sup = m.sup
        if m.kind == 'sub':
            sup = obj.superset
            if not same(list(sup), list(m.sup)):
                raise Violation('copy', 'superset')
        fresh(pool, M(m.kind, obj, copy.deepcopy(m.els), sup))
        return
    if kind == 'dict':
        d = dict((ctx.pick('kmn'), element(ctx)) for _ in range(ctx.choose(3)))
        how = ctx.choose(3)
        if how == 0:
            obj = ms.TypedDict(d)
        elif how == 1:
            obj = ms.TypedDict(**d)
        else:
            obj = ms.TypedDict(list(d.items()))
        fresh(pool, M('dict', obj, d, dict()))
        return
    it, els, fails = collection(ctx, ms, pool)
    if kind == 'sub':
        sup = ctx.weighted([
            (2, 'mathset'), (1, 'list'), (1, 'tuple'), (1, 'set')])
        if sup == 'mathset':
            ctx.probe('live-superset')
            m = ctx.pick([m for m in pool if m.kind == 'set'])
            sup = m.obj
            inside = m.els
        else:
            inside = list()
            for x in elements(ctx, 8):
                if sup == 'set' and not hashable(x):
                    continue
                put(inside, x)
            sup = dict(list=list, tuple=tuple, set=set)[sup](inside)
        bad = any(not has(inside, x) for x in els)
        if fails or bad:
            rejected(ctx, st, 'superset', lambda: ms.SubSet(sup, it),
                     (TypeError, ValueError, Broken))
            return
        if ctx.chance(0.3):
            obj = ms.SubSet(sup)
            els = []
        else:
            try:
                obj = ms.SubSet(sup, it)
            except TypeError:
                if not els:
                    raise
                # unhashable elements, looked up in a set
                if any(not hashable(x) for x in els):
                    raise Violation('rejected', f'{els} in {inside}')
                raise
        fresh(pool, M('sub', obj, els, sup))
        return
    cls = dict(set=ms.MathSet, power=ms.PowerSet)[kind]
    if fails:
        rejected(ctx, st, 'iterator', lambda: cls(it), Broken)
        return
    if kind == 'power':
        ctx.probe('power')
    if len(els) > 5 and kind == 'power':
        return
    fresh(pool, M(kind, cls(it), els))


def sets(ctx, ms, pool, st):
    some = [m for m in pool if m.kind in ('set', 'sub')]
    m = ctx.pick(some)
    op = ctx.weighted([
        (3, 'add'), (4, 'add_from'), (2, '|'), (1, '-'), (2, '-='), (1, '*'),
        (3, 'remove'), (2, 'pop'), (1, 'intersection'), (1, 'intersects'),
        (1, '=='), (0.5, 'no-iterable'), (0.5, 'other-type')])
    ctx.log(op, m.kind)
    s = m.obj
    if op in ('add', 'add_from'):
        if m.kind == 'sub':
            subset_add(ctx, ms, pool, st, m, op)
            return
        if op == 'add':
            x = element(ctx)
            s.add(x)
            put(m.els, x)
            return
        it, els, fails = collection(ctx, ms, pool)
        if it is s:
            ctx.probe('itself')
        how = ctx.choose(3)

        def call():
            nonlocal s
            if how == 0:
                s.add_from(it)
            elif how == 1:
                s.update(it)
            else:
                t = s
                s |= it
                if s is not t:
                    raise Violation('in-place', '|=')
        extend(ctx, st, m, call, els, fails, 'add_from')
    elif op == '|':
        it, els, fails = collection(ctx, ms, pool)
        if fails:
            rejected(ctx, st, 'iterator', lambda: s | it, Broken)
            return
        r = M('set', s | it, list(m.els))
        for x in els:
            put(r.els, x)
        fresh(pool, r)
    elif op in ('-', '-='):
        it, els, fails = collection(ctx, ms, pool)
        if op == '-':
            if fails:
                rejected(ctx, st, 'iterator', lambda: s - it, Broken)
                return
            r = M('set', s - it, list(m.els))
            for x in els:
                drop(r.els, x)
            fresh(pool, r)
            return
        t = s
        if it is s:
            ctx.probe('itself')
        try:
            s -= it
        except Broken:
            if not fails:
                raise
            st['rejected'] += 1
            got = list(t)
            if any(not has(m.els, x) for x in got) or any(
                    not has(got, x) and not has(els, x) for x in m.els):
                raise Violation('content', f'-= {got} {m.els} {els}')
            m.els = got
            return
        if fails:
            raise Violation('swallowed', '-=')
        if s is not t:
            raise Violation('in-place', '-=')
        for x in els:
            drop(m.els, x)
    elif op == '*':
        o = ctx.pick(some)
        if len(m.els) * len(o.els) > 30:
            return
        r = s * o.obj
        want = [(x, y) for x in m.els for y in o.els]
        if not same(list(r), want) or len(r) != len(want):
            raise Violation('product', f'{r!r} {want}')
        for p in want[:3]:
            if p not in r:
                raise Violation('membership', f'{p} in {r!r}')
    elif op == 'remove':
        if m.els and ctx.chance(0.7):
            x = copy.deepcopy(ctx.pick(m.els))
        else:
            x = element(ctx)
        if has(m.els, x):
            s.remove(x)
            drop(m.els, x)
        else:
            rejected(ctx, st, 'remove', lambda: s.remove(x),
                     (KeyError, ValueError))
    elif op == 'pop':
        if not m.els:
            rejected(ctx, st, 'pop', s.pop, KeyError)
            return
        ctx.probe('pop')
        x = s.pop()
        if not has(m.els, x):
            raise Violation('pop', f'{x} {m.els}')
        drop(m.els, x)
    elif op == 'intersection':
        it, els, fails = collection(ctx, ms, pool)
        if fails:
            rejected(ctx, st, 'iterator', lambda: s.intersection(it), Broken)
            return
        r = M('set', s.intersection(it), [x for x in els if has(m.els, x)])
        fresh(pool, r)
    elif op == 'intersects':
        it, els, fails = collection(ctx, ms, pool)
        if fails:
            return
        want = any(has(m.els, x) for x in els)
        if bool(s.intersects(it)) != want:
            raise Violation('intersects', f'{m.els} {els} not {want}')
    elif op == '==':
        o = ctx.pick(some)
        want = same(m.els, o.els)
        if (s == o.obj) != want:
            raise Violation('equal', f'{s!r} {o.obj!r} {want}')
        t = ms.MathSet(ctx.shuffle(m.els))
        if not (t == s and s == t):
            raise Violation('equal', f'{t!r} {s!r}')
        x = element(ctx)
        if not has(m.els, x):
            t.add(x)
            if t == s or s == t:
                raise Violation('equal', f'{t!r} {s!r}')
    elif op == 'no-iterable':
        rejected(ctx, st, 'no-iterable', lambda: s.add_from(3), TypeError)
    else:
        rejected(ctx, st, 'comparison', lambda: s == list(m.els), TypeError)


def subset_add(ctx, ms, pool, st, m, op):
    s = m.obj
    inside = list(m.sup)
    if op == 'add':
        x = element(ctx)
        if has(inside, x):
            s.add(x)
            put(m.els, x)
        else:
            rejected(ctx, st, 'superset', lambda: s.add(x),
                     (ValueError, TypeError))
        return
    if inside and ctx.chance(0.6):
        els = [x for x in inside if ctx.chance(0.5)]
        it, fails = list(els), False
        if ctx.chance(0.5):
            it = iter(it)
    else:
        it, els, fails = collection(ctx, ms, pool)
    bad = any(not has(inside, x) for x in els)
    how = ctx.choose(3)

    def call():
        nonlocal s
        if how == 0:
            s.add_from(it)
        elif how == 1:
            s.update(it)
        else:
            s |= it
    if bad and not fails:
        rejected(ctx, st, 'superset', call, (ValueError, TypeError))
        return
    extend(ctx, st, m, call, els, fails, 'add_from')


def subsets(ctx, ms, pool, st):
    some = [m for m in pool if m.kind == 'sub']
    if not some:
        return
    m = ctx.pick(some)
    ctx.log('subset')
    subset_add(ctx, ms, pool, st, m, ctx.pick(['add', 'add_from']))


def power(ctx, ms, pool, st):
    some = [m for m in pool if m.kind == 'power']
    if not some:
        return
    m = ctx.pick(some)
    p = m.obj
    op = ctx.pick(['in', 'iter', '+', '==', 'assign', 'other-type'])
    ctx.log('power', op)
    if op == 'in':
        if m.els and ctx.chance(0.5):
            items = [x for x in m.els if ctx.chance(0.5)]
        else:
            items = elements(ctx, 3)
        it = items
        if all(map(hashable, items)) and ctx.chance(0.5):
            it = set(items)
        elif ctx.chance(0.3):
            it = ms.MathSet(items)
        want = all(has(m.els, x) for x in items)
        if (it in p) != want:
            raise Violation('power', f'{it} in {p}: not {want}')
        rejected(ctx, st, 'no-iterable', lambda: 3 in p, Exception)
    elif op == 'iter':
        if len(m.els) > 5:
            return
        got = [list(x) for x in p]
        want = [list(c) for n in range(len(m.els) + 1)
                for c in itertools.combinations(m.els, n)]
        if len(got) != len(want) or any(
                not any(same(x, y) for y in got) for x in want):
            raise Violation('power', f'{got}')
    elif op == '+':
        o = ctx.pick(some)
        r = M('power', p + o.obj, list(m.els))
        for x in o.els:
            put(r.els, x)
        if len(r.els) <= 6:
            fresh(pool, r)
        rejected(ctx, st, 'sum', lambda: p + m.els, TypeError)
    elif op == '==':
        o = ctx.pick(some)
        if (p == o.obj) != same(m.els, o.els):
            raise Violation('equal', f'{p} {o.obj}')
    elif op == 'assign':
        def call():
            p.math_set = list()
        rejected(ctx, st, 'assign', call, TypeError)
        els = elements(ctx, 4)
        p.math_set = ms.MathSet(els)
        m.els = list()
        for x in els:
            put(m.els, x)
    else:
        rejected(ctx, st, 'comparison', lambda: p == m.els, TypeError)


def allowed(types, k, v):
    if k not in types or types[k] is None:
        return True
    try:
        return v in types[k]
    except Exception:
        return False


def typed(ctx, ms, pool, st):
    some = [m for m in pool if m.kind == 'dict']
    if not some:
        new_ = M('dict', ms.TypedDict(), dict(), dict())
        fresh(pool, new_)
        return
    m = ctx.pick(some)
    d = m.obj
    op = ctx.weighted([
        (3, 'set_types'), (4, '[]'), (3, 'update'), (2, 'setdefault'),
        (1, '|='), (1, 'del'), (1, 'pop'), (1, 'equal')])
    ctx.log('typed', op)
    if op == 'set_types':
        ctx.probe('typed')
        m.sup = dict()
        for k in 'kmn':
            if ctx.chance(0.6):
                v = ctx.weighted([
                    (3, 'mathset'), (1, None), (1, 'list'), (1, 'set'),
                    (1, 'power'), (1, 'str')])
                els = elements(ctx, 6)
                if v == 'mathset':
                    v = ms.MathSet(els)
                elif v == 'list':
                    v = els
                elif v == 'set':
                    v = {x for x in els if hashable(x)}
                elif v == 'power':
                    v = ms.PowerSet(els)
                elif v == 'str':
                    v = 'ab'
                m.sup[k] = v
        d.set_types(m.sup)
        return
    k = ctx.pick('kmn')
    v = element(ctx)
    if m.sup.get(k) is not None and ctx.chance(0.5):
        t = m.sup[k]
        some = list(t)
        if some:
            v = ctx.pick(some)
    ok = allowed(m.sup, k, v)
    if op == '[]':
        def call():
            d[k] = v
        if ok:
            call()
            m.els[k] = v
        else:
            rejected(ctx, st, 'value', call, ValueError)
    elif op == 'setdefault':
        if k in m.els:
            r = d.setdefault(k, v)
            if r != m.els[k]:
                raise Violation('dict', f'setdefault {r}')
        elif ok:
            r = d.setdefault(k, v)
            m.els[k] = v
            if r != v:
                raise Violation('dict', f'setdefault {r}')
        else:
            rejected(ctx, st, 'value', lambda: d.setdefault(k, v), ValueError)
    elif op in ('update', '|='):
        items = {k: v}
        if ctx.chance(0.6):
            items[ctx.pick('kmn')] = element(ctx)
        how = ctx.choose(5) if op == 'update' else 5
        if how == 3:
            # a batch of pairs, cut short
            def pairs():
                yield from items.items()
                raise Broken()
            ctx.fault('iterator-fails')
            old = dict(m.els)
            try:
                d.update(pairs())
            except (Broken, ValueError):
                st['rejected'] += 1
            else:
                raise Violation('swallowed', 'update')
            for a, b in items.items():
                if a in d and d[a] == b and allowed(m.sup, a, b):
                    m.els[a] = b
            if dict(d) not in (old, m.els):
                raise Violation('dict', f'{d} {old} {items}')
            m.els = dict(d)
            return

        def call():
            nonlocal d
            if how == 0:
                d.update(items)
            elif how == 1:
                d.update(**items)
            elif how == 2:
                d.update(items.items())
            elif how == 4:
                # positional and keyword
                a = list(items)
                d.update({a[0]: items[a[0]]},
                         **{b: items[b] for b in a[1:]})
            else:
                t = d
                d |= items
                if d is not t:
                    raise Violation('in-place', '|= of dict')
        if all(allowed(m.sup, a, b) for a, b in items.items()):
            call()
            m.els.update(items)
        else:
            rejected(ctx, st, 'value', call, ValueError)
            for a, b in items.items():
                if not allowed(m.sup, a, b):
                    break
                m.els[a] = b
    elif op == 'del':
        if k in m.els:
            del d[k]
            del m.els[k]
        else:
            rejected(ctx, st, 'key', lambda: d.__delitem__(k), KeyError)
    elif op == 'pop':
        if d.pop(k, 'none') != m.els.pop(k, 'none'):
            raise Violation('dict', 'pop')
    else:
        if not (d == m.els) or d != dict(d) or (
                d == dict(m.els, other=1)):
            raise Violation('dict', 'equality')
        ctx.probe('equal-keys')


def product(ctx, ms, pool, st):
    ctx.probe('product')
    ctx.log('product')
    p = ms.CartesianProduct()
    some = [m for m in pool if m.kind == 'set']
    parts = [ctx.pick(some) for _ in range(ctx.integer(1, 3))]
    if ctx.chance(0.5):
        for m in parts:
            p.add(m.obj)
    else:
        p.add_from([m.obj for m in parts])
    for _ in range(3):
        x = [copy.deepcopy(ctx.pick(m.els)) if m.els and ctx.chance(0.7)
             else element(ctx) for m in parts]
        if ctx.chance(0.2):
            x.append(element(ctx))
        want = len(x) == len(parts) and all(
            has(m.els, y) for m, y in zip(parts, x))
        x = ctx.pick([list, tuple])(x)
        if (x in p) != want:
            raise Violation('product', f'{x} in {p.mathsets}: not {want}')
    rejected(ctx, st, 'no-iterable', lambda: 3 in p, TypeError)


def functions(ctx, ms, pool, st):
    ctx.log('functions')
    a, b = elements(ctx, 4), elements(ctx, 4)
    if ctx.chance(0.5):
        b = ctx.shuffle(a)
    if ms.compare_lists(a, b) != same(a, b):
        raise Violation('functions', f'compare_lists {a} {b}')
    u = list(ms.unique(a))
    want = list()
    for x in a:
        put(want, x)
    if not same(u, want):
        raise Violation('functions', f'unique {a} {u}')
    if ms.contains_multiple(a) != (len(want) != len(a)):
        raise Violation('functions', f'contains_multiple {a}')
    big = ctx.pick([list, tuple, ms.MathSet, iter])(b)
    if all(map(hashable, a)) or not all(map(hashable, b)) or (
            isinstance(big, (tuple, ms.MathSet))):
        got = ms.is_subset(a, big)
        if got != all(has(b, x) for x in a):
            raise Violation('functions', f'is_subset {a} {b}: {got}')
