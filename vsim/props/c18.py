"""C18: gridworlds: random generation under a clock, and edit histories."""
import os
import random as _random
import tempfile
import time as _time
import types

from ..core import Violation, rebound

RUNS = {'quick': 3200, 'thorough': 60000}
RULE = ('A run either generates worlds (`random_world`, `narrow_passage`) '
        'with seeded randomness and a simulated clock (stalls, jumps of the '
        'wall clock), or applies a history of edits, copies, dumps, loads, '
        'subworlds and scalings to a set of worlds, against a plain model; '
        'non-trivial: a world with a wall, or 10 edits.')
TIME_UNIT = 'seconds of the simulated clock, and edits'
STATE_MEASURE = '(operation, world size, walls, outcome)'
ASSUMPTIONS = [
    'rows and columns are at least 1',
    'random_world without a timeout is called only where every placement '
    'of walls is feasible (it need not end otherwise)']
PROBES = ['feasible', 'timeout', 'no-timeout', 'dense', 'trolls',
          'narrow', 'narrow-invalid', 'tight', 'edits', 'copied', 'dumped',
          'loaded-file', 'subworld', 'extended', 'outside', 'scaled',
          'reachable', 'unreachable', 'negative-index', 'out-of-bounds',
          'equal', 'different', 'empty-world', 'init-and-goal', 'offset',
          'partition']


class Clock:
    """Stand-in for the module `time`, in `tulip.gridworld`."""

    def __init__(self, ctx, jumps):
        self.ctx = ctx
        self.jumps = jumps
        self.mono = 1000.0
        self.skew = 1.6e9
        self.max_dt = 0.0
        self.reads = 0
        self.total = 0.0

    def _advance(self):
        ctx = self.ctx
        self.reads += 1
        dt = ctx.weighted([
            (6, 0.01), (2, 0.0), (2, 0.3), (0.3, 3.0)])
        if self.reads > 1:
            if dt == 3.0:
                ctx.fault('stall')
            self.mono += dt
            self.total += dt
            self.max_dt = max(self.max_dt, dt)
            ctx.tick(dt)
        if self.jumps and self.reads > 1 and ctx.chance(0.1):
            j = ctx.pick([1e4, -1e4, 2.0, -2.0])
            self.skew += j
            ctx.fault('clock-jump-forward' if j > 0 else
                      'clock-jump-backward')

    def time(self):
        self._advance()
        return self.mono + self.skew

    def monotonic(self):
        self._advance()
        return self.mono

    perf_counter = monotonic

    def time_ns(self):
        return int(self.time() * 1e9)

    def monotonic_ns(self):
        return int(self.monotonic() * 1e9)

    perf_counter_ns = monotonic_ns

    def sleep(self, dt):
        self.mono += dt
        self.total += dt

    def __getattr__(self, name):
        return getattr(_time, name)


def bfs(shape, walls, start):
    seen = {start}
    todo = [start]
    while todo:
        i, j = todo.pop()
        for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            c = (a, b)
            if (0 <= a < shape[0] and 0 <= b < shape[1]
                    and c not in walls and c not in seen):
                seen.add(c)
                todo.append(c)
    return seen


def walls_of(w):
    return {(i, j) for i in range(w.W.shape[0])
            for j in range(w.W.shape[1]) if w.W[i][j] != 0}


def pairs(cells):
    return [tuple(map(int, c)) for c in cells]


def run(ctx):
    import numpy as np
    import tulip.gridworld as gw
    ctx.component('tulip.gridworld', 'real')
    ctx.component('clock (module time)', 'simulated')
    ctx.component('random, numpy.random', 'real, seeded by the simulator')
    seed = ctx.choose(2**31)
    np_state = np.random.get_state()
    py_state = _random.getstate()
    np.random.seed(seed)
    _random.seed(seed)
    try:
        if ctx.chance(0.5):
            edits(ctx, gw)
        else:
            generators(ctx, gw)
    finally:
        np.random.set_state(np_state)
        _random.setstate(py_state)


# ---------------------------------------------------------------- generators
def generators(ctx, gw):
    for _ in range(ctx.integer(1, 3)):
        if ctx.chance(0.35):
            narrow(ctx, gw)
        else:
            rand(ctx, gw)


def rand(ctx, gw):
    rows, cols = ctx.integer(1, 6), ctx.integer(1, 7)
    n = rows * cols
    n_init, n_goals = ctx.integer(0, 2), ctx.integer(0, 3)
    n_trolls = ctx.weighted([(3, 0), (1, 1), (1, 2)])
    spots = n_init + n_goals + n_trolls
    density = ctx.pick([0.2, 0.0, 0.35, 0.5, 0.7, 0.1])
    want = int(round(density * n))
    # (as documented: the ratio of walls to cells)
    ensure = ctx.chance(0.7)
    if spots + want > n:
        return
    timeout = None
    if ensure and (n_init + n_goals > 1 or ctx.chance(0.5)):
        timeout = ctx.pick([1, 0.5, 5])
    if ensure and timeout is None:
        if n_init + n_goals > 1:
            return
        ctx.probe('no-timeout')
    clock = Clock(ctx, jumps=ctx.chance(0.4))
    prefix = ctx.pick(['Y', 'robot', 'Z_1'])
    kw = dict(
        wall_density=density, num_init=n_init, num_goals=n_goals,
        prefix=prefix, ensure_feasible=ensure, timeout=timeout,
        num_trolls=n_trolls)
    ctx.log('random_world', rows, cols, sorted(kw.items(), key=str))
    size = ctx.pick([tuple, list])((rows, cols))
    names = ['time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns',
             'perf_counter_ns', 'sleep']
    clocks = [(getattr(_time, k), getattr(clock, k)) for k in names]
    with rebound([(_time, clock)] + clocks):
        out = gw.random_world(size, **kw)
    ctx.tick(0)
    ctx.state('random', rows, cols, want, out is None)
    what = f'random_world({size}, {kw})'
    if out is None:
        ctx.probe('timeout')
        ctx.require(
            timeout is not None and ensure, 'gave-up',
            f'{what} returned None without a timeout')
        ctx.require(
            clock.total >= timeout, 'gave-up',
            f'{what} returned None after {clock.total} s')
        ctx.require(
            clock.total <= timeout + 3 * clock.max_dt + 1e-6, 'late',
            f'{what} gave up after {clock.total} s, the slowest step '
            f'took {clock.max_dt} s')
        return
    if timeout is not None:
        ctx.require(
            clock.total <= timeout + 3 * clock.max_dt + 1e-6, 'late',
            f'{what} returned after {clock.total} s')
    trolls = None
    if n_trolls:
        ctx.probe('trolls')
        w, trolls = out
    else:
        w = out
    ctx.require(
        isinstance(w, gw.GridWorld), 'type', f'{what} returned {out!r}')
    ctx.require(tuple(w.size()) == (rows, cols), 'size',
                f'{what}: {w.size()}')
    walls = walls_of(w)
    ctx.require(
        set(map(int, w.W.flatten())) <= {0, 1}, 'encoding', str(w.W))
    # (`round` and `numpy.round` agree)
    ctx.require(
        len(walls) == want, 'walls',
        f'{what}: {len(walls)} walls, not {want}')
    init, goals = pairs(w.init_list), pairs(w.goal_list)
    centers = pairs(c for c, _ in trolls) if trolls else list()
    if trolls:
        ctx.require(
            all(r == 1 for _, r in trolls) and len(trolls) == n_trolls,
            'trolls', f'{what}: trolls {trolls}')
    ctx.require(
        (len(init), len(goals)) == (n_init, n_goals), 'number',
        f'{what}: {init} {goals}')
    spots = init + goals + centers
    ctx.require(
        len(set(spots)) == len(spots), 'overlap', f'{what}: {spots}')
    ctx.require(
        all(0 <= i < rows and 0 <= j < cols for i, j in spots),
        'outside', f'{what}: {spots}')
    ctx.require(
        not walls & set(spots), 'in-wall', f'{what}: {spots} {walls}')
    ctx.require(w.prefix == prefix, 'prefix', f'{what}: {w.prefix}')
    if ensure and init + goals:
        ctx.probe('feasible')
        chain = init + goals
        seen = bfs((rows, cols), walls, chain[0])
        ctx.require(
            set(chain) <= seen, 'infeasible',
            f'{what}: {chain} are not mutually reachable\n{w.pretty()}')
    if want >= 0.5 * n:
        ctx.probe('dense')
    if walls:
        ctx.nontrivial = True
        ctx.sample = f'{rows}x{cols}, {len(walls)} walls'


def narrow(ctx, gw):
    rows, cols = ctx.integer(2, 6), ctx.integer(2, 9)
    width = ctx.integer(1, 3)
    n_init, n_goals = ctx.integer(0, 3), ctx.integer(0, 3)
    length = ctx.pick([0.4, 0.0, 0.2, 0.6, 1.0])
    ptop = None
    if ctx.chance(0.4):
        ptop = ctx.integer(0, max(0, rows - width))
    prefix = ctx.pick(['Y', 'robot'])
    zone = int(max(1, ((1.0 - length) / 2.0) * cols))
    valid = (rows >= 3 and cols >= 3 and width <= rows
             and zone * rows >= n_init and zone * rows >= n_goals)
    what = (f'narrow_passage({(rows, cols)}, {width}, {n_init}, {n_goals}, '
            f'{length}, {ptop}, {prefix})')
    ctx.log(what, valid)
    ctx.tick()
    try:
        w = gw.narrow_passage(
            (rows, cols), width, n_init, n_goals, length, ptop, prefix)
    except ValueError as e:
        if not valid:
            ctx.probe('narrow-invalid')
            return
        raise Violation('narrow-rejected', f'{what}: {e}')
    ctx.require(valid, 'narrow-accepted', what)
    ctx.probe('narrow')
    if width == rows or zone * rows in (n_init, n_goals):
        ctx.probe('tight')
    ctx.nontrivial = True
    ctx.state('narrow', rows, cols, width, ptop)
    init, goals = pairs(w.init_list), pairs(w.goal_list)
    walls = walls_of(w)
    show = f'{what}\n{w.pretty()}'
    ctx.require(w.prefix == prefix, 'prefix', f'{what}: {w.prefix}')
    ctx.require(tuple(w.size()) == (rows, cols), 'size', show)
    ctx.require(
        len(set(init)) == len(init) == n_init and
        len(set(goals)) == len(goals) == n_goals, 'number', show)
    left, right = zone, cols - zone
    ctx.require(
        all(j < left for _, j in init) and all(j >= right for _, j in goals)
        and not walls & set(init + goals), 'zone', show)
    open_rows = None
    for j in range(cols):
        free = [i for i in range(rows) if (i, j) not in walls]
        if left <= j < right:
            ctx.require(
                len(free) == width and
                free == list(range(free[0], free[0] + width)) and
                (open_rows in (None, free)), 'passage', show)
            open_rows = free
            if ptop is not None:
                ctx.require(free[0] == ptop, 'passage', show)
        else:
            ctx.require(len(free) == rows, 'zone', show)
    free = [(i, j) for i in range(rows) for j in range(cols)
            if (i, j) not in walls]
    ctx.require(
        bfs((rows, cols), walls, free[0]) == set(free), 'infeasible', show)


# -------------------------------------------------------------- edit history
class Model:
    """What a gridworld is."""

    def __init__(self, shape, walls=(), init=(), goals=(), prefix='Y',
                 offset=(0, 0)):
        self.shape = shape
        self.walls = set(walls)
        self.init = list(init)
        self.goals = list(goals)
        self.prefix = prefix
        self.offset = offset

    def copy(self):
        return Model(self.shape, self.walls, self.init, self.goals,
                     self.prefix, self.offset)

    def key(self):
        return (self.shape, self.walls, self.init, self.goals)

    def text(self):
        out = [f'{self.shape[0]} {self.shape[1]}']
        for i in range(self.shape[0]):
            row = ''
            for j in range(self.shape[1]):
                c = (i, j)
                row += ('*' if c in self.walls else
                        'I' if c in self.init else
                        'G' if c in self.goals else ' ')
            out.append(row)
        return '\n'.join(out) + '\n'

    def parsed(self):
        """The world that its text describes."""
        order = [(i, j) for i in range(self.shape[0])
                 for j in range(self.shape[1]) if (i, j) not in self.walls]
        init = [c for c in order if c in self.init]
        goals = [c for c in order if c in self.goals
                 and c not in self.init]
        return Model(self.shape, self.walls, init, goals)


def new_model(ctx, may_be_large=True):
    shape = (ctx.integer(1, 4), ctx.integer(1, 5))
    cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    walls = ctx.subset(cells, 0.25)
    free = [c for c in cells if c not in walls]
    init = ctx.subset(free, 0.2)
    goals = ctx.subset([c for c in free if c not in init], 0.2)
    return Model(shape, walls, init, goals)


def description(ctx, m):
    """A description of `m`, with the freedom that the format gives."""
    lines = m.text().splitlines()
    if ctx.chance(0.4):
        # rows that are missing at the end are empty
        while len(lines) > 1 and not lines[-1].strip():
            lines.pop()
    out = list()
    for i, line in enumerate(lines):
        if i and ctx.chance(0.3):
            line += ctx.pick(['  ', ' * comment', '#'])
        elif i and ctx.chance(0.3):
            line = line.rstrip(' ')
        if i == 0:
            if ctx.chance(0.3):
                out += ['# a comment', '', '  # another']
            line = ctx.pick([line, line.replace(' ', '\t'), f'  {line}  '])
        out.append(line)
    if len(lines) == m.shape[0] + 1 and ctx.chance(0.3):
        out.append('text after the world is ignored')
    return '\n'.join(out) + ctx.pick(['', '\n'])


def same(ctx, m, w, op):
    ctx.require(
        tuple(w.size()) == m.shape, 'size',
        f'after {op}: {w.size()}, not {m.shape}')
    ctx.require(
        walls_of(w) == m.walls, 'walls',
        f'after {op}: walls {walls_of(w)}, not {m.walls}')
    ctx.require(
        pairs(w.init_list) == m.init and pairs(w.goal_list) == m.goals,
        'places', f'after {op}: {w.init_list} {w.goal_list}, not '
        f'{m.init} {m.goals}')
    ctx.require(
        w.prefix == m.prefix and tuple(w.offset) == m.offset, 'naming',
        f'after {op}: {w.prefix} {w.offset}, not {m.prefix} {m.offset}')


def cell(ctx, m, out=0.1):
    """A cell, as an index that may be negative, or out of bounds."""
    i, j = ctx.choose(m.shape[0]), ctx.choose(m.shape[1])
    key = [i, j]
    bad = False
    for k in (0, 1):
        if ctx.chance(0.25):
            ctx.probe('negative-index')
            key[k] -= m.shape[k]
    if ctx.chance(out):
        k = ctx.choose(2)
        key[k] = ctx.pick([m.shape[k], -m.shape[k] - 1, m.shape[k] + 2])
        bad = True
        ctx.probe('out-of-bounds')
    return (i, j), tuple(key), bad


def rejects(ctx, f, *a, **kw):
    try:
        r = f(*a, **kw)
    except (ValueError, IndexError):
        return
    raise Violation('accepted-bad', f'{getattr(f, "__name__", f)}{a} {kw} '
                    f'returned {r!r}')


def edits(ctx, gw):
    ctx.probe('edits')
    worlds = list()
    m = new_model(ctx)
    w = gw.GridWorld(description(ctx, m))
    same(ctx, m, w, 'construction')
    worlds.append((m, w))
    n_ops = ctx.integer(4, 25)
    for _ in range(n_ops):
        k = ctx.choose(len(worlds))
        m, w = worlds[k]
        op = ctx.pick(OPS)
        ctx.tick()
        ctx.log(op.__name__, k)
        new = op(ctx, gw, m, w, worlds)
        if new is not None and len(worlds) < 6:
            worlds.append(new)
        ctx.state(op.__name__, m.shape, len(m.walls), len(m.init))
        for mm, ww in worlds:
            same(ctx, mm, ww, op.__name__)
    ctx.nontrivial = n_ops >= 10
    ctx.sample = f'{n_ops} edits, {len(worlds)} worlds'


def op_occupied(ctx, gw, m, w, ws):
    c, key, bad = cell(ctx, m)
    if bad:
        rejects(ctx, w.mark_occupied, key)
        return
    w.mark_occupied(key)
    m.walls.add(c)


def op_empty(ctx, gw, m, w, ws):
    c, key, bad = cell(ctx, m)
    if bad:
        rejects(ctx, w.mark_empty, key)
        return
    w.mark_empty(key)
    m.walls.discard(c)


def op_is_empty(ctx, gw, m, w, ws):
    c, key, bad = cell(ctx, m)
    if ctx.chance(0.4):
        inside = all(0 <= key[k] < m.shape[k] for k in (0, 1))
        want = inside and key not in m.walls
        got = w.is_empty(key, extend=True)
    elif bad:
        rejects(ctx, w.is_empty, key)
        return
    else:
        want = c not in m.walls
        got = w.is_empty(key)
    ctx.require(bool(got) == want, 'is-empty', f'is_empty({key}) = {got}\n'
                + m.text())


def op_place(ctx, gw, m, w, ws):
    c, _, _ = cell(ctx, m, 0)
    if ctx.chance(0.5):
        w.init_list.append(c)
        m.init.append(c)
    else:
        w.goal_list.append(c)
        m.goals.append(c)
    if c in m.init and c in m.goals:
        ctx.probe('init-and-goal')


def op_reach(ctx, gw, m, w, ws):
    a, ka, bad_a = cell(ctx, m, 0.04)
    b, kb, bad_b = cell(ctx, m, 0.04)
    if bad_a or bad_b:
        rejects(ctx, w.is_reachable, ka, kb)
        return
    want = (a not in m.walls and b not in m.walls
            and b in bfs(m.shape, m.walls, a))
    ctx.probe('reachable' if want else 'unreachable')
    got = w.is_reachable(ka, kb)
    ctx.require(
        got == want, 'reachability',
        f'is_reachable({ka}, {kb}) = {got}\n{m.text()}')


def op_name(ctx, gw, m, w, ws):
    c, key, bad = cell(ctx, m)
    if bad:
        rejects(ctx, w.__getitem__, key)
        rejects(ctx, w.state, key)
        return
    off = m.offset
    bits = ctx.chance(0.5)
    if bits:
        name = w.__getitem__(key, nonbool=False)
        ctx.require(
            gw.extract_coord(name) ==
            (m.prefix, c[0] + off[0], c[1] + off[1]), 'name',
            f'{key} is named {name}, read as {gw.extract_coord(name)}')
    o = (ctx.integer(0, 3), ctx.integer(0, 3))
    st = w.state(key, offset=o, nonbool=not bits)
    if bits:
        want = {f'{m.prefix}_{i + o[0]}_{j + o[1]}': int((i, j) == c)
                for i in range(m.shape[0]) for j in range(m.shape[1])}
    else:
        want = {f'{m.prefix}_r': c[0] + o[0], f'{m.prefix}_c': c[1] + o[1]}
    ctx.require(st == want, 'state', f'state({key}, {o}) = {st}')


def op_offset(ctx, gw, m, w, ws):
    ctx.probe('offset')
    m.offset = w.offset = (ctx.integer(0, 3), ctx.integer(0, 3))


def op_prefix(ctx, gw, m, w, ws):
    m.prefix = w.prefix = ctx.pick(['Y', 'r2', 'agent_0'])


def op_copy(ctx, gw, m, w, ws):
    import copy
    ctx.probe('copied')
    c = copy.copy(w) if ctx.chance(0.3) else w.copy()
    ctx.require(c is not w and c.W is not w.W, 'shared', 'copy')
    ctx.require(c == w, 'copy-differs', m.text())
    return m.copy(), c


def op_dump(ctx, gw, m, w, ws):
    ctx.probe('dumped')
    text = w.dumps()
    ctx.require(text == m.text(), 'dump', f'{text!r}, not {m.text()!r}')
    new = m.parsed()
    if ctx.chance(0.3):
        ctx.probe('loaded-file')
        fd, path = tempfile.mkstemp(prefix='vsim_gw')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(text)
            return new, gw.GridWorld.load(path)
        finally:
            os.unlink(path)
    if ctx.chance(0.5):
        return new, gw.GridWorld.loads(text)
    return new, gw.GridWorld(text)


def op_sub(ctx, gw, m, w, ws):
    size = (ctx.integer(1, 4), ctx.integer(1, 4))
    prefix = ctx.pick(['Y', 'S'])
    if ctx.chance(0.5):
        ctx.probe('extended')
        off = (ctx.integer(-3, 6), ctx.integer(-3, 6))
        sub = w.dump_subworld(size, offset=off, prefix=prefix, extend=True)
        if off[0] >= m.shape[0] or off[1] >= m.shape[1]:
            ctx.probe('outside')
    else:
        off = (ctx.integer(0, m.shape[0] - 1), ctx.integer(0, m.shape[1] - 1))
        if (off[0] + size[0] > m.shape[0] or
                off[1] + size[1] > m.shape[1]):
            rejects(ctx, w.dump_subworld, size, offset=off)
            return
        ctx.probe('subworld')
        sub = w.dump_subworld(size, offset=off, prefix=prefix)
    walls = set()
    for i in range(size[0]):
        for j in range(size[1]):
            c = (i + off[0], j + off[1])
            inside = 0 <= c[0] < m.shape[0] and 0 <= c[1] < m.shape[1]
            if not inside or c in m.walls:
                walls.add((i, j))
    ctx.require(
        walls_of(sub) == walls, 'subworld',
        f'size {size}, offset {off} of\n{m.text()}is\n{sub.pretty()}')
    return Model(size, walls, prefix=prefix), sub


def op_scale(ctx, gw, m, w, ws):
    xf, yf = ctx.integer(1, 3), ctx.integer(1, 3)
    if m.shape[0] * yf > 6 or m.shape[1] * xf > 6:
        return
    ctx.probe('scaled')
    s = w.scale(xf, yf)
    shape = (m.shape[0] * yf, m.shape[1] * xf)
    walls = {(i, j) for i in range(shape[0]) for j in range(shape[1])
             if (i // yf, j // xf) in m.walls}
    init = {(i * yf, j * xf) for i, j in m.init}
    goals = {(i * yf, j * xf) for i, j in m.goals}
    ctx.require(
        set(pairs(s.init_list)) == init and
        set(pairs(s.goal_list)) == goals, 'scale',
        f'{s.init_list} {s.goal_list}')
    ctx.require(walls_of(s) == walls, 'scale', f'{s.pretty()}')
    return (Model(shape, walls, pairs(s.init_list), pairs(s.goal_list),
                  m.prefix), s)


def op_compare(ctx, gw, m, w, ws):
    k = ctx.choose(len(ws))
    m2, w2 = ws[k]
    if ctx.chance(0.5) and m2 is not m:
        # a world that differs in at most one cell
        m2, w2 = m.copy(), w.copy()
        if ctx.chance(0.7):
            c, key, _ = cell(ctx, m2, 0)
            if c in m2.walls:
                m2.walls.discard(c)
                w2.W[c[0]][c[1]] = 0
            else:
                m2.walls.add(c)
                w2.W[c[0]][c[1]] = 1
    want = m.key() == m2.key()
    ctx.probe('equal' if want else 'different')
    ctx.require(
        (w == w2) == want and (w != w2) == (not want), 'equality',
        f'{w == w2} {w != w2} for\n{m.text()}{m.init} {m.goals}\n'
        f'{m2.text()}{m2.init} {m2.goals}')


def op_blank(ctx, gw, m, w, ws):
    if ctx.chance(0.5):
        ctx.probe('empty-world')
        e = gw.GridWorld(prefix='E')
        ctx.require(tuple(e.size()) == (0, 0), 'empty', str(e.size()))
        ctx.require(
            e == gw.GridWorld() and e != w and w != e, 'empty', 'equality')
        c = e.copy()
        ctx.require(c.W is None and c.prefix == 'E', 'empty', 'copy')
        for f in (e.dumps, e.spec):
            rejects(ctx, f)
        rejects(ctx, e.is_empty, (0, 0))
        rejects(ctx, e.mark_occupied, (0, 0))
        return
    shape = (ctx.integer(1, 4), ctx.integer(1, 4))
    prefix = ctx.pick(['Y', 'free'])
    return Model(shape, prefix=prefix), gw.unoccupied(shape, prefix)


def op_spec(ctx, gw, m, w, ws):
    """Read-only."""
    w.spec(offset=(ctx.integer(0, 2), ctx.integer(0, 2)),
           controlled_dyn=ctx.chance(0.5), nonbool=ctx.chance(0.5))
    text = w.pretty(show_grid=ctx.chance(0.5))
    ctx.require(
        text.count('*') == len(m.walls), 'pretty', text)
    str(w)


def op_partition(ctx, gw, m, w, ws):
    """The cells as regions of the plane."""
    rows, cols = m.shape
    if rows * cols > 9 or ctx.chance(0.5):
        return
    ctx.probe('partition')
    sx, sy = ctx.pick([1.0, 0.5, 2.0, 1.25]), ctx.pick([1.0, 3.0, 0.75])
    ox, oy = ctx.pick([0.0, -1.0, 2.5]), ctx.pick([0.0, 4.0, -0.5])
    bits = ctx.chance(0.5)
    kw = dict()
    if (sx, sy) != (1.0, 1.0) or ctx.chance(0.5):
        kw['side_lengths'] = (sx, sy)
    if (ox, oy) != (0.0, 0.0) or ctx.chance(0.5):
        kw['offset'] = (ox, oy)
    if bits:
        kw['nonbool'] = False
    ppp = w.dump_ppartition(**kw)
    what = f'dump_ppartition({kw}) of {m.shape}'
    cells = [(i, j) for i in range(rows) for j in range(cols)]
    name = {w.__getitem__(c, nonbool=not bits): c for c in cells}
    at = dict()
    for k, r in enumerate(ppp.regions):
        ctx.require(
            len(r.props) == 1 and set(r.props) <= set(name), 'partition',
            f'{what}: a region is labeled {r.props}')
        c = name[next(iter(r.props))]
        ctx.require(c not in at, 'partition', f'{what}: {c} twice')
        at[c] = k

    def has(region, x, y):
        return bool(region.__contains__([x, y]))
    ctx.require(
        set(at) == set(cells), 'partition', f'{what}: regions for {at}')
    for (i, j), k in at.items():
        r = ppp.regions[k]
        # row 0 is at the top
        x0, y0 = ox + j * sx, oy + (rows - 1 - i) * sy
        for fx in (0.02, 0.5, 0.98):
            for fy in (0.02, 0.5, 0.98):
                ctx.require(
                    has(r, x0 + fx * sx, y0 + fy * sy), 'partition',
                    f'{what}: the region of {(i, j)} is not at '
                    f'{(x0 + fx * sx, y0 + fy * sy)}')
        for fx, fy in ((-.02, .5), (1.02, .5), (.5, -.02), (.5, 1.02)):
            ctx.require(
                not has(r, x0 + fx * sx, y0 + fy * sy), 'partition',
                f'{what}: the region of {(i, j)} is at '
                f'{(x0 + fx * sx, y0 + fy * sy)}')
        for c, n in at.items():
            d = sorted((abs(c[0] - i), abs(c[1] - j)))
            if d == [1, 1]:
                continue
            ctx.require(
                bool(ppp.adj[k, n]) == (d in ([0, 0], [0, 1])), 'adjacency',
                f'{what}: of {(i, j)} and {c} is {ppp.adj[k, n]}')
    lo, hi = ppp.domain.bounding_box
    ctx.require(
        abs(lo.flatten() - [ox, oy]).max() < 1e-6 and
        abs(hi.flatten() - [ox + cols * sx, oy + rows * sy]).max() < 1e-6,
        'partition', f'{what}: the domain is {lo} to {hi}')


OPS = [op_partition, op_occupied, op_empty, op_is_empty, op_place, op_reach, op_name,
       op_offset, op_prefix, op_copy, op_dump, op_sub, op_scale, op_compare,
       op_blank, op_spec, op_occupied, op_reach, op_compare]
