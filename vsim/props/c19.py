"""C19: the game that a gridworld specification describes."""
import types

from .. import gr1model as gm
from ..core import Violation
from ..loop import Loop

RUNS = {'quick': 900, 'thorough': 12000}
RULE = ('A run draws a gridworld, trolls, and an encoding, plays random '
        'robot and troll moves (legal and illegal, collisions, positions '
        'that are not positions) and compares what the specification of '
        '`spec` or `add_trolls` permits with the moves on the grid; then, '
        'for small worlds, synthesizes a controller and plays it against '
        'adversarial trolls; non-trivial: both legal and illegal moves were '
        'tried.')
TIME_UNIT = 'moves'
STATE_MEASURE = '(encoding, positions of robot and trolls) reached'
ASSUMPTIONS = [
    'initial positions are given, and are not walls, nor are centers of '
    'trolls',
    'formulas are read with the parser of tulip.spec',
    'controllers are synthesized for at most 100 joint positions']
PROBES = ['bits', 'integers', 'trolls-1', 'trolls-2', 'no-trolls',
          'collision', 'into-wall', 'jump', 'not-a-position', 'legal',
          'illegal', 'spec-only', 'uncontrolled', 'offset', 'moves-lists',
          'realizable', 'unrealizable', 'center-outside', 'start-anywhere',
          'truncated-trollspace']


# ----------------------------------------------------------- reading formulas
def evaluate(f, cur, nxt):
    """Value of the formula `f` (text) at a step."""
    return _ev(parse(f), cur, nxt)


_cache = dict()


def parse(f):
    from tulip.spec import parser
    t = _cache.get(f)
    if t is None:
        if len(_cache) > 5000:
            _cache.clear()
        t = _cache[f] = parser.parse(f)
    return t


def _ev(t, cur, nxt):
    kind = type(t).__name__
    if kind == 'Var':
        return cur[t.value]
    if kind == 'Num':
        return int(t.value)
    if kind == 'Bool':
        return str(t.value).lower() == 'true'
    if kind == 'Str':
        return t.value.strip('"')
    op = t.operator
    if op in ('X', "'", 'next'):
        return _ev(t.operands[0], nxt, None)
    if op in ('!', '~', 'not'):
        return not _ev(t.operands[0], cur, nxt)
    a, b = t.operands
    if op in ('&', '&&', '/\\'):
        return bool(_ev(a, cur, nxt)) and bool(_ev(b, cur, nxt))
    if op in ('|', '||', '\\/'):
        return bool(_ev(a, cur, nxt)) or bool(_ev(b, cur, nxt))
    if op in ('->', '=>'):
        return (not _ev(a, cur, nxt)) or bool(_ev(b, cur, nxt))
    if op in ('<->', '<=>'):
        return bool(_ev(a, cur, nxt)) == bool(_ev(b, cur, nxt))
    if op in ('^', 'xor'):
        return bool(_ev(a, cur, nxt)) != bool(_ev(b, cur, nxt))
    x, y = _ev(a, cur, nxt), _ev(b, cur, nxt)
    if op in ('=', '=='):
        return x == y
    if op == '!=':
        return x != y
    if op == '<':
        return x < y
    if op == '<=':
        return x <= y
    if op == '>':
        return x > y
    if op == '>=':
        return x >= y
    raise ValueError(f'operator {op}')


# ----------------------------------------------------------------- the grid
class Agent:
    """A robot or troll, on cells of the world."""

    def __init__(self, name, cells, init, goals, origin, shape, bits,
                 name_offset=(0, 0)):
        self.name = name
        self.cells = cells          # free cells (world coordinates)
        self.init = init
        self.goals = goals
        self.origin = origin
        self.shape = shape
        self.bits = bits
        self.name_offset = name_offset

    def values(self, c):
        """Variables for the position `c`."""
        r, k = c[0] - self.origin[0], c[1] - self.origin[1]
        if self.bits:
            return {
                v: (v == self.var(r, k)) for v in self.names()}
        return {f'{self.name}_r': r, f'{self.name}_c': k}

    def var(self, r, k):
        return (f'{self.name}_{r + self.name_offset[0]}_'
                f'{k + self.name_offset[1]}')

    def names(self):
        if self.bits:
            return [self.var(i, j) for i in range(self.shape[0])
                    for j in range(self.shape[1])]
        return [f'{self.name}_r', f'{self.name}_c']

    def domains(self):
        if self.bits:
            return {v: 'boolean' for v in self.names()}
        return {f'{self.name}_r': (0, self.shape[0] - 1),
                f'{self.name}_c': (0, self.shape[1] - 1)}

    def step(self, a, b):
        return (b in self.cells and
                abs(a[0] - b[0]) + abs(a[1] - b[1]) <= 1)


def gen_world(ctx, gw):
    small = ctx.chance(0.5)
    hi = (3, 3) if small else (5, 6)
    shape = (ctx.integer(1, hi[0]), ctx.integer(1, hi[1]))
    cells = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    walls = set(ctx.subset(cells, 0.2))
    free = [c for c in cells if c not in walls]
    if not free:
        walls.discard(cells[0])
        free = cells[:1]
    init = [ctx.pick(free)]
    if ctx.chance(0.3):
        init = sorted(set(init + [ctx.pick(free)]))
    goals = sorted(set(ctx.subset(free, 0.3)))[:3]
    w = gw.unoccupied(shape)
    w.prefix = prefix = ctx.pick(['Y', 'robot', 'r_1'])
    for c in walls:
        w.mark_occupied(c)
    w.init_list = list(init)
    w.goal_list = list(goals)
    return w, prefix, shape, free, init, goals


def run(ctx):
    import tulip.gridworld as gw
    ctx.component('tulip.gridworld, tulip.spec, tulip.synth', 'real')
    ctx.component('robots, trolls', 'simulated')
    w, prefix, shape, free, init, goals = gen_world(ctx, gw)
    bits = ctx.chance(0.5)
    ctx.probe('bits' if bits else 'integers')
    before = (w.dumps(), w.offset, list(w.init_list), list(w.goal_list))
    if ctx.chance(0.3):
        ctx.probe('spec-only')
        off = (0, 0)
        if bits and ctx.chance(0.5):
            ctx.probe('offset')
            off = (ctx.integer(0, 3), ctx.integer(0, 3))
        controlled = ctx.chance(0.6)
        agent = Agent(prefix, set(free), init, goals, (0, 0), shape, bits,
                      off)
        if off != (0, 0):
            spec = w.spec(offset=off, controlled_dyn=controlled,
                          nonbool=False)
        else:
            spec = w.spec(controlled_dyn=controlled, nonbool=not bits)
        robot, trolls = (agent, []) if controlled else (None, [agent])
        if not controlled:
            ctx.probe('uncontrolled')
    else:
        robot = Agent(prefix, set(free), init, goals, (0, 0), shape, bits)
        out = trolls_of(ctx, gw, w, shape, free, bits)
        if out is None:
            return
        spec, trolls = out
    ctx.require(
        (w.dumps(), w.offset, list(w.init_list), list(w.goal_list))
        == before, 'world-changed', before[0])
    text = (f'{w.pretty()}{prefix} bits={bits} trolls '
            f'{[(t.name, t.goals, t.shape) for t in trolls]}')
    ctx.log(text)
    variables(ctx, spec, robot, trolls, text)
    play(ctx, spec, robot, trolls, text)
    n = 1
    for a in trolls + ([robot] if robot else []):
        n *= len(a.cells)
    if robot and n <= 100 and ctx.chance(0.6):
        closed_loop(ctx, spec, robot, trolls, text)
    ctx.sample = text.splitlines()[-1]


def trolls_of(ctx, gw, w, shape, free, bits):
    n = ctx.weighted([(5, 1), (2, 0), (2, 2)])
    ctx.probe(f'trolls-{n}' if n else 'no-trolls')
    tprefix = ctx.pick(['X', 'troll'])
    anywhere = ctx.chance(0.4)
    descr = [(ctx.pick(free), ctx.weighted([(4, 1), (1, 0), (2, 2)]))
             for _ in range(n)]
    moves = ctx.chance(0.6)
    kw = dict(prefix=tprefix, start_anywhere=anywhere, nonbool=not bits,
              get_moves_lists=moves)
    if ctx.chance(0.05):
        ctx.probe('center-outside')
        bad = ctx.pick([(-1, 0), (shape[0], 0), (0, shape[1]), (0, -1)])
        try:
            gw.add_trolls(w, descr + [(bad, 1)], **kw)
        except ValueError:
            return None
        raise Violation(
            'accepted-bad', f'troll at {bad} in\n{w.pretty()}')
    if anywhere and n:
        ctx.probe('start-anywhere')
    out = gw.add_trolls(w, descr, **kw)
    trolls = list()
    for k, (c, r) in enumerate(descr):
        top = max(0, c[0] - r), max(0, c[1] - r)
        bottom = min(shape[0] - 1, c[0] + r), min(shape[1] - 1, c[1] + r)
        size = bottom[0] - top[0] + 1, bottom[1] - top[1] + 1
        if min(size) < 2 * r + 1:
            ctx.probe('truncated-trollspace')
        cells = {f for f in free if top[0] <= f[0] <= bottom[0]
                 and top[1] <= f[1] <= bottom[1]}
        # `X_0_r` counts from the corner of the trollspace,
        # `X_0_2_3` from the corner of the world
        trolls.append(Agent(
            f'{tprefix}_{k}', cells, sorted(cells) if anywhere else [c],
            [c], top, size, bits, top if bits else (0, 0)))
    if moves:
        ctx.probe('moves-lists')
        spec, lists = out
        ctx.require(len(lists) == n, 'moves-lists', str(lists))
        for t, states in zip(trolls, lists):
            got = sorted(tuple(sorted(s.items())) for s in states)
            want = sorted(tuple(sorted(t.values(c).items()))
                          for c in t.cells)
            ctx.require(
                got == want, 'moves-lists',
                f'states {got} of troll {t.name}, not {want}\n{w.pretty()}')
    else:
        spec = out
    return spec, trolls


def variables(ctx, spec, robot, trolls, text):
    env, sys_ = dict(), dict()
    for t in trolls:
        env.update(t.domains())
    if robot:
        sys_.update(robot.domains())
    ctx.require(
        dict(spec.env_vars) == env and dict(spec.sys_vars) == sys_,
        'variables', f'{spec.env_vars} {spec.sys_vars}, not {env} {sys_}\n'
        + text)


def propose(ctx, a, c, garbage=True):
    """A next position, and whether it is legal for agent `a`."""
    k = ctx.weighted([(6, 'step'), (2, 'any'), (1, 'garbage')])
    everywhere = [(a.origin[0] + i, a.origin[1] + j)
                  for i in range(a.shape[0]) for j in range(a.shape[1])]
    if k == 'garbage' and a.bits and garbage:
        ctx.probe('not-a-position')
        vals = {v: ctx.chance(0.3) for v in a.names()}
        if sum(vals.values()) != 1:
            return None, vals, False
    if k == 'step':
        near = [x for x in everywhere
                if abs(x[0] - c[0]) + abs(x[1] - c[1]) <= 1]
        x = ctx.pick(near)
    else:
        x = ctx.pick(everywhere)
    ok = a.step(c, x)
    if not ok:
        ctx.probe('into-wall' if x not in a.cells else 'jump')
    return x, a.values(x), ok


def conj(fs, cur, nxt):
    return all(bool(evaluate(f, cur, nxt)) for f in fs if f.strip())


def play(ctx, spec, robot, trolls, text):
    agents = trolls + ([robot] if robot else [])
    # initial positions
    for _ in range(6):
        pos, vals, ok_env, ok_sys = list(), dict(), True, True
        for a in agents:
            c = ctx.pick(a.init) if ctx.chance(0.6) \
                else ctx.pick(sorted(a.cells))
            v = a.values(c)
            ok = c in a.init
            if a.bits and ctx.chance(0.1):
                v = {x: ctx.chance(0.5) for x in v}
                ok = any(v == a.values(x) for x in a.init)
            vals.update(v)
            pos.append(c)
            if a is robot:
                ok_sys = ok
            else:
                ok_env &= ok
        got = conj(spec.env_init, vals, None), conj(spec.sys_init, vals, None)
        ctx.require(
            got == (ok_env, ok_sys), 'initial',
            f'{vals}: initial formulas are {got}, not {(ok_env, ok_sys)}\n'
            + text)
    pos = [ctx.pick(a.init) for a in agents]
    seen = set()
    for _ in range(ctx.integer(5, 25)):
        ctx.tick()
        cur, nxt = dict(), dict()
        env_ok, sys_ok = True, True
        new = list()
        for a, c in zip(agents, pos):
            cur.update(a.values(c))
            x, vals, ok = propose(ctx, a, c)
            nxt.update(vals)
            new.append(x)
            if a is robot:
                sys_ok = ok
            else:
                env_ok &= ok
        if robot and new[-1] in new[:-1] and new[-1] is not None:
            ctx.probe('collision')
            sys_ok = False
        judged = True
        if robot and (None in new):
            # positions that are not positions may or may not collide
            judged = new[-1] is None or not env_ok
        ctx.state(robot is None, agents[0].bits, tuple(pos))
        got_env = conj(spec.env_safety, cur, nxt)
        got_sys = conj(spec.sys_safety, cur, nxt)
        ctx.require(
            got_env == env_ok, 'env-step',
            f'environment step {cur} -> {nxt} is {got_env}\n{text}')
        if env_ok or robot is None:
            ctx.require(
                got_sys == sys_ok, 'sys-step',
                f'system step {cur} -> {nxt} is {got_sys}\n{text}')
        ctx.probe('legal' if env_ok and sys_ok else 'illegal')
        seen.add(env_ok and sys_ok)
        # liveness
        for a, part in [(t, spec.env_prog) for t in trolls] + (
                [(robot, spec.sys_prog)] if robot else []):
            pass
        want = sorted(
            pos[i] == g for i, a in enumerate(agents) if a is not robot
            for g in a.goals)
        got = sorted(bool(evaluate(f, cur, None)) for f in spec.env_prog)
        ctx.require(
            got == want, 'env-goals',
            f'{cur}: {spec.env_prog} are {got}\n{text}')
        if robot:
            want = sorted(pos[-1] == g for g in robot.goals)
            got = sorted(bool(evaluate(f, cur, None)) for f in spec.sys_prog)
            ctx.require(
                got == want, 'sys-goals',
                f'{cur}: {spec.sys_prog} are {got}\n{text}')
        if env_ok and sys_ok:
            pos = new
    ctx.nontrivial = len(seen) == 2


# ------------------------------------------------------------- closed loop
class GridGame(gm.Game):
    """The game on the grid: one valuation for each position."""

    def __init__(self, robot, trolls, moore, plus_one, qinit):
        self.robot, self.trolls = robot, trolls
        self.moore, self.plus_one, self.qinit = moore, plus_one, qinit
        import itertools
        self.ecells = list(itertools.product(
            *[sorted(t.cells) for t in trolls]))
        self.scells = sorted(robot.cells)
        self.E = list()
        for cs in self.ecells:
            d = dict()
            for t, c in zip(trolls, cs):
                d.update(t.values(c))
            self.E.append(d)
        if plus_one and robot.bits and any(len(t.names()) > 1 for t in trolls):
            # The robot has to move safely also in the step in which the
            # environment errs.  Of all such valuations, this is the worst.
            self.ecells.append(None)
            self.E.append({v: True for t in trolls for v in t.names()})
        space = {(t.origin[0] + i, t.origin[1] + j)
                 for t in trolls for i in range(t.shape[0])
                 for j in range(t.shape[1])}
        self.S = [robot.values(c) for c in self.scells]
        self.nE, self.nS = len(self.E), len(self.S)
        self.N = self.nE * self.nS
        self.st = [self.state(e, s)
                   for e in range(self.nE) for s in range(self.nS)]
        n = range(self.nE)
        m = range(self.nS)
        einit = [cs is not None and all(c in t.init for t, c in zip(trolls, cs))
                 for cs in self.ecells]
        sinit = [c in robot.init for c in self.scells]
        self.Einit = [einit[e] for e in n for s in m]
        self.Sinit = [sinit[s] for e in n for s in m]
        estep = [[None not in (u, v) and all(t.step(a, b) for t, a, b in zip(trolls, u, v))
                  for v in self.ecells] for u in self.ecells]
        self.Estep = [estep[e] for e in n for s in m]
        sstep = [[robot.step(a, b) and b not in (space if v is None else v)
                  for v in self.ecells for b in self.scells]
                 for a in self.scells]
        self.Sstep = [sstep[s] for e in n for s in m]
        self.goals = [
            {self.idx(e, s) for e in n for s in m if self.scells[s] == g}
            for g in robot.goals] or [set(range(self.N))]
        self.holds = [
            {self.idx(e, s) for e in n for s in m
             if self.ecells[e] is None
             or self.ecells[e][k] != t.goals[0]}
            for k, t in enumerate(trolls)] or [set()]
        self.sys_prog = [('const', True)] * len(self.goals)


def closed_loop(ctx, spec, robot, trolls, text):
    from tulip import synth
    spec.moore = ctx.chance(0.5)
    spec.plus_one = ctx.chance(0.5)
    spec.qinit = ctx.pick([r'\A \E', r'\E \A'])
    p = types.SimpleNamespace(
        moore=spec.moore, plus_one=spec.plus_one, qinit=spec.qinit)
    p.game = g = GridGame(robot, trolls, p.moore, p.plus_one, p.qinit)
    # what the loop reads
    p.ev = [types.SimpleNamespace(name=v, kind='bool' if robot.bits else 'int')
            for t in trolls for v in t.names()]
    p.sv = [types.SimpleNamespace(name=v, dom=None) for v in robot.names()]
    want = g.realizable()
    text += f' {p.moore} {p.plus_one} {p.qinit}'
    ctx.probe('realizable' if want else 'unrealizable')
    got = synth.is_realizable(spec, solver='omega')
    ctx.require(
        got == want, 'verdict',
        f'is_realizable is {got}, on the grid {want}\n{text}')
    ctrl = synth.synthesize(spec, solver='omega')
    ctx.require(
        (ctrl is not None) == want, 'verdict',
        f'synthesize: {ctrl is not None}, on the grid {want}\n{text}')
    if ctrl is None:
        return
    lp = Loop(ctx, p, ctrl)
    lp.explore()
    lp.walk(20)
    lp.adversary()
