"""Random Mealy machines with a reference transition table."""
import itertools

from .core import HarnessError


STRS = [['a', 'b'], ['left', 'mid', 'right'], ["it's", 'say "hi"', 'b\\n'],
        ['0', '1']]


def gen_ports(ctx, names, lo, hi, mutable_bool=True):
    ports = dict()
    for name in names[:ctx.integer(lo, hi)]:
        kind = ctx.choose(3)
        if kind == 0:
            ports[name] = [0, 1]
        elif kind == 1:
            a = ctx.integer(-2, 2)
            ports[name] = list(range(a, a + ctx.integer(1, 3) + 1))
        else:
            ports[name] = ctx.shuffle(ctx.pick(STRS))
    return ports


class Ref:
    """Reference machine: table {state: [(inputs, outputs, next)]}."""

    def __init__(self, ins, outs, states, init):
        self.ins = ins
        self.outs = outs
        self.states = states
        self.init = init
        self.table = {s: list() for s in states}

    def copy(self):
        r = Ref(dict(self.ins), dict(self.outs), list(self.states), self.init)
        r.table = {s: list(v) for s, v in self.table.items()}
        return r

    def react(self, s, inputs):
        for i, o, t in self.table[s]:
            if i == inputs:
                return t, o
        return None

    def lazy(self, s, part):
        m = [(i, o, t) for i, o, t in self.table[s]
             if all(i[k] == v for k, v in part.items())]
        if len(m) != 1:
            return None
        return m[0][2], m[0][1]

    def reachable(self):
        seen = {self.init}
        todo = [self.init]
        while todo:
            s = todo.pop()
            for _, _, t in self.table[s]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def live(self):
        """States that are left after removing dead-ends."""
        left = set(self.states)
        while True:
            bad = {s for s in left
                   if not any(t in left for _, _, t in self.table[s])}
            if not bad:
                return left
            left -= bad


def valuations(ports):
    names = list(ports)
    for vals in itertools.product(*[ports[n] for n in names]):
        yield dict(zip(names, vals))


def gen_machine(ctx, min_in=0, max_in=2, min_out=0, max_out=2, max_states=5,
                deadends=True, init=None):
    ins = gen_ports(ctx, ['a', 'b'], min_in, max_in)
    outs = gen_ports(ctx, ['o', 'p'], min_out, max_out)
    n = ctx.integer(1, max_states)
    style = ctx.choose(3)
    if style == 0:
        states = list(range(n))
    elif style == 1:
        states = [f's{i}' for i in range(n)]
    else:
        states = [('s', i) for i in range(n)]
    name = init if init is not None else ctx.pick(
        ['Sinit', states[0]])
    states = ([name] if name not in states else []) + states
    ref = Ref(ins, outs, ctx.shuffle(states), name)
    p = ctx.pick([0.6, 0.9, 0.3])
    for s in ref.states:
        rows = list()
        dead = deadends and ctx.chance(0.08)
        for val in valuations(ins):
            if dead or not ctx.chance(p):
                continue
            o = {k: ctx.pick(v) for k, v in outs.items()}
            rows.append((val, o, ctx.pick(ref.states)))
        if not rows and not dead:
            val = {k: ctx.pick(v) for k, v in ins.items()}
            o = {k: ctx.pick(v) for k, v in outs.items()}
            rows.append((val, o, ctx.pick(ref.states)))
        ref.table[s] = ctx.shuffle(rows)
    return ref


def build(ctx, ref):
    """The real machine, assembled in one of the ways a user might."""
    from tulip import transys
    m = transys.MealyMachine()
    how = ctx.choose(2)
    m.add_inputs({k: set(v) if how else list(v) for k, v in ref.ins.items()})
    m.add_outputs({k: set(v) if how else list(v)
                   for k, v in ref.outs.items()})
    if ctx.chance(0.5):
        m.states.add_from(ref.states)
    else:
        for s in ref.states:
            m.states.add(s)
    m.states.initial.add(ref.init)
    rows = [(s, i, o, t) for s in ref.states for i, o, t in ref.table[s]]
    if ctx.chance(0.5):
        rows = ctx.shuffle(rows)
    named = {'u', 'v', 'key'} & (set(ref.ins) | set(ref.outs))
    for s, i, o, t in rows:
        d = dict(i)
        d.update(o)
        if ctx.chance(0.3):
            d = {k: d[k] for k in ctx.shuffle(list(d))}
        if ctx.chance(0.3) or named:
            m.transitions.add(s, t, d)
        else:
            m.transitions.add(s, t, **d)
    return m


def table_of(m, ins, outs):
    """Reference table read back from a real machine's graph."""
    ref = Ref(ins, outs, list(m.nodes()), None)
    init = list(m.states.initial)
    ref.init = init[0] if init else None
    for u, v, d in m.edges(data=True):
        ref.table[u].append((
            {k: d[k] for k in ins}, {k: d[k] for k in outs}, v))
    return ref


def bad_inputs(ctx, ref, s):
    """Inputs that are not enabled at `s`, with the kind of fault, or None."""
    kind = ctx.weighted([
        (3, 'not-enabled'), (2, 'out-of-domain'), (1, 'missing-port'),
        (1, 'extra-port'), (1, 'wrong-type')])
    rows = ref.table[s]
    if kind == 'not-enabled':
        free = [v for v in valuations(ref.ins)
                if all(v != i for i, _, _ in rows)]
        if not free:
            return None
        return kind, ctx.pick(free)
    if kind == 'extra-port':
        base = ctx.pick(rows)[0] if rows else dict()
        return kind, dict(base, zz=0)
    if not ref.ins or not rows:
        return None
    base = dict(ctx.pick(rows)[0])
    k = ctx.pick(list(base))
    if kind == 'missing-port':
        base.pop(k)
    elif kind == 'out-of-domain':
        base[k] = ctx.pick([99, 'nonsense', None])
    else:
        v = base[k]
        base[k] = str(v) if not isinstance(v, str) else 7
    return kind, base
