"""C04: executing a Mealy machine follows its transitions, and only those."""
import io
import random
import re
import sys

from .. import mgen
from ..core import SimHang, Violation

RUNS = {'quick': 12000, 'thorough': 400000}
RULE = ('A run draws a Mealy machine and a history of executions (single '
        'reactions, partial inputs, guided, random and interactive runs, '
        'edits of the machine) with faulty inputs injected, against a '
        'transition table; non-trivial: at least 2 reachable states and 3 '
        'transitions.')
TIME_UNIT = 'operations'
STATE_MEASURE = '(operation, outcome, state, fault kind)'
ASSUMPTIONS = ['machines have at most 6 states and 9 input valuations']
PROBES = ['reaction', 'rejected', 'lazy', 'lazy-ambiguous', 'guided',
          'guided-rejected', 'random-run', 'interactive', 'edited',
          'deadend', 'valuation']


class User:
    """Simulated user of an interactive run: reads the menu, then answers."""

    def __init__(self, ctx, out, ref, state, script, m):
        self.ctx = ctx
        self.out = out
        self.ref = ref
        self.state = state
        self.script = script
        self.m = m
        self.asked = 0
        self.moves = list()
        self.pos = 0

    def _menu(self):
        text = self.out.getvalue()[self.pos:]
        self.pos = len(self.out.getvalue())
        rows = dict()
        for mt in re.finditer(
                r'^\s*(\d+) : (.+?) ---> (.+?)\n\s*inputs: (\{.*?\})'
                r'\s+outputs: (\{.*?\})\n', text, re.M):
            rows[int(mt.group(1))] = (mt.group(2), mt.group(3), mt.group(4),
                                      mt.group(5))
        return rows

    def readline(self, *a):
        ctx = self.ctx
        self.asked += 1
        if self.asked > 60:
            raise SimHang(
                'interactive run: asks for ever, after the user left')
        rows = self._menu()
        want = len(self.ref.table[self.state])
        if len(rows) != want:
            raise Violation(
                'menu', f'{want} transitions leave {self.state!r}, the menu '
                f'shows {rows}')
        for a_, b_, c_, d_ in rows.values():
            if a_ != str(self.state):
                raise Violation(
                    'menu', f'at state {self.state!r}, but the menu is about '
                    f'state {a_}')
        what = self.script.pop(0) if self.script else 'enter'
        ctx.log('user', what)
        if what == 'go':
            k = ctx.choose(len(rows))
            row = rows[k]
            match = [(i, o, t) for i, o, t in self.ref.table[self.state]
                     if str(t) == row[1] and str(i) == str(eval(row[2]))
                     or (str(t) == row[1] and i == eval(row[2]))]
            if not match:
                raise Violation('menu', f'no such transition: {row}')
            self.moves.append((self.state, match[0]))
            self.state = match[0][2]
            return f'{k}\n'
        if what == 'garbage':
            ctx.fault('garbage-answer')
            return ctx.pick(['x\n', '1.5\n', '--\n', 'none\n'])
        if what == 'out-of-range':
            ctx.fault('out-of-range-answer')
            return f'{len(rows) + 3}\n'
        if what == 'eof':
            ctx.fault('eof')
            self.script = list()
            return ''
        self.script = list()
        return '\n'

    def write(self, s):
        pass


def interactive(ctx, ref, m, state, via_run):
    from tulip.transys import machines
    n = ctx.integer(0, 6)
    script = [ctx.weighted([(5, 'go'), (1, 'garbage'), (1, 'out-of-range')])
              for _ in range(n)]
    script.append(ctx.pick(['enter', 'eof']))
    out = io.StringIO()
    user = User(ctx, out, ref, state if state is not None else ref.init,
                script, m)
    old = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = user, out
    try:
        arg = dict() if state is None else dict(from_state=state)
        if via_run:
            r = m.run(**arg)
        else:
            r = machines.interactive_run(m, **arg)
    finally:
        sys.stdin, sys.stdout = old
    # ends when told to, or at a dead-end
    if user.script and ref.table[user.state]:
        raise Violation(
            'stopped-early', f'the interactive run stopped at {user.state!r}'
            f' with the user still there ({user.script})')
    shown = re.findall(r'Current state: (.+)', out.getvalue())
    path = [str(s) for s, _ in user.moves] + [str(user.state)]
    if shown and shown != path:
        raise Violation('states', f'shown {shown}, moved along {path}')
    ctx.log('interactive', len(user.moves), str(user.state))
    ctx.probe('interactive')


def check_run(ctx, ref, s, res, n, what):
    states, outs = res
    if len(states) != n or set(outs) != set(ref.outs) or any(
            len(v) != n for v in outs.values()):
        raise Violation(f'{what}-shape', f'{res}, {n} inputs')
    for k in range(n):
        o = {p: outs[p][k] for p in ref.outs}
        ok = [t for _, o2, t in ref.table[s] if t == states[k] and o2 == o]
        if not ok:
            raise Violation(
                f'{what}-step', f'no transition {s!r} --> {states[k]!r} '
                f'with outputs {o}')
        s = states[k]
    return s


def reaction(ctx, ref, m, s):
    fault = mgen.bad_inputs(ctx, ref, s) if ctx.chance(0.3) else None
    lazy = ctx.chance(0.3)
    use_part = lazy and ctx.chance(0.3)
    if not ref.table[s]:
        ctx.probe('deadend')
        fault = ('dead-end', {k: v[0] for k, v in ref.ins.items()})
    if fault:
        kind, inp = fault
        if lazy and kind == 'missing-port':
            want = ref.lazy(s, inp)
        else:
            want = None
            if any(i == inp for i, _, _ in ref.table[s]):
                return s  # not a fault after all (equal values)
        ctx.fault(kind)
    else:
        inp = dict(ctx.pick(ref.table[s])[0])
        want = ref.react(s, inp)
        if lazy:
            ctx.probe('lazy')
            for k in list(inp):
                if ctx.chance(0.4):
                    inp.pop(k)
            want = ref.lazy(s, inp)
            if want is None:
                ctx.probe('lazy-ambiguous')
    inp = {k: inp[k] for k in ctx.shuffle(list(inp))}
    keep = dict(inp)
    try:
        if use_part:
            got = m.reactionpart(s, inp)
        elif lazy:
            got = m.reaction(s, inp, lazy=True)
        else:
            got = m.reaction(s, inp)
    except ValueError:
        got = None
    if inp != keep:
        raise Violation('argument-changed', f'{keep} -> {inp}')
    ctx.log('reaction', s, sorted(inp.items(), key=str), 'lazy', lazy, got)
    ctx.state('reaction', s, want is None, fault and fault[0])
    if want is None:
        ctx.probe('rejected')
        if got is not None:
            raise Violation(
                'accepted', f'{inp} at {s!r} ({fault}): reacts {got}')
        return s
    ctx.probe('reaction')
    if got is None:
        raise Violation('rejected', f'{inp} at {s!r}, expected {want}')
    if (got[0], got[1]) != want:
        raise Violation('wrong', f'{inp} at {s!r}: {got}, expected {want}')
    return got[0]


def guided(ctx, ref, m, s):
    n = ctx.integer(0, 6)
    start = s
    rows = list()
    want = list()
    bad = False
    for _ in range(n):
        if not ref.table[s]:
            break
        f = mgen.bad_inputs(ctx, ref, s) if ctx.chance(0.1) else None
        if f and f[0] in ('not-enabled', 'out-of-domain', 'wrong-type') and (
                ref.react(s, f[1]) is None) and not bad:
            ctx.fault('mid-sequence-' + f[0])
            rows.append(f[1])
            bad = True
            continue
        i, o, t = ctx.pick(ref.table[s])
        rows.append(i)
        if not bad:
            want.append((t, o))
            s = t
    seqs = {k: [r[k] for r in rows] for k in ctx.shuffle(list(ref.ins))}
    shape = 'ok'
    if ctx.chance(0.2):
        shape = ctx.pick(['missing', 'length', 'tuple'])
        k = ctx.pick(list(seqs))
        if shape == 'missing':
            seqs.pop(k)
        elif shape == 'length':
            if len(seqs) < 2:
                shape = 'ok'
            else:
                seqs[k] = seqs[k] + [ref.ins[k][0]]
        else:
            seqs[k] = tuple(seqs[k])
    kw = dict(input_sequences=seqs)
    if start != ref.init or ctx.chance(0.5):
        kw['from_state'] = start
    try:
        if ctx.chance(0.5):
            res = m.run(**kw)
        else:
            from tulip.transys import machines
            res = machines.guided_run(m, **kw)
        err = None
    except (ValueError, TypeError) as e:
        err = type(e).__name__
    ctx.log('guided', shape, bad, len(rows), err)
    ctx.state('guided', shape, bad, err, start)
    if shape != 'ok' or bad:
        ctx.probe('guided-rejected')
        if err is None:
            raise Violation('guided-accepted', f'{shape} {seqs}')
        if shape == 'tuple' and err != 'TypeError' or (
                shape != 'tuple' and err != 'ValueError'):
            raise Violation('guided-error', f'{shape} {err}')
        return start
    ctx.probe('guided')
    if err is not None:
        raise Violation('guided-rejected', f'{seqs} from {start!r}: {err}')
    states, outs = res
    if list(states) != [t for t, _ in want]:
        raise Violation('guided-states', f'{states}, expected {want}')
    for k in ref.outs:
        if list(outs[k]) != [o[k] for _, o in want]:
            raise Violation('guided-outputs', f'{outs}, expected {want}')
    if set(outs) != set(ref.outs):
        raise Violation('guided-outputs', f'{outs}')
    return s


def edit(ctx, ref, m):
    ctx.probe('edited')
    kind = ctx.choose(4)
    if kind == 0:
        # new transition
        free = [(s, v) for s in ref.states for v in mgen.valuations(ref.ins)
                if ref.react(s, v) is None]
        if not free:
            return
        s, v = ctx.pick(free)
        o = {k: ctx.pick(x) for k, x in ref.outs.items()}
        t = ctx.pick(ref.states)
        m.transitions.add(s, t, **v, **o)
        ref.table[s].append((v, o, t))
    elif kind == 1:
        rows = [(s, r) for s in ref.states for r in ref.table[s]]
        if not rows:
            return
        s, (i, o, t) = ctx.pick(rows)
        m.transitions.remove(s, t, **i, **o)
        ref.table[s].remove((i, o, t))
    elif kind == 2:
        others = [s for s in ref.states if s != ref.init]
        if not others:
            return
        s = ctx.pick(others)
        m.states.remove(s)
        ref.states.remove(s)
        ref.table.pop(s)
        for u in ref.states:
            ref.table[u] = [r for r in ref.table[u] if r[2] != s]
    else:
        live = ref.live()
        if ref.init not in live:
            return
        m.remove_deadends()
        ref.states = [s for s in ref.states if s in live]
        ref.table = {
            s: [r for r in ref.table[s] if r[2] in live] for s in ref.states}
        if m.has_deadends():
            raise Violation('deadends', 'left after remove_deadends')
    ctx.log('edit', kind)
    if set(m.nodes()) != set(ref.states):
        raise Violation('edit', f'{list(m.nodes())} {ref.states}')


def valuation(ctx, ref, m):
    """Are values that a port does not have rejected?"""
    from tulip.transys import machines
    ports = dict(m.inputs)
    good = {k: ctx.pick(sorted(v, key=str)) for k, v in ref.ins.items()}
    if ctx.chance(0.5):
        # domains may be given as functions
        k = ctx.pick(sorted(ports))
        dom = list(ref.ins[k])
        ports[k] = lambda x: x in dom
    machines.is_valuation(ports, good)
    bad = dict(good)
    bad[ctx.pick(sorted(bad))] = 'no such value'
    try:
        machines.is_valuation(ports, bad)
    except TypeError:
        ctx.probe('valuation')
        return
    raise Violation('valuation', f'{bad} accepted for {ref.ins}')


def run(ctx):
    from tulip.transys import machines
    ctx.component('tulip.transys.machines', 'real')
    ctx.component('inputs, user at the terminal', 'simulated')
    ref = mgen.gen_machine(ctx)
    m = mgen.build(ctx, ref)
    ctx.sample = dict(ins=ref.ins, outs=ref.outs, init=str(ref.init), table={
        str(s): [(i, o, str(t)) for i, o, t in r]
        for s, r in ref.table.items()})
    ctx.log(ctx.sample)
    ctx.nontrivial = len(ref.reachable()) > 1 and sum(
        map(len, ref.table.values())) >= 3
    s = ref.init
    for _ in range(ctx.integer(4, 16)):
        ctx.tick()
        if s not in ref.table:
            s = ref.init
        op = ctx.weighted([
            (8, 'reaction'), (2, 'guided'), (2, 'random'),
            (1, 'interactive'), (1, 'edit'), (1, 'valuation')])
        if op == 'reaction':
            s = reaction(ctx, ref, m, s)
        elif op == 'guided' and ref.ins:
            s = guided(ctx, ref, m, s)
        elif op == 'random':
            n = ctx.integer(1, 8)
            reach = ref.copy()
            reach.init = s
            if any(not ref.table[x] for x in reach.reachable()):
                continue
            random.seed(ctx.choose(1 << 30))
            kw = dict(N=n)
            if s != ref.init or ctx.chance(0.5):
                kw['from_state'] = s
            s = check_run(
                ctx, ref, s, machines.random_run(m, **kw), n, 'random')
            ctx.probe('random-run')
            ctx.log('random', n, s)
        elif op == 'interactive':
            interactive(
                ctx, ref, m, None if ctx.chance(0.3) else s,
                ctx.chance(0.3))
        elif op == 'edit':
            edit(ctx, ref, m)
        elif op == 'valuation' and ref.ins:
            valuation(ctx, ref, m)
