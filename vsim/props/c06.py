"""C06: transformed controllers execute as the originals."""
import copy

from .. import mgen
from ..core import Violation

RUNS = {'quick': 10000, 'thorough': 400000}
RULE = ('A run draws a machine, applies transformations, and executes the '
        'result in lockstep with the transition table of the original under '
        'inputs with faults, checking that the original is unchanged; '
        'non-trivial: at least 2 reachable states and 3 transitions.')
TIME_UNIT = 'reactions'
STATE_MEASURE = '(transformation, state, outcome)'
ASSUMPTIONS = ['machines have at most 6 states and 9 input valuations']
PROBES = ['strip', 'mask', 'determinize', 'determinize-given', 'moore',
          'moore-back', 'deadends', 'copy']


def check_unchanged(m, ref, what):
    now = mgen.table_of(m, ref.ins, ref.outs)
    if set(now.states) != set(ref.states) or now.init != ref.init:
        raise Violation('original-changed', what)
    for s in ref.states:
        a = sorted(map(repr, ((sorted(i.items()), sorted(o.items()), t)
                              for i, o, t in now.table[s])))
        b = sorted(map(repr, ((sorted(i.items()), sorted(o.items()), t)
                              for i, o, t in ref.table[s])))
        if a != b:
            raise Violation('original-changed', f'{what}: {s!r} {a} {b}')


def lockstep(ctx, ref, m, n, what):
    """Run `m` against the table `ref`, with faulty inputs."""
    s = ref.init
    if list(m.states.initial) != [s]:
        raise Violation(f'{what}-initial', f'{list(m.states.initial)}')
    if set(m.nodes()) != set(ref.states):
        raise Violation(f'{what}-states', f'{list(m.nodes())} {ref.states}')
    if set(m.inputs) != set(ref.ins) or set(m.outputs) != set(ref.outs):
        raise Violation(f'{what}-ports', f'{m.inputs} {m.outputs}')
    for _ in range(n):
        ctx.tick()
        if not ref.table[s] or ctx.chance(0.15):
            s = ctx.pick(ref.states)
        fault = None
        if not ref.table[s]:
            fault = ('dead-end', {k: v[0] for k, v in ref.ins.items()})
        elif ctx.chance(0.2):
            fault = mgen.bad_inputs(ctx, ref, s)
            if fault and ref.react(s, fault[1]) is not None:
                fault = None
        if fault:
            ctx.fault(fault[0])
            inp, want = fault[1], None
        else:
            i, o, t = ctx.pick(ref.table[s])
            inp, want = i, (t, o)
        try:
            got = m.reaction(s, dict(inp))
        except ValueError:
            got = None
        ctx.log(what, s, sorted(inp.items()), got)
        ctx.state(what, str(s), want is None)
        if (got is None) != (want is None) or (
                got is not None and (got[0], got[1]) != want):
            raise Violation(
                what, f'{inp} at {s!r}: {got}, expected {want}')
        if want:
            s = want[0]


def op_strip(ctx, ref, m):
    from tulip.transys import machines
    names = ctx.subset(list(ref.outs), 0.6)
    new = machines.strip_ports(m, names)
    r = ref.copy()
    for k in names:
        r.outs.pop(k)
    for s in r.states:
        r.table[s] = [(i, {k: v for k, v in o.items() if k not in names}, t)
                      for i, o, t in r.table[s]]
    ctx.probe('strip')
    lockstep(ctx, r, new, 8, 'strip_ports')


def op_mask(ctx, ref, m):
    from tulip import synth
    new = copy.deepcopy(m)
    synth.mask_outputs(new)
    r = ref.copy()
    for s in r.states:
        r.table[s] = [(i, {k: v for k, v in o.items() if v != 0}, t)
                      for i, o, t in r.table[s]]
    ctx.probe('mask')
    lockstep(ctx, r, new, 8, 'mask_outputs')


def op_determinize(ctx, ref, m):
    from tulip import synth
    if ref.init != 'Sinit' or not ref.table['Sinit']:
        return
    # several initial reactions for an input
    new = copy.deepcopy(m)
    r = ref.copy()
    for i, o, t in list(r.table['Sinit']):
        for _ in range(ctx.choose(4)):
            o2 = {k: ctx.pick(v) for k, v in r.outs.items()}
            t2 = ctx.pick(r.states)
            if (i, o2, t2) in r.table['Sinit']:
                continue
            new.transitions.add('Sinit', t2, **i, **o2)
            r.table['Sinit'].append((i, o2, t2))
    given = dict()
    if ctx.chance(0.6):
        i, o, _ = ctx.pick(r.table['Sinit'])
        given = {k: o[k] for k in ctx.subset(list(o), 0.6)}
    if given or ctx.chance(0.5):
        det = synth.determinize_machine_init(new, given)
    else:
        det = synth.determinize_machine_init(new)
    check_unchanged(new, r, 'determinize_machine_init')
    ctx.probe('determinize-given' if given else 'determinize')
    got = mgen.table_of(det, ref.ins, ref.outs)
    cand = [x for x in r.table['Sinit']
            if all(x[1][k] == v for k, v in given.items())]
    for x in got.table['Sinit']:
        if x not in cand:
            raise Violation('determinize', f'{x} is not among {cand}')
    for i in mgen.valuations(ref.ins):
        want = int(any(x[0] == i for x in cand))
        n = sum(x[0] == i for x in got.table['Sinit'])
        if n != want:
            raise Violation(
                'determinize', f'{n} initial reactions to {i}, not {want}; '
                f'given {given}')
    r.table['Sinit'] = got.table['Sinit']
    lockstep(ctx, r, det, 6, 'determinized')


def op_moore(ctx, ref, m):
    from tulip.transys import machines
    if not all(ref.outs.values()):
        return
    moore = machines.mealy2moore(m)
    ctx.probe('moore')
    inits = list(moore.states.initial)
    if len(inits) != 1:
        raise Violation('moore-initial', f'{inits}')
    if set(moore.inputs) != set(ref.ins) or (
            set(moore.outputs) != set(ref.outs)):
        raise Violation('moore-ports', f'{moore.inputs} {moore.outputs}')

    def label(q):
        d = dict(moore.states[q])
        return {k: d[k] for k in ref.outs}
    for k, v in label(inits[0]).items():
        if v not in ref.outs[k]:
            raise Violation('moore-initial', f'{k}={v!r}')
    back = machines.moore2mealy(moore) if ctx.chance(0.6) else None
    if back is not None:
        ctx.probe('moore-back')
        if list(back.states.initial) != inits:
            raise Violation('moore2mealy-initial', '')
    s, q = ref.init, inits[0]
    for _ in range(10):
        ctx.tick()
        rows = ref.table[s]
        edges = [(v, {k: d[k] for k in ref.ins})
                 for _, v, d in moore.transitions.find([q])]
        if len(edges) != len(rows):
            raise Violation(
                'moore', f'{len(edges)} transitions at {q} for {s!r}, '
                f'{len(rows)} of the Mealy machine')
        if not rows:
            break
        i, o, t = ctx.pick(rows)
        nxt = [v for v, d in edges if d == i]
        if len(nxt) != 1:
            raise Violation('moore', f'{len(nxt)} successors for {i} at {q}')
        if back is not None:
            got = back.reaction(q, dict(i))
            if got != (nxt[0], label(q)):
                raise Violation(
                    'moore2mealy', f'{i} at {q}: {got}, expected '
                    f'{(nxt[0], label(q))}')
            bad = mgen.bad_inputs(ctx, ref, s) if ctx.chance(0.2) else None
            if bad and ref.react(s, bad[1]) is None:
                ctx.fault(bad[0])
                try:
                    back.reaction(q, bad[1])
                    raise Violation('moore2mealy-accepts', f'{bad}')
                except ValueError:
                    pass
        s, q = t, nxt[0]
        ctx.log('moore', s, i, o)
        ctx.state('moore', str(s), len(rows))
        if label(q) != o:
            raise Violation(
                'moore', f'state {q} says {label(q)}, expected {o}')


def op_deadends(ctx, ref, m):
    new = copy.deepcopy(m)
    live = ref.live()
    if ref.init not in live:
        return
    new.remove_deadends()
    r = ref.copy()
    r.states = [s for s in ref.states if s in live]
    r.table = {s: [x for x in ref.table[s] if x[2] in live] for s in r.states}
    ctx.probe('deadends')
    lockstep(ctx, r, new, 8, 'remove_deadends')


def op_copy(ctx, ref, m):
    new = copy.deepcopy(m)
    ctx.probe('copy')
    victim = ctx.pick(ref.states)
    if victim == ref.init:
        rows = ref.table[victim]
        if rows:
            i, o, t = ctx.pick(rows)
            new.transitions.remove(victim, t, **i, **o)
    else:
        new.states.remove(victim)
    new.add_inputs({'zz': {0, 1}})
    lockstep(ctx, ref, m, 4, 'original-of-copy')


OPS = [op_strip, op_mask, op_determinize, op_moore, op_deadends, op_copy]


def run(ctx):
    ctx.component('tulip.transys.machines, tulip.synth', 'real')
    ctx.component('inputs', 'simulated')
    ref = mgen.gen_machine(
        ctx, init='Sinit' if ctx.chance(0.6) else None)
    m = mgen.build(ctx, ref)
    ctx.sample = dict(ins=ref.ins, outs=ref.outs, init=str(ref.init), table={
        str(s): [(i, o, str(t)) for i, o, t in r]
        for s, r in ref.table.items()})
    ctx.log(ctx.sample)
    ctx.nontrivial = len(ref.reachable()) > 1 and sum(
        map(len, ref.table.values())) >= 3
    for _ in range(ctx.integer(1, 4)):
        op = ctx.pick(OPS)
        op(ctx, ref, m)
        check_unchanged(m, ref, op.__name__)
    lockstep(ctx, ref, m, 4, 'original')
