"""C15: Büchi automata from `ltl2ba`, a process that can fail."""
from .. import buchi
from .. import simproc
from ..core import Discard, SimHang, Violation

RUNS = {'quick': 2500, 'thorough': 25000}
RULE = ('A run translates 1-4 drawn LTL formulas (depth at most 3, at most '
        '3 propositions) with a simulated `ltl2ba` process, through '
        '`ltl2ba()` or `call_ltl2ba` and one `Parser` that is reused, with '
        'process faults; non-trivial: an automaton was compared with its '
        'formula on drawn ultimately periodic words, or a fault was injected.')
TIME_UNIT = 'calls to ltl2ba'
STATE_MEASURE = '(entry point, fault, outcome, automaton size) of calls'
ASSUMPTIONS = [
    'ltl2ba prints never claims as its source does (`T0_init`, '
    '`accept_S3`, `accept_all: skip`, `false;`), on standard output',
    'the meaning of an automaton is compared on 40 words with at most 5 '
    'letters in prefix and cycle']
PROBES = ['accept-all', 'accept-init', 'empty', 'deadlock-state',
          'long-output', 'call-after-fault', 'fault-reported', 'reused',
          'bad-input', 'prefix']

FAULTS = [
    (8, None), (1, 'start'), (3, 'kill'), (3, 'short'), (1, 'code'),
    (1, 'missing'), (1, 'noise')]
NAMES = ['p', 'q', 'init_x', 'accept', 'accept_all', 'skip_it', 'x1', 'if_',
         't0', 'never_1']


def run(ctx):
    ctx.component('tulip.interfaces.ltl2ba, tulip.transys.automata', 'real')
    ctx.component('ltl2ba, pipes', 'simulated')
    sim = simproc.Sim(ctx)
    with sim.running(['tulip.interfaces.ltl2ba']):
        _run(ctx, sim)


def _run(ctx, sim):
    from tulip.interfaces import ltl2ba
    parser = None
    n = ctx.integer(1, 4)
    faulty = False
    for k in range(n):
        ctx.tick()
        names = ctx.shuffle(NAMES)[:ctx.integer(1, 3)]
        f = buchi.gen(ctx, names, ctx.integer(1, 3))
        aut = buchi.automaton(f)
        if aut is None:
            if k == 0:
                raise Discard()
            return
        bad = ctx.chance(0.05)
        text = buchi.show(f)
        if bad:
            text += ctx.pick([' U', ' )', ' &&', ' ->'])
            ctx.probe('bad-input')
        entry = ctx.pick(['parser', 'ltl2ba'])
        prefix = ''
        if entry == 'parser' and ctx.chance(0.2):
            prefix = 'my-'
            ctx.probe('prefix')
        fault = ctx.weighted(FAULTS)
        size = 0
        if ctx.chance(0.03):
            size = 60
        ctx.log('call', k, entry, fault, text)
        printed = list()
        sim.programs.clear()
        sim.start_fault = sim.out_fault = None
        program = buchi.ltl2ba_program(ctx, lambda: size)
        if fault == 'noise':
            program = noisy(ctx, program)
        program = recorded(program, printed)
        sim.install(prefix + 'ltl2ba', program)
        which = (lambda key, argv, w=ctx.integer(0, 1):
                 ('-f' in argv) if w == 0 else True)
        if fault == 'start':
            sim.start_fault = (
                which, ctx.pick(['ENOENT', 'EAGAIN', 'ENOMEM', 'EACCES']))
        elif fault == 'kill':
            sim.out_fault = (which, (
                'kill', ctx.weighted([
                    (1, 0), (4, ctx.integer(1, 300)), (1, 3000)])))
        elif fault == 'short':
            sim.out_fault = (which, (
                'short', ctx.integer(0, 300), ctx.pick([1, 0, 2])))
        elif fault == 'code':
            sim.out_fault = (which, ('code', 0, ctx.pick([1, 2, 127])))
        elif fault == 'missing':
            sim.programs.clear()
            ctx.fault('tool-missing')
        sim.fired = list()
        res = err = None
        try:
            if entry == 'ltl2ba':
                ba = ltl2ba.ltl2ba(text)
                res = (
                    set(ba.atomic_propositions),
                    set(ba.nodes),
                    [(u, v, d['guard'])
                     for u, v, d in ba.edges(data=True)],
                    set(ba.states.initial), set(ba.accepting))
            else:
                if parser is None or ctx.chance(0.2):
                    parser = ltl2ba.Parser()
                else:
                    ctx.probe('reused')
                out = ltl2ba.call_ltl2ba(text, prefix)
                symbols, g, initial, accepting = parser.parse(out)
                ctx.require(
                    set(symbols.values()) <= {'boolean'},
                    'symbols', f'{symbols}')
                res = (
                    set(symbols), set(g),
                    [(u, v, d['guard'])
                     for u, v, d in g.edges(data=True)],
                    set(initial), set(accepting))
        except SimHang:
            raise
        except Exception as e:
            err = e
        fired = bool(sim.fired) or fault in ('missing', 'noise')
        faulty |= fired
        ctx.log('outcome', type(err).__name__)
        ctx.state(entry, fault if fired else None, type(err).__name__,
                  res and (len(res[1]), len(res[2])))
        if err is not None:
            if not fired and not bad:
                raise err
            ctx.probe('fault-reported')
        else:
            ctx.require(not bad, 'accepted-error',
                        f'an automaton for the malformed formula {text}')
            full = printed[-1] if printed else ''
            check(ctx, f, names, res, text, full)
            ctx.nontrivial = True
            if faulty and not fired:
                ctx.probe('call-after-fault')
            if len(full) > sim.capacity:
                ctx.probe('long-output')
        left = [p for p in sim.procs if not p.reaped]
        ctx.require(
            not left or fired, 'zombie',
            f'processes not waited for: {[p.argv for p in left]}')
        sim.procs.clear()
    ctx.nontrivial |= faulty
    ctx.sample = text


def recorded(program, printed):
    def prog(argv):
        acc = list()
        gen = program(argv)
        value = None
        while True:
            try:
                req = gen.send(value)
            except StopIteration:
                return
            if req[0] == 'out':
                acc.append(req[1])
            if req[0] == 'exit' and '-f' in argv:
                printed.append(''.join(acc))
            value = yield req
    return prog


def noisy(ctx, program):
    line = ctx.pick([
        'ltl2ba: /lib/libc.so.6: no version information available\n',
        'warning: something\n', '\n', '{}\n', '/* */\n'])
    ctx.fault('noise-on-stderr')

    def prog(argv):
        yield 'err', line
        yield from program(argv)
    return prog


def check(ctx, f, names, res, text, printed):
    symbols, nodes, edges, initial, accepting = res
    if 'accept_all' in nodes:
        ctx.probe('accept-all')
    if 'accept_init' in nodes:
        ctx.probe('accept-init')
    if 'T0_init' in nodes and len(nodes) == 1:
        ctx.probe('empty')
    if '\tfalse;' in printed:
        ctx.probe('deadlock-state')
    used = set()
    for u, v, guard in edges:
        ctx.require(u in nodes and v in nodes, 'edge-nodes', f'{u} {v}')
        used |= buchi.names_of(guard)
    ctx.require(
        used <= symbols, 'symbols',
        f'guards mention {used - symbols}, not in {symbols}')
    ctx.require(
        symbols <= set(names), 'symbols',
        f'{symbols - set(names)} are not propositions of {text}')
    ctx.require(initial <= nodes and accepting <= nodes, 'marked-states',
                f'{initial} {accepting} {nodes}')
    for word, loop in buchi.words(ctx, names, 40):
        want = buchi.holds(f, word, loop)
        got = buchi.accepts(edges, initial, accepting, word, loop)
        if want != got:
            w = ' '.join('{' + ','.join(sorted(x)) + '}' for x in word)
            raise Violation(
                'language',
                f'{text}\nholds: {want}, automaton accepts: {got}\n'
                f'word {w}, loop to {loop}\n'
                f'{printed[:3000]}\n{res}')
