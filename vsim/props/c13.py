"""C13: an interactive session with gr1c, and strategy files, under faults."""
import copy
import os
from xml.sax.saxutils import quoteattr

from .. import gr1model as gm
from .. import gr1sim
from .. import simproc
from .. import specgen
from ..core import Discard, SimHang, Violation
from ..loop import Loop

RUNS = {'quick': 9000, 'thorough': 90000}
RULE = ('A run drives a `GR1CSession` (a drawn sequence of commands, resets '
        'and closes) with a simulated interactive `gr1c` that can die at any '
        'byte of its output, or reads strategy files that may be cut short; '
        'non-trivial: at least 3 answers were compared, or a fault hit.')
TIME_UNIT = 'commands'
STATE_MEASURE = '(command, process alive, outcome)'
ASSUMPTIONS = [
    'gr1c, built without GNU Readline, answers as documented until it dies',
    'specifications have at most 16 joint valuations']
PROBES = ['session', 'file', 'command-after-death', 'reset', 'close',
          'controller-from-file', 'no-strategy-in-file', 'no-file',
          'no-such-goal']


def run(ctx):
    ctx.component('tulip.interfaces.gr1c, tulip.spec', 'real')
    ctx.component('gr1c, pipes', 'simulated')
    sim = simproc.Sim(ctx)
    p = specgen.gen_problem(ctx, 'gr1c', max_states=16)
    p.spec = specgen.make_spec(ctx, p)
    ctx.sample = specgen.describe(p)
    with sim.running(['tulip.interfaces.gr1c']):
        if ctx.chance(0.3):
            files(ctx, sim, p)
        else:
            session(ctx, sim, p)


class Prog(gr1sim.Tools):
    prompt = '>>> '


def session(ctx, sim, p):
    from tulip import spec as _spec
    from tulip.interfaces import gr1c
    ctx.probe('session')
    tools = Prog(ctx)
    sim.install('gr1c', tools.gr1c)
    text = _spec.translate(p.spec, 'gr1c')
    fname = os.path.join(sim.cwd, 'spec.spc')
    with open(fname, 'w') as f:
        f.write(text)
    env = [v.name for v in p.ev]
    sys_ = [v.name for v in p.sv]
    kw = dict(env_vars=env) if env or ctx.chance(0.5) else dict()

    def arm():
        sim.out_fault = None
        if ctx.chance(0.35):
            sim.out_fault = (
                lambda key, argv: True,
                ('kill', ctx.pick([0, 1, 3, 4, 5, 7, 9, 12, 16, 20, 30, 45,
                                   60, 90, 150])))
    # another file, that has other goals
    p2 = copy.copy(p)
    p2.sys_prog = list(p.sys_prog)[1:] + [
        ctx.pick(list(p.sys_prog) or [gm.TRUE]) for _ in range(2)]
    spec2 = specgen.make_spec(ctx, p2)
    fname2 = os.path.join(sim.cwd, 'other.spc')
    with open(fname2, 'w') as f:
        f.write(_spec.translate(spec2, 'gr1c'))
    plays = dict()

    def play(name):
        if name not in plays:
            with open(name) as f:
                g = gr1sim.game_of(gr1sim.parse_gr1c(f.read()))
            plays[name] = g, gr1sim.Strategy(g, lambda s: s[0])
        return plays[name]
    arm()
    if ctx.chance(0.1):
        ctx.probe('no-file')
        gs = gr1c.GR1CSession(None, sys_, **kw)
        ctx.require(gs.p is None, 'status', 'process without a file')
        if ctx.chance(0.5):
            ctx.require(gs.reset() is True and gs.p is None, 'status',
                        'reset without a file')
        ctx.require(gs.reset(fname) is True, 'status', 'reset with a file')
    else:
        gs = gr1c.GR1CSession(fname, sys_, **kw)
    ctx.require(gs.p is not None, 'no-session', f'no process for {fname}')
    ctx.require(env == gs.env_vars and sys_ == gs.sys_vars, 'variables', '')
    cur = fname
    compared = 0
    n = ctx.integer(1, 14)
    for k in range(n):
        ctx.tick()
        proc = gs.p.proc if gs.p is not None else None
        if gs.p is None:
            break
        proc.advance()
        dead = proc.code is not None
        if dead:
            ctx.probe('command-after-death')
        op = ctx.weighted([
            (3, 'iswinning'), (3, 'env_next'), (3, 'sys_nexta'),
            (3, 'sys_nextfeas'), (2, 'getindex'), (1, 'numgoals'),
            (1, 'getvars'), (1, 'reset'), (1, 'close')])
        ctx.log('cmd', k, op, dead)
        if op in ('reset', 'close'):
            ctx.probe(op)
            tools.quit_code = ctx.weighted([(4, 0), (1, 1)])
            if tools.quit_code:
                ctx.fault('quit-fails')
            if op == 'reset':
                arm()
                if ctx.chance(0.4):
                    new = ctx.pick([fname, fname2])
                    r = gs.reset(new)
                else:
                    new = cur
                    r = gs.reset()
                if r:
                    cur = new
            else:
                r = gs.close()
            died = proc.code != 0
            ctx.log(op, r, died)
            ctx.state(op, dead, r)
            ctx.require(proc.reaped, 'process-left',
                        f'{op}: gr1c was not waited for')
            ctx.require(
                r is (not died), 'status',
                f'{op}() is {r}, exit status of gr1c {proc.code}')
            if op == 'close' or not r:
                ctx.require(gs.p is None, 'status', f'process after {op}')
                if op == 'reset' and ctx.chance(0.3):
                    # the file was given up
                    ctx.require(gs.reset() is True and gs.p is None,
                                'status', 'reset of an ended session')
                if op == 'reset' and ctx.chance(0.5):
                    # faults stop: a new session must work
                    sim.out_fault = None
                    cur = ctx.pick([fname, fname2])
                    r = gs.reset(cur)
                    ctx.require(
                        r is True and gs.p is not None, 'status',
                        f'reset of an ended session is {r}')
            else:
                ctx.require(gs.p is not None, 'no-session',
                            'no process after reset')
            continue
        g, st = play(cur)
        tools.table = st
        want, call = command(ctx, op, gs, st, g, p)
        before = len(sim.fired)
        try:
            r = call()
        except SimHang:
            raise
        except Exception as e:
            if want is ValueError and type(e) is ValueError:
                ctx.log('error', 'ValueError')
                compared += 1
                continue
            if dead or len(sim.fired) > before:
                ctx.log('error', type(e).__name__)
                ctx.state(op, dead, type(e).__name__)
                continue
            raise
        ctx.state(op, dead, 'answer')
        compared += 1
        ctx.require(
            r == want and type(r) is type(want), 'wrong-answer',
            f'{op}: {r} instead of {want} '
            f'(gr1c {"died" if proc.code is not None else "alive"})')
    if gs.p is not None:
        proc = gs.p.proc
        tools.quit_code = 0
        r = gs.close()
        ctx.require(proc.reaped, 'process-left',
                    'close: gr1c was not waited for')
        ctx.require(r is (proc.code == 0), 'status',
                    f'close() is {r}, exit status {proc.code}')
    left = sim.unreaped()
    ctx.require(not left, 'process-left', f'{len(left)} processes')
    ctx.nontrivial = compared >= 3 or bool(sim.fired)


def command(ctx, op, gs, st, g, p):
    """(expected answer, function that asks)"""
    ev, sv = p.ev, p.sv

    def vec(d, vs):
        # the order of the keys must not matter
        ks = ctx.shuffle([v.name for v in vs])
        return {k: _num(p, k, d[k]) for k in ks}
    q = ctx.choose(g.N)
    x = vec(p.game.st[q], ev + sv)
    e = ctx.choose(g.nE)
    move = vec(p.game.E[e], ev)
    j = ctx.choose(len(g.goals))
    if op in ('sys_nextfeas', 'getindex') and ctx.chance(0.15):
        # rejected when the process answers `numgoals`
        ctx.probe('no-such-goal')
        j = ctx.pick([-1, len(g.goals), len(g.goals) + 1])
        return (ValueError,
                (lambda: gs.sys_nextfeas(x, move, j))
                if op == 'sys_nextfeas' else lambda: gs.getindex(x, j))
    if op == 'iswinning':
        return q in st.win, lambda: gs.iswinning(x)
    if op == 'env_next':
        return ([{v.name: int(g.E[i][v.name]) for v in ev}
                 for i in g.env_moves(q)], lambda: gs.env_next(x))
    if op == 'sys_nexta':
        return ([{v.name: int(g.S[s][v.name]) for v in sv}
                 for s in gr1sim.sysnexta(g, q, e)],
                lambda: gs.sys_nexta(x, move))
    if op == 'sys_nextfeas':
        return ([{v.name: int(g.S[s][v.name]) for v in sv}
                 for s in gr1sim.sysnext(st, q, e, j)],
                lambda: gs.sys_nextfeas(x, move, j))
    if op == 'getindex':
        return (st.rank(q, j) if q in st.win else -1,
                lambda: gs.getindex(x, j))
    if op == 'numgoals':
        return len(g.goals), gs.numgoals
    if op == 'getvars':
        return (', '.join(f'{v.name} ({i})'
                          for i, v in enumerate(ev + sv)), gs.getvars)
    raise ValueError(op)


def _num(p, name, value):
    """Values as gr1c knows them."""
    for v in p.ev + p.sv:
        if v.name == name:
            return v.values.index(value) if v.kind == 'str' else int(value)


# -- files -------------------------------------------------------------------

def files(ctx, sim, p):
    from tulip import spec as _spec
    from tulip import synth
    from tulip.interfaces import gr1c
    import json
    ctx.probe('file')
    text = _spec.translate(p.spec, 'gr1c')
    d = gr1sim.parse_gr1c(text)
    qinit = p.qinit
    g = gr1sim.game_of(d, qinit)
    if not g.realizable():
        raise Discard()
    tools = Prog(ctx)
    js = tools.strategy_json(d, g, qinit)
    want = json.loads(js)
    fmt = ctx.pick(['json', 'tulipxml'])
    empty = False
    ns = None
    if fmt == 'json':
        out = js
    else:
        empty = ctx.chance(0.2)
        ns = ctx.pick([None, None, None, '', 'http://localhost/other'])
        out = to_xml(ctx, want, d, p, empty, ns)
    fname = os.path.join(sim.cwd, 'strategy')
    whole = out
    cut = ctx.chance(0.25)
    if cut:
        ctx.fault('file-cut-short')
        out = out[:ctx.choose(len(out.rstrip()))]
    with open(fname, 'w') as f:
        f.write(out)
    ctx.log('file', fmt, cut, empty)
    if ctx.chance(0.08):
        try:
            r = gr1c.load_mealy(fname, 'yaml')
        except Exception as e:
            return
        raise Violation('accepted', f'unknown format: {r}')
    if empty and not cut:
        ctx.probe('no-strategy-in-file')
        spec, mach = load_xml(out, ns)
        ctx.require(mach is None, 'wrong-file', 'strategy from nowhere')
        ctx.require(
            dict(spec.env_vars) == _intdoms(p.ev) and
            dict(spec.sys_vars) == _intdoms(p.sv), 'wrong-file',
            f'variables {spec.env_vars} {spec.sys_vars}')
        for k in PARTS:
            a = [x.strip() for x in getattr(spec, k)]
            b = spec_part(p, k)
            ctx.require(a == b, 'wrong-file', f'{k}: {a} instead of {b}')
        ctx.nontrivial = True
        return
    try:
        if ns is None:
            A = gr1c.load_mealy(fname, ctx.pick([fmt, fmt.upper()]))
        else:
            ctx.probe('other-namespace')
            with open(fname) as f:
                A = load_xml(f.read(), ns)
    except Exception:
        if cut:
            ctx.nontrivial = True
            return
        raise
    ctx.require(not cut, 'wrong-file', 'a file cut short was accepted')
    nodes = want['nodes']
    name = {k: k if fmt == 'json' else i for i, k in enumerate(nodes)}
    ctx.require(set(A) == set(name.values()), 'wrong-file',
                f'nodes {sorted(map(str, A))}')
    vs = d['ev'] + d['sv']
    if fmt != 'json':
        for got, dom in ((A.env_vars, d['ev']), (A.sys_vars, d['sv'])):
            dom = {v.name: 'boolean' if v.kind == 'bool' else tuple(v.dom)
                   for v in dom}
            ctx.require(got == dom, 'wrong-file', f'variables {got}')
    for k, nd in nodes.items():
        u = name[k]
        state = dict(zip([v.name for v in vs], nd['state']))
        got = A.nodes[u]
        for key, val in (('state', state), ('mode', nd['mode']),
                         ('rgrad', nd['rgrad'])):
            ctx.require(got[key] == val, 'wrong-file',
                        f'{key} of {u}: {got[key]} instead of {val}')
        succ = {name[w] for w in nd['trans']}
        ctx.require(set(A.successors(u)) == succ, 'wrong-file',
                    f'successors of {u}')
    if fmt == 'json':
        init = {k for k, nd in nodes.items() if nd['initial']}
        ctx.require(set(A.initial_nodes) == init, 'wrong-file', 'initial')
    mach = synth.strategy2mealy(A, p.spec)
    lp = Loop(ctx, p, mach)
    lp.explore()
    lp.adversary()
    ctx.probe('controller-from-file')
    ctx.nontrivial = True


PARTS = ['env_init', 'env_safety', 'env_prog', 'sys_init', 'sys_safety',
         'sys_prog']


def spec_part(p, k):
    return [gm.show(f, p.style & 1) for f in getattr(p, k)]


def _intdoms(vs):
    return {v.name: (0, len(v.dom) - 1) if v.kind == 'str' else v.dom
            for v in vs}


def load_xml(text, ns):
    from tulip.interfaces import gr1c
    if ns is None:
        return gr1c.load_aut_xml(text)
    return gr1c.load_aut_xml(text, namespace=ns)


def to_xml(ctx, js, d, p, empty, ns):
    if ns is None:
        ns = 'http://tulip-control.sourceforge.net/ns/1'
    s = ['<?xml version="1.0" encoding="UTF-8"?>\n'
         '<tulipcon ' + (f'xmlns="{ns}" ' if ns else '') +
         'version="1">']
    litems = ctx.chance(0.3)

    def listed(values):
        if litems and values:
            return ''.join(f'<litem value="{v}" />' for v in values)
        return ' '.join(map(str, values))

    def items(pairs):
        return ''.join(f'<item key="{k}" value="{v}" />' for k, v in pairs)
    for tag, vs in (('env_vars', d['ev']), ('sys_vars', d['sv'])):
        s.append(f'  <{tag}>' + items(
            (v.name, 'boolean' if v.kind == 'bool'
             else f'[{v.dom[0]}, {v.dom[1]}]') for v in vs) + f'</{tag}>')
    s.append('  <spec>')
    for k in PARTS:
        s.append(f'    <{k}>' + ''.join(
            f'<litem value={quoteattr(f)} />'
            for f in spec_part(p, k)) + f'</{k}>')
    s.append('  </spec>')
    if empty:
        s.append(ctx.pick([
            '  <aut type="basic"></aut>', '  <aut type="basic" />', '',
            '  <aut></aut>']))
    else:
        ids = {k: i for i, k in enumerate(js['nodes'])}
        vs = d['ev'] + d['sv']
        s.append('  <aut type="basic">')
        for k, nd in js['nodes'].items():
            s.append(
                f'    <node>\n      <id>{ids[k]}</id>'
                '<anno>' + listed([nd['mode'], nd['rgrad']]) + '</anno>'
                '<child_list> ' + listed(
                    [ids[w] for w in nd['trans']]) + '</child_list>\n'
                '      <state>' + items(
                    (v.name, x) for v, x in zip(vs, nd['state']))
                + '</state>\n    </node>')
        s.append('  </aut>')
    s.append('  <extra></extra>\n</tulipcon>\n')
    return '\n'.join(s)
