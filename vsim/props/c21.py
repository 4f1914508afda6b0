"""C21: exported files describe the graph, and `save` tells the truth."""
import ast
import collections
import json
import os
import re
import shutil
import subprocess
import xml.etree.ElementTree as ET

from .. import simproc
from ..core import Violation

RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('A run builds a graph (transition system, Kripke structure, '
        'automaton, or machine; at most 5 states, by additions and '
        'removals), and saves it several times in drawn formats under '
        'faults (GraphViz missing, failing, or killed while it writes; full '
        'disk; old files in place); whatever is reported as saved is read '
        'back and compared with the graph, and exported processes are '
        'executed against it; non-trivial: a file that describes a '
        'transition was read back.')
TIME_UNIT = 'saves and steps of exported processes'
STATE_MEASURE = '(class, format, fault, outcome)'
ASSUMPTIONS = [
    'names of states are different when printed, and without quotes, '
    'colons, backslashes and percent signs',
    'propositions are identifiers (Promela)',
    'GraphViz writes its drawing on standard output or in the file asked '
    'for, and exits with 0 only if it wrote all of it']
PROBES = ['dot', 'drawing', 'html', 'promela', 'scxml', 'refused', 'tikz',
          'replaced-extension', 'default-extension', 'old-file', 'dead-end',
          'open-system', 'fts', 'ks', 'wks', 'ba', 'mealy', 'moore', 'spin',
          'saved-after-failure', 'accepting', 'masked-ports']
STEP = dict()


def run(ctx):
    ctx.component('tulip.transys.export, graphics, transys, machines', 'real')
    ctx.component('graphviz (Python package)', 'real')
    ctx.component('dot, neato, disk', 'simulated')
    kind = ctx.weighted([(3, 'fts'), (1, 'ks'), (1, 'wks'), (2, 'ba'),
                         (3, 'mealy'), (1, 'moore')])
    ctx.probe(kind)
    g = make(ctx, kind)
    sim = simproc.Sim(ctx)
    for name in ('dot', 'neato', 'circo'):
        sim.install(name, dot)
    ctx.sample = f'{kind} {len(g)} states'
    mods = ['tulip.transys.export.save_d3', 'tulip.transys.export.graph2dot',
            'tulip.transys.machines', 'tulip.transys.transys',
            'tulip.transys.labeled_graphs']
    before = picture(g)
    read = 0
    promela = None
    with sim.running(mods):
        for k in range(ctx.integer(1, 3)):
            ctx.tick()
            r = save(ctx, sim, kind, g)
            if r is not None:
                read += 1
                promela = r or promela
            if ctx.chance(0.3):
                edit(ctx, kind, g)
                before = picture(g)
    ctx.require(before == picture(g), 'changed', 'saving changes the graph')
    if promela and ctx.chance(0.05):
        real_spin(ctx, g, promela)
    ctx.nontrivial = read > 0 and g.number_of_edges() > 0


# -- the graph ----------------------------------------------------------------
NAMES = [lambda i: f's{i}', lambda i: i, lambda i: ('s', i),
         lambda i: ['init', 'Sinit', 'goto', 'p', 'a b', 's'][i % 6] + (
             '' if i < 6 else str(i)),
         lambda i: [0, 's0', 's_0', 's 0', (0, 0), 's'][i % 6] if i < 6 else i]


def mask_i(v):
    return v == 1


def mask_x(v):
    return v != 'a'


def mask_o(v):
    return v == 'u'


# which values are shown
MASKS = dict(i=mask_i, x=mask_x, o=mask_o)


def make(ctx, kind):
    from tulip import transys as trs
    n = ctx.integer(1, 5)
    name = ctx.pick(NAMES)
    S = [name(i) for i in range(n)]
    order = list(S)
    ctx.shuffle(order)
    if kind == 'fts':
        g = trs.FTS()
    elif kind == 'ks':
        g = trs.KripkeStructure()
    elif kind == 'wks':
        g = trs.WeightedKripkeStructure()
    elif kind == 'ba':
        g = trs.BA()
    elif kind == 'mealy':
        g = trs.MealyMachine()
    else:
        g = trs.MooreMachine()
    if ctx.chance(0.3):
        g.name = ctx.pick(['graph', 'my_graph'])
    if kind in ('fts', 'ks', 'wks', 'ba'):
        g.atomic_propositions.add_from(['p', 'q', 'pq'][:ctx.integer(1, 3)])
    if kind == 'fts':
        g.sys_actions.add_from(['go', 'stop'])
        if ctx.chance(0.25):
            ctx.probe('open-system')
            g.env_actions.add_from(['rain', 'sun'])
    if kind in ('mealy', 'moore'):
        ins, outs = dict(), dict()
        if ctx.chance(0.3):
            ctx.probe('masked-ports')
            names = ['i', 'x'] + ['o'] * (kind == 'mealy')
            for k in ctx.subset(names):
                (outs if k == 'o' else ins)[k] = MASKS[k]
        kw = dict(masks=ins) if ins or ctx.chance(0.5) else dict()
        g.add_inputs({'i': {0, 1}, 'x': {'a', '<b&'}}, **kw)
        kw = dict(masks=outs) if outs else dict()
        g.add_outputs({'o': {'u', 'v'}}, **kw)
        g.masked_ports = sorted({**ins, **outs})
    g.states.add_from(order)
    for s in S:
        if kind in ('fts', 'ks', 'wks'):
            g.states[s]['ap'] = set(
                ctx.subset(sorted(g.atomic_propositions)))
        elif kind == 'moore':
            g.states[s]['o'] = ctx.pick(['u', 'v'])
    init = ctx.subset(S, 0.3)
    if kind in ('mealy', 'moore') or ctx.chance(0.5):
        init = [S[0]]
    if kind == 'mealy' and ctx.chance(0.1):
        init = S[:2] if ctx.chance(0.5) else []
    g.states.initial.add_from(init)
    if kind == 'ba':
        g.accepting.add_from(ctx.subset(S, 0.4))
    for _ in range(ctx.integer(0, 2 * n)):
        edge(ctx, kind, g, ctx.pick(S), ctx.pick(S))
    return g


def edge(ctx, kind, g, u, v):
    d = dict()
    if kind == 'fts':
        d['sys_actions'] = ctx.pick(['go', 'stop'])
        if g.env_actions:
            d['env_actions'] = ctx.pick(['rain', 'sun'])
    elif kind == 'wks':
        d['cost'] = ctx.integer(0, 3)
    elif kind == 'ba':
        d['letter'] = set(ctx.subset(sorted(g.atomic_propositions)))
    elif kind == 'mealy':
        d = dict(i=ctx.choose(2), x=ctx.pick(['a', '<b&']),
                 o=ctx.pick(['u', 'v']))
    elif kind == 'moore':
        d = dict(i=ctx.choose(2), x=ctx.pick(['a', '<b&']))
    if any(e == d for _, w, e in g.edges(u, data=True) if w == v):
        return
    g.transitions.add(u, v, attr_dict=d)


def edit(ctx, kind, g):
    S = sorted(g, key=str)
    if ctx.chance(0.5) and len(S) > 1:
        s = ctx.pick(S)
        if kind == 'mealy' and s in g.states.initial:
            return
        g.states.remove(s)
        ctx.log('remove', str(s))
    else:
        edge(ctx, kind, g, ctx.pick(S), ctx.pick(S))


def picture(g):
    def plain(v):
        return frozenset(v) if isinstance(v, (set, list)) else v
    return (
        frozenset((u, frozenset((k, plain(v)) for k, v in d.items()))
                  for u, d in g.nodes(data=True)),
        frozenset((u, v, frozenset((k, plain(x)) for k, x in d.items()))
                  for u, v, d in g.edges(data=True)),
        frozenset(g.states.initial),
        frozenset(getattr(g, 'accepting', ())))


# -- simulated GraphViz -------------------------------------------------------
def dot(argv):
    prog = os.path.basename(argv[0])
    fmt = out = src = None
    auto = False
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a.startswith('-K'):
            prog = a[2:]
        elif a.startswith('-T'):
            fmt = a[2:]
        elif a == '-O':
            auto = True
        elif a.startswith('-o'):
            out = a[2:] or args.pop(0)
        elif not a.startswith('-'):
            src = a
    if src is None:
        text = yield ('all',)
    else:
        with open(src) as f:
            text = f.read()
    if auto:
        out = f'{src}.{fmt}'
    text = f'{fmt} by {prog}\n{text}'
    if out is None:
        for i in range(0, len(text), 200):
            yield ('out', text[i:i + 200])
    else:
        # what it writes can be cut short when it is killed
        with open(out, 'w') as f:
            f.write(text[:len(text) // 2])
        yield ('out', '')
        with open(out, 'w') as f:
            f.write(text)
    yield ('exit', 0)


# -- saving -------------------------------------------------------------------
def save(ctx, sim, kind, g):
    fmt = ctx.weighted(
        [(2, 'dot'), (3, 'pdf'), (1, 'svg'), (1, 'png'), (2, 'html')] +
        ([(5, 'pml'), (1, 'promela')] if kind == 'fts' else []) +
        ([(4, 'scxml')] if kind == 'mealy' else []))
    kw = dict()
    stem = ctx.pick(['fig', 'sub/fig', 'fig two'])
    os.makedirs('sub', exist_ok=True)
    if fmt == 'pdf' and ctx.chance(0.3):
        ctx.probe('default-extension')
        filename = stem
    elif ctx.chance(0.3):
        ctx.probe('replaced-extension')
        filename = stem + '.old'
        kw['fileformat'] = fmt
    else:
        filename = f'{stem}.{fmt}'
    path = f'{stem}.{fmt}'
    prog = ctx.weighted([(3, None), (1, 'neato'), (1, 'circo')])
    if prog:
        kw['prog'] = prog
    rankdir = ctx.weighted([(2, None), (1, 'TB'), (1, 'LR')])
    if rankdir:
        kw['rankdir'] = rankdir
    tikz = fmt == 'dot' and ctx.chance(0.15)
    if tikz:
        ctx.probe('tikz')
        kw['tikz'] = True
    old = None
    if ctx.chance(0.3):
        ctx.probe('old-file')
        with open(path, 'w') as f:
            f.write('old')
        old = 'old'
    elif os.path.exists(path):
        os.remove(path)
    fault = arm(ctx, sim)
    files = listing()
    ctx.log('save', filename, sorted(kw.items(), key=str), fault)
    error = None
    try:
        r = g.save(filename, **kw)
    except Exception as e:
        error, r = e, None
    hit = bool(sim.fired)
    disarm(sim)
    ctx.log('saved', r, type(error).__name__, hit)
    ctx.state(kind, fmt, fault, str(r), hit)
    ctx.require(
        all(p.reaped for p in sim.procs), 'process-left',
        'a process was not waited for')
    refused = (
        fmt in ('pml', 'promela') and bool(g.env_actions) or
        fmt == 'scxml' and len(g.states.initial) != 1)
    if refused:
        ctx.probe('refused')
        ctx.require(
            r is not True, 'saved', f'{fmt} of such a graph reported saved')
        return None
    if r is not True:
        ctx.require(
            hit, 'not-saved',
            f'{filename} {kw}: {r}, {type(error).__name__}: {error}')
        # faults stop: now it works
        with open(path, 'w') as f:
            f.write('junk')
        ctx.probe('saved-after-failure')
        files = listing()
        r = g.save(filename, **kw)
        ctx.require(r is True, 'not-saved', f'{r} without fault')
    new = listing() - files - {path}
    ctx.require(
        not new, 'other-files', f'saving {path} created {sorted(new)}')
    ctx.require(
        os.path.isfile(path), 'missing', f'there is no file {path}')
    with open(path) as f:
        text = f.read()
    if fmt == 'html':
        ctx.probe('html')
        html(ctx, kind, g, text)
        return ''
    if fmt in ('pml', 'promela'):
        ctx.probe('promela')
        pml(ctx, g, text)
        return text
    if fmt == 'scxml':
        ctx.probe('scxml')
        scxml(ctx, g, text)
        return ''
    head, _, source = text.partition('\n')
    ctx.require(
        head == f'{fmt} by {prog or g.default_layout}', 'content',
        f'{path} starts with {head!r}')
    ctx.probe('dot' if fmt == 'dot' else 'drawing')
    if tikz:
        check_tikz(ctx, g, source)
    else:
        check_dot(ctx, kind, g, source, rankdir or 'LR')
    return ''


def listing():
    return {os.path.relpath(os.path.join(d, f))
            for d, _, fs in os.walk('.') for f in fs}


def arm(ctx, sim):
    sim.fired.clear()
    if not ctx.chance(0.45):
        return None
    k = ctx.pick(['start', 'kill', 'code', 'create', 'write'])

    def any_(key, argv):
        return True
    if k == 'start':
        sim.start_fault = any_, ctx.pick(['ENOENT', 'EAGAIN', 'ENOMEM'])
    elif k == 'kill':
        sim.out_fault = any_, ('kill', ctx.pick([0, 1, 30, 150, 500]))
    elif k == 'code':
        sim.out_fault = any_, ('code', 0, ctx.pick([1, 127]))
    else:
        sim.file_fault = k
    return k


def disarm(sim):
    sim.start_fault = sim.out_fault = sim.file_fault = None
    sim.fired.clear()


# -- DOT ----------------------------------------------------------------------
TOKEN = re.compile(
    r'\s+|"((?:\\.|[^"\\])*)"|(->)|([{}\[\]=;,])|([\w.\-]+)', re.DOTALL)


def parse_dot(ctx, text):
    toks = list()
    i = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        ctx.require(m is not None, 'dot-syntax', text[i:i + 40])
        i = m.end()
        q, arrow, p, word = m.groups()
        if q is not None:
            toks.append(('id', q.replace('\\"', '"')))
        elif word is not None:
            toks.append(('id', word))
        elif arrow or p:
            toks.append((arrow or p, None))
    toks.append(('end', None))
    nodes, edges, graph = dict(), list(), dict()
    pos = 0

    def peek():
        return toks[pos][0]

    def take(kind):
        nonlocal pos
        k, v = toks[pos]
        ctx.require(k == kind, 'dot-syntax', f'{k} for {kind} at {pos}')
        pos += 1
        return v

    def attrs():
        d = dict()
        if peek() != '[':
            return d
        take('[')
        while peek() != ']':
            k = take('id')
            take('=')
            d[k] = take('id')
            if peek() in (',', ';'):
                take(peek())
        take(']')
        return d

    def body(top):
        take('{')
        while peek() != '}':
            if peek() == '{':
                body(False)
                continue
            if peek() == ';':
                take(';')
                continue
            a = take('id')
            if peek() == '->':
                take('->')
                b = take('id')
                for x in (a, b):
                    nodes.setdefault(x, dict())
                edges.append((a, b, attrs()))
            elif a == 'graph' and peek() == '[':
                d = attrs()
                if top:
                    graph.update(d)
            elif peek() == '=':
                take('=')
                take('id')
            else:
                nodes.setdefault(a, dict()).update(attrs())
        take('}')
    ctx.require(take('id') == 'digraph', 'dot-syntax', 'not a digraph')
    if peek() == 'id':
        take('id')
    body(True)
    take('end')
    return nodes, edges, graph


def shown(label):
    """The text that GraphViz shows."""
    return re.sub(r'\\(.)', lambda m: '\n' if m[1] in 'nlr' else m[1], label)


def words(text):
    return collections.Counter(re.findall(r'[^\s:,{}/]+', text))


def check_dot(ctx, kind, g, source, rankdir):
    nodes, edges, graph = parse_dot(ctx, source)
    ctx.require(
        graph.get('rankdir') == rankdir, 'dot-rankdir', str(graph))
    structure(ctx, g, nodes, edges)
    for s, d in g.nodes(data=True):
        a = nodes[str(s)]
        label = shown(a.get('label', ''))
        name = str(s).replace("'", '')
        ctx.require(
            label.startswith(name), 'dot-name', f'{label!r} for {s}')
        rest = label[len(name):]
        want = list()
        for k, v in d.items():
            if k == 'ap':
                want += [str(x) for x in v]
            elif k == 'o':
                want += ['o', v]
        have = words(rest)
        ctx.require(
            all(have[x] for x in want), 'dot-label',
            f'{label!r} lacks some of {want}')
        ctx.require(
            set(have) <= set(want), 'dot-label',
            f'{label!r} shows more than {want}')
        ctx.require(
            a.get('color') == 'black', 'dot-color', f'{a}')
        if kind == 'ba':
            acc = s in g.accepting
            if acc:
                ctx.probe('accepting')
            ctx.require(
                (a.get('shape') == 'doublecircle') == acc, 'dot-accepting',
                f'{s} {a}')
    have = collections.Counter()
    for u, v, a in edges:
        if u.startswith('phantominit'):
            continue
        have[u, v, frozenset(words(shown(a.get('label', ''))))] += 1
    want = collections.Counter()
    for u, v, d in g.edges(data=True):
        x = set()
        for k, y in d.items():
            if k in getattr(g, 'masked_ports', ()) and not MASKS[k](y):
                continue
            if k == 'letter':
                x |= {str(z) for z in y}
            else:
                x.add(str(y))
            if k in ('i', 'x', 'o'):
                x.add(k)
            if k.endswith('_actions'):
                x.add(k[:3])
        want[str(u), str(v), frozenset(x)] += 1
    ctx.require(
        have == want, 'dot-transitions',
        f'missing {want - have}, extra {have - want}')


def structure(ctx, g, nodes, edges):
    have = {x for x in nodes if not x.startswith('phantominit')}
    want = {str(s) for s in g}
    ctx.require(have == want, 'dot-states', f'{have} for {want}')
    have = {v for u, v, _ in edges if u == f'phantominit{v}'}
    want = {str(s) for s in g.states.initial}
    ctx.require(have == want, 'dot-initial', f'{have} for {want}')
    have = collections.Counter(
        (u, v) for u, v, _ in edges if not u.startswith('phantominit'))
    want = collections.Counter((str(u), str(v)) for u, v in g.edges())
    ctx.require(have == want, 'dot-transitions', f'{have} for {want}')


def check_tikz(ctx, g, source):
    nodes, edges, _ = parse_dot(ctx, source)
    have = {x for x in nodes if not x.startswith('phantominit')}
    want = {str(s) for s in g}
    ctx.require(have == want, 'dot-states', f'{have} for {want}')
    for s in g:
        style = nodes[str(s)].get('style', '')
        ctx.require(
            ('initial by arrow' in style) == (s in g.states.initial),
            'dot-initial', f'{s} {style}')
        ctx.require(
            ('accepting' in style) == (s in getattr(g, 'accepting', ())),
            'dot-accepting', f'{s} {style}')
    have = collections.Counter((u, v) for u, v, _ in edges)
    want = collections.Counter((str(u), str(v)) for u, v in g.edges())
    ctx.require(have == want, 'dot-transitions', f'{have} for {want}')


# -- HTML ---------------------------------------------------------------------
def value(x):
    return str(sorted(x, key=str)) if isinstance(x, (set, frozenset)) else (
        str(x))


def unvalue(x):
    if isinstance(x, str):
        if x == 'set()':
            return value(set())
        if x.startswith('{'):
            return value(ast.literal_eval(x))
    if isinstance(x, list):
        return value(set(x))
    return str(x)


def html(ctx, kind, g, text):
    i = text.index('var graph = ') + len('var graph = ')
    try:
        data, end = json.JSONDecoder().raw_decode(text[i:])
    except ValueError as e:
        raise Violation('html-data', str(e))
    ctx.require(
        '</script>' in text[i + end:] and 'draw(graph)' in text[i + end:],
        'html-cut', 'the end of the file is missing')

    def plain(d, skip):
        return frozenset((k, unvalue(v)) for k, v in d.items()
                         if k not in skip)

    def name(x):
        return str(tuple(x)) if isinstance(x, list) else str(x)
    ids = [name(d['id']) for d in data['nodes']]
    ctx.require(
        sorted(ids) == sorted(str(s) for s in g), 'html-nodes', str(ids))
    have = {(name(d['id']), plain(d, ['id'])) for d in data['nodes']}
    want = {(str(s), frozenset((k, value(v)) for k, v in d.items()))
            for s, d in g.nodes(data=True)}
    ctx.require(have == want, 'html-nodes', f'{have} for {want}')
    have = collections.Counter()
    for d in data['links']:
        ctx.require(
            all(isinstance(d[k], int) and 0 <= d[k] < len(ids)
                for k in ('source', 'target')), 'html-links', str(d))
        have[ids[d['source']], ids[d['target']],
             plain(d, ['source', 'target', 'key'])] += 1
    want = collections.Counter(
        (str(u), str(v), frozenset((k, value(x)) for k, x in d.items()))
        for u, v, d in g.edges(data=True))
    ctx.require(have == want, 'html-links', f'{have} for {want}')


# -- SCXML --------------------------------------------------------------------
def scxml(ctx, g, text):
    try:
        root = ET.fromstring(text.encode())
    except ET.ParseError as e:
        raise Violation('scxml-syntax', f'{e}: {text}')
    ns = '{http://www.w3.org/2005/07/scxml}'
    ctx.require(
        root.get('initial') in {str(s) for s in g.states.initial},
        'scxml-initial', str(root.attrib))
    ids = [x.get('id') for x in root.findall(ns + 'state')]
    ctx.require(
        sorted(ids) == sorted(str(s) for s in g), 'scxml-states', str(ids))
    have = collections.Counter()
    for x in root.findall(ns + 'state'):
        for t in x.findall(ns + 'transition'):
            d = ast.literal_eval(t.get('cond'))
            have[x.get('id'), t.get('target'), frozenset(d.items())] += 1
    want = collections.Counter(
        (str(u), str(v), frozenset(d.items()))
        for u, v, d in g.edges(data=True))
    ctx.require(have == want, 'scxml-transitions', f'{have} for {want}')


# -- Promela ------------------------------------------------------------------
def parse_pml(ctx, text):
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.DOTALL)
    m = re.match(r'((?:\s*(?:bool|bit) \w+;)*)\s*active proctype (\w+)\(\)'
                 r'\s*\{(.*)\}\s*$', text, re.DOTALL)
    ctx.require(m is not None, 'promela-syntax', text)
    names = re.findall(r'(?:bool|bit) (\w+);', m[1])
    locs = dict()
    first = None
    pat = re.compile(r'\s*(?:(\w+)\s*:)?\s*if\b(.*?)\bfi\s*;?', re.DOTALL)
    body = m[3]
    i = 0
    strings = list()

    def hide(x):
        strings.append(x[1])
        return f'@{len(strings) - 1}@'
    body = re.sub(r'"((?:\\.|[^"\\])*)"', hide, body)
    while body[i:].strip():
        m = pat.match(body, i)
        ctx.require(m is not None, 'promela-syntax', body[i:])
        i = m.end()
        label = m[1]
        if first is None:
            first = label or ''
        ctx.require((label or '') not in locs, 'promela-label', f'{label}')
        opts = list()
        alts = m[2].split('::')
        ctx.require(
            not alts[0].strip() and len(alts) > 1, 'promela-syntax', m[2])
        for o in alts[1:]:
            o = o.strip()
            if o.rstrip(';') in ('false', '(false)', '0'):
                continue
            b = re.match(r'atomic\s*\{(.*)\}\s*;?$', o, re.DOTALL)
            ctx.require(b is not None, 'promela-atomic', o)
            assign, prints, goto = dict(), list(), None
            for st in re.split(r'[;\n]', b[1]):
                st = st.strip()
                if not st:
                    continue
                ctx.require(goto is None, 'promela-syntax', o)
                a = re.match(r'(\w+)\s*=\s*([01]|true|false)$', st)
                p = re.match(r'printf\(@(\d+)@\)$', st)
                j = re.match(r'goto\s+(\w+)$', st)
                if a:
                    assign[a[1]] = a[2] in ('1', 'true')
                elif p:
                    prints.append(strings[int(p[1])].replace('\\n', ''))
                elif j:
                    goto = j[1]
                else:
                    raise Violation('promela-syntax', st)
            opts.append((assign, prints, goto))
        locs[label or ''] = opts
    return names, first, locs


RESERVED = frozenset(
    'if fi do od goto init skip true false run atomic int bool'.split())


def pml(ctx, g, text):
    """Execute the process next to the system, with drawn choices."""
    names, loc, locs = parse_pml(ctx, text)
    props = set(g.atomic_propositions)
    ctx.require(set(names) == props, 'promela-variables', f'{names}')
    ctx.require(
        not (RESERVED | props) & set(locs), 'promela-label',
        f'{sorted(locs)}')
    byname = {str(s): s for s in g}
    ctx.require(loc == '', 'promela-start', f'{loc}')
    values = dict.fromkeys(names, False)
    state = None
    at = dict()
    for _ in range(12):
        ctx.tick()
        opts = locs[loc]
        # what the process can do
        have = collections.Counter()
        for assign, prints, goto in opts:
            ctx.require(goto in locs and goto, 'promela-goto', f'{goto}')
            names_ = [x[7:] for x in prints if x.startswith('State: ')]
            ctx.require(
                len(names_) == 1 and names_[0] in byname, 'promela-print',
                f'{prints}')
            ctx.require(
                at.setdefault(goto, names_[0]) == names_[0],
                'promela-label', f'{goto} is {names_[0]} and {at[goto]}')
            new = dict(values, **assign)
            ctx.require(
                set(new) == props, 'promela-variables', f'{assign}')
            acts = [ast.literal_eval(x) for x in prints
                    if x.startswith('{')]
            d = acts[0] if acts else dict()
            have[names_[0], frozenset(x for x in new if new[x]),
                 frozenset(d.items())] += 1
        # what the system can do
        if state is None:
            succ = [(s, dict()) for s in g.states.initial]
        else:
            succ = [(v, d) for _, v, d in g.edges(state, data=True)]
        want = collections.Counter(
            (str(v), frozenset(g.states[v]['ap']), frozenset(d.items()))
            for v, d in succ)
        ctx.require(
            have == want, 'promela-step',
            f'at {state}: process {have}, system {want}')
        if not opts:
            ctx.probe('dead-end')
            break
        opts.sort(key=lambda o: (o[2], sorted(o[0].items()), o[1]))
        assign, prints, loc = ctx.pick(opts)
        values.update(assign)
        state = byname[at[loc]]
        ctx.log('at', at[loc])


def real_spin(ctx, g, text):
    """The real simulator accepts the process, and its run is of the system."""
    spin = shutil.which('spin')
    if spin is None or shutil.which('cpp') is None and (
            shutil.which('gcc') is None):
        return
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'x.pml'), 'w') as f:
            f.write(text)
        r = subprocess.run(
            [spin, f'-n{ctx.integer(1, 999)}', '-u60', 'x.pml'], cwd=d,
            capture_output=True, text=True, timeout=60)
    ctx.probe('spin')
    ctx.require(
        'syntax error' not in r.stdout and r.returncode == 0, 'spin',
        r.stdout + r.stderr)
