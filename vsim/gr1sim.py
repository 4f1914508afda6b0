"""Simulated GR(1) tools: `gr1c` and `slugs`, from their documentation.

They read the text that TuLiP writes, solve the game explicitly (with the
oracle's solver, not with TuLiP's), and answer in the tool's own format.
"""
import json
import re

from . import gr1model as gm


class Syntax(Exception):
    pass


_TOKEN = re.compile(
    r"\s*(\[\]<>|\[\]|<->|->|<=|>=|!=|&&|\|\||[A-Za-z_][A-Za-z0-9_.@]*'?"
    r"|\d+|[!&|=<>()+*-])")


def tokens(text):
    out = list()
    i = 0
    text = text.rstrip()
    while i < len(text):
        m = _TOKEN.match(text, i)
        if not m:
            raise Syntax(text[i:i + 20])
        out.append(m.group(1))
        i = m.end()
    return out


class Parser:
    """Precedence: <->, ->, |, &, !, comparison."""

    def __init__(self, toks, kinds, temporal=None):
        self.t = toks
        self.i = 0
        self.kinds = kinds
        self.temporal = temporal

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Syntax('unexpected end')
        self.i += 1
        return self.t[self.i - 1]

    def clauses(self):
        """`[](..) & [](..)`, each under the temporal operator."""
        out = list()
        if not self.t:
            return out
        if self.temporal is None:
            out.append(self.expr())
        else:
            while True:
                if self.next() != self.temporal:
                    raise Syntax(f'expected {self.temporal}')
                out.append(self.conj_free())
                if self.peek() in ('&', '&&'):
                    self.next()
                    continue
                break
        if self.peek() is not None:
            raise Syntax(f'unexpected {self.peek()}')
        return out

    def conj_free(self):
        if self.peek() == '!':
            self.next()
            return ('not', self.conj_free())
        if self.peek() == '(':
            self.next()
            e = self.expr()
            if self.next() != ')':
                raise Syntax('expected )')
            return e
        return self.atom()

    def expr(self):
        a = self.imp()
        while self.peek() == '<->':
            self.next()
            a = ('iff', a, self.imp())
        return a

    def imp(self):
        a = self.disj()
        if self.peek() == '->':
            self.next()
            return ('imp', a, self.imp())
        return a

    def disj(self):
        a = self.conj()
        while self.peek() in ('|', '||'):
            self.next()
            a = ('or', a, self.conj())
        return a

    def conj(self):
        a = self.neg()
        while self.peek() in ('&', '&&'):
            self.next()
            a = ('and', a, self.neg())
        return a

    def neg(self):
        if self.peek() == '!':
            self.next()
            return ('not', self.neg())
        if self.peek() == '(':
            j = self.i
            self.next()
            e = self.expr()
            if self.next() != ')':
                raise Syntax('expected )')
            if self.peek() in ('=', '!=', '<', '<=', '>', '>='):
                self.i = j
                return self.atom()
            return e
        return self.atom()

    def term(self):
        t = self.next()
        if t == '(':
            r = self.term()
            if self.next() != ')':
                raise Syntax('expected )')
            return r
        if t.isdigit():
            return ('num', int(t))
        if t == '-' and (self.peek() or '').isdigit():
            return ('num', -int(self.next()))
        if t in ('True', 'TRUE', 'False', 'FALSE'):
            return ('const', t.lower() == 'true')
        name, primed = (t[:-1], True) if t.endswith("'") else (t, False)
        if name not in self.kinds:
            raise Syntax(f'undeclared variable {name}')
        return ('var', name, primed)

    def atom(self):
        a = self.term()
        op = self.peek()
        if op in ('=', '!=', '<', '<=', '>', '>='):
            self.next()
            b = self.term()
            if a[0] == 'num' and b[0] == 'var':
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a[0] != 'var' or self.kinds[a[1]] != 'int':
                raise Syntax(f'cannot compare {a}')
            if b[0] == 'num':
                return ('cmp', a[1], a[2], op, b[1])
            if b[0] != 'var' or self.kinds[b[1]] != 'int':
                raise Syntax(f'cannot compare with {b}')
            return ('cmpvv', a[1], a[2], op, b[1], b[2])
        if a[0] == 'const':
            return a
        if a[0] == 'var' and self.kinds[a[1]] == 'bool':
            return ('bool', a[1], a[2])
        raise Syntax(f'not a formula: {a}')


def primed_names(f):
    op = f[0]
    if op in ('bool', 'cmp'):
        return {f[1]} if f[2] else set()
    if op == 'cmpvv':
        return ({f[1]} if f[2] else set()) | ({f[4]} if f[5] else set())
    if op == 'const':
        return set()
    r = set()
    for x in f[1:]:
        r |= primed_names(x)
    return r


def names(f):
    op = f[0]
    if op in ('bool', 'cmp'):
        return {f[1]}
    if op == 'cmpvv':
        return {f[1], f[4]}
    if op == 'const':
        return set()
    r = set()
    for x in f[1:]:
        r |= names(x)
    return r


def check_scopes(d):
    """The rules about primes that the tools enforce."""
    env = {v.name for v in d['ev']}
    for k in ('env_init', 'sys_init', 'env_prog', 'sys_prog'):
        for f in d[k]:
            if primed_names(f):
                raise Syntax(f'primed variable in {k}')
    for f in d['env_safety']:
        if not primed_names(f) <= env:
            raise Syntax('primed system variable in an assumption')


# -- gr1c -------------------------------------------------------------------

_SECTIONS = dict(
    ENVINIT=('env_init', None), ENVTRANS=('env_safety', '[]'),
    ENVGOAL=('env_prog', '[]<>'), SYSINIT=('sys_init', None),
    SYSTRANS=('sys_safety', '[]'), SYSGOAL=('sys_prog', '[]<>'))


def parse_gr1c(text):
    text = re.sub(r'#[^\n]*', '', text)
    if ':' not in text:
        raise Syntax('no sections')
    parts = dict()
    for piece in text.split(';'):
        if not piece.strip():
            continue
        name, sep, body = piece.partition(':')
        name = name.strip()
        if not sep or name in parts:
            raise Syntax(f'bad section {name!r}')
        parts[name] = body
    d = dict(ev=_gr1c_vars(parts.pop('ENV', ''), 'env'),
             sv=_gr1c_vars(parts.pop('SYS', ''), 'sys'))
    kinds = {v.name: v.kind for v in d['ev'] + d['sv']}
    if len(kinds) != len(d['ev']) + len(d['sv']):
        raise Syntax('variable declared twice')
    for k, (key, op) in _SECTIONS.items():
        d[key] = Parser(tokens(parts.pop(k, '')), kinds, op).clauses()
    if parts:
        raise Syntax(f'unknown sections {list(parts)}')
    check_scopes(d)
    return d


def _gr1c_vars(text, owner):
    out = list()
    pat = re.compile(
        r'\s*([A-Za-z_][A-Za-z0-9_.]*)(\s*\[\s*(\d+)\s*,\s*(\d+)\s*\])?')
    i = 0
    text = text.rstrip()
    while i < len(text):
        m = pat.match(text, i)
        if not m:
            raise Syntax(f'bad declaration {text[i:]!r}')
        i = m.end()
        dom = 'boolean'
        if m.group(2):
            dom = (int(m.group(3)), int(m.group(4)))
            if dom[0] > dom[1]:
                raise Syntax('empty domain')
        out.append(gm.Var(m.group(1), dom, owner))
    return out


def game_of(d, qinit=r'\A \E'):
    return gm.Game(
        d['ev'], d['sv'], d['env_init'], d['sys_init'], d['env_safety'],
        d['sys_safety'], d['env_prog'], d['sys_prog'], False, False, qinit)


def gr1c_qinit(d, option):
    """The quantification that the option `-n` of `gr1c` stands for."""
    if option == 'ALL_ENV_EXIST_SYS_INIT':
        env = {v.name for v in d['ev']}
        for f in d['env_init']:
            if not names(f) <= env:
                raise Syntax('system variable in ENVINIT')
        for f in d['sys_init']:
            if names(f) & env:
                raise Syntax('environment variable in SYSINIT')
        return r'\A \E'
    if option == 'ONE_SIDE_INIT':
        if d['env_init'] and d['sys_init']:
            raise Syntax('both ENVINIT and SYSINIT')
        return r'\E \E' if d['sys_init'] else r'\A \A'
    raise Syntax(f'unknown option {option}')


# -- strategies -------------------------------------------------------------

class Strategy:
    """A winning strategy with one memory value per goal."""

    def __init__(self, game, choose):
        self.g = game
        self.choose = choose      # pick among good successors
        self.win = game.solve()
        self._rank()

    def _rank(self):
        g, z = self.g, self.win
        self.layers = list()
        for goal in g.goals:
            base = goal & g.cpre(z)
            rows = list()
            y = set()
            while True:
                yold = set(y)
                u = base | g.cpre(yold)
                xs = list()
                for h in g.holds:
                    x = set(range(g.N))
                    while True:
                        xold = x
                        x = u | (h & g.cpre(x))
                        if x == xold:
                            break
                    xs.append(x)
                for x in xs:
                    y |= x
                y |= u
                if y == yold:
                    break
                rows.append((yold, xs, set(y)))
            self.layers.append((base, rows))

    def rank(self, q, j):
        base, rows = self.layers[j]
        if q in base:
            return 0
        for i, (_, _, y) in enumerate(rows):
            if q in y:
                return i + 1
        raise KeyError(q)

    def target(self, q, j):
        """(set that the next state must be in, next goal)"""
        g = self.g
        base, rows = self.layers[j]
        if q in base:
            return self.win, (j + 1) % len(g.goals)
        for yold, xs, y in rows:
            if q not in y:
                continue
            if g._cpre1(q, yold):
                return yold, j
            for h, x in zip(g.holds, xs):
                if q in x and q in h and g._cpre1(q, x):
                    return x, j
        raise KeyError(q)

    def step(self, q, j, e):
        g = self.g
        t, k = self.target(q, j)
        good = [g.idx(e, s) for s in range(g.nS)
                if g.Sstep[q][g.idx(e, s)] and g.idx(e, s) in t]
        return self.choose(good), k

    def initial(self, qinit):
        g, w = self.g, self.win
        if qinit == r'\A \A':
            return [q for q in range(g.N) if g.Einit[q]]
        if qinit == r'\E \E':
            return [self.choose(
                [q for q in range(g.N) if g.Sinit[q] and q in w])]
        out = list()
        for e in range(g.nE):
            qs = [g.idx(e, s) for s in range(g.nS)]
            if not g.Einit[qs[0]]:
                continue
            out.append(self.choose(
                [q for q in qs if g.Sinit[q] and q in w]))
        return out

    def graph(self, init):
        """{(q, j): [(q, j)]}, from the initial states."""
        start = [(q, 0) for q in init]
        succ = dict()
        todo = list(start)
        while todo:
            u = todo.pop()
            if u in succ:
                continue
            succ[u] = [self.step(*u, e) for e in self.g.env_moves(u[0])]
            todo.extend(succ[u])
        return start, succ


class Tools:
    """The programs, with what a run decides about them."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.version = 'gr1c 0.13.0'
        self.noise = 0             # length of the progress messages
        self.override = None       # reply of the next synthesis call

    def choose(self, seq):
        seq = sorted(seq)
        return seq[self.ctx.choose(len(seq))]

    # gr1c ----------------------------------------------------------------
    def gr1c(self, argv):
        args = argv[1:]
        if '-V' in args:
            if args != ['-V']:
                yield from self.usage()
                return
            yield ('out', self.version + '\n')
            yield ('exit', 0)
            return
        option = 'ALL_ENV_EXIST_SYS_INIT'
        mode = None
        fmt = 'text'
        fname = None
        i = 0
        while i < len(args):
            a = args[i]
            if a == '-n' and i + 1 < len(args):
                option = args[i + 1]
                i += 1
            elif a == '-t' and i + 1 < len(args):
                fmt = args[i + 1]
                i += 1
            elif a in ('-s', '-r', '-i'):
                mode = a
            elif a.startswith('-'):
                yield from self.usage()
                return
            else:
                fname = a
            i += 1
        if option not in ('ALL_ENV_EXIST_SYS_INIT', 'ONE_SIDE_INIT',
                          'ALL_INIT') or fmt not in (
                              'text', 'dot', 'json', 'tulip', 'tulip0'):
            yield from self.usage()
            return
        if fname is None:
            text = yield ('all',)
        else:
            try:
                with open(fname) as f:
                    text = f.read()
            except OSError:
                yield ('err', f'Failed to open "{fname}".\n')
                yield ('exit', 1)
                return
        if self.noise:
            for i in range(self.noise // 100 + 1):
                yield ('err', f'{i:05d} ' + 93 * '.' + '\n')
        try:
            d = parse_gr1c(text)
            qinit = gr1c_qinit(d, option) if mode != '-s' else None
        except Syntax as e:
            yield ('err', f'Error: syntax error: {e}\n')
            yield ('exit', 2)
            return
        if mode == '-s':
            yield ('exit', 0)
            return
        if mode == '-i':
            yield from self.session(d)
            return
        g = game_of(d, qinit)
        ok = g.realizable()
        if mode == '-r':
            if ok:
                yield ('out', 'Realizable.\n')
                yield ('exit', 0)
            else:
                yield ('out', 'Not realizable.\n')
                yield ('exit', 3)
            return
        if not ok:
            yield ('err', 'Synthesis failed.\n')
            yield ('exit', 3)
            return
        if fmt != 'json':
            yield ('out', 'strategy in another format\n')
            yield ('exit', 0)
            return
        text = self.strategy_json(d, g, qinit)
        for i in range(0, len(text), 4000):
            yield ('out', text[i:i + 4000])
        yield ('exit', 0)

    def usage(self):
        yield ('err', 'Usage: gr1c [-hVvlspriP] [-n INIT] [-t TYPE] '
               '[-o FILE] [FILE]\n')
        yield ('exit', 1)

    def strategy_json(self, d, g, qinit):
        st = Strategy(g, self.choose)
        start, succ = st.graph(st.initial(qinit))
        order = list(succ)
        base = 0x1E8F990 + 64 * self.ctx.choose(50)
        ids = {u: f'0x{base + 64 * i:X}' for i, u in enumerate(order)}
        vs = d['ev'] + d['sv']
        out = dict(
            version=1, gr1c=self.version.split()[-1],
            date='2015-10-10 16:56:17', extra='',
            ENV=[{v.name: _dom(v)} for v in d['ev']],
            SYS=[{v.name: _dom(v)} for v in d['sv']],
            nodes={
                ids[u]: dict(
                    state=[int(g.st[u[0]][v.name]) for v in vs],
                    mode=u[1], rgrad=st.rank(*u) + 1,
                    initial=u in start,
                    trans=[ids[w] for w in _uniq(succ[u])])
                for u in order})
        return json.dumps(out, indent=1)

    # interactive ---------------------------------------------------------
    def session(self, d):
        g = game_of(d)
        st = Strategy(g, self.choose)
        vs = d['ev'] + d['sv']
        ne, ns = len(d['ev']), len(d['sv'])
        st_of = {tuple(int(x[v.name]) for v in vs): i
                 for i, x in enumerate(g.st)}
        e_of = {tuple(int(x[v.name]) for v in d['ev']): i
                for i, x in enumerate(g.E)}
        self.table = st

        def show(vec):
            return ' '.join(map(str, vec)) + '\n'

        while True:
            yield ('out', '>>> ')
            line = yield ('line',)
            if line is None:
                yield ('exit', 0)
                return
            w = line.split()
            if not w:
                continue
            cmd, args = w[0], w[1:]
            if cmd == 'quit':
                yield ('exit', self.quit_code)
                return
            try:
                args = [int(a) for a in args]
                if cmd == 'numgoals' and not args:
                    yield ('out', f'{len(g.goals)}\n')
                elif cmd == 'var' and not args:
                    yield ('out', ', '.join(
                        f'{v.name} ({i})' for i, v in enumerate(vs)) + '\n')
                elif cmd == 'winning' and len(args) == ne + ns:
                    q = st_of[tuple(args)]
                    yield ('out', f'{q in st.win}\n')
                elif cmd == 'getindex' and len(args) == ne + ns + 1:
                    q = st_of[tuple(args[:-1])]
                    if not 0 <= args[-1] < len(g.goals):
                        raise KeyError(args[-1])
                    r = st.rank(q, args[-1]) if q in st.win else -1
                    yield ('out', f'{r}\n')
                elif cmd == 'envnext' and len(args) == ne + ns:
                    q = st_of[tuple(args)]
                    for e in g.env_moves(q):
                        yield ('out', show(
                            int(g.E[e][v.name]) for v in d['ev']))
                    yield ('out', '---\n')
                elif cmd == 'sysnexta' and len(args) == 2 * ne + ns:
                    q = st_of[tuple(args[:ne + ns])]
                    e = e_of[tuple(args[ne + ns:])]
                    for s in sysnexta(g, q, e):
                        yield ('out', show(
                            int(g.S[s][v.name]) for v in d['sv']))
                    yield ('out', '---\n')
                elif cmd == 'sysnext' and len(args) == 2 * ne + ns + 1:
                    q = st_of[tuple(args[:ne + ns])]
                    e = e_of[tuple(args[ne + ns:-1])]
                    for s in sysnext(st, q, e, args[-1]):
                        yield ('out', show(
                            int(g.S[s][v.name]) for v in d['sv']))
                    yield ('out', '---\n')
                else:
                    raise KeyError(cmd)
            except (KeyError, ValueError, IndexError):
                yield ('out', 'Invalid arguments.\n')

    quit_code = 0

    # slugs ---------------------------------------------------------------
    def python(self, argv):
        """`compiler.py`: structured slugs to slugsin."""
        try:
            with open(argv[2]) as f:
                text = f.read()
            d = parse_slugs(text)
        except (OSError, IndexError, Syntax) as e:
            yield ('err', f'Traceback: {e}\n')
            yield ('exit', 1)
            return
        # the simulated `slugs` reads this rendering of the compiled text
        yield ('out', dump_slugsin(d))
        yield ('exit', 0)

    def slugs(self, argv):
        try:
            with open(argv[1]) as f:
                d = load_slugsin(f.read())
        except (OSError, IndexError, Syntax) as e:
            yield ('err', f'Error: {e}\n')
            yield ('exit', 1)
            return
        opts = argv[2:]
        known = {'--explicitStrategy', '--jsonOutput'}
        if not set(opts) <= known:
            yield ('err', 'Error: Parameter is unknown.\n')
            yield ('exit', 1)
            return
        yield ('err', 'SLUGS: SmaLl bUt complete Gr(1) Synthesis tool\n')
        if self.noise:
            for i in range(self.noise // 100 + 1):
                yield ('err', f'{i:05d} ' + 93 * '.' + '\n')
        g = game_of(d)
        if not g.realizable():
            yield ('err', 'RESULT: Specification is unrealizable.\n')
            yield ('exit', 0)
            return
        yield ('err', 'RESULT: Specification is realizable.\n')
        if '--explicitStrategy' in opts:
            text = (self.slugs_json(d, g) if '--jsonOutput' in opts
                    else 'State 0 with rank 0\n')
            for i in range(0, len(text), 4000):
                yield ('out', text[i:i + 4000])
        yield ('exit', 0)

    def slugs_json(self, d, g):
        st = Strategy(g, self.choose)
        start, succ = st.graph(st.initial(r'\A \E'))
        ids = {u: i for i, u in enumerate(succ)}
        bits = list()
        for v in d['ev'] + d['sv']:
            if v.kind == 'bool':
                bits.append((v.name, v.name, 0))
                continue
            for i in range(v.dom[1].bit_length()):
                name = f'{v.name}@{i}'
                if i == 0:
                    name += f'.{v.dom[0]}.{v.dom[1]}'
                bits.append((name, v.name, i))
        out = dict(
            version=0, slugs='0.0.1', variables=[b[0] for b in bits],
            nodes={
                str(ids[u]): dict(
                    rank=u[1],
                    state=[int(g.st[u[0]][v]) >> i & 1
                           for _, v, i in bits],
                    trans=[ids[w] for w in _uniq(succ[u])])
                for u in succ})
        return json.dumps(out)


def sysnexta(g, q, e):
    return [s for s in range(g.nS) if g.Sstep[q][g.idx(e, s)]]


def sysnext(st, q, e, goal):
    """Moves consistent with some strategy for the goal."""
    g = st.g
    if q not in st.win:
        return []
    if not 0 <= goal < len(g.goals):
        raise KeyError(goal)
    t, _ = st.target(q, goal)
    return [s for s in sysnexta(g, q, e) if g.idx(e, s) in t]


def _uniq(seq):
    return list(dict.fromkeys(seq))


def _dom(v):
    return 'boolean' if v.kind == 'bool' else list(v.dom)


_SLUGS = dict(
    ENV_INIT='env_init', SYS_INIT='sys_init', ENV_TRANS='env_safety',
    SYS_TRANS='sys_safety', ENV_LIVENESS='env_prog', SYS_LIVENESS='sys_prog')


def parse_slugs(text):
    """Structured slugs: one formula per line, in sections."""
    secs = dict()
    cur = None
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        if line.startswith('['):
            cur = line[1:-1]
            if cur in secs or cur not in {'INPUT', 'OUTPUT', *_SLUGS}:
                raise Syntax(f'section {line}')
            secs[cur] = list()
        elif cur is None:
            raise Syntax(line)
        else:
            secs[cur].append(line)
    d = dict()
    for sec, key, owner in (('INPUT', 'ev', 'env'), ('OUTPUT', 'sv', 'sys')):
        vs = list()
        for line in secs.get(sec, []):
            name, sep, dom = line.partition(':')
            if sep:
                lo, _, hi = dom.partition('...')
                try:
                    dom = (int(lo), int(hi))
                except ValueError:
                    raise Syntax(line)
                if not 0 <= dom[0] <= dom[1] or dom[1] == 0:
                    raise Syntax(line)
            else:
                dom = 'boolean'
            vs.append(gm.Var(name.strip(), dom, owner))
        d[key] = vs
    kinds = {v.name: v.kind for v in d['ev'] + d['sv']}
    for sec, key in _SLUGS.items():
        out = list()
        for line in secs.get(sec, []):
            p = Parser(tokens(line), kinds)
            out.extend(p.clauses())
        d[key] = out
    check_scopes(d)
    env = {v.name for v in d['ev']}
    for f in d['env_init']:
        if not names(f) <= env:
            raise Syntax('output in ENV_INIT')
    return d


def dump_slugsin(d):
    return json.dumps(dict(
        {k: d[k] for k in _SLUGS.values()},
        ev=[(v.name, v.dom) for v in d['ev']],
        sv=[(v.name, v.dom) for v in d['sv']]))


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def load_slugsin(text):
    try:
        js = json.loads(text)
    except ValueError:
        raise Syntax('not slugsin')
    d = {k: [_tup(f) for f in js[k]] for k in _SLUGS.values()}
    for k, o in (('ev', 'env'), ('sv', 'sys')):
        d[k] = [gm.Var(n, _tup(dom), o) for n, dom in js[k]]
    return d
