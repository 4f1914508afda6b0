"""LTL, its meaning on ultimately periodic words, and a simulated `ltl2ba`.

Independent of the code under test.  Formulas are tuples:
`('true',)`, `('false',)`, `('p', name)`, `('!', f)`, `('X', f)`,
`('<>', f)`, `('[]', f)`, and `(op, f, g)` for `&& || -> <-> U V`.
"""
import re

import networkx as nx


BINARY = ['&&', '||', '->', '<->', 'U', 'V']
UNARY = ['!', 'X', '<>', '[]']


class Syntax(Exception):
    pass


# -- formulas ---------------------------------------------------------------
def gen(ctx, names, depth):
    if depth == 0 or ctx.chance(0.15):
        k = ctx.weighted([(12, 'p'), (1, 'true'), (1, 'false')])
        return ('p', ctx.pick(names)) if k == 'p' else (k,)
    if ctx.chance(0.5):
        return (ctx.pick(UNARY), gen(ctx, names, depth - 1))
    return (ctx.pick(BINARY), gen(ctx, names, depth - 1),
            gen(ctx, names, depth - 1))


def show(f):
    """A fully parenthesized input for `ltl2ba`."""
    if f[0] == 'p':
        return f[1]
    if len(f) == 1:
        return f[0]
    if len(f) == 2:
        return f'{f[0]} ({show(f[1])})'
    return f'({show(f[1])}) {f[0]} ({show(f[2])})'


_TOKEN = re.compile(
    r'\s*(<->|->|<>|\[\]|&&|\|\||[()!]|[A-Za-z_][A-Za-z_0-9]*)')


def parse(text):
    toks = list()
    pos = 0
    text = text.rstrip()
    while pos < len(text):
        m = _TOKEN.match(text, pos)
        if not m:
            raise Syntax(text[pos:])
        toks.append(m.group(1))
        pos = m.end()
    toks.append(None)
    levels = [('<->',), ('->',), ('||',), ('&&',), ('U', 'V')]
    i = 0

    def level(n):
        nonlocal i
        if n == len(levels):
            return unary()
        f = level(n + 1)
        while toks[i] in levels[n]:
            op = toks[i]
            i += 1
            # the drawn inputs are parenthesized
            f = (op, f, level(n + 1))
        return f

    def unary():
        nonlocal i
        t = toks[i]
        i += 1
        if t in UNARY:
            return (t, unary())
        if t == '(':
            f = level(0)
            if toks[i] != ')':
                raise Syntax(f'{toks[i]} for )')
            i += 1
            return f
        if t in ('true', 'false'):
            return (t,)
        if t is None or not (t[0].islower() or t[0] == '_'):
            raise Syntax(f'predicate expected, not {t}')
        return ('p', t)
    f = level(0)
    if toks[i] is not None:
        raise Syntax(f'unexpected {toks[i]}')
    return f


def nnf(f, neg=False):
    op = f[0]
    if op in ('true', 'false'):
        return (('false',) if op == 'true' else ('true',)) if neg else f
    if op == 'p':
        return ('!', f) if neg else f
    if op == '!':
        return nnf(f[1], not neg)
    if op == 'X':
        return ('X', nnf(f[1], neg))
    if op == '<>':
        return nnf(('U', ('true',), f[1]), neg)
    if op == '[]':
        return nnf(('V', ('false',), f[1]), neg)
    if op == '->':
        return nnf(('||', ('!', f[1]), f[2]), neg)
    if op == '<->':
        return nnf(('||', ('&&', f[1], f[2]),
                    ('&&', ('!', f[1]), ('!', f[2]))), neg)
    dual = {'&&': '||', '||': '&&', 'U': 'V', 'V': 'U'}
    return (dual[op] if neg else op, nnf(f[1], neg), nnf(f[2], neg))


def holds(f, word, loop):
    """Whether `f` holds on `word[:loop] word[loop:]^omega`."""
    n = len(word)
    succ = [i + 1 if i + 1 < n else loop for i in range(n)]

    def ev(f):
        op = f[0]
        if op == 'true':
            return [True] * n
        if op == 'false':
            return [False] * n
        if op == 'p':
            return [f[1] in w for w in word]
        if op == '!':
            return [not x for x in ev(f[1])]
        a = ev(f[1])
        if op == 'X':
            return [a[j] for j in succ]
        b = ev(f[2])
        if op == '&&':
            return [x and y for x, y in zip(a, b)]
        if op == '||':
            return [x or y for x, y in zip(a, b)]
        r = [op == 'V'] * n
        while True:
            if op == 'U':
                new = [b[i] or a[i] and r[succ[i]] for i in range(n)]
            else:
                new = [b[i] and (a[i] or r[succ[i]]) for i in range(n)]
            if new == r:
                return r
            r = new
    return ev(nnf(f))[0]


# -- automata ---------------------------------------------------------------
def _expand(obl):
    """Disjuncts (literals, next obligations, postponed untils)."""
    out = set()
    stack = [(tuple(sorted(obl, key=repr)), frozenset(), frozenset(),
              frozenset())]
    while stack:
        todo, lits, nxt, post = stack.pop()
        if not todo:
            out.add((lits, nxt, post))
            continue
        f, todo = todo[0], todo[1:]
        op = f[0]
        if op == 'true':
            stack.append((todo, lits, nxt, post))
        elif op == 'false':
            pass
        elif op == 'p' or op == '!':
            bad = f[1] if op == '!' else ('!', f)
            if bad not in lits:
                stack.append((todo, lits | {f}, nxt, post))
        elif op == 'X':
            n = nxt if f[1] == ('true',) else nxt | {f[1]}
            stack.append((todo, lits, n, post))
        elif op == '&&':
            stack.append(((f[1], f[2]) + todo, lits, nxt, post))
        elif op == '||':
            stack.append(((f[1],) + todo, lits, nxt, post))
            stack.append(((f[2],) + todo, lits, nxt, post))
        elif op == 'U':
            stack.append(((f[2],) + todo, lits, nxt, post))
            stack.append(
                ((f[1],) + todo, lits, nxt | {f}, post | {f}))
        elif op == 'V':
            stack.append(((f[1], f[2]) + todo, lits, nxt, post))
            stack.append(((f[2],) + todo, lits, nxt | {f}, post))
        else:
            raise Syntax(f)
    return sorted(out, key=repr)


def untils(f, acc=None):
    acc = set() if acc is None else acc
    if f[0] == 'U':
        acc.add(f)
    for g in f[1:]:
        if isinstance(g, tuple):
            untils(g, acc)
    return acc


def automaton(f, limit=60):
    """States, with transitions `{state: [(literals, state)]}`.

    A state is `(obligations, level)`; level `n` is accepting.
    Returns `None` if there are more than `limit` states.
    """
    f = nnf(f)
    us = sorted(untils(f), key=repr)
    n = len(us)
    init = (frozenset([f]), 0)
    trans = dict()
    todo = [init]
    while todo:
        s = todo.pop()
        if s in trans:
            continue
        if len(trans) > limit:
            return None
        obl, k = s
        k = 0 if k == n else k
        r = list()
        for lits, nxt, post in _expand(obl):
            j = k
            while j < n and us[j] not in post:
                j += 1
            t = (nxt, j) if nxt else 'all'
            r.append((lits, t))
            if t != 'all':
                todo.append(t)
        trans[s] = r
    return dict(init=init, n=n, trans=trans)


def text_of(ctx, formula, aut, pad=0):
    """What `ltl2ba` prints."""
    trans, n, init = aut['trans'], aut['n'], aut['init']
    head = f'/* {formula} */'
    nxts = {t for _, t in trans[init]}
    if not trans[init]:
        return f'never {{    {head}\nT0_init:\n\tfalse;\n}}\n'
    if nxts == {'all'} and any(not li for li, _ in trans[init]):
        return (f'never {{    {head}\naccept_init:\n\tif\n'
                '\t:: (1) -> goto accept_init\n\tfi;\n}\n')
    ids = {s: i + 1 for i, s in enumerate(sorted(trans, key=repr))}

    def name(s):
        if s == 'all':
            return 'accept_all'
        pre = 'accept_' if s[1] == n else f'T{s[1]}_'
        return pre + ('init' if s == init else f'S{ids[s]}')
    out = [f'never {{ {head}']
    order = [init] + ctx.shuffle(
        [s for s in sorted(trans, key=repr) if s != init])
    final = False
    for s in order:
        out.append(f'{name(s)}:')
        if not trans[s]:
            out.append('\tfalse;')
            continue
        by = dict()
        for lits, t in trans[s]:
            by.setdefault(name(t), list()).append(lits)
        out.append('\tif')
        for t in ctx.shuffle(list(by)):
            final |= t == 'accept_all'
            dis = [' && '.join(
                '!' + x[1][1] if x[0] == '!' else x[1]
                for x in sorted(d, key=repr)) or '1' for d in by[t]]
            if '1' in dis and ctx.chance(0.8):
                dis = ['1']
            if pad:
                dis = dis * pad
            g = ' || '.join(f'({d})' for d in dis)
            out.append(f'\t:: {g} -> goto {t}')
        out.append('\tfi;')
    if final:
        out += ['accept_all:', '\tskip']
    out.append('}')
    return '\n'.join(out) + '\n'


# -- acceptance -------------------------------------------------------------
_NAME = re.compile(r'[A-Za-z_][A-Za-z_0-9]*')


def guard_holds(guard, letter):
    """Meaning of a guard (`and`, `or`, `not`, names, numbers)."""
    env = {x: x in letter for x in _NAME.findall(guard)
           if x not in ('and', 'or', 'not', 'True', 'False')}
    env['__builtins__'] = dict()
    return bool(eval(guard, env))


def names_of(guard):
    return {x for x in _NAME.findall(guard)
            if x not in ('and', 'or', 'not', 'True', 'False')}


def accepts(edges, initial, accepting, word, loop):
    """Whether the automaton accepts a word; edges are (u, v, guard)."""
    n = len(word)
    g = nx.DiGraph()
    start = [(q, 0) for q in initial]
    g.add_nodes_from(start)
    out = dict()
    for u, v, guard in edges:
        out.setdefault(u, list()).append((v, guard))
    todo = list(start)
    seen = set(start)
    while todo:
        q, i = todo.pop()
        j = i + 1 if i + 1 < n else loop
        for v, guard in out.get(q, ()):
            if not guard_holds(guard, word[i]):
                continue
            g.add_edge((q, i), (v, j))
            if (v, j) not in seen:
                seen.add((v, j))
                todo.append((v, j))
    for c in nx.strongly_connected_components(g):
        some = next(iter(c))
        if len(c) == 1 and not g.has_edge(some, some):
            continue
        if any(q in accepting for q, _ in c):
            return True
    return False


def words(ctx, names, k):
    for _ in range(k):
        n = ctx.integer(1, 5)
        loop = ctx.choose(n)
        yield [frozenset(ctx.subset(names)) for _ in range(n)], loop


def ltl2ba_program(ctx, pad=lambda: 0, seen=None):
    """The simulated executable."""
    def program(argv):
        args = argv[1:]
        if args[:1] == ['-h']:
            yield 'out', 'usage: ltl2ba [-flag] -f formula\n'
            yield 'exit', 1
            return
        if len(args) != 2 or args[0] != '-f':
            yield 'out', 'usage: ltl2ba [-flag] -f formula\n'
            yield 'exit', 1
            return
        text = args[1].translate(str.maketrans('\t"\n', '   '))
        if seen is not None:
            seen.append(text)
        try:
            f = parse(text)
        except Syntax as e:
            yield 'out', (f'tl_spin: {e}\ntl_spin: {text}\n'
                          '---------^\n')
            yield 'exit', 1
            return
        aut = automaton(f, limit=400)
        out = text_of(ctx, text, aut, pad())
        while out:
            yield 'out', out[:4096]
            out = out[4096:]
        yield 'exit', 0
    return program
