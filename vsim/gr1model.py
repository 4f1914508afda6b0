"""A small GR(1) specification language with its own meaning.

Formulas are built here as trees and *printed* in TuLiP's syntax; they are
evaluated here directly on the trees, so that the oracle shares neither the
parser, nor the translation, nor the solver with the code under test.
"""
import itertools


class Var:
    def __init__(self, name, dom, owner):
        self.name = name
        self.dom = dom  # 'boolean' | (lo, hi) | [str, ...]
        self.owner = owner

    @property
    def values(self):
        if self.dom == 'boolean':
            return [False, True]
        if isinstance(self.dom, tuple):
            return list(range(self.dom[0], self.dom[1] + 1))
        return list(self.dom)

    @property
    def kind(self):
        if self.dom == 'boolean':
            return 'bool'
        return 'int' if isinstance(self.dom, tuple) else 'str'


TRUE = ('const', True)


def ev(e, cur, nxt=None):
    op = e[0]
    if op == 'const':
        return e[1]
    if op == 'bool':
        return bool((nxt if e[2] else cur)[e[1]])
    if op == 'cmp':
        a = (nxt if e[2] else cur)[e[1]]
        return _cmp(e[3], a, e[4])
    if op == 'cmpvv':
        a = (nxt if e[2] else cur)[e[1]]
        b = (nxt if e[5] else cur)[e[4]]
        return _cmp(e[3], a, b)
    if op == 'not':
        return not ev(e[1], cur, nxt)
    if op == 'and':
        return all(ev(x, cur, nxt) for x in e[1:])
    if op == 'or':
        return any(ev(x, cur, nxt) for x in e[1:])
    if op == 'imp':
        return (not ev(e[1], cur, nxt)) or ev(e[2], cur, nxt)
    if op == 'iff':
        return ev(e[1], cur, nxt) == ev(e[2], cur, nxt)
    if op == 'xor':
        return ev(e[1], cur, nxt) != ev(e[2], cur, nxt)
    raise ValueError(op)


def _cmp(op, a, b):
    if op == '=':
        return a == b
    if op == '!=':
        return a != b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    raise ValueError(op)


def show(e, style=0):
    """Print in TuLiP syntax."""
    op = e[0]
    if op == 'const':
        return 'True' if e[1] else 'False'

    def v(name, primed):
        if not primed:
            return name
        return f"{name}'" if style & 1 else f'X({name})'

    def lit(x):
        return f'"{x}"' if isinstance(x, str) else str(x)
    if op == 'bool':
        return f'({v(e[1], e[2])})' if e[2] else e[1]
    if op == 'cmp':
        if e[2] and not style & 1:
            return f'X({e[1]} {e[3]} {lit(e[4])})'
        return f'({v(e[1], e[2])} {e[3]} {lit(e[4])})'
    if op == 'cmpvv':
        return f'({v(e[1], e[2])} {e[3]} {v(e[4], e[5])})'
    if op == 'not':
        return f'!({show(e[1], style)})'
    if op == 'and':
        s = ' & ' if style & 2 else ' && '
        return '(' + s.join(f'({show(x, style)})' for x in e[1:]) + ')'
    if op == 'or':
        s = ' | ' if style & 2 else ' || '
        return '(' + s.join(f'({show(x, style)})' for x in e[1:]) + ')'
    if op == 'imp':
        return f'(({show(e[1], style)}) -> ({show(e[2], style)}))'
    if op == 'iff':
        return f'(({show(e[1], style)}) <-> ({show(e[2], style)}))'
    if op == 'xor':
        return f'(({show(e[1], style)}) ^ ({show(e[2], style)}))'
    raise ValueError(op)


def gen_atom(ctx, vs, primed_ok, cmpops=('=', '!=', '<', '<=', '>', '>='),
             vv=True, lone=None):
    """`vs` is a list of Var; `primed_ok` the set of names that may be primed.
    """
    var = ctx.pick(vs)
    primed = var.name in primed_ok and ctx.chance(0.6)
    if var.kind == 'bool':
        return ('bool', var.name, primed)
    if var.kind == 'str':
        return ('cmp', var.name, primed, ctx.pick(['=', '!=']),
                ctx.pick(var.values))
    if vv and ctx.chance(0.25):
        other = [w for w in vs if w.kind == 'int']
        w = ctx.pick(other)
        p2 = w.name in primed_ok and ctx.chance(0.5)
        return ('cmpvv', var.name, primed, ctx.pick(['=', '!=', '<=']),
                w.name, p2)
    op = ctx.pick(cmpops)
    return ('cmp', var.name, primed, op, ctx.pick(var.values))


def gen_expr(ctx, vs, primed_ok=frozenset(), depth=2, rich=True, **kw):
    if depth <= 0 or ctx.chance(0.3):
        a = gen_atom(ctx, vs, primed_ok, **kw)
        if ctx.chance(0.25):
            return ('not', a)
        return a
    ops = ['or', 'and', 'imp', 'iff']
    if rich:
        ops.append('xor')
    op = ctx.pick(ops)
    a = gen_expr(ctx, vs, primed_ok, depth - 1, rich, **kw)
    b = gen_expr(ctx, vs, primed_ok, depth - 1, rich, **kw)
    return (op, a, b)


class Game:
    """Explicit-state GR(1) game with TuLiP's `moore/plus_one/qinit`."""

    def __init__(self, env_vars, sys_vars, env_init, sys_init, env_safety,
                 sys_safety, env_prog, sys_prog, moore, plus_one, qinit):
        self.ev = env_vars
        self.sv = sys_vars
        self.env_init = env_init
        self.sys_init = sys_init
        self.env_safety = env_safety
        self.sys_safety = sys_safety
        self.env_prog = env_prog or [TRUE]
        self.sys_prog = sys_prog or [TRUE]
        self.moore = moore
        self.plus_one = plus_one
        self.qinit = qinit
        self.E = self._vals(env_vars)
        self.S = self._vals(sys_vars)
        self.nE = len(self.E)
        self.nS = len(self.S)
        self._build()

    @staticmethod
    def _vals(vs):
        return [dict(zip([v.name for v in vs], c))
                for c in itertools.product(*[v.values for v in vs])]

    def state(self, e, s):
        d = dict(self.E[e])
        d.update(self.S[s])
        return d

    def _build(self):
        self.N = self.nE * self.nS
        self.st = [self.state(e, s)
                   for e in range(self.nE) for s in range(self.nS)]
        self.Einit = [all(ev(f, d) for f in self.env_init) for d in self.st]
        self.Sinit = [all(ev(f, d) for f in self.sys_init) for d in self.st]
        # env steps: (q, e') ; assumption does not mention primed sys vars
        self.Estep = list()
        for q in range(self.N):
            row = list()
            for e in range(self.nE):
                nxt = self.E[e]
                row.append(all(
                    ev(f, self.st[q], nxt) for f in self.env_safety))
            self.Estep.append(row)
        self.Sstep = list()
        for q in range(self.N):
            row = list()
            for p in range(self.N):
                row.append(all(
                    ev(f, self.st[q], self.st[p]) for f in self.sys_safety))
            self.Sstep.append(row)
        self.goals = [{q for q in range(self.N) if ev(g, self.st[q])}
                      for g in self.sys_prog]
        self.holds = [{q for q in range(self.N) if not ev(g, self.st[q])}
                      for g in self.env_prog]

    def idx(self, e, s):
        return e * self.nS + s

    def cpre(self, target):
        out = set()
        for q in range(self.N):
            if self._cpre1(q, target):
                out.add(q)
        return out

    def _ok(self, q, e, s, target):
        p = self.idx(e, s)
        en = self.Estep[q][e]
        sy = self.Sstep[q][p]
        if self.plus_one:
            return sy and ((not en) or p in target)
        return (not en) or (sy and p in target)

    def _cpre1(self, q, target):
        if self.moore:
            return any(all(self._ok(q, e, s, target)
                           for e in range(self.nE))
                       for s in range(self.nS))
        return all(any(self._ok(q, e, s, target)
                       for s in range(self.nS))
                   for e in range(self.nE))

    def solve(self):
        z = set(range(self.N))
        while True:
            zold = set(z)
            for g in self.goals:
                base = g & self.cpre(z)
                y = set()
                while True:
                    yold = set(y)
                    u = base | self.cpre(y)
                    for h in self.holds:
                        x = set(range(self.N))
                        while True:
                            xold = x
                            x = u | (h & self.cpre(x))
                            if x == xold:
                                break
                        y |= x
                    y |= u
                    if y == yold:
                        break
                z &= y
            if z == zold:
                return z

    def realizable(self):
        win = self.solve()
        self.win = win

        def form(q):
            if self.plus_one:
                return self.Sinit[q] and ((not self.Einit[q]) or q in win)
            return (not self.Einit[q]) or (self.Sinit[q] and q in win)
        q_ = self.qinit
        if q_ == r'\A \A':
            return all((not self.Einit[q]) or q in win
                       for q in range(self.N))
        if q_ == r'\E \E':
            return any(self.Sinit[q] and q in win for q in range(self.N))
        if q_ == r'\A \E':
            return all(any(form(self.idx(e, s)) for s in range(self.nS))
                       for e in range(self.nE))
        if q_ == r'\E \A':
            return any(all(form(self.idx(e, s)) for e in range(self.nE))
                       for s in range(self.nS))
        raise ValueError(q_)

    def env_moves(self, q):
        return [e for e in range(self.nE) if self.Estep[q][e]]

    def env_never_blocked(self):
        return all(any(row) for row in self.Estep)


def sccs(nodes, succ):
    """Tarjan, iterative; yields lists of nodes."""
    index = dict()
    low = dict()
    on = set()
    stack = list()
    out = list()
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = list()
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out
