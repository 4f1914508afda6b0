"""The closed loop: a controller against a simulated environment.

The environment is the scheduler: it picks every input.  `explore` plays
from the initial condition; `adversary` looks for (and then really plays)
an infinite behaviour that satisfies the assumptions and starves a goal.
"""
import random

from . import gr1model as gm
from .core import Violation


class Loop:
    def __init__(self, ctx, p, mach, max_edges=6000):
        self.ctx = ctx
        self.p = p
        self.g = p.game
        self.m = mach
        self.max_edges = max_edges
        self.env_idx = {
            self._key(d): i for i, d in enumerate(self.g.E)}
        self.sys_idx = {
            self._key(d): i for i, d in enumerate(self.g.S)}
        self.truncated = False

    @staticmethod
    def _key(d):
        return tuple(sorted((k, _norm(v)) for k, v in d.items()))

    def where(self, q):
        return self.g.st[q]

    def react(self, mach, node, e):
        """One reaction; returns (next node, index of output valuation)."""
        inputs = dict(self.g.E[e])
        try:
            nxt, out = mach.reaction(node, inputs)
        except ValueError as err:
            raise Violation(
                'no-reaction',
                f'controller has no (unique) reaction at {node} to legal '
                f'input {inputs}: {err}')
        s = self.outputs(out)
        return nxt, s

    def outputs(self, out):
        try:
            k = self._key(out)
            return self.sys_idx[k]
        except (KeyError, TypeError):
            raise Violation(
                'bad-output',
                f'outputs {out} are not a valuation of the declared '
                f'system variables {[(v.name, v.dom) for v in self.p.sv]}')

    # -- initial reactions ----------------------------------------------
    def initial(self):
        """[(machine, e, s_required or None)] the environment may choose."""
        from tulip import synth
        g, p = self.g, self.p
        q_ = p.qinit
        out = list()
        if q_ == r'\A \A':
            for e in range(g.nE):
                for s in range(g.nS):
                    if g.Einit[g.idx(e, s)]:
                        out.append((e, s))
            # the environment picks the initial outputs too
            starts = list()
            memo = dict()
            for e, s in out:
                if s not in memo:
                    memo[s] = synth.determinize_machine_init(
                        self.m, dict(g.S[s]))
                starts.append((memo[s], e, s))
            return starts
        det = synth.determinize_machine_init(self.m)
        if q_ == r'\E \E':
            # the machine picks the initial inputs too
            starts = list()
            for _, _, d in det.edges(['Sinit'], data=True):
                k = self._key({v.name: d.get(v.name) for v in p.ev})
                if k not in self.env_idx:
                    raise Violation(
                        'bad-input', f'initial transition {d} has inputs '
                        'outside the declared domains')
                starts.append((det, self.env_idx[k], None))
                break
            return starts
        for e in range(g.nE):
            # EnvInit does not mention outputs for these `qinit`
            if g.Einit[g.idx(e, 0)]:
                starts_e = (det, e, None)
                out.append(starts_e)
        return out

    def first(self, det, e, s_req):
        g = self.g
        node, s = self.react(det, 'Sinit', e)
        q = g.idx(e, s)
        if s_req is not None and s != s_req:
            raise Violation(
                'initial', f'initial reaction to {g.E[e]} sets {g.S[s]}, '
                f'not the imposed {g.S[s_req]}')
        if not g.Sinit[q]:
            raise Violation(
                'initial', f'initial valuation {g.st[q]} violates the '
                'initial condition of the system')
        return node, q

    # -- exploration ------------------------------------------------------
    def explore(self):
        """Play from every initial condition; return the loop graph."""
        g = self.g
        succ = dict()
        todo = list()
        first_out = set()
        starts = self.initial()
        if not starts:
            raise Violation('initial', 'no initial reaction at all')
        self.inits = list()
        for det, e, s_req in starts:
            node, q = self.first(det, e, s_req)
            first_out.add(q % g.nS)
            if (node, q) not in succ:
                succ[(node, q)] = None
                todo.append((node, q))
            self.inits.append((det, e, s_req, node, q))
        if self.p.qinit == r'\E \A' and len(first_out) > 1:
            raise Violation(
                'initial', 'initial outputs depend on the initial inputs, '
                r'with qinit \E \A')
        n_edges = 0
        moore_out = dict()
        while todo:
            node, q = todo.pop()
            row = list()
            for e in g.env_moves(q):
                n_edges += 1
                nxt, s = self.react(self.m, node, e)
                r = g.idx(e, s)
                if not g.Sstep[q][r]:
                    raise Violation(
                        'safety',
                        f'at {node}: step {g.st[q]} -> {g.st[r]} breaks '
                        'a system safety formula')
                if self.p.moore:
                    moore_out.setdefault((node, q), set()).add(s)
                row.append((nxt, r))
                if (nxt, r) not in succ:
                    succ[(nxt, r)] = None
                    todo.append((nxt, r))
            succ[(node, q)] = row
            if n_edges > self.max_edges:
                self.truncated = True
                break
        for (node, q), outs in moore_out.items():
            for s in outs:
                for e in g.env_moves(q):
                    if not g.Sstep[q][g.idx(e, s)]:
                        raise Violation(
                            'moore-safety',
                            f'at {node}, {g.st[q]}: a Moore controller '
                            f'outputs {g.S[s]}, that is unsafe for the '
                            f'input {g.E[e]} that it may not read')
        self.moore_dep = [
            k for k, outs in moore_out.items() if len(outs) > 1]
        self.succ = {k: v for k, v in succ.items() if v is not None}
        self.n_edges = n_edges
        return self.succ

    # -- liveness ---------------------------------------------------------
    def adversary(self):
        g = self.g
        if self.truncated:
            return
        for gi, goal in enumerate(g.goals):
            avoid = [u for u in self.succ if u[1] not in goal]
            aset = set(avoid)

            def nxt(u):
                return [v for v in self.succ[u] if v in aset]
            for comp in gm.sccs(avoid, nxt):
                cset = set(comp)
                if len(comp) == 1 and comp[0] not in nxt(comp[0]):
                    continue
                ok = all(
                    any(u[1] not in h for u in comp) for h in g.holds)
                if not ok:
                    continue
                self._play_lasso(gi, cset)

    def _path(self, src, dst_pred, inside=None, nonempty=False):
        from collections import deque
        dq = deque([(src, ())])
        seen = set() if nonempty else {src}
        if not nonempty and dst_pred(src):
            return []
        while dq:
            u, path = dq.popleft()
            for v in self.succ[u]:
                if inside is not None and v not in inside:
                    continue
                if v in seen:
                    continue
                seen.add(v)
                if dst_pred(v):
                    return list(path) + [v]
                dq.append((v, path + (v,)))
        return None

    def _play_lasso(self, gi, comp):
        g = self.g
        for det, e, s_req, node, q in self.inits:
            stem = self._path((node, q), lambda u: u in comp)
            if stem is not None:
                break
        else:
            return
        cur = stem[-1] if stem else (node, q)
        anchor = cur
        cycle = list()
        for h in g.holds:
            if any(u[1] not in h for u in cycle):
                continue
            pth = self._path(
                cur, lambda u: u[1] not in h, comp,
                nonempty=(not cycle and cur[1] in h))
            if pth:
                cycle += pth
                cur = pth[-1]
        back = self._path(cur, lambda u: u == anchor, comp, nonempty=True)
        if back is None:
            return
        cycle += back
        # really play it, twice around
        self.ctx.log('lasso', gi, len(stem), len(cycle))
        node2, q2 = self.first(det, e, s_req)
        for v in stem + cycle + cycle:
            node2, s = self.react(self.m, node2, v[1] // g.nS)
            q2 = g.idx(v[1] // g.nS, s)
            self.ctx.log('step', g.st[q2])
        raise Violation(
            'liveness',
            f'goal {gi} ({gm.show(g.sys_prog[gi])}) is starved by an '
            'environment that satisfies its assumptions: '
            f'stem {[g.st[v[1]] for v in stem]} '
            f'cycle {[g.st[v[1]] for v in cycle]}')

    # -- a scheduled play with faults ------------------------------------
    def walk(self, steps):
        """A simulated execution with faults at the controller's inputs."""
        import copy
        ctx, g = self.ctx, self.g
        det, e, s_req, node, q = ctx.pick(self.inits)
        mach = self.m
        visits = dict()
        for t in range(steps):
            ctx.tick()
            ctx.log('step', t, node, g.st[q])
            ctx.state(len(self.succ), str(node), q)
            moves = g.env_moves(q)
            if not moves:
                ctx.probe('environment-blocked')
                return
            if ctx.chance(0.12):
                self.bad_input(mach, node, q)
            if ctx.chance(0.04):
                ctx.fault('restart-from-saved-machine')
                mach = copy.deepcopy(mach)
            if ctx.chance(0.05):
                # delivered twice: the reaction must not depend on
                # earlier, undelivered computations
                ctx.fault('duplicate-input')
                e = ctx.pick(moves)
                a = self.react(mach, node, e)
                b = self.react(mach, node, e)
                if a != b:
                    raise Violation(
                        'nondeterministic', f'{a} then {b} for the same '
                        'state and input')
            # prefer inputs that lead to rarely visited states
            e = ctx.pick(moves)
            node2, s = self.react(mach, node, e)
            r = g.idx(e, s)
            if not g.Sstep[q][r]:
                raise Violation(
                    'safety', f'at {node}: step {g.st[q]} -> {g.st[r]} '
                    'breaks a system safety formula')
            node, q = node2, r
            visits[q] = visits.get(q, 0) + 1

    def bad_input(self, mach, node, q):
        ctx, g = self.ctx, self.g
        if not self.p.ev:
            return
        e = ctx.choose(g.nE)
        inputs = dict(g.E[e])
        v = ctx.pick(self.p.ev)
        kind = ctx.choose(3)
        if kind == 0:
            inputs[v.name] = 97 if v.kind != 'str' else 'no_such_value'
        elif kind == 1:
            del inputs[v.name]
        else:
            inputs['no_such_port'] = 0
        ctx.fault('invalid-input')
        try:
            r = mach.reaction(node, inputs)
        except ValueError:
            return
        raise Violation(
            'accepted-invalid-input',
            f'at {node} the controller reacted to {inputs} with {r}')


def _norm(v):
    if isinstance(v, bool) or type(v).__name__ in ('bool_', 'bool'):
        return int(v)
    return v
