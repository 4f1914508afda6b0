"""C08: a synthesized controller, run on the plant, meets the specification.

From the continuous plant and the formulas, through discretization and
synthesis, to the plant driven by the controller and the computed inputs.
"""
import pickle

import networkx as nx
import numpy as np
import polytope as pc

from .. import gr1model as gm
from .. import core
from .. import hyb
from ..core import Discard, Violation
from . import c07

RUNS = {'quick': 300, 'thorough': 20000}
BATCHES = {'quick': 50, 'thorough': 400}
CPU_BUDGET = 120
WALL_BUDGET = 600
RULE = ('A run draws a plant, a partition, options, and a specification; '
        'the plant is then abstracted, a controller synthesized, and both '
        'are run in closed loop: adversarial inputs and disturbances, solver '
        'failures, crashes of the controller. Propositions are evaluated on '
        'the plant state; non-trivial: at least 5 steps of the controller '
        'executed on the plant, in at least 2 cells.')
TIME_UNIT = 'controller steps'
STATE_MEASURE = '(controller state, cell, environment input)'
ASSUMPTIONS = [
    'plants have 1 or 2 state dimensions, at most 24 cells',
    'propositions are not judged within 1e-4 of their boundaries',
    'runs where the numeric solver is at the edge of its tolerance end early',
    'simulate2d is run without disturbance, as it is documented']
PROBES = ['realizable', 'unrealizable', 'bi', 'dual', 'pwa', 'horizon>1',
          'disturbed', 'open-loop', 'exported', 'restart', 'solver-failed-raised',
          'goal-reached', 'memory', 'numerics', 'all-init', 'simulate2d',
          'progress-checked', 'environment-blocked']


def gen_formulas(ctx, aps, labels, ts):
    """Formulas, with goals that look attainable."""
    xe = [gm.Var('park', 'boolean', 'env')] if ctx.chance(0.75) else []
    if xe and ctx.chance(0.3):
        xe.append(gm.Var('mode', (0, 2), 'env'))
    xs = list()
    apv = [gm.Var(a, 'boolean', 'sys') for a in aps]
    parts = {k: [] for k in (
        'env_init', 'sys_init', 'env_safety', 'sys_safety',
        'env_prog', 'sys_prog')}
    en = frozenset(v.name for v in xe)
    an = frozenset(aps)
    # goals: in a strongly connected component
    comps = [c for c in nx.strongly_connected_components(ts)
             if len(c) > 1 or any(ts.has_edge(u, u) for u in c)]
    if not comps:
        raise Discard()
    comps = sorted(comps, key=lambda c: (-len(c), sorted(c)))
    comp = comps[0] if ctx.chance(0.8) else ctx.pick(comps)
    lits = set()
    for u in comp:
        for a in aps:
            lits.add((a, a in labels[u]))
    lits = sorted(lits)

    def goal():
        a, val = ctx.pick(lits)
        f = ('bool', a, False)
        return f if val else ('not', f)
    first = goal()
    parts['sys_prog'].append(first)
    if ctx.chance(0.75):
        # and elsewhere, if that is possible
        f = ('not', first) if first[0] != 'not' else first[1]
        if (f[1][1] if f[0] == 'not' else f[1], f[0] != 'not') not in lits:
            f = goal()
        if xe and ctx.chance(0.2):
            f = ('or', f, ('bool', 'park', False))
        parts['sys_prog'].append(f)
    if xe and ctx.chance(0.5):
        # remember a request, until it is served
        xs.append(gm.Var('served', 'boolean', 'sys'))
        ctx.probe('memory')
        parts['sys_safety'].append(
            ('iff', ('bool', 'served', True),
             ('or', goal_next(goal()),
              ('and', ('bool', 'served', False),
               ('not', ('bool', 'park', False))))))
        parts['sys_prog'].append(('bool', 'served', False))
    if xe:
        if ctx.chance(0.5):
            parts['env_prog'].append(
                ctx.pick([('not', ('bool', 'park', False)),
                          ('bool', 'park', False)]))
        if ctx.chance(0.4):
            parts['env_safety'].append(gm.gen_expr(
                ctx, xe, en, depth=1, rich=False, vv=False))
    if ctx.chance(0.25):
        parts['sys_safety'].append(gm.gen_expr(
            ctx, apv + xe, en | an, depth=1, rich=False, vv=False))
    if ctx.chance(0.15):
        parts['sys_safety'].append(('not', goal()) if ctx.chance(0.5)
                                   else ('or', goal(), goal()))
    return xe, xs, parts, comp


def goal_next(f):
    if f[0] == 'not':
        return ('not', goal_next(f[1]))
    return ('bool', f[1], True)


class Run:
    """The plant, its controller, and the specification."""

    def __init__(self, ctx, ab, props, xe, xs, parts, mach):
        self.ctx = ctx
        self.ab = ab
        self.props = props
        self.xe, self.xs, self.parts = xe, xs, parts
        self.E = gm.Game._vals(xe)
        self.mach = mach

    def cell(self, out):
        loc = out['loc']
        try:
            return self.ab.ppp2ts.index(loc)
        except ValueError:
            raise Violation('bad-output', f'no cell {loc!r}')

    def check_place(self, i, x, out, what):
        """The outputs are what is true of the plant state."""
        ctx, ab = self.ctx, self.ab
        mg = hyb.region_margin(ab.ppp.regions[i], x)
        if mg > 1e-4:
            from tulip.abstract import find_controller as fc
            k = fc.find_discrete_state(np.array(x), ab.ppp)
            if k is None or hyb.region_margin(
                    ab.ppp.regions[k], x) < -c07.TOL:
                raise Violation(
                    'find-discrete-state',
                    f'{k} for {x.tolist()} in {i}')
            if not self.overlap and k != i:
                raise Violation(
                    'find-discrete-state',
                    f'{k} for {x.tolist()} that is {mg:.3g} inside {i}')
        val = dict()
        for name, p in self.props.items():
            if name not in out:
                raise Violation('bad-output', f'no {name} in {out}')
            m = hyb.region_margin(p, x)
            val[name] = bool(out[name])
            if abs(m) < 1e-4:
                continue
            if (m > 0) != bool(out[name]):
                raise Violation(
                    'proposition',
                    f'{what}: the controller says {name}={out[name]!r} in '
                    f'cell {i}, the plant is at {x.tolist()} ({m:.4g} '
                    f'inside {name})')
        return val

    def valuation(self, e, ap, out):
        d = dict(e)
        d.update(ap)
        for v in self.xs:
            if v.name not in out:
                raise Violation('bad-output', f'no {v.name} in {out}')
            d[v.name] = bool(out[v.name])
        return d

    def check_formulas(self, kind, d, n=None):
        for f in self.parts[kind]:
            if not gm.ev(f, d, n):
                raise Violation(
                    kind, f'{gm.show(f)} is false: {d} {n or ""}')

    def env_moves(self, d):
        return [e for e in self.E if all(
            gm.ev(f, d, e) for f in self.parts['env_safety'])]


class Machine:
    """The controller as a machine in memory."""

    def __init__(self, mach):
        self.mach = mach
        self.node = 'Sinit'

    def move(self, inputs):
        self.node, out = self.mach.reaction(self.node, inputs)
        return dict(out)

    def restart(self, ctx):
        m = Machine(pickle.loads(pickle.dumps(self.mach)))
        m.node = self.node
        return m

    @property
    def state(self):
        return self.node


class Exported:
    """The controller as generated code."""

    def __init__(self, mach, state=None):
        from tulip import dumpsmach
        self.mach = mach
        ns = dict()
        exec(dumpsmach.python_case(mach, classname='C', start='Sinit'), ns)
        self.obj = ns['C']()
        if state is not None:
            self.obj.state = state

    def move(self, inputs):
        return dict(self.obj.move(**inputs))

    def restart(self, ctx):
        return Exported(self.mach, self.obj.state)

    @property
    def state(self):
        return self.obj.state


def mobile(ctx, dim):
    """A plant that can be moved around its domain."""
    import tulip.hybrid as hybrid
    box = [[0., float(ctx.integer(2, 3))] for _ in range(dim)]
    domain = pc.box2poly(box)
    subs = list()
    pieces = [box]
    if ctx.chance(0.25):
        axis = ctx.choose(dim)
        cut = box[axis][1] * ctx.integer(1, 3) / 4
        pieces = [[list(x) for x in box] for _ in range(2)]
        pieces[0][axis][1] = cut
        pieces[1][axis][0] = cut
    w = ctx.pick([None, 0.05, 0.1])
    for b in pieces:
        umax = hyb.grid(ctx, 0.5, 2.0, 6)
        A = np.eye(dim)
        if ctx.chance(0.3):
            A = A * ctx.pick([0.9, 1.05])
        K = np.array([[hyb.grid(ctx, -0.2, 0.2, 4)] for _ in range(dim)])
        if ctx.chance(0.5):
            K = K * 0
        subs.append(hybrid.LtiSysDyn(
            A=A, B=np.eye(dim), K=K,
            E=None if w is None else np.eye(dim),
            Uset=pc.box2poly([[-umax, umax]] * dim),
            Wset=None if w is None else pc.box2poly([[-w, w]] * dim),
            domain=pc.box2poly(b)))
    if len(subs) == 1:
        return subs[0], domain, box
    return hybrid.PwaSysDyn(subs, domain), domain, box


def gen_init(ctx, ts, comp):
    """Initial cells: those that can reach the component, perhaps others."""
    nodes = sorted(ts.nodes())
    good = sorted(u for u in nodes if any(
        nx.has_path(ts, u, v) for v in comp))
    if ctx.chance(0.15):
        return nodes
    k = ctx.subset(good) or [ctx.pick(sorted(comp))]
    return sorted(k)


def starts(ctx, r, qinit, mach, init):
    """Controller, first inputs, and its first outputs."""
    from tulip import synth
    if qinit == r'\A \A':
        ctx.probe('all-init')
        edges = sorted(
            mach.edges(['Sinit'], data=True), key=lambda e: repr(e[1:]))
        seen = dict()
        for _, v, d in edges:
            key = tuple((x.name, d[x.name]) for x in r.xs) + (d['loc'],)
            seen[key] = d
        # whatever the environment chooses
        ap = r.labels
        want = list()
        for i in init:
            for s in gm.Game._vals(r.xs):
                for e in r.E:
                    d = dict(e)
                    d.update(s)
                    d.update({a: a in ap[i] for a in r.props})
                    if all(gm.ev(f, d) for f in r.parts['env_init']):
                        want.append((i, s, e))
        if not want:
            raise Discard()
        i, s, e = ctx.pick(want)
        out = dict(s)
        out['loc'] = i
        out.update({a: a in ap[i] for a in r.props})
        det = synth.determinize_machine_init(mach, out)
        return det, e, out
    det = synth.determinize_machine_init(mach)
    if qinit == r'\E \E':
        for _, _, d in det.edges(['Sinit'], data=True):
            e = {v.name: d[v.name] for v in r.xe}
            return det, e, None
        raise Violation('initial', 'no initial reaction')
    es = [e for e in r.E if all(
        gm.ev(f, e) for f in r.parts['env_init'])]
    if not es:
        raise Discard()
    return det, ctx.pick(es), None


def react(ctl, e, where):
    try:
        return ctl.move(e)
    except Exception as err:
        raise Violation(
            'no-reaction', f'{where}: {type(err).__name__}: {err}')


def execute(ctx, r, det, e, want, steps, faulty, drive_opts):
    """The closed loop of plant, controller, and environment."""
    ab = r.ab
    ctl = Machine(det)
    if ctx.chance(0.4):
        ctl = Exported(det)
        ctx.probe('exported')
    out = react(ctl, e, f'initial input {e}')
    i = r.cell(out)
    if ab.ppp2ts[i] not in r.init:
        raise Violation('initial', f'cell {i} is not initial: {r.init}')
    if want is not None and any(out[k] != v for k, v in want.items()):
        raise Violation('initial', f'{out} instead of {want}')
    x = hyb.sample(ctx, ab.ppp.regions[i])
    if x is None:
        raise Discard()
    ap = r.check_place(i, x, out, 'initially')
    d = r.valuation(e, ap, out)
    r.check_formulas('sys_init', d)
    goals = r.parts['sys_prog']
    holds = r.parts['env_prog']
    rounds = [set() for _ in goals]  # states at ends of rounds
    pending = set(range(len(holds)))
    cells = {i}
    done = 0
    on_plant = True
    sulk = ctx.chance(0.3)
    for t in range(steps):
        moves = r.env_moves(d)
        if not moves:
            ctx.probe('environment-blocked')
            break
        ctx.tick()
        # a fair environment, though not a kind one
        kind = [m for m in moves if any(
            gm.ev(holds[k], m) for k in pending)]
        if kind and ctx.chance(0.5):
            moves = kind
        elif sulk:
            unkind = [m for m in moves if not any(
                gm.ev(h, m) for h in holds)]
            moves = unkind or moves
        e2 = ctx.pick(moves)
        if ctx.chance(0.06):
            ctx.fault('controller-crash')
            ctx.probe('restart')
            ctl = ctl.restart(ctx)
        if ctx.chance(0.04) and r.xe:
            ctx.fault('invalid-input')
            before = ctl.state
            bad = dict(e2)
            bad[r.xe[0].name] = 7
            try:
                ctl.move(bad)
            except ValueError:
                pass
            else:
                raise Violation('accepted-invalid-input', f'{bad}')
            if ctl.state != before:
                raise Violation('accepted-invalid-input', 'state changed')
        at = f'at {ctl.state} {d}'
        out = react(ctl, e2, f'{at} to {e2}')
        j = r.cell(out)
        if not ab.ts.has_edge(ab.ppp2ts[i], ab.ppp2ts[j]):
            raise Violation('no-transition', f'{i} -> {j} {at}')
        if on_plant:
            y = c07.drive(ctx, ab, i, j, x, drive_opts(i, j), faulty,
                          retry=True)
            if y is None:
                ctx.probe('numerics')
                on_plant = False
            else:
                x = y
                done += 1
                cells.add(j)
                if done >= r.plant_steps:
                    on_plant = False
        if on_plant:
            ap = r.check_place(j, x, out, at)
        else:
            ap = {a: a in r.labels[j] for a in r.props}
            for a in r.props:
                if bool(out[a]) != ap[a]:
                    raise Violation(
                        'proposition', f'{a} is {out[a]!r} in cell {j}')
        n = r.valuation(e2, ap, out)
        r.check_formulas('sys_safety', d, n)
        i, d = j, n
        ctx.state(str(ctl.state), i, tuple(sorted(e2.items())))
        if t % 8 == 0:
            ctx.log(t, str(ctl.state), i, sorted(d.items()))
        # progress
        for k in list(pending):
            if gm.ev(holds[k], d):
                pending.discard(k)
        for k, f in enumerate(goals):
            if gm.ev(f, d):
                rounds[k].clear()
                ctx.probe('goal-reached')
        if not pending:
            pending = set(range(len(holds)))
            # (controller, input) at the end of a round determine the loop
            key = (ctl.state, tuple(sorted(e2.items())))
            for k, f in enumerate(goals):
                if gm.ev(f, d):
                    continue
                if key in rounds[k]:
                    raise Violation(
                        'progress',
                        f'goal {gm.show(f)} was not reached between two '
                        f'visits to {key}, although all assumptions were '
                        'met between them')
                rounds[k].add(key)
                ctx.probe('progress-checked')
    return done, cells


def simulate(ctx, r, det, want, e, qinit, ssys):
    """`simulate2d`, with the plots taken by a stub."""
    from tulip.abstract import plot
    ctx.probe('simulate2d')
    ab = r.ab
    N = ab.disc_params['N']
    T = ctx.integer(1, 6)
    seq = [e]
    log = list()

    class Ctl:
        """Passes calls on, chooses inputs that are allowed."""

        def __init__(self, m):
            self.m = m
            self.edges = m.edges

        def reaction(self, node, inputs):
            n, out = self.m.reaction(node, inputs)
            log.append((node, dict(inputs), n, dict(out)))
            return n, out
    # inputs that the assumptions allow
    node, out = det.reaction('Sinit', e)
    d = r.valuation(e, {a: bool(out[a]) for a in r.props}, out)
    outs = [out]
    for _ in range(T):
        mv = r.env_moves(d)
        if not mv:
            return
        e2 = ctx.pick(mv)
        node, out = det.reaction(node, e2)
        d = r.valuation(e2, {a: bool(out[a]) for a in r.props}, out)
        seq.append(e2)
        outs.append(out)
    curves = dict()

    class Plt:
        def plot(self, v, *a, label=None, **kw):
            curves[label] = list(v)

        def __getattr__(self, name):
            return lambda *a, **kw: None
    kw = dict()
    if qinit == r'\A \A':
        i = r.cell(want)
        x0 = hyb.sample(ctx, ab.ppp.regions[i])
        if x0 is None or hyb.region_margin(ab.ppp.regions[i], x0) < 1e-4:
            return
        for _, v, dd in det.edges('Sinit', data=True):
            if all(dd[k] == w for k, w in want.items()) and all(
                    dd[k] == w for k, w in e.items()):
                kw = dict(d_init=dict(dd), x_init=x0)
        if not kw:
            raise Violation('initial', f'no edge for {want} {e}')
    import matplotlib.pyplot
    from tulip.abstract import find_controller
    points = list()
    find = find_controller.find_discrete_state

    def finder(p, part):
        points.append(np.array(p, dtype=float))
        return find(p, part)
    had_print = plot.__dict__.get('print')
    plot.print = lambda *a, **k: None
    try:
        with core.rebound([(matplotlib.pyplot, Plt()), (find, finder)]):
            plot.simulate2d(
                seq, ssys, Ctl(det), ab, T, qinit=qinit, **kw)
    except Exception as err:
        if points:
            # within the numeric tolerance of a boundary ?
            p = points[-1]
            if all(abs(hyb.region_margin(reg, p)) < 1e-4 or
                   hyb.region_margin(reg, p) < 0
                   for reg in ab.ppp.regions) or any(
                    abs(hyb.region_margin(reg, p)) < 1e-4
                    for reg in ab.ppp.regions):
                ctx.probe('numerics')
                return
        if len(points) > 1:
            # the solver from inner points, as `drive` allows
            if any(len(hyb.polys(reg)) > 1 for reg in ab.ppp.regions):
                ctx.probe('numerics')
                return
        raise Violation(
            'simulate2d', f'{type(err).__name__}: {err} with {seq}, '
            f'{qinit}, {ab.disc_params}')
    finally:
        if had_print is None:
            del plot.print
    xs = np.array([curves['x'], curves['y']]).T
    if len(xs) != T * N + 1:
        raise Violation('simulate2d', f'{len(xs)} points for {T} * {N} steps')
    for a, b in zip(xs, xs[1:]):
        rest = b - ssys.A.dot(a) - ssys.K.flatten()
        u = np.linalg.lstsq(ssys.B, rest, rcond=None)[0]
        if np.abs(ssys.B.dot(u) - rest).max() > 1e-6:
            raise Violation(
                'simulate2d', f'{a} -> {b} is no step of the plant')
        if np.linalg.matrix_rank(ssys.B) == ssys.B.shape[1] and \
                not hyb.input_ok(ssys, a, u, c07.TOL):
            raise Violation('simulate2d', f'{a} -> {b} needs the input {u}')
    for k in range(T + 1):
        r.check_place(r.cell(outs[k]), xs[k * N], outs[k], 'simulate2d')


def check_projection(ctx, ab, mach):
    """Transitions of cells that the controller uses."""
    from tulip.abstract import plot
    m = plot.project_strategy_on_partition(ab.ppp, mach)
    got = {(int(i), int(j)) for i, j in zip(*m.nonzero())}
    at = dict()
    for u, v, d in mach.edges(data=True):
        at.setdefault(v, set()).add(d['loc'])
    want = {(i, d['loc']) for u, _, d in mach.edges(data=True)
            for i in at.get(u, ()) if u != 'Sinit'}
    if got != want:
        raise Violation('projection', f'{sorted(got)} != {sorted(want)}')


def run(ctx):
    from tulip import abstract
    from tulip import spec as _spec
    from tulip import synth
    ctx.component('tulip.abstract, tulip.synth, tulip.spec, tulip.transys, '
                  'tulip.dumpsmach', 'real')
    ctx.component('omega solver', 'real')
    ctx.component('polytope, cvxopt/GLPK', 'real, failures injected')
    ctx.component('plant, disturbance, environment', 'simulated')
    ctx.component('matplotlib', 'stub')
    dual = ctx.chance(0.2)
    with hyb.seeded(ctx, 1000 if dual else 10000):
        dim = ctx.weighted([(1, 1), (1, 2)])
        ssys, domain, box = mobile(ctx, dim) if ctx.chance(0.6) else \
            hyb.gen_plant(ctx, dim)
        ppp, props = hyb.gen_partition(ctx, domain, box)
        vol = np.prod([b - a for a, b in box])
        o = c07.gen_options(ctx, dim, dual)
        o['min_cell_volume'] = vol * ctx.pick(
            [0.4, 0.3, 0.2] if dim == 2 else [0.3, 0.2, 0.1])
        ab = abstract.discretize(ppp, ssys, **o)
        ts = ab.ts
        n = len(ab.ppp.regions)
        pwa = hasattr(ssys, 'list_subsys')
        if n > 24 or not ts.edges():
            raise Discard()
        aps = sorted(props)
        labels = [frozenset(ts.states[ab.ppp2ts[k]]['ap']) for k in range(n)]
        by_state = {ab.ppp2ts[k]: labels[k] for k in range(n)}
        xe, xs, parts, comp = gen_formulas(ctx, aps, by_state, ts)
        init = gen_init(ctx, ts, comp)
        qinit = ctx.pick([r'\E \A', r'\A \E', r'\A \A', r'\E \E'])
        if ctx.chance(0.3) and xe:
            f = gm.gen_expr(ctx, xe, depth=0, rich=False, vv=False)
            parts['env_init' if qinit != r'\E \E' else 'sys_init'].append(f)
        if xs and ctx.chance(0.5):
            parts['env_init' if qinit == r'\A \A' else 'sys_init'].append(
                ('bool', 'served', False))
        ts.states.initial.add_from(init)
        moore, plus_one = ctx.chance(0.5), ctx.chance(0.5)
        style = ctx.choose(4)
        spec = _spec.GRSpec(
            {v.name: v.dom for v in xe}, {v.name: v.dom for v in xs},
            **{k: [gm.show(f, style) for f in v] for k, v in parts.items()})
        spec.moore, spec.plus_one, spec.qinit = moore, plus_one, qinit
        desc = dict(
            dim=dim, plant=hyb.describe(ssys), options=o,
            props={k: [v.A.tolist(), v.b.tolist()]
                   for k, v in props.items()},
            init=init, qinit=qinit, moore=moore, plus_one=plus_one,
            spec={k: [gm.show(f) for f in v] for k, v in parts.items()})
        ctx.sample = desc
        ctx.log(desc)
        g = gm.Game(
            xe, [gm.Var('k', (0, 1), 'sys')], [], [], parts['env_safety'], [],
            [], [], moore, plus_one, r'\A \E')
        free = g.env_never_blocked()
        if plus_one and not free:
            raise Discard()
        # an initial condition that cannot be met is out of scope
        inits = [e for e in gm.Game._vals(xe + xs + [
            gm.Var(a, 'boolean', 'sys') for a in aps])
            if all(gm.ev(f, e) for f in parts['env_init'])
            and (qinit != r'\A \A' or any(
                all(e[a] == (a in by_state[k]) for a in aps)
                for k in init))]
        if not inits:
            raise Discard()
        before = sorted(ts.edges())
        mach = synth.synthesize(
            spec, sys=ts, rm_deadends=free and ctx.chance(0.7))
        if sorted(ts.edges()) != before:
            raise Violation('abstraction-changed', '')
        ctx.log('cells', n, 'edges', len(before), mach is not None)
        if mach is None:
            ctx.probe('unrealizable')
            return
        ctx.probe('realizable')
        disturbed = any(
            hyb.disturbances(s) is not None
            for s in (getattr(ssys, 'list_subsys', None) or [ssys]))
        for name, c in ((o['simu_type'], True), ('pwa', pwa),
                        ('horizon>1', o['N'] > 1), ('disturbed', disturbed),
                        ('open-loop', not o['closed_loop'])):
            if c:
                ctx.probe(name)
        r = Run(ctx, ab, props, xe, xs, parts, mach)
        r.labels = labels
        r.init = init
        r.overlap = dual
        r.plant_steps = ctx.pick([8, 15, 30])

        def drive_opts(i, j):
            return dict(
                ord=ctx.weighted([(4, 1), (1, 2), (1, np.inf)]),
                Q=ctx.pick([None, None, None, 1.0]), R=None,
                mid=ctx.pick([None, None, None, 3]), repeat=False,
                multi=True)
        check_projection(ctx, ab, mach)
        total, cells = 0, set()
        for _ in range(ctx.integer(1, 3)):
            det, e, want = starts(ctx, r, qinit, mach, init)
            faulty = ctx.chance(0.3)
            k, c = execute(
                ctx, r, det, e, want, 120, faulty, drive_opts)
            total += k
            cells |= c
        if dim == 2 and not pwa and not dual and (
                o['N'] == 1 or not o['closed_loop']):
            simulate(ctx, r, det, want, e, qinit, ssys)
        ctx.nontrivial = total >= 5 and len(cells) >= 2
