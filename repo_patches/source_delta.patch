From 674e8c2d537df1b3a6b40b57796ebf9755ae030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:44 +0000
Subject: [PATCH 001/105] fix: restrict variables to their domains in the omega
 interface

omega represents integers by bitfields, so values outside the
declared domains were available to both players: wrong realizability
verdicts, and controllers with values outside the domains.
---
 tulip/interfaces/omega.py | 86 +++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index c595ed0..061d563 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -87,26 +87,43 @@ def is_circular(
     return triv != t.bdd.false
 
 
-def _int_bounds(aut: trl.Automaton):
-    """Create care set for enumeration.
-
-    @rtype:
-        `dd.bdd.Function | dd.cudd.Function`
+def _domain_formulas(
+        aut:
+            trl.Automaton,
+        variables:
+            _abc.Iterable[str]
+        ) -> tuple[
+            list[str],
+            list[str]]:
+    """Return formulas that `variables` are within their domains.
+
+    The first formulas are about the current values,
+    the second formulas about the next (primed) values.
     """
-    int_types = {'int', 'saturating', 'modwrap'}
-    bdd = aut.bdd
-    u = bdd.true
-    for var, d in aut.vars.items():
-        t = d['type']
-        if t == 'bool':
+    now = list()
+    later = list()
+    for var in variables:
+        d = aut.vars[var]
+        if d['type'] == 'bool':
             continue
-        assert t in int_types, t
-        dom = d['dom']
-        p, q = dom
-        e = f'({p} <= {var}) & ({var} <= {q})'
-        v = aut.add_expr(e)
-        u = bdd.apply('and', u, v)
-    return u
+        p, q = d['dom']
+        now.append(
+            f'(({p} <= {var}) & ({var} <= {q}))')
+        later.append(
+            f"(({p} <= {var}') & ({var}' <= {q}))")
+    return now, later
+
+
+def _assume(
+        assumptions:
+            list[str],
+        guarantees:
+            list[str]
+        ) -> list[str]:
+    """Return formulas that `assumptions` imply `guarantees`."""
+    if not assumptions or not guarantees:
+        return guarantees
+    return [f'(({_conj(assumptions)}) => ({_conj(guarantees)}))']
 
 
 def _strategy_to_state_annotated(
@@ -159,10 +176,29 @@ def _grspec_to_automaton(
         env=list(g.env_vars.keys()),
         sys=list(g.sys_vars.keys()))
     f = g._bool_int.__getitem__
-    a.init['env'] = _conj(g.env_init, f)
-    a.init['sys'] = _conj(g.sys_init, f)
-    a.action['env'] = _conj(g.env_safety, f)
-    a.action['sys'] = _conj(g.sys_safety, f)
+    # `omega` represents integers by bitfields, so it
+    # needs to be told about the domains of variables
+    env_dom, env_dom_next = _domain_formulas(a, g.env_vars)
+    sys_dom, sys_dom_next = _domain_formulas(a, g.sys_vars)
+    env_init = [f(s) for s in g.env_init]
+    sys_init = [f(s) for s in g.sys_init]
+    if g.qinit == r'\A \A':
+        # `omega` requires that `init['sys']` be TRUE
+        env_init += env_dom + sys_dom
+    elif g.qinit == r'\E \E':
+        # `omega` requires that `init['env']` be TRUE
+        sys_init += env_dom + sys_dom
+    else:
+        env_init += env_dom
+        sys_init = _assume(env_dom, sys_init) + sys_dom
+    env_action = [f(s) for s in g.env_safety]
+    sys_action = [f(s) for s in g.sys_safety]
+    env_action += env_dom_next
+    sys_action = _assume(env_dom_next, sys_action) + sys_dom_next
+    a.init['env'] = _conj(env_init)
+    a.init['sys'] = _conj(sys_init)
+    a.action['env'] = _conj(env_action)
+    a.action['sys'] = _conj(sys_action)
     if g.env_prog:
         w1 = [f'!({s})' for s in map(f, g.env_prog)]
     else:
@@ -182,10 +218,8 @@ def _grspec_to_automaton(
 
 def _conj(
         strings:
-            _abc.Iterable,
-        f:
-            _abc.Callable
+            _abc.Iterable[str]
         ) -> str:
     if not strings:
         return 'TRUE'
-    return ' & '.join(f(s) for s in strings)
+    return ' & '.join(strings)
-- 
2.43.0


From 34f12bc65f0d3b3177a6a63b4aafe219ad9e127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 002/105] fix: do not raise in the omega interface when the
 system action is unsatisfiable

`synthesize` returns `None` for an unrealizable specification,
and `is_realizable` already returns `False` for these.
---
 tulip/interfaces/omega.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index 061d563..1556528 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -51,7 +51,6 @@ def synthesize_enumerated_streett(
         ) -> nx.DiGraph:
     """Return transducer enumerated as a graph."""
     aut = _grspec_to_automaton(spec)
-    assert aut.action['sys'] != aut.false
     t0 = time.time()
     z, yij, xijk = gr1.solve_streett_game(aut)
     t1 = time.time()
-- 
2.43.0


From 36464bd84c17f467a29bdbaf3e41fe3e817b4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 003/105] fix: synthesize_many with the default value of
 ignore_init

---
 tulip/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 1942325..693187c 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1325,6 +1325,8 @@ def synthesize_many(
         available options.
     """
     assert isinstance(ts, dict), ts
+    if ignore_init is None:
+        ignore_init = set()
     for name, t in ts.items():
         if not isinstance(t, transys.FiniteTransitionSystem):
             raise AssertionError(t)
-- 
2.43.0


From 6b7388caae4e1618f7deae639af6e3586e1dd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 004/105] fix: do not constrain env actions where sys has an
 unlabeled transition

The environment was assumed to take one of the actions that label the
other transitions, so controllers had no reaction to the other actions.
---
 tulip/synth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 693187c..7a85023 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1014,6 +1014,8 @@ def _env_trans_from_sys_ts(
             continue
         # collect possible next env actions
         next_env_action_combs = set()
+        found_free = False
+            # any transition not conditioned on env actions ?
         for from_state, to_state, label in cur_trans:
             env_actions = {
                 k: v
@@ -1021,6 +1023,7 @@ def _env_trans_from_sys_ts(
                     label.items()
                 if 'env' in k}
             if not env_actions:
+                found_free = True
                 continue
             _logger.debug(
                 f'env_actions: {env_actions}')
@@ -1037,6 +1040,9 @@ def _env_trans_from_sys_ts(
         # no next env actions ?
         if not next_env_actions:
             continue
+        # env cannot block sys ?
+        if found_free:
+            continue
         env_trans += [
             f'{precond} -> X({next_env_actions})']
     return env_trans
-- 
2.43.0


From 1120b3bebcfb23736c62f57b439dbfe046860be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 005/105] fix: keep integer states of transition systems within
 the states

With gaps between the integers that are states, other integers
in the domain of the state variable were available too.
---
 tulip/synth.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 7a85023..d814d05 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -434,6 +434,23 @@ def iter2var(
     return state_ids, constraint
 
 
+def _exclude_gaps(
+        states,
+        state_ids:
+            dict
+        ) -> list[str]:
+    """Require a state, if there are other integers between states.
+
+    The domain of the integer variable that represents the state
+    is the interval from the smallest to the largest state.
+    """
+    if not states or not all(isinstance(x, int) for x in states):
+        return list()
+    if max(states) - min(states) + 1 == len(states):
+        return list()
+    return [_disj(state_ids.values())]
+
+
 def _add_actions(
         constraint:
             list[str],
@@ -639,6 +656,9 @@ def sys_to_spec(
         must='xor')
     if constraint is not None:
         sys_trans += constraint
+    gaps = _exclude_gaps(states, state_ids)
+    sys_init += gaps
+    sys_trans += gaps
     sys_init += _sys_init_from_ts(
         states, state_ids, aps, ignore_initial)
     sys_trans += _sys_trans_from_ts(
@@ -759,6 +779,9 @@ def env_to_spec(
         must='xor')
     if constraint is not None:
         env_trans += constraint
+    gaps = _exclude_gaps(states, state_ids)
+    env_init += gaps
+    env_trans += gaps
     env_init += _sys_init_from_ts(
         states, state_ids, aps, ignore_initial)
     env_trans += _env_trans_from_env_ts(
-- 
2.43.0


From 6bc1483b396367e53e194ba6218a945679a0cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 006/105] fix: synthesize_many with qinit '\A \A'

As `synthesize` does, move initial conditions of transition
systems to `env_init`.
---
 tulip/synth.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index d814d05..5b24653 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1365,10 +1365,12 @@ def synthesize_many(
             case 'sys':
                 sys_spec = sys_to_spec(t, ignore, statevar)
                 _copy_options_from_ts(sys_spec, t, specs)
+                _move_sys_init(sys_spec, specs.qinit)
                 specs |= sys_spec
             case 'env':
                 env_spec = env_to_spec(t, ignore, statevar)
                 _copy_options_from_ts(env_spec, t, specs)
+                _move_sys_init(env_spec, specs.qinit)
                 specs |= env_spec
     return _synthesize(
         specs, solver,
@@ -1632,10 +1634,7 @@ def _spec_plus_sys(
             statevar=statevar)
         _copy_options_from_ts(
             sys_formula, sys, specs)
-        if specs.qinit == r'\A \A':
-            sys_formula.env_init.extend(
-                sys_formula.sys_init)
-            sys_formula.sys_init = list()
+        _move_sys_init(sys_formula, specs.qinit)
         specs = specs | sys_formula
         pp_formula = sys_formula.pretty()
         _logger.debug(
@@ -1653,10 +1652,7 @@ def _spec_plus_sys(
         env_formula = env_to_spec(
             env, ignore_env_init,
             statevar=statevar)
-        if specs.qinit == r'\A \A':
-            env_formula.env_init.extend(
-                env_formula.sys_init)
-            env_formula.sys_init = list()
+        _move_sys_init(env_formula, specs.qinit)
         _copy_options_from_ts(env_formula, env, specs)
         specs = specs | env_formula
         _logger.debug(
@@ -1668,6 +1664,19 @@ def _spec_plus_sys(
     return specs
 
 
+def _move_sys_init(
+        ts_spec:
+            _spec.GRSpec,
+        qinit:
+            str
+        ) -> None:
+    r"""Move initial conditions to `env_init`, if `qinit = r'\A \A'`."""
+    if qinit != r'\A \A':
+        return
+    ts_spec.env_init.extend(ts_spec.sys_init)
+    ts_spec.sys_init = list()
+
+
 def _copy_options_from_ts(
         ts_spec,
         ts,
-- 
2.43.0


From b846481d58ad2906473377ffb2d97b92f6b82600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 007/105] fix: interactive_run advances the machine and stops
 on request

---
 tulip/transys/machines.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index aec09b7..d7994ee 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -888,7 +888,8 @@ def interactive_run(
     while True:
         print(
             f'\n Current state: {state}')
-        if _interactive_run_step(mealy, state) is None:
+        state = _interactive_run_step(mealy, state)
+        if state is None:
             break
 
 
@@ -896,7 +897,8 @@ def _interactive_run_step(
         mealy:
             MealyMachine,
         state
-        ) -> bool | None:
+        ):
+    """Return next state, or `None` to stop."""
     if state is None:
         raise Exception('Current state is None')
     # note: the spaghettiness of
@@ -913,7 +915,8 @@ def _interactive_run_step(
     while True:
         try:
             selected_trans = _select_transition(mealy, trans)
-        except:
+            break
+        except (ValueError, IndexError):
             print(
                 'Selection not recognized. '
                 'Please try again.')
@@ -929,7 +932,7 @@ def _interactive_run_step(
         f', to state: {to_state}\n'
         f'given inputs: {inputs}\n'
         f'reacting with outputs: {outputs}')
-    return True
+    return to_state
 
 
 def _select_transition(
-- 
2.43.0


From 21104bfd093e7ea72658bb7c6a0c11860498c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 008/105] fix: mask_outputs does not change a dict while
 iterating over it

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 5b24653..ecc8aa6 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1920,7 +1920,7 @@ def mask_outputs(
         ) -> None:
     """Erase outputs from each edge where they are zero."""
     for _, _, d in machine.edges(data=True):
-        for k in d:
+        for k in list(d):
             pop = (
                 k in machine.outputs and
                 d[k] == 0)
-- 
2.43.0


From ba9e35e94d760765554804af577bb25b92b97260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 009/105] fix: python_case for machines without inputs and
 values with quotes

---
 tulip/dumpsmach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 59a149e..020b16a 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -85,7 +85,7 @@ def python_case(
     node_to_int = dict([(s, i) for i, s in enumerate(M)])
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
-    input_args_str = "'"+"', '".join(input_vars)+"'"
+    input_args_str = ', '.join(map(repr, input_vars))
     code = (
         'class {classname}:\n'
         '{t}"""Mealy transducer.\n'
@@ -124,7 +124,7 @@ def python_case(
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
     proj = lambda d, keys: ((k, d[k]) for k in d if k in keys)
-    proj = lambda d, keys: ((k, "'"+d[k]+"'" if isinstance(d[k], str) else d[k])
+    proj = lambda d, keys: ((k, repr(d[k]) if isinstance(d[k], str) else d[k])
                             for k in d if k in keys)
     # generate selection statements
     c = list()
-- 
2.43.0


From 3b4840f285a9cdbab38d1910e600f04759f094fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 010/105] fix: controllers with variables named u or v

---
 tulip/synth.py            | 13 +++++--------
 tulip/transys/machines.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index ecc8aa6..aa5676b 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1752,9 +1752,8 @@ def strategy2mealy(
             d = _int2str(d, str_vars)
             mach.transitions.add(
                 u, v,
-                attr_dict=None,
-                check=False,
-                **d)
+                attr_dict=d,
+                check=False)
             _logger.info(
                 f'node: {v}, state: {d}')
     # special initial state, for first reaction
@@ -1822,8 +1821,7 @@ def _init_edges_using_initial_nodes(
         d = _int2str(d, str_vars)
         mach.transitions.add(
             initial_state, u,
-            attr_dict=None,
-            **d)
+            attr_dict=d)
 
 
 def _init_edges_using_compile_init(
@@ -1863,9 +1861,8 @@ def _init_edges_using_compile_init(
             label = _int2str(var_values, str_vars)
             mach.transitions.add(
                 initial_state, u,
-                attr_dict=None,
-                check=False,
-                **label)
+                attr_dict=label,
+                check=False)
             # remember variable values to avoid
             # spurious non-determinism wrt
             # the machine's memory
diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index d7994ee..e40595e 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -1214,5 +1214,5 @@ def strip_ports(
     edges = mealy.edges(data=True)
     for u, v, d in edges:
         d = trim_dict(d, names)
-        new.add_edge(u, v, **d)
+        new.add_edge(u, v, attr_dict=d)
     return new
-- 
2.43.0


From 1559cbcb3dfe38d87b69c2dbc6dd038f9e00079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 011/105] fix: get_input tries every target polytope and keeps
 its arguments

Transitions were not found with `mid_weight=0` and given costs,
the caller's cost matrices were changed, and a failed QP for one
polytope of the target ended the search.
---
 tulip/abstract/find_controller.py | 87 ++++++++++++++-----------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index c31ca6b..6a01e1b 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -336,62 +336,53 @@ def get_input(
                 '`conservative = False` argument requires '
                 'that original regions be convex')
     if len(P_end) > 0:
-        low_cost = np.inf
-        low_u = np.zeros([N, m])
-        # for each polytope in target region
-        for P3 in P_end:
-            cost = np.inf
-            if mid_weight > 0:
-                rc, xc = pc.cheby_ball(P3)
-                R[
-                    np.ix_(
-                        range(n * (N - 1), n * N),
-                        range(n * (N - 1), n * N)
-                    )
-                ] += mid_weight * np.eye(n)
-                r[idx, 0] += -mid_weight * xc
-                try:
-                    u, cost = get_input_helper(
-                        x0, ssys, P1, P3, N, R, r, Q, ord,
-                        closed_loop=closed_loop,
-                        solver=solver)
-                except _InputHelperLPException as ex:
-                    # The end state might consist of several polytopes.
-                    # For some of them there might not be a control action that
-                    # brings the system there. In that case the matrix
-                    # constructed by get_input_helper will be singular and the
-                    # LP solver cannot return a solution.
-                    # This is not a problem unless all polytopes in the end
-                    # region are unreachable, in which case it seems likely that
-                    # there is something wrong with the abstraction routine.
-                    _logger.info(repr(ex))
-                    _logger.info(
-                        'Failed to find control action from continuous '
-                        f'state {x0} in discrete state {start} '
-                        f'to a target polytope in the discrete state {end}.\n'
-                        f'Target polytope:\n{P3}')
-                r[idx, 0] += mid_weight * xc
-            if cost < low_cost:
-                low_u = u
-                low_cost = cost
-        if low_cost == np.inf:
-            raise Exception(
-                'Did not find any trajectory')
+        targets = list(P_end)
     else:
-        P3 = P_end
+        targets = [P_end]
+    low_cost = np.inf
+    low_u = None
+    # for each polytope in target region
+    for P3 in targets:
+        R_mid = R.copy()
+        r_mid = r.astype(float)
         if mid_weight > 0:
             rc, xc = pc.cheby_ball(P3)
-            R[
+            R_mid[
                 np.ix_(
                     range(n * (N - 1), n * N),
                     range(n * (N - 1), n * N)
                 )
             ] += mid_weight * np.eye(n)
-            r[idx, 0] += -mid_weight * xc
-        low_u, cost = get_input_helper(
-            x0, ssys, P1, P3, N, R, r, Q, ord,
-            closed_loop=closed_loop,
-            solver=solver)
+            r_mid[idx, 0] += -mid_weight * xc
+        try:
+            u, cost = get_input_helper(
+                x0, ssys, P1, P3, N, R_mid, r_mid, Q, ord,
+                closed_loop=closed_loop,
+                solver=solver)
+        except (
+                _InputHelperLPException,
+                _InputHelperQPException) as ex:
+            # The end state might consist of several polytopes.
+            # For some of them there might not be a control action that
+            # brings the system there. In that case the matrix
+            # constructed by get_input_helper will be singular and the
+            # solver cannot return a solution.
+            # This is not a problem unless all polytopes in the end
+            # region are unreachable, in which case it seems likely that
+            # there is something wrong with the abstraction routine.
+            _logger.info(repr(ex))
+            _logger.info(
+                'Failed to find control action from continuous '
+                f'state {x0} in discrete state {start} '
+                f'to a target polytope in the discrete state {end}.\n'
+                f'Target polytope:\n{P3}')
+            continue
+        if cost < low_cost:
+            low_u = u
+            low_cost = cost
+    if low_u is None:
+        raise Exception(
+            'Did not find any trajectory')
     return low_u
 
 
-- 
2.43.0


From 86d4d5dd26474b77bc536e8587e5030f854181d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 012/105] fix: dual simulation of PWA systems and with
 remove_trans; get_input stays in the active subsystem

`_discretize_dual` did not keep track of the subsystems of new cells,
and indexed the transition matrix before extending it.
`get_input` constrained trajectories to the region of the original
partition, where another subsystem may be active, and which may be
nonconvex, instead of the convex cell used by `discretize`.
---
 tulip/abstract/discretization.py  | 10 ++++++----
 tulip/abstract/find_controller.py | 13 ++++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index f707a55..09160de 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1454,9 +1454,15 @@ def _discretize_dual(
                 adj[new_idx, new_idx] = 1
                 if not conservative:
                     orig = np.hstack([orig, orig[i]])
+                if ispwa:
+                    subsys_list.append(subsys_list[i])
                 if _logger.getEffectiveLevel() <= logging.DEBUG:
                     _logger.debug(
                         f'\t\n Adding states {new_idx}\n')
+                transitions = np.pad(
+                    transitions,
+                    (0, 1),
+                    'constant')
                 for k in np.setdiff1d(old_adj, [i,n_cells-1]):
                     # Every "old" neighbor must be the neighbor
                     # of at least one of the new
@@ -1469,10 +1475,6 @@ def _discretize_dual(
                         transitions[new_idx, k] = 0
                         transitions[k, new_idx] = 0
                 # Update transition matrix
-                transitions = np.pad(
-                    transitions,
-                    (0, 1),
-                    'constant')
                 adj_k = reachable_within(trans_length, adj, adj)
                 # transitions `i` ---> `k` for `k` is
                 # neighbor of `new_idx` should be
diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 6a01e1b..7ab98a2 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -250,8 +250,10 @@ def get_input(
     part = abstraction.ppp
     regions = part.regions
     ofts = abstraction.ts
-    original_regions = abstraction.orig_ppp
-    orig = abstraction._ppp2orig
+    # convex cells used as `trans_set` by the abstraction,
+    # within which the same subsystem is active
+    original_regions = abstraction.pwa_ppp
+    orig = abstraction._ppp2pwa
     params = abstraction.disc_params
     N = params['N']  # horizon length
     conservative = params['conservative']
@@ -522,7 +524,12 @@ def get_input_helper(
             raise Exception(
                 'solver specified, '
                 'but only `None` is allowed for `ord = 2`')
-        sol = _cvx.solvers.qp(P, q, G, h)
+        try:
+            sol = _cvx.solvers.qp(P, q, G, h)
+        except (ArithmeticError, ValueError) as ex:
+            # can happen for infeasible problems
+            raise _InputHelperQPException(
+                'QP solver failed') from ex
         if sol['status'] != "optimal":
             raise _InputHelperQPException(
                 'QP solver finished with status ' +
-- 
2.43.0


From a598fc436626ff8b41ae7614cbbaed1d8a358f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 013/105] fix: conservative abstraction rechecks transitions of
 a refined cell

With `conservative=True` and `N > 1` trajectories have to remain within
the starting cell, so a transition of a cell that is then divided need
not be a transition of its pieces.
---
 tulip/abstract/discretization.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 09160de..1b95426 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -975,9 +975,13 @@ def _discretize_bi(
                 # except possibly the new part
                 transitions[i, r] = 0
                 transitions[j, r] = 0
+            if conservative and N > 1:
+                # intermediate states have to be in
+                # the smaller cell, so check again
+                transitions[:, i] = 0
             # `sol[j]` is reachable from
             # intersection of `sol[i]` and `S0`
-            if i != j:
+            elif i != j:
                 transitions[j, i] = 1
                 # `sol[j]` is reachable from
                 # each piece of `S0 \cap sol[i]`
@@ -1430,7 +1434,8 @@ def _discretize_dual(
                     _logger.info(
                         f'Found: {idx} ---> {j} '
                         'intersection exists.\n')
-                    transitions[j, idx] = 1
+                    if not (conservative and N > 1):
+                        transitions[j, idx] = 1
                     check_isect = True
             if not check_isect:
                 # Make sure new areas are Regions
@@ -1479,14 +1484,17 @@ def _discretize_dual(
                 # transitions `i` ---> `k` for `k` is
                 # neighbor of `new_idx` should be
                 # kept by `new_idx`
-                transitions[:, new_idx
-                    ] = np.multiply(
-                        transitions[:, i],
-                        adj_k[:, i])
-                # if `j` and `new_idx` are neighbors,
-                # then add `new_idx` ---> `j`
-                if adj_k[j, new_idx] != 0:
-                    transitions[j, new_idx] = 1
+                # (unless intermediate states have to
+                # be in the smaller cell)
+                if not (conservative and N > 1):
+                    transitions[:, new_idx
+                        ] = np.multiply(
+                            transitions[:, i],
+                            adj_k[:, i])
+                    # if `j` and `new_idx` are neighbors,
+                    # then add `new_idx` ---> `j`
+                    if adj_k[j, new_idx] != 0:
+                        transitions[j, new_idx] = 1
                 #
                 # Update IJ matrix
                 IJ = np.pad(IJ, (0, 1), 'constant')
-- 
2.43.0


From fa675ddfe64ce335facfd04d15efe66582f8eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:14 +0000
Subject: [PATCH 014/105] fix: dual simulation measures the unreached part of a
 cell; unreachable target pieces

`_discretize_dual` subtracted two randomised estimates of volumes,
and so reported transitions that do not exist.
`get_input` failed with a `ValueError` when one polytope of
the target is unreachable in the closed-loop computation.
---
 tulip/abstract/discretization.py  | 6 +++---
 tulip/abstract/find_controller.py | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 1b95426..ebedb2a 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1399,9 +1399,9 @@ def _discretize_dual(
         risect, xi = pc.cheby_ball(isect)
         # _logger.debug(r'si \ s0')
         rsi, xd = pc.cheby_ball(si)
-        vol2 = si.volume - vol1
-            # not accurate.
-            # need to check polytope class
+        # _logger.debug(r'si \ s0')
+        diff = si.diff(S0)
+        vol2 = diff.volume
         if vol1 <= min_cell_volume:
             _logger.warning(
                 '\t too small: si \\cap Pre(sj), '
diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 7ab98a2..f5904b6 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -442,6 +442,9 @@ def get_input_helper(
                 P1, temp_part, ssys, N=1,
                 closed_loop=False, trans_set=P1
             )
+            if not pc.is_fulldim(temp_part):
+                raise _InputHelperLPException(
+                    'target is unreachable')
             list_P.insert(0, temp_part)
         list_P.insert(0, P1)
         L, M = _fsb.createLM(ssys, N, list_P, disturbance_ind=[1])
-- 
2.43.0


From a769639a6057cd0a0b5d3759b064056554513363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 015/105] fix: do not report transitions from cells with a thin
 unreached part

The volume of the unreached part is a randomised estimate, which can
be 0 for a thin polytope.
---
 tulip/abstract/discretization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index ebedb2a..f68a8c5 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -70,6 +70,9 @@ __all__ = [
 
 _logger = logging.getLogger(__name__)
 debug = False
+_RADIUS_TOL = 1e-5
+    # maximum Chebyshev radius of
+    # an "empty" polytope
 Polytope = (
     pc.Polytope |
     pc.Region)
@@ -1055,7 +1058,9 @@ def _discretize_bi(
                     f'\n\n Updated trans: \n{transitions}'
                     f'\n\n Updated IJ: \n{IJ}')
             _logger.info(f'Divided region: {i}\n')
-        elif vol2 < abs_tol:
+        elif vol2 < abs_tol and rdiff < _RADIUS_TOL:
+            # the estimate of the volume can be 0
+            # also if `diff` is nonempty but thin
             _logger.info(f'Found: {i} ---> {j}\n')
             transitions[j, i] = 1
         else:
@@ -1402,6 +1407,7 @@ def _discretize_dual(
         # _logger.debug(r'si \ s0')
         diff = si.diff(S0)
         vol2 = diff.volume
+        rdiff, _ = pc.cheby_ball(diff)
         if vol1 <= min_cell_volume:
             _logger.warning(
                 '\t too small: si \\cap Pre(sj), '
@@ -1506,7 +1512,9 @@ def _discretize_dual(
                         f'\n\n Updated trans: \n{transitions}'
                         f'\n\n Updated IJ: \n{IJ}')
                 _logger.info(f'Divided region: {i}\n')
-        elif vol2 < abs_tol:
+        elif vol2 < abs_tol and rdiff < _RADIUS_TOL:
+            # the estimate of the volume can be 0
+            # also if `diff` is nonempty but thin
             _logger.info(f'Found: {i} ---> {j}\n')
             transitions[j, i] = 1
         else:
-- 
2.43.0


From d6c680ce77f9dfbf4f53bfe7d9275bdc7eab7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 016/105] fix: parameters of switched discretization, in
 parallel and by default

---
 tulip/abstract/discretization.py | 36 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index f68a8c5..f1e9772 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1829,6 +1829,8 @@ def multiproc_discretize_switched(
     _logger.info('parallel `discretize_switched` started')
     modes = list(hybrid_sys.modes)
     mode_nums = hybrid_sys.disc_domain_size
+    if disc_params is None:
+        disc_params = _default_disc_params(modes)
     q = mp.Queue()
     mode_args = dict()
     for mode in modes:
@@ -1858,7 +1860,7 @@ def multiproc_discretize_switched(
     # find feasible transitions over merged partition
     for mode in modes:
         cont_dyn = hybrid_sys.dynamics[mode]
-        params = disc_params[mode]
+        params = _transition_params(disc_params[mode])
         mode_args[mode] = (
             q, merged_abstr, mode, cont_dyn, params)
     jobs = [
@@ -1915,10 +1917,10 @@ def discretize_switched(
         abstracted dynamics,
         some attributes are `dict` keyed by mode
     """
-    if disc_params is None:
-        disc_params = dict(N=1, trans_length=1)
     _logger.info('discretizing hybrid system')
     modes = list(hybrid_sys.modes)
+    if disc_params is None:
+        disc_params = _default_disc_params(modes)
     mode_nums = hybrid_sys.disc_domain_size
     # discretize each abstraction separately
     abstractions = dict()
@@ -1940,11 +1942,9 @@ def discretize_switched(
     trans = dict()
     for mode in modes:
         cont_dyn = hybrid_sys.dynamics[mode]
-        params = disc_params[mode]
+        params = _transition_params(disc_params[mode])
         trans[mode] = get_transitions(
-            merged_abstr, mode, cont_dyn,
-            N=params['N'],
-            trans_length=params['trans_length'])
+            merged_abstr, mode, cont_dyn, **params)
     # merge the abstractions, creating a common TS
     merge_abstractions(
         merged_abstr, trans,
@@ -1955,6 +1955,28 @@ def discretize_switched(
     return merged_abstr
 
 
+def _default_disc_params(
+        modes:
+            list
+        ) -> dict[..., dict]:
+    """Return discretization parameters for each mode."""
+    return {
+        mode: dict(N=1, trans_length=1)
+        for mode in modes}
+
+
+def _transition_params(
+        disc_params:
+            dict
+        ) -> dict:
+    """Return those parameters that `get_transitions` takes."""
+    names = ('N', 'closed_loop', 'trans_length')
+    return {
+        name: disc_params[name]
+        for name in names
+        if name in disc_params}
+
+
 def plot_mode_partitions(
         swab:
             AbstractSwitched,
-- 
2.43.0


From 8775433e1a110bf8ec0d562882805a19054bc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 017/105] fix: parallel discretization raises when a worker
 fails

---
 tulip/abstract/discretization.py | 58 +++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index f1e9772..a20ac3a 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -41,6 +41,7 @@ import logging
 import multiprocessing as mp
 import os
 import pprint
+import queue
 import typing as _ty
 import warnings
 
@@ -1807,6 +1808,44 @@ def multiproc_get_transitions(
     print(f'Worker: {name} finished.')
 
 
+def _collect_results(
+        q:
+            mp.Queue,
+        jobs:
+            list[mp.Process]
+        ) -> dict:
+    """Return what each of `jobs` puts in `q`, keyed by mode.
+
+    Raises `RuntimeError` if any worker ends
+    without having sent its result.
+    """
+    results = dict()
+    while len(results) < len(jobs):
+        # read before checking the queue, because
+        # workers end after their results are in the queue
+        exit_codes = [job.exitcode for job in jobs]
+        # flush before join:
+        #   <http://stackoverflow.com/questions/19071529/>
+        try:
+            mode, result = q.get(timeout=1)
+        except queue.Empty:
+            pass
+        else:
+            results[mode] = result
+            continue
+        failed = any(exit_codes)
+        all_ended = None not in exit_codes
+        if failed or all_ended:
+            for job in jobs:
+                job.terminate()
+            raise RuntimeError(
+                'workers ended without a result, '
+                f'exit codes: {exit_codes}')
+    for job in jobs:
+        job.join()
+    return results
+
+
 def multiproc_discretize_switched(
         ppp:
             PPP,
@@ -1845,14 +1884,12 @@ def multiproc_discretize_switched(
         for args in mode_args.values()]
     for job in jobs:
         job.start()
-    # flush before join:
-    #   <http://stackoverflow.com/questions/19071529/>
-    abstractions = dict()
-    for job in jobs:
-        mode, absys = q.get()
-        abstractions[mode] = absys
-    for job in jobs:
-        job.join()
+    results = _collect_results(q, jobs)
+    # in the order of modes,
+    # regardless of the order of arrival
+    abstractions = {
+        mode: results[mode]
+        for mode in modes}
     # merge their domains
     merged_abstr, ap_labeling = merge_partitions(abstractions)
     n = len(merged_abstr.ppp)
@@ -1870,10 +1907,7 @@ def multiproc_discretize_switched(
         for args in mode_args.values()]
     for job in jobs:
         job.start()
-    trans = dict()
-    for job in jobs:
-        mode, t = q.get()
-        trans[mode] = t
+    trans = _collect_results(q, jobs)
     # merge the abstractions, creating a common TS
     merge_abstractions(
         merged_abstr, trans,
-- 
2.43.0


From db43c597c6e32e287ec6d09a261bf75f25b2d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 018/105] fix: abstractions of switched systems with mode
 labels that are not strings

---
 tulip/abstract/discretization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index a20ac3a..e864326 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -221,8 +221,8 @@ class AbstractSwitched:
             for mode in self.modes:
                 env_mode, sys_mode = mode
                 edge_label = dict(
-                    env_actions=env_mode,
-                    sys_actions=sys_mode)
+                    env_actions=str(env_mode),
+                    sys_actions=str(sys_mode))
                 ax = _plot_abstraction(
                     self,
                     show_ts=False,
@@ -2099,7 +2099,6 @@ def merge_abstractions(
                 env_actions=str(e),
                 sys_actions=str(s))
             for e, s in modes}
-        env_actions, sys_actions = zip(*modes)
         sys_ts.env_actions.add_from(env_actions)
         sys_ts.sys_actions.add_from(sys_actions)
     for mode in modes:
-- 
2.43.0


From 72974330e3a793e89a2dba62e98a5aa0adbea2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 019/105] fix: merge conservative and open-loop abstractions of
 switched systems

---
 tulip/abstract/discretization.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index e864326..4bcdec3 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -775,7 +775,7 @@ def _discretize_bi(
     # Save original polytopes, require them to be convex
     if conservative:
         orig_list = None
-        orig = [0]
+        orig = list(range(len(part)))
     else:
         part, new2old = _p2p.part2convex(part) # convexify
         part2orig = [part2orig[i] for i in new2old]
@@ -1006,8 +1006,7 @@ def _discretize_bi(
                 adj[i, r] = 1
                 adj[r, i] = 1
                 adj[r, r] = 1
-                if not conservative:
-                    orig = np.hstack([orig, orig[i]])
+                orig = np.hstack([orig, orig[i]])
             # adjacency between pieces of `isect` and `diff`
             for r in new_idx:
                 for k in new_idx:
@@ -1296,7 +1295,7 @@ def _discretize_dual(
     # Save original polytopes, require them to be convex
     if conservative:
         orig_list = None
-        orig = [0]
+        orig = list(range(len(part)))
     else:
         part, new2old = _p2p.part2convex(part)  # convexify
         part2orig = [part2orig[i] for i in new2old]
@@ -1464,8 +1463,7 @@ def _discretize_dual(
                 adj[i, new_idx] = 1
                 adj[new_idx, i] = 1
                 adj[new_idx, new_idx] = 1
-                if not conservative:
-                    orig = np.hstack([orig, orig[i]])
+                orig = np.hstack([orig, orig[i]])
                 if ispwa:
                     subsys_list.append(subsys_list[i])
                 if _logger.getEffectiveLevel() <= logging.DEBUG:
@@ -2157,8 +2155,16 @@ def get_transitions(
         _logger.debug(f'checking transition: {i} -> {j}')
         si = part[i]
         sj = part[j]
-        # Use original cell as trans_set
-        trans_set = abstract_sys.ppp2pwa(mode, i)[1]
+        mode_params = abstract_sys.modes[mode].disc_params
+        if mode_params.get('conservative', False):
+            # Don't use trans_set
+            trans_set = None
+        else:
+            # Use original cell as trans_set
+            trans_set = abstract_sys.ppp2pwa(mode, i)[1]
+            if len(trans_set) == 1:
+                # convex
+                trans_set = trans_set[0]
         active_subsystem = abstract_sys.ppp2sys(mode, i)[1]
         trans_feasible = _fsb.is_feasible(
             si, sj, active_subsystem, N,
-- 
2.43.0


From 1534b55de33ec5664f92f4931c123bad902bbb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 020/105] fix: parents of overlapping regions in merged
 partitions

---
 tulip/abstract/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 4bcdec3..63f543d 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2367,7 +2367,7 @@ def merge_partition_pair(
             # label the Region with propositions
             isect.props = old_regions[i].props.copy()
             new_list.append(isect)
-            idx = new_list.index(isect)
+            idx = len(new_list) - 1
             # keep track of parents
             for mode in prev_modes:
                 parents[mode][idx] = old_parents[mode][i]
-- 
2.43.0


From fd492d7831d5419f40cbae1a0ea1b499c07dbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 021/105] fix: forward and backward reachable states of a graph

---
 tulip/transys/labeled_graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index eae44ab..299a8a6 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -276,7 +276,7 @@ class States:
 
         Wrapper of `networkx.descendants()`.
         """
-        return nx.descendants(self, state)
+        return nx.descendants(self.graph, state)
 
     def backward_reachable(
             self,
@@ -286,7 +286,7 @@ class States:
 
         Wrapper of `networkx.ancestors()`.
         """
-        return nx.ancestors(self, state)
+        return nx.ancestors(self.graph, state)
 
     def paint(
             self,
-- 
2.43.0


From cf6e7ae3d8331d6110cdb3677a5a90dca3eaade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 022/105] fix: type-check label assignment, and graph
 consistency

---
 tulip/transys/labeled_graphs.py | 16 ++++++++++++++++
 tulip/transys/mathset.py        | 11 ++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 299a8a6..6ebec67 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -32,6 +32,7 @@
 """Base classes for labeled directed graphs"""
 import collections.abc as _abc
 import copy
+import functools
 import logging
 import os
 import pprint as _pp
@@ -59,6 +60,16 @@ FileFormat = _ty.Literal[
 DotRankdir = graph2dot.DotRankdir
 
 
+def _typed_dict(
+        types:
+            dict
+        ) -> _mset.TypedDict:
+    """Return empty `TypedDict` with given `types`."""
+    typed_dict = _mset.TypedDict()
+    typed_dict.set_types(types)
+    return typed_dict
+
+
 def label_is_desired(
         attr_dict:
             dict,
@@ -954,6 +965,11 @@ class LabeledDiGraph(
         self._node_label_types = self._state_label_def
         self._edge_label_types = self._transition_label_def
         nx.MultiDiGraph.__init__(self)
+        # label assignments are type-checked
+        self.node_attr_dict_factory = functools.partial(
+            _typed_dict, self._node_label_types)
+        self.edge_attr_dict_factory = functools.partial(
+            _typed_dict, self._edge_label_types)
         self.states = States(self)
         # todo: handle accepting states separately
         self.transitions = Transitions(
diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 7c86332..3f14878 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -1019,8 +1019,13 @@ class TypedDict(
         Use case: changing the object that allowed_values
         points to can invalidate the assigned values.
         """
-        for k, v in self:
-            if k in self.allowed_values:
-                if v not in self.allowed_values[k]:
+        for k, v in self.items():
+            values = self.allowed_values.get(k)
+            if values is None:
+                continue
+            try:
+                if v not in values:
                     return False
+            except Exception:
+                return False
         return True
-- 
2.43.0


From d94d028a8282452020d09a2217c93c5a358c7a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 023/105] fix: do not modify label arguments of graph methods

---
 tulip/transys/labeled_graphs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 6ebec67..119abe2 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -390,6 +390,7 @@ class States:
             with_attr_dict = with_attr
         else:
             try:
+                with_attr_dict = with_attr_dict.copy()
                 with_attr_dict.update(with_attr)
             except AttributeError as error:
                 raise TypeError(
@@ -734,6 +735,7 @@ class Transitions:
         if with_attr_dict is None:
             with_attr_dict = with_attr
         try:
+            with_attr_dict = with_attr_dict.copy()
             with_attr_dict.update(with_attr)
         except:
             raise TypeError(
@@ -1118,6 +1120,8 @@ class LabeledDiGraph(
         if attr_dict is None:
             return attr
         try:
+            # the caller's `dict` remains unchanged
+            attr_dict = attr_dict.copy()
             attr_dict.update(attr)
             return attr_dict
         except AttributeError as error:
-- 
2.43.0


From 777b0b53d36dddcedb3dfa3ef1adc440208ba457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 024/105] fix: duplicate labeled edges, and key of first edge

---
 tulip/transys/labeled_graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 119abe2..0dba484 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1267,7 +1267,7 @@ class LabeledDiGraph(
                 f'where:\t from_state = {u}\n'
                 f'and:\t to_state = {v}\n')
         # check if same labeled transition exists
-        if attr_dict in existing_u_v.values():
+        if typed_attr in existing_u_v.values():
             _logger.warning(
                 'Same labeled transition:\n'
                 'from_state---[label]---> to_state\n'
@@ -1297,7 +1297,7 @@ class LabeledDiGraph(
             # selfloops work this way
             # without special treatment
             nx.MultiDiGraph.add_edge(
-                self, u, v,
+                self, u, v, key,
                 **typed_attr)
 
     def add_edges_from(
-- 
2.43.0


From d6dd8d93cda648723aa3760989ac1a85c6bb1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 025/105] fix: remove all transitions between two states

---
 tulip/transys/labeled_graphs.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 0dba484..270df5d 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -581,6 +581,10 @@ class Transitions:
 
         Wraps `LabeledDiGraph.remove_labeled_edge()`.
         """
+        if attr_dict is None and not attr:
+            self.graph.remove_labeled_edges_from(
+                [(from_state, to_state)])
+            return
         self.graph.remove_labeled_edge(
             from_state, to_state, attr_dict,
             **attr)
@@ -1428,6 +1432,15 @@ class LabeledDiGraph(
                     datadict.update(dd)
                 case 2:
                     u, v = e
+                    if not datadict:
+                        # regardless of label
+                        keys = self.get_edge_data(
+                            u, v, default=dict())
+                        for key in list(keys):
+                            self.remove_edge(
+                                u, v,
+                                key=key)
+                        continue
                 case _:
                         raise ValueError(
                             f'Edge tuple {e} must '
-- 
2.43.0


From baa99108a65be83f8c3e2b1874a55c7b3120105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 026/105] fix: transitions from adjacency matrix and `dict` of
 states

---
 tulip/transys/labeled_graphs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 270df5d..a429cda 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -650,7 +650,11 @@ class Transitions:
                 'Adjacency matrix must be square.')
         # check states exist,
         # before adding any transitions
-        for state in adj2states:
+        if isinstance(adj2states, dict):
+            states = adj2states.values()
+        else:
+            states = adj2states
+        for state in states:
             if state in self.graph:
                 continue
             raise ValueError(
-- 
2.43.0


From 8d652bc2262e527d682b7d51a5f5b4d854954ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 027/105] fix: `add_initial_states` for given labels

---
 tulip/transys/transys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 7e347f6..c5b043e 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1004,7 +1004,10 @@ def add_initial_states(
         `ts.atomic_propositions`)
     """
     for label in ap_labels:
-        new_init_states = ts.states.find(ap='label')
+        new_init_states = {
+            state
+            for state, _ in
+                ts.states.find(ap=label)}
         ts.states.initial |= new_init_states
 
 
-- 
2.43.0


From ac0c644d3eb15213d4a1e430d1d82eacb870fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 028/105] fix: transition systems from tuples and label
 sequences

---
 tulip/transys/transys.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index c5b043e..9e1dea9 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -787,6 +787,9 @@ def tuple2fts(
             state_label_pairs = False
         if state_labeling[0] is None:
             state_label_pairs = False
+        # label with two propositions ?
+        if isinstance(state_labeling[0], _abc.Set):
+            state_label_pairs = False
         try:
             state, ap_label = state_labeling[0]
         except:
@@ -805,7 +808,7 @@ def tuple2fts(
             'States `S` must be iterable, '
             'even for single state.')
     # convention
-    if not isinstance(S0, _abc.Iterable | str):
+    if isinstance(S0, str) or not isinstance(S0, _abc.Iterable):
         S0 = [S0]
     # comprehensive names
     states = S
@@ -837,7 +840,8 @@ def tuple2fts(
         for state, ap_label in state_labeling:
             if ap_label is None:
                 ap_label = set()
-            state = f'{prepend_str}{state}'
+            state, = _graphs.prepend_with(
+                [state], prepend_str)
             _logger.debug(
                 f'Labeling state:\n\t{state}\n'
                 f'with label:\n\t{ap_label}\n')
@@ -853,7 +857,7 @@ def tuple2fts(
                 f'\t{from_state} ---> {to_state}\n')
             ts.transitions.add(from_state, to_state)
     else:
-        ts.actions |= actions
+        ts.sys_actions |= actions
         for from_state, to_state, act in transitions:
             from_state, to_state = _graphs.prepend_with(
                 [from_state, to_state],
@@ -863,7 +867,7 @@ def tuple2fts(
                 f'{from_state} ---[{act}]---> {to_state}\n')
             ts.transitions.add(
                 from_state, to_state,
-                actions=act)
+                sys_actions=act)
     return ts
 
 
@@ -912,6 +916,9 @@ def line_labeled_with(
           - s_{i} ---> s_{i+1}, for: 0 <= i < N
     """
     n = len(L)
+    L = [
+        {ap} if isinstance(ap, str) else ap
+        for ap in L]
     S = range(m, m + n)
     S0 = list()
         # user will define them
-- 
2.43.0


From b35c012bf220d0e0ef5413fcc4c4dc240d0ac2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 029/105] fix: instantiate `LabeledGameGraph`

---
 tulip/transys/transys.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 9e1dea9..ca61c6b 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1067,13 +1067,13 @@ class GameGraph(
             edge_label_types:
                 list[
                     dict[str, ...]]):
-        node_label_types.append(dict(
+        node_label_types = node_label_types + [dict(
             name=
                 'player',
             values=
                 {0, 1},
             default=
-                0))
+                0)]
         super().__init__(
             node_label_types,
             edge_label_types)
@@ -1139,7 +1139,9 @@ class LabeledGameGraph(
                 ap_labels.math_set,
             default=
                 set())]
-        super().__init__(node_label_types)
+        super().__init__(
+            node_label_types,
+            edge_label_types=list())
         self.atomic_propositions = self.ap
         # dot formatting
         self._state_dot_label_format = {
-- 
2.43.0


From f009b98ff6944bfe9dcc2ad8517ec4808d8e3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:56 +0000
Subject: [PATCH 030/105] fix: maximum color of a parity game

---
 tulip/transys/automata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index d7bb5a6..150e181 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -687,9 +687,8 @@ class ParityGame(
         Maximization is over all nodes.
         In absence of nodes, return `-1`.
         """
-        def key(node):
+        def color(node):
             return self.nodes[node]['color']
         return max(
-            self,
-            key=key,
+            map(color, self),
             default=-1)
-- 
2.43.0


From 3f94eb81089cce82e34a907abebfad356d37e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:38 +0000
Subject: [PATCH 031/105] fix: find a specific state of a graph

---
 tulip/transys/labeled_graphs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index a429cda..9fe0435 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -396,6 +396,9 @@ class States:
                 raise TypeError(
                     'with_attr_dict must be a dict'
                     ) from error
+        # specific state ?
+        if isinstance(states, str) or states in self.graph:
+            states = [states]
         found_state_label_pairs = list()
         for state, attr_dict in self.graph.nodes(data=True):
             _logger.debug(
-- 
2.43.0


From 0adfda2d05b5818bf8209ff969171310a1bedf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 032/105] fix: read the output of `gr1c` while waiting for it

`check_syntax` and `check_realizable` waited for `gr1c` to terminate,
before reading its output from a pipe. With more output than fits in
the pipe, both processes waited for each other.
---
 tulip/interfaces/gr1c.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 4099df8..f6fc354 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -470,12 +470,13 @@ def check_syntax(
         stdout=subprocess.PIPE,
         stderr=subprocess.STDOUT,
         universal_newlines=True)
-    p.wait()
+    stdoutdata, _ = p.communicate()
+    f.close()
     _logger.debug(f'gr1c returncode: {p.returncode}')
-    _logger.debug(f'gr1c stdout: {p.stdout.read()}')
+    _logger.debug(f'gr1c stdout: {stdoutdata}')
     if p.returncode == 0:
         return True
-    _logger.info(p.stdout.read())
+    _logger.info(stdoutdata)
     return False
 
 
@@ -508,12 +509,13 @@ def check_realizable(
         stdout=subprocess.PIPE,
         stderr=subprocess.STDOUT,
         universal_newlines=True)
-    p.wait()
+    stdoutdata, _ = p.communicate()
+    f.close()
     _logger.info(f'`gr1c` input:\n{s}{_hl}')
     if p.returncode == 0:
         return True
     else:
-        _logger.info(p.stdout.read())
+        _logger.info(stdoutdata)
         return False
 
 
-- 
2.43.0


From f304124251e711ce54110d2aba6cb06ae0dbbcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 033/105] fix: delete the temporary files for `slugs`

The file with the specification was left behind when it was
unrealizable, when deciding realizability, and after errors.
The file with the compiled specification was always left behind.
---
 tulip/interfaces/slugs.py | 66 +++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/tulip/interfaces/slugs.py b/tulip/interfaces/slugs.py
index 5011959..c2a057d 100644
--- a/tulip/interfaces/slugs.py
+++ b/tulip/interfaces/slugs.py
@@ -75,9 +75,13 @@ def check_realizable(
         struct = _spec.translate(spec, 'slugs')
     else:
         struct = spec
-    with tempfile.NamedTemporaryFile(delete=False) as fin:
-        fin.write(bytes(struct, 'utf-8'))
-    realizable, out = _call_slugs(fin.name, synth=False)
+    fname = _make_temp_file()
+    try:
+        with open(fname, 'wb') as fin:
+            fin.write(bytes(struct, 'utf-8'))
+        realizable, out = _call_slugs(fname, synth=False)
+    finally:
+        os.unlink(fname)
     return realizable
 
 
@@ -98,15 +102,18 @@ def synthesize(
     assert not spec.moore
     assert not spec.plus_one
     struct = _spec.translate(spec, 'slugs')
-    with tempfile.NamedTemporaryFile(delete=False) as fin:
-        fin.write(bytes(struct, 'utf-8'))
-    realizable, out = _call_slugs(
-        fin.name,
-        synth=True,
-        symbolic=symbolic)
+    fname = _make_temp_file()
+    try:
+        with open(fname, 'wb') as fin:
+            fin.write(bytes(struct, 'utf-8'))
+        realizable, out = _call_slugs(
+            fname,
+            synth=True,
+            symbolic=symbolic)
+    finally:
+        os.unlink(fname)
     if not realizable:
         return None
-    os.unlink(fin.name)
     # collect int vars
     vrs = dict(spec.sys_vars)
     vrs.update(spec.env_vars)
@@ -134,6 +141,12 @@ def synthesize(
     return h
 
 
+def _make_temp_file() -> str:
+    """Return name of new temporary file, that the caller deletes."""
+    with tempfile.NamedTemporaryFile(delete=False) as f:
+        return f.name
+
+
 def _bitfields_to_ints(
         bit_state:
             dict[
@@ -206,13 +219,32 @@ def _call_slugs(
                 slugs_compiler_path))
     if not os.path.exists(slugs_compiler_path):
         raise Exception('`slugs/compiler.py` not found.')
-    with tempfile.NamedTemporaryFile(delete=False) as slugs_infile:
-        subprocess.check_call(
-            ['python', slugs_compiler_path, filename],
-            stdout=slugs_infile,
-            stderr=subprocess.STDOUT,
-            universal_newlines=True)
-    options = [slugs_path, slugs_infile.name]
+    slugs_infile = _make_temp_file()
+    try:
+        with open(slugs_infile, 'wb') as f:
+            subprocess.check_call(
+                ['python', slugs_compiler_path, filename],
+                stdout=f,
+                stderr=subprocess.STDOUT,
+                universal_newlines=True)
+        return _run_slugs(
+            [slugs_path, slugs_infile],
+            synth, symbolic)
+    finally:
+        os.unlink(slugs_infile)
+
+
+def _run_slugs(
+        options:
+            list[str],
+        synth:
+            bool,
+        symbolic:
+            bool
+        ) -> tuple[
+            bool,
+            str]:
+    """Run `slugs`, and return its verdict and output."""
     if synth:
         if symbolic:
             options.extend(['--symbolicStrategy', BDD_FILE])
-- 
2.43.0


From 0ae565ccca8eeb5b8a4beff381191a47af53c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 034/105] fix: detect that `gr1c` terminated during a session

When `gr1c` terminated, `env_next`, `sys_nextfeas`, and `sys_nexta`
kept reading from the pipe forever, `iswinning` returned `False`,
other methods could return part of the answer, and `reset` and
`close` raised `BrokenPipeError`, instead of returning `False`.
---
 tulip/interfaces/gr1c.py | 43 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index f6fc354..796bf6d 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -708,6 +708,19 @@ class GR1CSession:
         else:
             self.p = None
 
+    def _readline(self) -> str:
+        """Return next line of output.
+
+        Raise `OSError` if `gr1c` terminated before
+        it wrote the entire line.
+        """
+        line = self.p.stdout.readline()
+        if not line.endswith('\n'):
+            raise OSError(
+                '`gr1c` terminated during a command, '
+                f'after writing: {line!r}')
+        return line
+
     def iswinning(
             self,
             state:
@@ -728,7 +741,7 @@ class GR1CSession:
             'winning ' +
             _join_as_str(state_vector) +
             '\n')
-        if 'True\n' in self.p.stdout.readline():
+        if 'True\n' in self._readline():
             return True
         else:
             return False
@@ -752,7 +765,7 @@ class GR1CSession:
             'getindex ' +
             _join_as_str(state_vector) +
             f' {goal_mode}\n')
-        line = self.p.stdout.readline()
+        line = self._readline()
         if len(self.prompt) > 0:
             loc = line.find(self.prompt)
             if loc >= 0:
@@ -775,7 +788,7 @@ class GR1CSession:
             _join_as_str(state_vector) +
             '\n')
         env_moves = list()
-        line = self.p.stdout.readline()
+        line = self._readline()
         while '---\n' not in line:
             if len(self.prompt) > 0:
                 loc = line.find(self.prompt)
@@ -785,7 +798,7 @@ class GR1CSession:
                 (k, int(s)) for k, s in
                 zip(self.env_vars, line.split())
             ]))
-            line = self.p.stdout.readline()
+            line = self._readline()
         return env_moves
 
     def sys_nextfeas(
@@ -816,7 +829,7 @@ class GR1CSession:
             _join_as_str(emove_vector) +
             f' {goal_mode}\n')
         sys_moves = list()
-        line = self.p.stdout.readline()
+        line = self._readline()
         while '---\n' not in line:
             if len(self.prompt) > 0:
                 loc = line.find(self.prompt)
@@ -826,7 +839,7 @@ class GR1CSession:
                 (k, int(s)) for (k,s)
                 in zip(self.sys_vars, line.split())
             ]))
-            line = self.p.stdout.readline()
+            line = self._readline()
         return sys_moves
 
     def sys_nexta(
@@ -853,7 +866,7 @@ class GR1CSession:
             '\n'
         )
         sys_moves = list()
-        line = self.p.stdout.readline()
+        line = self._readline()
         while '---\n' not in line:
             if len(self.prompt) > 0:
                 loc = line.find(self.prompt)
@@ -863,7 +876,7 @@ class GR1CSession:
                 (k, int(s)) for k, s in
                 zip(self.sys_vars, line.split())
             ]))
-            line = self.p.stdout.readline()
+            line = self._readline()
         return sys_moves
 
     def getvars(self):
@@ -872,7 +885,7 @@ class GR1CSession:
         Indices are indicated in parentheses.
         """
         self.p.stdin.write('var\n')
-        line = self.p.stdout.readline()
+        line = self._readline()
         if len(self.prompt) > 0:
                 loc = line.find(self.prompt)
                 if loc >= 0:
@@ -881,7 +894,7 @@ class GR1CSession:
 
     def numgoals(self):
         self.p.stdin.write('numgoals\n')
-        line = self.p.stdout.readline()
+        line = self._readline()
         if len(self.prompt) > 0:
                 loc = line.find(self.prompt)
                 if loc >= 0:
@@ -899,8 +912,9 @@ class GR1CSession:
         If no filename given, then use previous one.
         """
         if self.p is not None:
-            self.p.stdin.write('quit\n')
-            returncode = self.p.wait()
+            # also when `gr1c` has already terminated
+            self.p.communicate('quit\n')
+            returncode = self.p.returncode
             self.p = None
             if returncode != 0:
                 self.spec_filename = None
@@ -923,8 +937,9 @@ class GR1CSession:
 
     def close(self) -> bool:
         """End session, and terminate `gr1c` subprocess."""
-        self.p.stdin.write('quit\n')
-        returncode = self.p.wait()
+        # also when `gr1c` has already terminated
+        self.p.communicate('quit\n')
+        returncode = self.p.returncode
         self.p = None
         if returncode != 0:
             return False
-- 
2.43.0


From 88eb0fbedbfbc0a532acdb20e1a0679ed2a2ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 035/105] fix: load `gr1c` XML without a strategy

The method `getchildren` was removed in Python 3.9. Also raise the
`ValueError` about an unrecognized file format.
---
 tulip/interfaces/gr1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 796bf6d..93efdf5 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -313,7 +313,7 @@ def load_aut_xml(
     return_now = (
         aut_elem is None or (
         aut_elem.text is None and
-            len(aut_elem.getchildren()) == 0))
+            len(aut_elem) == 0))
     if return_now:
         mach = None
         return (spec, mach)
@@ -646,7 +646,7 @@ def load_mealy(
     elif fformat.lower() == 'json':
         strategy = load_aut_json(s)
     else:
-        ValueError(
+        raise ValueError(
             '`gr1c.load_mealy()`: '
             f'Unrecognized file format, "{fformat}"')
     _logger.debug(
-- 
2.43.0


From 14158331db462b8bbf8b72351e4c933f997dd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 036/105] fix: pass arguments within `simulate2d`

The helper functions were called without the values they use,
`_assert_pyplot` was undefined, and the drift `K` of the dynamics was left out.
---
 tulip/abstract/plot.py | 59 +++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index c917149..8a65632 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -48,6 +48,7 @@ import tulip.abstract.prop2partition as _ppp
 import tulip.graphics as _graphics
 _mpl = _graphics._mpl
 _plt = _graphics._plt
+_assert_pyplot = _graphics._assert_pyplot
 import tulip.hybrid as _hyb
 import tulip.spec as _spec
 import tulip.transys as _trs
@@ -373,11 +374,15 @@ def simulate2d(
     #     initial controller state (discrete)
     match qinit:
         case r'\E \A' | r'\A \E':
-            s0_part, nd = _simulate2d_ea()
+            s0_part, nd = _simulate2d_ea(
+                ctrl, disc_dynamics, env_inputs)
         case r'\E \E':
-            s0_part, nd = _simulate2d_ee()
+            s0_part, nd = _simulate2d_ee(
+                ctrl, disc_dynamics)
         case r'\A \A':
-            s0_part, nd = _simulate2d_aa()
+            s0_part, nd = _simulate2d_aa(
+                ctrl, disc_dynamics,
+                d_init, x_init)
         case _:
             raise ValueError(qinit)
     # initialize continuous state for
@@ -417,7 +422,7 @@ def simulate2d(
         for ind in range(N):
             s_now = np.dot(
                 sys_dyn.A, [x[-1], y[-1]]
-            ) + np.dot(sys_dyn.B, u[ind])
+            ) + np.dot(sys_dyn.B, u[ind]) + sys_dyn.K.flatten()
             x.append(s_now[0])
             y.append(s_now[1])
         point = [x[-1], y[-1]]
@@ -440,30 +445,22 @@ def simulate2d(
 
 
 def _simulate2d_ea(
-        ctrl):
+        ctrl,
+        disc_dynamics,
+        env_inputs):
     # pick an initial discrete
     # system state given the
     # initial discrete environment state
     nd, out = ctrl.reaction(
         'Sinit', env_inputs[0])
-    init_edges = ctrl.edges(
-        'Sinit',
-        data=True)
-    for u, v, edge_data in init_edges:
-        _assert(
-            u == 'Sinit', u)
-        if v == nd:
-            break
-    _assert(
-        v == nd, (v, nd))
-    s0_part = edge_data['loc']
-    _assert(
-        s0_part == out['loc'],
-        (s0_part, out))
+    s0_part = disc_dynamics.ppp2ts.index(
+        out['loc'])
     return s0_part, nd
 
 
-def _simulate2d_ee(ctrl):
+def _simulate2d_ee(
+        ctrl,
+        disc_dynamics):
     # pick an initial discrete state
     init_edges = ctrl.edges(
         'Sinit',
@@ -472,21 +469,29 @@ def _simulate2d_ee(ctrl):
         iter(init_edges))
     _assert(
         u == 'Sinit', u)
-    s0_part = edge_data['loc']
+    s0_part = disc_dynamics.ppp2ts.index(
+        edge_data['loc'])
     nd = v
     return s0_part, nd
 
 
-def _simulate2d_aa():
+def _simulate2d_aa(
+        ctrl,
+        disc_dynamics,
+        d_init,
+        x_init):
     _assert(
-        d_init is not None)
+        d_init is not None,
+        d_init)
     _assert(
-        x_init is not None)
-    s0_part = find_node(
+        x_init is not None,
+        x_init)
+    s0_part = _fnd.find_discrete_state(
         x_init, disc_dynamics.ppp)
+    s0_loc = disc_dynamics.ppp2ts[s0_part]
     _assert(
-        s0_part == d_init['loc'],
-        (s0_part, d_init))
+        s0_loc == d_init['loc'],
+        (s0_loc, d_init))
     # find the machine node with
     # `d_init` as discrete state
     init_edges = ctrl.edges(
-- 
2.43.0


From 556eece2bed28e502b3661f12faeb9f309e91f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 037/105] fix: plot the partition in `plot_trajectory`

---
 tulip/abstract/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index 8a65632..4147fba 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -273,9 +273,10 @@ def plot_trajectory(
     if ax is None:
         ax, fig = _graphics.newax()
     _pplot.plot_partition(
+        ppp,
         plot_numbers=False,
         ax=ax,
-        show=False)
+        color_seed=color_seed)
     A = ssys.A
     B = ssys.B
     if ssys.K is not None:
-- 
2.43.0


From 2c4f23618fa5bb2fc4bf43fe41facad574357b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 038/105] fix: project strategies on partitions

Mealy machines have the location as
label of transitions, not of states.
---
 tulip/abstract/plot.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index 4147fba..e45c71d 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -193,16 +193,20 @@ def project_strategy_on_partition(
     n = len(ppp)
     proj_adj = sp.lil_array((n, n))
     edges = mealy.transitions.find()
-    for from_state, to_state, label in edges:
-        from_label = mealy.states[from_state]
-        to_label = mealy.states[to_state]
+    # transitions are labeled by
+    # the values at their end
+    locs = {
+        to_state: label['loc']
+        for _, to_state, label in edges
+        if 'loc' in label}
+    for from_state, to_state, _ in edges:
         intersects = (
-            'loc' in from_label and
-            'loc' in to_label)
+            from_state in locs and
+            to_state in locs)
         if not intersects:
             continue
-        from_loc = from_label['loc']
-        to_loc = to_label['loc']
+        from_loc = locs[from_state]
+        to_loc = locs[to_state]
         proj_adj[from_loc, to_loc] = 1
     return proj_adj
 
-- 
2.43.0


From d015e7ffeede0529aa4cd581f8a2b868e781c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 039/105] fix: plot states in `plot_abstraction_scc`

---
 tulip/abstract/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index e45c71d..d31afeb 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -121,7 +121,9 @@ def plot_abstraction_scc(
         green = np.random.rand()
         blue = np.random.rand()
         color = (red, green, blue)
-        plot = _ft.partial(color=color)
+        plot = _ft.partial(
+            plot_state,
+            color=color)
         any(map(plot, component))
     return ax
 
-- 
2.43.0


From 2562f569d76b56f813c3821685fb6a7799eee998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 040/105] fix: do not share labels with a composition

The states of a composition of one model
had the label sets of that model.
---
 tulip/transys/compositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 4d474fc..8aa12ee 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -159,7 +159,8 @@ def synchronous_parallel(
         ts.states[state]["ap"] = _ft.reduce(
             _op.or_, [
                 models[i].states[state[i]]["ap"]
-                for i in range(len(models))])
+                for i in range(len(models))],
+            set())
     #
     # Compute the initial state of ts:
     # I = I_1 \times ... \times I_n
-- 
2.43.0


From cdd8fc4ca07e74fd477ac18a14e4670e4255209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 041/105] fix: do not change the argument of
 `synchronous_parallel`

---
 tulip/transys/compositions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 8aa12ee..d6187e4 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -121,6 +121,9 @@ def synchronous_parallel(
     """
     if transition_attr_operations is None:
         transition_attr_operations = dict()
+    else:
+        transition_attr_operations = dict(
+            transition_attr_operations)
     # Let models = [K_1, ..., K_n].
     # Let
     # * prod_states = [S_1, ..., S_n]
-- 
2.43.0


From b1768e318a5fcbca0f241855e2bec6f458008ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 042/105] fix: write probabilities to `prism` files without
 rounding

The models that were checked differed from
the given ones, and their actions were not found.
---
 tulip/interfaces/stormpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 8aac79c..d6e307c 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -290,7 +290,7 @@ def to_prism_file(
         return transition_dict
     # Return a properly formatted string for the given probability
     def get_prob_str(prob):
-        return f'{prob:.4f}'
+        return repr(float(prob))
     # Return a string representing the
     # state with the given index and whether
     # it is primed (primed in prism file
-- 
2.43.0


From 137f94e28deaa3af524185f19d6edc9d4e498256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 043/105] fix: write `prism` labels that hold nowhere

---
 tulip/interfaces/stormpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index d6e307c..a4ff358 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -356,6 +356,8 @@ def to_prism_file(
                 ['(' + get_state_str(state_list.index(s), False) + ')'
                  for s in states]
             )
+            if not states:
+                state_str = 'false'
             f.write(
                 f'label "{label}" = {state_str};\n')
 
-- 
2.43.0


From 4e2c0b18fb1a4ce0d8c54fc8ffb58f27992acb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 044/105] fix: extract policies where enabled actions differ

The index that `stormpy` gives to an action depends on
the state. Policies had actions that were not enabled.
---
 tulip/interfaces/stormpy.py | 56 +++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index a4ff358..e2d9394 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -430,20 +430,66 @@ def _extract_policy(
         raise ValueError(stormpy_policy)
     tulip_policy = _mathfunc.FunctionOnLabeledState(
         'state', MDP.action_label)
-    action_map = get_action_map(stormpy_model, tulip_transys)
     for state in stormpy_model.states:
         tulip_state = to_tulip_state(state, tulip_transys)
         choice = stormpy_policy.get_choice(state)
-        action = choice.get_deterministic_choice()
+        index = choice.get_deterministic_choice()
+        # actions are numbered for each state,
+        # because different actions may be
+        # enabled at different states
+        action = list(state.actions)[index]
         tulip_policy.add(
             tulip_state,
-            to_tulip_action(
-                action, stormpy_model,
-                tulip_transys, action_map),
+            _to_enabled_action(
+                action, tulip_state,
+                stormpy_model, tulip_transys),
             to_tulip_labels(state, tulip_transys))
     return tulip_policy
 
 
+def _to_enabled_action(
+        stormpy_action,
+        tulip_state,
+        stormpy_model,
+        tulip_transys:
+            MDP,
+        prob_tol:
+            float=1e-6):
+    """Return action at `tulip_state` that is `stormpy_action`.
+
+    This is an action with the same
+    transition probabilities.
+    """
+    probability = dict()
+    for transition in stormpy_action.transitions:
+        to_state = to_tulip_state(
+            stormpy_model.states[transition.column],
+            tulip_transys)
+        probability[to_state] = transition.value()
+    candidates = dict()
+    transitions = tulip_transys.transitions.find(
+        [tulip_state])
+    for _, to_state, attr in transitions:
+        action = attr[MDP.action_label]
+        candidate = candidates.setdefault(
+            action, dict())
+        candidate[to_state] = (
+            candidate.get(to_state, 0) +
+            attr[MC.probability_label])
+    for action, candidate in candidates.items():
+        to_states = set(candidate).union(probability)
+        same = all(
+            abs(candidate.get(to_state, 0) -
+                probability.get(to_state, 0))
+                    <= prob_tol
+            for to_state in to_states)
+        if same:
+            return action
+    raise ValueError(
+        'Cannot find an action on '
+        f'`tulip_transys` corresponding to {stormpy_action}')
+
+
 def _extract_probability(
         stormpy_result,
         stormpy_model,
-- 
2.43.0


From 378fc77eb8ed5b2bc748296967aca70278193ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:24 +0000
Subject: [PATCH 045/105] fix: extract policies that are undefined at some
 states

---
 tulip/interfaces/stormpy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index e2d9394..f406686 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -433,7 +433,12 @@ def _extract_policy(
     for state in stormpy_model.states:
         tulip_state = to_tulip_state(state, tulip_transys)
         choice = stormpy_policy.get_choice(state)
-        index = choice.get_deterministic_choice()
+        # undefined where the choice of
+        # action makes no difference
+        index = (
+            choice.get_deterministic_choice()
+            if choice.defined
+            else 0)
         # actions are numbered for each state,
         # because different actions may be
         # enabled at different states
-- 
2.43.0


From 84a97434ff6acfbb5f4dcaa3b923ba85f9be6bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 046/105] fix: return the automaton from `ltl2ba`

---
 tulip/interfaces/ltl2ba.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index a4612fe..c44f303 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -355,14 +355,17 @@ def ltl2ba(
         with Boolean formulas as `str`
     """
     ltl2ba_out = call_ltl2ba(str(formula))
-    parser = ltl2baint.Parser()
+    parser = Parser()
     symbols, g, initial, accepting = parser.parse(ltl2ba_out)
     ba = _trs.BuchiAutomaton()
     ba.atomic_propositions.update(symbols)
     ba.add_nodes_from(g)
-    ba.add_edges_from(g.edges(data=True))
-    ba.initial_nodes = initial
-    ba.accepting_sets = accepting
+    # guards are formulas, not letters
+    ba.add_edges_from(
+        g.edges(data=True),
+        check=False)
+    ba.states.initial.update(initial)
+    ba.accepting.update(accepting)
     _logger.info(f'Resulting automaton:\n\n{ba}\n')
     return ba
 
-- 
2.43.0


From 034c18d6e075cfc7dd88a4828908f30a09716b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 047/105] fix: parse `skip` and `false` in `ltl2ba` output

---
 tulip/interfaces/ltl2ba.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index c44f303..f942f81 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -111,9 +111,11 @@ class Lexer:
             'never':
                 'NEVER',
             'skip':
-                'SKIP'}
+                'SKIP',
+            'false':
+                'FALSE'}
         self.tokens = (
-            'TRUE', 'FALSE',
+            'TRUE',
             'NUMBER',
             'NOT', 'AND', 'OR', 'XOR', 'IMP', 'BIMP',
             'EQUALS', 'NEQUALS', 'LT', 'LE', 'GT', 'GE',
@@ -279,6 +281,17 @@ class Parser:
             self.g.add_edge(u, v, guard=guard)
         p[0] = (u, if_clause)
 
+    def p_clause_skip(self, p):
+        """clause : state COLON SKIP"""
+        u = p[1]
+        guard = '(1)'
+        self.g.add_edge(u, u, guard=guard)
+        p[0] = (u, [(guard, u)])
+
+    def p_clause_deadend(self, p):
+        """clause : state COLON FALSE SEMI"""
+        p[0] = (p[1], list())
+
     def p_if_clause(self, p):
         """if_clause : IF cases FI SEMI"""
         p[0] = p[2]
-- 
2.43.0


From ffc2ca5e80a87f8e4a61ca62f2f33ce840c14c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 048/105] fix: state `accept_init` is also accepting

---
 tulip/interfaces/ltl2ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index f942f81..be8920d 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -343,7 +343,7 @@ class Parser:
         self.g.add_node(state)
         if 'init' in state:
             self.initial_nodes.add(state)
-        elif 'accept' in state:
+        if 'accept' in state:
             self.accepting_nodes.add(state)
         p[0] = p[1]
 
-- 
2.43.0


From 6f50f6233fab551ebcdcd16d595e58eb50ab3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 049/105] fix: raise error for output that is not a never claim

---
 tulip/interfaces/ltl2ba.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index be8920d..f1563ee 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -351,8 +351,12 @@ class Parser:
         """empty :"""
 
     def p_error(self, p):
-        _logger.error(
-            f'Syntax error at {p.value}')
+        where = (
+            'the end of the output'
+            if p is None else
+            repr(p.value))
+        raise ValueError(
+            f'Syntax error at {where}')
 
 
 def ltl2ba(
-- 
2.43.0


From acde8f2a1a0d178e72e1eae78281bb81bddb3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 050/105] fix: search for `ltl2ba` with the prefix

---
 tulip/interfaces/ltl2ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index f1563ee..4a2aab7 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -411,7 +411,7 @@ def call_ltl2ba(
     """
     try:
         subprocess.call(
-            ['ltl2ba', '-h'],
+            [f'{prefix}ltl2ba', '-h'],
             stdout=subprocess.PIPE)
     except OSError:
         raise Exception('cannot find ltl2ba on path')
-- 
2.43.0


From 5d6eaae9e6584e503abf1f73a1421314f5e6e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 051/105] fix: read long `ltl2ba` output without blocking

---
 tulip/interfaces/ltl2ba.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/interfaces/ltl2ba.py b/tulip/interfaces/ltl2ba.py
index 4a2aab7..d1d78e7 100644
--- a/tulip/interfaces/ltl2ba.py
+++ b/tulip/interfaces/ltl2ba.py
@@ -422,8 +422,9 @@ def call_ltl2ba(
         stdout=subprocess.PIPE,
         stderr=subprocess.STDOUT,
         universal_newlines=True)
-    p.wait()
-    ltl2ba_output = p.stdout.read()
+    # read while waiting,
+    # because a long output fills the pipe
+    ltl2ba_output, _ = p.communicate()
     _logger.info(
         f'ltl2ba output:\n\n{ltl2ba_output}\n')
     if p.returncode != 0:
-- 
2.43.0


From 714931b951962f7676ae742ffefef8d2831fcaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:45 +0000
Subject: [PATCH 052/105] fix: return all new states of on-the-fly product

---
 tulip/transys/products.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 9984e12..0e2196f 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -142,10 +142,8 @@ class OnTheFlyProductAutomaton(
             next_sqs.update(new_sqs)
             self.accepting.update(
                 new_accepting)
-        # new_sqs = {x for x in next_sqs if x not in self}
-        _logger.debug(f'next product states: {next_sqs}')
-        _logger.debug(f'new unvisited product states: {new_sqs}')
-        return new_sqs
+        _logger.debug(f'new unvisited product states: {next_sqs}')
+        return next_sqs
 
     def add_all_states(self):
         """Iterate `add_successors` until all states are added.
-- 
2.43.0


From b7133265b900a8a1fbbe40233b2c3c3040a741ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 053/105] fix: product with transition system that has actions

---
 tulip/transys/products.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 0e2196f..dbdd757 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -31,6 +31,7 @@
 # SUCH DAMAGE.
 """Products between automata and transition systems"""
 import collections.abc as _abc
+import copy
 import logging
 import warnings
 
@@ -207,10 +208,16 @@ def ts_ba_sync_prod(
     fts = transition_system
     ba = buchi_automaton
     prodts_name = f'{fts.name}*{ba.name}'
-    prodts = transys.FiniteTransitionSystem()
+    prodts = transys.FiniteTransitionSystem(
+        env_actions=list(),
+        sys_actions=[
+            dict(
+                name=name,
+                values=copy.deepcopy(values),
+                setter=True)
+            for name, values in fts.actions.items()])
     prodts.name = prodts_name
     prodts.atomic_propositions.add_from(ba.states())
-    prodts.sys_actions.add_from(fts.actions)
     # construct initial states of product automaton
     s0s = set(fts.states.initial)
     q0s = set(ba.states.initial)
@@ -368,7 +375,7 @@ def find_prod_succ(
                 else:
                     product.transitions.add(
                         prev_sq, new_sq,
-                        actions=sublabel_values['actions'])
+                        attr_dict=sublabel_values)
     return (next_sqs, new_accepting)
 
 
-- 
2.43.0


From db270ffd53e0e763c62ed7398b4aaa88c3a37e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 054/105] fix: product when several letters enable a transition

---
 tulip/transys/products.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index dbdd757..b9cc66f 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -331,10 +331,15 @@ def find_prod_succ(
     s, q = prev_sq
     new_accepting = set()
     next_sqs = set()
+    next_qs = set()
     for curq, next_q, sublabels in enabled_ba_trans:
         if curq != q:
             raise AssertionError(
                 curq, q)
+        # also enabled by another letter ?
+        if next_q in next_qs:
+            continue
+        next_qs.add(next_q)
         new_sq = (next_s, next_q)
         if new_sq not in product:
             next_sqs.add(new_sq)
-- 
2.43.0


From ba64628489173bdb6295c8267661080ece323c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 055/105] fix: remove automaton states that are not accepting

---
 tulip/transys/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 150e181..d641511 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -183,7 +183,8 @@ class FiniteStateAutomaton(
         accepting set if present.
         """
         # intercept to remove also from accepting states
-        self.accepting.remove(node)
+        if node in self.accepting:
+            self.accepting.remove(node)
         super().remove_node(node)
 
 
-- 
2.43.0


From 6112215b442391a602635b10cc7be9b9e7c833bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 056/105] fix: `tuple2ba` with an alphabet

---
 tulip/transys/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index d641511..90b1ee6 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -360,7 +360,7 @@ def tuple2ba(
         ba.alphabet.math_set.update(
             alphabet_or_ap)
     elif isinstance(ba.alphabet, set):
-        ba.alphabet.add(alphabet_or_ap)
+        ba.alphabet.update(alphabet_or_ap)
     else:
         raise AssertionError(
             f'unexpected case: {ba.alphabet = }')
-- 
2.43.0


From 72a82b38f652bd599eff92a7710d1ab7b26175ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 057/105] fix: compare labels as sets in `simu_abstract`

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index ca61c6b..291f4d5 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1298,7 +1298,7 @@ def simu_abstract(
     hash_ap = dict()
         # map ap to cells in Part
     for node in G:
-        ap = repr(G.nodes[node]['ap'])
+        ap = frozenset(G.nodes[node]['ap'])
         if ap not in S0:
             S0[ap] = set()
             hash_ap[ap] = set()
-- 
2.43.0


From f53e8bc0059cc26044b8c6b3581eaac6ac22f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 058/105] fix: abstract systems with any types of actions

---
 tulip/transys/transys.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 291f4d5..b7dd6b5 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -31,6 +31,7 @@
 # SUCH DAMAGE.
 """Transition system representation."""
 import collections.abc as _abc
+import copy
 import logging
 import pprint as _pp
 import typing as _ty
@@ -1208,17 +1209,13 @@ def _output_fts(
           maps the nodes of two FTS in
           the other direction.
     """
-    env_actions = [
+    actions = [
         dict(
-            name='env_actions',
-            values=ts.env_actions,
-            setter=True)]
-    sys_actions = [
-        dict(
-            name='sys_actions',
-            values=ts.sys_actions,
-            setter=True)]
-    ts_simu = FTS(env_actions, sys_actions)
+            name=name,
+            values=copy.deepcopy(values),
+            setter=True)
+        for name, values in ts.actions.items()]
+    ts_simu = FTS(list(), actions)
     ts2simu = dict()
     simu2ts = dict()
     Part_hash = dict(
-- 
2.43.0


From f90dc9f8cfa028249e681e39e93161b34d986482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 059/105] fix: compare all cells of gridworlds for equality

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index bb35f2a..ba7e64e 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -133,7 +133,7 @@ class GridWorld:
                 # the two is undefined.
         if self.size() != other.size():
             return False
-        if np.all(self.W != other.W):
+        if np.any(self.W != other.W):
             return False
         if self.goal_list != other.goal_list:
             return False
-- 
2.43.0


From e94de65f1f873d074ffd56819901283084b87c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 060/105] fix: copy all attributes of a `GridWorld`

The offset was lost, and the goals that are also initial positions,
the order of positions could change, and an empty instance
could not be copied.
---
 tulip/gridworld.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index ba7e64e..9631827 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -215,9 +215,13 @@ class GridWorld:
             return out
 
     def __copy__(self):
-        return GridWorld(
-            self.dumps(),
-            prefix=self.prefix)
+        gw = GridWorld(prefix=self.prefix)
+        if self.W is not None:
+            gw.W = self.W.copy()
+        gw.init_list = copy.copy(self.init_list)
+        gw.goal_list = copy.copy(self.goal_list)
+        gw.offset = self.offset
+        return gw
 
     def copy(self) -> 'GridWorld':
         """Deep-copy GridWorld instance.
-- 
2.43.0


From f47f0830ae3ab13a6a0fe96a26fb4a458255680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 061/105] fix: use the `prefix` given to function `unoccupied`

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 9631827..a2f816d 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1364,7 +1364,7 @@ def unoccupied(
         raise TypeError("invalid gridworld size.")
     return GridWorld(
         f'{size[0]} {size[1]}',
-        prefix="Y")
+        prefix=prefix)
 
 
 def add_trolls(
-- 
2.43.0


From 4f1f3f86668f1f7ff5cf388d636906ca8f8d8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 062/105] fix: bounds in function `narrow_passage`

The passage was never at the bottom, a passage as wide as the world
raised `ValueError`, and the number of goals was compared to
the area of the other zones.
---
 tulip/gridworld.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index a2f816d..b1b41d9 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1321,12 +1321,12 @@ def narrow_passage(
         # boundary of right zone
     too_many_init_or_goals = (
         izone * size[0] < num_init or
-        gzone * size[0] < num_goals)
+        (size[1] - gzone) * size[0] < num_goals)
     if too_many_init_or_goals:
         raise ValueError(
             "Too many initials/goals for grid size")
     if ptop is None:
-        ptop = np.random.randint(0, size[0] - passage_width)
+        ptop = np.random.randint(0, size[0] - passage_width + 1)
     passage = range(ptop, ptop + passage_width)
     for y in range(0, size[0]):
         if y in passage:
-- 
2.43.0


From 93cf73e6616d8d9ba60f8bfd770017adf59d5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 063/105] fix: subworlds that are entirely outside a gridworld
 are occupied

---
 tulip/gridworld.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index b1b41d9..3fd30e0 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -818,20 +818,17 @@ class GridWorld:
                 offset[0] + size[0]), offset[1]:(offset[1] + size[1])].copy()
         else:
             sub = GridWorld(prefix=prefix)
-            sub.W = np.ones(size)
+            sub.W = np.ones(size, dtype=np.int32)
             self_offset = (max(offset[0], 0), max(offset[1], 0))
-            self_offset = (min(self_offset[0], self.W.shape[
-                           0] - 1), min(self_offset[1], self.W.shape[1] - 1))
             sub_offset = (max(-offset[0], 0), max(-offset[1], 0))
-            sub_offset = (min(sub_offset[0], sub.W.shape[
-                          0] - 1), min(sub_offset[1], sub.W.shape[1] - 1))
+            # the size is 0 if entirely outside the grid
             actual_size = (
-                min(size[0],
+                max(0, min(
                     self.W.shape[0] - self_offset[0],
-                    sub.W.shape[0] - sub_offset[0]),
-                min(size[1],
+                    sub.W.shape[0] - sub_offset[0])),
+                max(0, min(
                     self.W.shape[1] - self_offset[1],
-                    sub.W.shape[1] - sub_offset[1]))
+                    sub.W.shape[1] - sub_offset[1])))
             sub.W[sub_offset[0]:(sub_offset[0] + actual_size[0]),
                   sub_offset[1]:(sub_offset[1] + actual_size[1])] = self.W[
                 self_offset[0]:(self_offset[0] + actual_size[0]),
-- 
2.43.0


From c858f7b08e10dfb7a8839d9bdcfdba836a502bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:27 +0000
Subject: [PATCH 064/105] fix: measure the timeout with a clock that is not
 adjusted

When the system time changes, the function `random_world`
gave up early, or did not end in time.
---
 tulip/gridworld.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 3fd30e0..c5fb2f4 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1180,7 +1180,7 @@ def random_world(
         is `None` if timeout occurs.
     """
     if ensure_feasible and timeout is not None:
-        st = time.time()
+        st = time.monotonic()
     num_cells = size[0] * size[1]
     goal_list = list()
     init_list = list()
@@ -1228,7 +1228,7 @@ def random_world(
         W[avail_inds[changed_index]] = 1
         bcounter += 1
         if ensure_feasible:
-            if timeout is not None and time.time() - st > timeout:
+            if timeout is not None and time.monotonic() - st > timeout:
                 return None
             # If feasibility must be guaranteed,
             # then check whether
-- 
2.43.0


From dc5cf16a01e876ab58966ca34b11eae36fcd2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 065/105] fix: sign of offset in names of Boolean troll
 variables

The trolls moved on other variables than those that are
mentioned in the formulas for mutual exclusion.
---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index c5fb2f4..8ac280c 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1459,7 +1459,7 @@ def add_trolls(
                         offset=t_offset, nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
-        spec |= Xi[1].spec(offset=(-Xi[0][0], -Xi[0][1]),
+        spec |= Xi[1].spec(offset=Xi[0],
                            controlled_dyn=False, nonbool=nonbool)
     # Mutual exclusion
     for i in range(Y.size()[0]):
-- 
2.43.0


From 5b830e554d98abffba0ab9472258e13d587c0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 066/105] fix: states of trolls that function `add_trolls`
 returns

For integer variables, the values were outside the domains in
the specification, and occupied cells were included.
---
 tulip/gridworld.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 8ac280c..72ce4ee 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1452,11 +1452,17 @@ def add_trolls(
                                    center[1] - t_offset[1])]
         if get_moves_lists:
             moves_N.append([])
+            # same names and values as in the specification
+            state_offset = (0, 0) if nonbool else t_offset
             for i in range(t_size[0]):
                 for j in range(t_size[1]):
+                    if not X[-1][1].is_empty((i, j)):
+                        continue
                     moves_N[-1].append(
-                        X[-1][1].state((i, j),
-                        offset=t_offset, nonbool=nonbool))
+                        X[-1][1].state(
+                            (i, j),
+                            offset=state_offset,
+                            nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
         spec |= Xi[1].spec(offset=Xi[0],
-- 
2.43.0


From e2994ed6a9d12b8c5fedcbdb67302447e67b2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 067/105] fix: disturbance sets with more than 10 vertices

---
 tulip/abstract/feasible.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index 84ac667..b69629e 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -728,18 +728,16 @@ def get_max_extreme(
         dim * N,
         nv**N])
     for i in range(nv**N):
-        # Last N digits are indices we want
-        ind = np.base_repr(
-            i,
-            base=nv,
-            padding=N)
+        # indices of vertices, one for each step
+        ind = np.unravel_index(
+            i, N * (nv,))
         for j in range(N):
             DN_extreme[
                 range(
                     j * dim,
                     (j + 1) * dim),
                 i] = D_extreme[
-                    int(ind[-j - 1]),
+                    ind[-j - 1],
                     :]
     d_hat = np.amax(
         np.dot(G, DN_extreme),
-- 
2.43.0


From 0bed66e2061bc55077fc5552a611c397047554c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 068/105] fix: add a grid to a partition of an interval

---
 tulip/abstract/prop2partition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 76b1701..338ef4f 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -604,14 +604,11 @@ def add_grid(
             float(domain_bb[1][j]),
             size_list[j],
             abs_tol)
-        if j > 0:
-            if j == 1:
-                re_list = list_grid[j - 1]
-                re_list = product_interval(
-                    re_list, list_grid[j])
-            else:
-                re_list = product_interval(
-                    re_list, list_grid[j])
+        if j == 0:
+            re_list = list_grid[j]
+        else:
+            re_list = product_interval(
+                re_list, list_grid[j])
         j += 1
     new_list = list()
     parent = list()
-- 
2.43.0


From fb7faa2c9614510c4ae09b6772fada4a2793b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:17 +0000
Subject: [PATCH 069/105] fix: bounds of the domain as numbers in function
 `add_grid`

---
 tulip/abstract/prop2partition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 338ef4f..8d3af11 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -550,7 +550,9 @@ def add_grid(
             'grid points parameters '
             'must be given.')
     dim = len(ppp.domain.A[0])
-    domain_bb = ppp.domain.bounding_box
+    domain_bb = [
+        bound.flatten()
+        for bound in ppp.domain.bounding_box]
     size_list = list()
     if grid_size != None:
         if isinstance(grid_size, list):
-- 
2.43.0


From a67c79f5983d4cac0789bc433e09b236d5728854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 070/105] fix: states of rules that are not strings in function
 `solve`

The method `transitions.find` takes collections of states.
A state that is a string was searched for substrings,
and other states raised `TypeError`.
---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index ecc6250..f7e11ee 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -82,7 +82,7 @@ def _get_rule_violation_cost(
     cost = [0] * spec.get_num_levels()
     for idx, rule in enumerate(spec):
         rule_transitions = rule.automaton().transitions.find(
-            from_spec_state[idx], to_spec_state[idx])
+            [from_spec_state[idx]], [to_spec_state[idx]])
         rule_transition_labels = [
             set(transition[2]["letter"])
             for transition in rule_transitions]
-- 
2.43.0


From 4a48d8f9ad41417efe6cedda7acd4bc478171ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 071/105] fix: rules with states that are not accepting in
 function `solve`

---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index f7e11ee..1622be5 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -231,7 +231,7 @@ def solve(
         if goal_label in ks.states[state]["ap"]]
     accepting_goal_states = _trs.SubSet(wpa.accepting)
     accepting_goal_states.add_from(
-        _itr.product(goal_states, spec.get_states()))
+        _itr.product(goal_states, spec.get_accepting_states()))
     cost, product_path = _gralgo.dijkstra_multiple_sources_multiple_targets(
         wpa,
         wpa.states.initial,
-- 
2.43.0


From f609dc7f56936f62d0917a183363d14ee095f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 072/105] fix: equal `VectorCost`s are not greater than each
 other

---
 tulip/transys/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/cost.py b/tulip/transys/cost.py
index f911228..f0e3d74 100644
--- a/tulip/transys/cost.py
+++ b/tulip/transys/cost.py
@@ -134,4 +134,4 @@ class VectorCost:
             if a == b:
                 continue
             return a > b
-        return True
+        return False
-- 
2.43.0


From 22ce7e4988589e8280bf8beafa800520a6ea88d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 073/105] fix: paths of zero cost in Dijkstra's algorithm

---
 tulip/transys/graph_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/graph_algorithms.py b/tulip/transys/graph_algorithms.py
index 0732bc9..c2b458c 100644
--- a/tulip/transys/graph_algorithms.py
+++ b/tulip/transys/graph_algorithms.py
@@ -90,7 +90,7 @@ def dijkstra_single_source_multiple_targets(
                 continue
             current_cost = dist.get(v, None)
             new_cost = transition[2][cost_key] + cost
-            if not current_cost or new_cost < current_cost:
+            if current_cost is None or new_cost < current_cost:
                 dist[v] = new_cost
                 _hp.heappush(Q, (new_cost, v, path_to_u))
     return (
-- 
2.43.0


From 0f2095d6d52035e97671e201e3ccbf414ad7325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 074/105] fix: nodes that cannot be compared in Dijkstra's
 algorithm

---
 tulip/transys/graph_algorithms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/graph_algorithms.py b/tulip/transys/graph_algorithms.py
index c2b458c..d408c7c 100644
--- a/tulip/transys/graph_algorithms.py
+++ b/tulip/transys/graph_algorithms.py
@@ -34,6 +34,7 @@
 import collections.abc as _abc
 import copy
 import heapq as _hp
+import itertools as _itr
 
 import tulip.transys.labeled_graphs as _graphs
 
@@ -74,9 +75,11 @@ def dijkstra_single_source_multiple_targets(
     """
     dist = {source: 0}
     visited = set()
-    Q = [(0, source, list())]
+    # nodes need not be comparable
+    counter = _itr.count()
+    Q = [(0, next(counter), source, list())]
     while Q:
-        cost, u, path = _hp.heappop(Q)
+        cost, _, u, path = _hp.heappop(Q)
         if u in visited:
             continue
         visited.add(u)
@@ -92,7 +95,8 @@ def dijkstra_single_source_multiple_targets(
             new_cost = transition[2][cost_key] + cost
             if current_cost is None or new_cost < current_cost:
                 dist[v] = new_cost
-                _hp.heappush(Q, (new_cost, v, path_to_u))
+                _hp.heappush(
+                    Q, (new_cost, next(counter), v, path_to_u))
     return (
         float("inf"),
         list())
-- 
2.43.0


From 6b948b6684ebbd374477cceb84e494bd675ba582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 075/105] fix: missing transitions in the product of function
 `solve`

The iterator over target states was exhausted after
the first source state, so all transitions from
other states of the rules were missing.
---
 tulip/mvp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index 1622be5..487a09b 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -116,6 +116,8 @@ def _add_transition(
         the cost of transition from from_prod_state[0] to to_prod_state[0]
         in ks
     """
+    # used more than once
+    to_prod_states = list(to_prod_states)
     for from_prod_state in from_prod_states:
         for to_prod_state in to_prod_states:
             _add_transition_edge(
-- 
2.43.0


From 03241b93e8965490d39e59e3f98287e81e9bdb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 076/105] fix: file name when saving graphs

The method `graphviz.Digraph.render` writes the DOT source
at the path, and the drawing at the path with another suffix
(`fig.pdf` contained DOT, and `fig.pdf.pdf` the drawing).
---
 tulip/transys/export/graph2dot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index aff4c81..51cf9cf 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -599,13 +599,14 @@ def save_dot(
         return False
     dot_graph.graph_attr['rankdir'] = rankdir
     dot_graph.graph_attr['splines'] = 'true'
-    dot_graph.render(
-        filename=path,
+    data = dot_graph.pipe(
         format=fileformat,
         engine=prog,
         quiet=tikz)
             # tikz labels can raise
             # graphviz warnings
+    with open(path, 'wb') as fd:
+        fd.write(data)
     return True
 
 
-- 
2.43.0


From af3b2b2a2d1b728e93c2a8e80f95cdde03c2fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 077/105] fix: name of parameter of function `_state2tikz`

---
 tulip/transys/export/graph2dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index 51cf9cf..a782eb5 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -187,7 +187,7 @@ def _state2dot(
 def _state2tikz(
         graph:
             '_trs.LabeledDiGraph',
-        to_pydot_graph,
+        to_dot_graph,
         state,
         is_initial:
             bool,
-- 
2.43.0


From 40f37ae0b322fb58c9eedeb8ba153e891539f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 078/105] fix: `AttributeError` when saving transition systems
 as Promela

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index b7dd6b5..e365ef5 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -694,7 +694,7 @@ class FiniteTransitionSystem(
         if fileformat not in file_formats:
             return False
         # closed ?
-        if self.env_vars:
+        if getattr(self, 'env_actions', None):
             return False
         s = _pml.fts2promela(self, self.name)
         # dump to file
-- 
2.43.0


From 02f66deb3bfde6c7d5f2ae3bf07833172cbb2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 079/105] fix: missing transitions in Promela export

`as_dict` was a label to be found.
---
 tulip/transys/export/graph2promela.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 6643f90..c0e0c5d 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -127,8 +127,7 @@ def fts2promela(
     ap_alphabet = graph.atomic_propositions
     for state in graph.states():
         out_transitions = graph.transitions.find(
-            {state},
-            as_dict=True)
+            {state})
         s += str(state).replace(' ', '_') + ':'
         s += trans2promela(
             out_transitions, graph,
-- 
2.43.0


From 7b682868d8850a034c7ddf795b7fbf7d8f6476b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 080/105] fix: propositions of initial states in Promela export

---
 tulip/transys/export/graph2promela.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index c0e0c5d..de8fcd1 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -120,11 +120,15 @@ def fts2promela(
         if ap not in {None, True}:
             s += f'bool {ap};\n'
     s += f'\nactive proctype {procname}(){{\n'
+    ap_alphabet = graph.atomic_propositions
     s += '\t if\n'
     for initial_state in graph.states.initial:
-        s += f'\t :: goto {initial_state}\n'
+        s += (
+            '\t :: atomic{\n'
+            f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
+            f'\t\t goto {initial_state}\n'
+            '\t }\n')
     s += '\t fi;\n'
-    ap_alphabet = graph.atomic_propositions
     for state in graph.states():
         out_transitions = graph.transitions.find(
             {state})
-- 
2.43.0


From 930d4a44a815f13fe5d9f8246e5f5b1b07b3ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 081/105] fix: dead ends in Promela export

---
 tulip/transys/export/graph2promela.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index de8fcd1..9545703 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -102,6 +102,9 @@ def fts2promela(
                 f'{state_ap2promela(to_state, graph, ap_alphabet)}'
                 f'\t\t goto {to_state}\n'
                 '\t }\n')
+        if not transitions:
+            # selections cannot be empty
+            s += '\t :: false\n'
         s += '\t fi;\n\n'
         return s
     def get_label_of(state, graph):
@@ -128,6 +131,9 @@ def fts2promela(
             f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
             f'\t\t goto {initial_state}\n'
             '\t }\n')
+    if not graph.states.initial:
+        # selections cannot be empty
+        s += '\t :: false\n'
     s += '\t fi;\n'
     for state in graph.states():
         out_transitions = graph.transitions.find(
-- 
2.43.0


From 760d04ef48702ccd703b4e9cd134036dfc043149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 082/105] fix: names of states and processes in Promela export

---
 tulip/transys/export/graph2promela.py | 49 ++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 9545703..209dc37 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -31,6 +31,7 @@
 # SUCH DAMAGE.
 """Convert state graphs to Promela."""
 import collections.abc as _abc
+import re
 import time
 
 import tulip.transys as _trs
@@ -100,7 +101,7 @@ def fts2promela(
                 '\t :: atomic{\n'
                 f'\t\t printf("{sublabels_dict}\\n");\n'
                 f'{state_ap2promela(to_state, graph, ap_alphabet)}'
-                f'\t\t goto {to_state}\n'
+                f'\t\t goto {labels[to_state]}\n'
                 '\t }\n')
         if not transitions:
             # selections cannot be empty
@@ -113,8 +114,10 @@ def fts2promela(
         print(f'state:\t{state}')
         print(f'ap label:\t{ap_label}')
         return ap_label['ap']
-    if procname is None:
-        procname = graph.name
+    labels = _state_labels(
+        graph.states(), graph.atomic_propositions)
+    if not procname:
+        procname = graph.name or 'system'
     s = '/*\n * Promela file generated with TuLiP\n'
     tm = time.strftime('%x %X %z')
     s += f' * Date: {tm}\n */\n\n'
@@ -129,7 +132,7 @@ def fts2promela(
         s += (
             '\t :: atomic{\n'
             f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
-            f'\t\t goto {initial_state}\n'
+            f'\t\t goto {labels[initial_state]}\n'
             '\t }\n')
     if not graph.states.initial:
         # selections cannot be empty
@@ -138,7 +141,7 @@ def fts2promela(
     for state in graph.states():
         out_transitions = graph.transitions.find(
             {state})
-        s += str(state).replace(' ', '_') + ':'
+        s += labels[state] + ':'
         s += trans2promela(
             out_transitions, graph,
             ap_alphabet)
@@ -146,5 +149,41 @@ def fts2promela(
     return s
 
 
+_RESERVED = frozenset('''
+    active assert atomic bit bool break byte c_code c_decl
+    c_expr c_state c_track chan d_proctype d_step do else
+    empty enabled eval false fi for full goto hidden if
+    in init inline int len local ltl mtype nempty never
+    nfull notrace np_ od of pc_value pid printf printm
+    priority proctype provided run select short show skip
+    timeout trace true typedef unless unsigned xr xs
+    '''.split())
+
+
+def _state_labels(
+        states:
+            _abc.Iterable,
+        props:
+            _abc.Container
+        ) -> dict:
+    """Map each state to a unique Promela label.
+
+    @param props:
+        names of variables
+    """
+    labels = dict()
+    for state in states:
+        label = re.sub(r'\W', '_', str(state), flags=re.ASCII)
+        if (
+                not label[:1].isalpha() or
+                label in _RESERVED or
+                label in props):
+            label = f's{label}'
+        while label in labels.values() or label in props:
+            label += '_'
+        labels[state] = label
+    return labels
+
+
 # def mealy2promela():
 #     """Convert Mealy machine to Promela str."""
-- 
2.43.0


From 383b2d252d614ae28d9b23b59412dcad61cd17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 083/105] fix: initial state in SCXML export

---
 tulip/transys/export/machine2scxml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/machine2scxml.py b/tulip/transys/export/machine2scxml.py
index 5143e55..5ad3a9c 100644
--- a/tulip/transys/export/machine2scxml.py
+++ b/tulip/transys/export/machine2scxml.py
@@ -92,8 +92,8 @@ def mealy2scxml(
     if len(mealy.states.initial) != 1:
         raise Exception(
             'Must have exactly 1 initial state.\n'
-            f'Got instead:\n\t{mealy.states.initial()}')
-    initial_state = mealy.states.initial()[0]
+            f'Got instead:\n\t{mealy.states.initial}')
+    initial_state, = mealy.states.initial
     s += f'initial="{initial_state}">\n'
     for state in mealy.states():
         s += (
-- 
2.43.0


From 55a1b5702b7a6cf5561be7b12b5cefd540de2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:16 +0000
Subject: [PATCH 084/105] fix: malformed XML in SCXML export

---
 tulip/transys/export/machine2scxml.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/export/machine2scxml.py b/tulip/transys/export/machine2scxml.py
index 5ad3a9c..48a4d6c 100644
--- a/tulip/transys/export/machine2scxml.py
+++ b/tulip/transys/export/machine2scxml.py
@@ -30,6 +30,8 @@
 # OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF
 # SUCH DAMAGE.
 """Convert Finite State Machines to State Chart XML (SCXML)."""
+import xml.sax.saxutils as _sax
+
 import tulip.transys as _trs
 
 
@@ -80,11 +82,13 @@ def mealy2scxml(
             n = n + 1
             s += (
                 f'{indent(n)}event="input_present" '
-                f'{indent(n)}cond="{sublabel_dict}" '
-                f'{indent(n)}target="{to_state}"/>')
+                f'{indent(n)}cond={quote(sublabel_dict)} '
+                f'{indent(n)}target={quote(to_state)}>')
             n = n - 1
             s += f'{indent(n)}</transition>'
         return s
+    def quote(value) -> str:
+        return _sax.quoteattr(str(value))
     s = (
         '<?xml version="1.0" encoding="UTF-8"?>\n'
         '<scxml xmlns="http://www.w3.org/2005/07/scxml" '
@@ -94,10 +98,10 @@ def mealy2scxml(
             'Must have exactly 1 initial state.\n'
             f'Got instead:\n\t{mealy.states.initial}')
     initial_state, = mealy.states.initial
-    s += f'initial="{initial_state}">\n'
+    s += f'initial={quote(initial_state)}>\n'
     for state in mealy.states():
         s += (
-            f'\t<state id="{state}">'
+            f'\t<state id={quote(state)}>'
             f'{transitions_str(state, mealy)}\n'
             '\t</state>\n')
     s += '</scxml>'
-- 
2.43.0


From 2607d07553864f488068068d6fd50854fa81889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 085/105] fix: line breaks in labels of exported DOT graphs

The strings are raw, so the backslashes were escaped,
and shown in the drawings.
---
 tulip/transys/automata.py         |  2 +-
 tulip/transys/export/graph2dot.py | 20 ++++++++++----------
 tulip/transys/machines.py         |  4 ++--
 tulip/transys/transys.py          | 12 ++++++------
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 90b1ee6..89a3e62 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -134,7 +134,7 @@ class FiniteStateAutomaton(
             'type?label':
                 '',
             'separator':
-                r'\\n'}
+                r'\n'}
         self._transition_dot_mask = dict()
         self.dot_node_shape = {
             'normal':
diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index a782eb5..3dbf0d1 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -92,7 +92,7 @@ def _states2dot_str(
     else:
         label_format = {
             'type?label': '',
-            'separator': r'\\n'}
+            'separator': r'\n'}
     for u, d in graph.nodes(data=True):
         # initial state ?
         is_initial = u in states.initial
@@ -370,7 +370,7 @@ def _form_node_label(
     # newline between state name and
     # label, only if state is labeled
     if len(state_data) != 0:
-        node_dot_label += r'\\n'
+        node_dot_label += r'\n'
     # add node annotations from
     # action, AP sets etc
     # other key,values in
@@ -391,9 +391,9 @@ def _form_node_label(
         elif isinstance(label_value, _abc.Iterable):
                 # and not str
             s = ', '.join([str(x) for x in label_value])
-            label_str = r'\\{' + _tw.fill(
+            label_str = r'\{' + _tw.fill(
                 s,
-                width=width) + r'\\}'
+                width=width) + r'\}'
         else:
             label_str = _tw.fill(
                 str(label_value),
@@ -404,12 +404,12 @@ def _form_node_label(
     if tikz:
         # replace LF by latex newline
         node_dot_label = node_dot_label.replace(
-            r'\\n', r'\\\\ ')
+            r'\n', r'\\ ')
         # dot2tex math mode does not
         # handle newlines properly
         node_dot_label = (
-            rf'$\\begin{{matrix}} {node_dot_label}'
-            r'\\end{matrix}$')
+            rf'$\begin{{matrix}} {node_dot_label}'
+            r'\end{matrix}$')
     return node_dot_label
 
 
@@ -491,7 +491,7 @@ def _form_edge_label(
             sep_type_value = label_format['type?label']
         else:
             type_name = ':'
-            sep_type_value = r',\\n'
+            sep_type_value = r',\n'
         # format iterable containers using
         # mathematical set notation: {...}
         if isinstance(label_value, str):
@@ -501,7 +501,7 @@ def _form_edge_label(
         elif isinstance(label_value, _abc.Iterable):
             s = ', '.join(map(
                 str, label_value))
-            label_str = r'\\{' + _tw.fill(s) + r'\\}'
+            label_str = r'\{' + _tw.fill(s) + r'\}'
         else:
             label_str = str(label_value)
         if tikz:
@@ -509,7 +509,7 @@ def _form_edge_label(
         label += (type_name + sep_type_value +
                   label_str + sep_label_sets)
     if tikz:
-        label = r'\\begin{matrix}' + label + r'\\end{matrix}'
+        label = r'\begin{matrix}' + label + r'\end{matrix}'
     label = f'"{label}"'
     return label
 
diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index e40595e..334ad8b 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -259,14 +259,14 @@ class Transducer(
             'type?label':
                 ':',
             'separator':
-                r'\\n'}
+                r'\n'}
         # edge labeling
         self._transition_label_def = dict()
         self._transition_dot_label_format = {
             'type?label':
                 ':',
             'separator':
-                r'\\n'}
+                r'\n'}
         self._transition_dot_mask = dict()
         self._state_dot_mask = dict()
         self.default_export_fname = 'fsm'
diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index e365ef5..9ef80c2 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -101,7 +101,7 @@ class KripkeStructure(
             'type?label':
                 '',
             'separator':
-                r'\\n'}
+                r'\n'}
         self.dot_node_shape = dict(
             normal='rectangle')
         self._state_dot_label_format = {
@@ -110,12 +110,12 @@ class KripkeStructure(
             'type?label':
                 '',
             'separator':
-                r'\\n'}
+                r'\n'}
         self._transition_dot_label_format = {
             'type?label':
                 ':',
             'separator':
-                r'\\n'}
+                r'\n'}
         self._transition_dot_mask = dict()
 
     def __str__(self):
@@ -597,7 +597,7 @@ class FiniteTransitionSystem(
             'type?label':
                 '',
             'separator':
-                r'\\n'}
+                r'\n'}
         self._transition_dot_label_format = {
             'sys_actions':
                 'sys',
@@ -608,7 +608,7 @@ class FiniteTransitionSystem(
                 ':',
                 # todo: '' if no env
             'separator':
-                r'\\n'}
+                r'\n'}
         self._transition_dot_mask = dict()
         self.dot_node_shape = dict(
             normal='box')
@@ -1151,7 +1151,7 @@ class LabeledGameGraph(
             'type?label':
                 '',
             'separator':
-                r'\\n'}
+                r'\n'}
         self.dot_node_shape = dict(
             normal='rectangle')
 
-- 
2.43.0


From 22bd0bede06c5e91c395cf8c0921461b8c7e97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 086/105] fix: quotes in labels, colors, and styles of exported
 DOT graphs

The package `graphviz` quotes the values, so the quotes
were shown in drawings, and colors were unknown to `dot`.
---
 tulip/transys/export/graph2dot.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index 3dbf0d1..b365182 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -141,7 +141,7 @@ def _state2dot(
     accept_shape = graph.dot_node_shape.get('accepting', '')
     shape = accept_shape if is_accepting else normal_shape
     corners = 'rounded' if shape == 'rectangle' else ''
-    rim_color = '"' + _format_color(rim_color, 'dot') + '"'
+    rim_color = _format_color(rim_color, 'dot')
     fc = d.get('fillcolor', 'none')
     filled = '' if fc == 'none' else 'filled'
     if fc == 'gradient':
@@ -170,18 +170,18 @@ def _state2dot(
     else:
         fillcolor = _format_color(fc, 'dot')
     if corners and filled:
-        node_style = f'"{corners}, {filled}"'
+        node_style = f'{corners}, {filled}'
     elif corners:
-        node_style = f'"{corners}"'
+        node_style = corners
     else:
-        node_style = f'"{filled}"'
+        node_style = filled
     to_dot_graph.add_node(
         state,
         label=node_dot_label,
         shape=shape,
         style=node_style,
         color=rim_color,
-        fillcolor=f'"{fillcolor}"')
+        fillcolor=fillcolor)
 
 
 def _state2tikz(
@@ -319,7 +319,7 @@ def _add_incoming_edge(
     phantom_node = f'phantominit{state}'
     g.add_node(
         phantom_node,
-        label='""',
+        label='',
         shape='none',
         width='0')
     g.add_edge(phantom_node, state)
@@ -510,7 +510,6 @@ def _form_edge_label(
                   label_str + sep_label_sets)
     if tikz:
         label = r'\begin{matrix}' + label + r'\end{matrix}'
-    label = f'"{label}"'
     return label
 
 
-- 
2.43.0


From d9d26c54cc42e64ea4d0fe37db49b9cfd7baeba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 087/105] fix: edges in exported HTML

The key of edges became `"edges"` in `networkx`, and
the endpoints are nodes, instead of indices.
---
 tulip/transys/export/save_d3.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tulip/transys/export/save_d3.py b/tulip/transys/export/save_d3.py
index afb7a95..e49c08e 100644
--- a/tulip/transys/export/save_d3.py
+++ b/tulip/transys/export/save_d3.py
@@ -157,12 +157,14 @@ def labeled_digraph2d3(
 
     var graph = """
     # embed to avoid browser local file-loading restrictions
-    try:
-        s += _nxrw.json_graph.dumps(graph)
-    except:
-        # better error msg for numpy array
-        data = _nxrw.json_graph.node_link_data(graph)
-        s += json.dumps(data, default=lambda x: str(x))
+    data = _nxrw.json_graph.node_link_data(graph)
+    # d3.js refers to nodes by index
+    index = {u: i for i, u in enumerate(graph)}
+    data['links'] = [
+        dict(d, source=index[d['source']],
+             target=index[d['target']])
+        for d in data.pop('edges', data.get('links'))]
+    s += json.dumps(data, default=lambda x: str(x))
     s += ';'
     s += """
     function draw(graph){
-- 
2.43.0


From e726bdd7f8421d1638e5d12b74a21e650fd234ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:53 +0000
Subject: [PATCH 088/105] fix: accepting states in exported DOT graphs

---
 tulip/transys/export/graph2dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index b365182..9346fcf 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -420,7 +420,7 @@ def _is_accepting(
         ) -> bool:
     """accepting state ?"""
     # no accepting states defined ?
-    if not hasattr(graph.states, 'accepting'):
+    if not hasattr(graph, 'accepting'):
         return False
     return state in graph.accepting
 
-- 
2.43.0


From c0c99282bad6f982d72d3639302a1aeffe7cf0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:16 +0000
Subject: [PATCH 089/105] fix: labels without a DOT format in exported HTML

---
 tulip/transys/export/save_d3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/export/save_d3.py b/tulip/transys/export/save_d3.py
index e49c08e..1c99e66 100644
--- a/tulip/transys/export/save_d3.py
+++ b/tulip/transys/export/save_d3.py
@@ -51,7 +51,8 @@ def _format_label(
     """Format state/edge labels, which pop-up on mouse hover."""
     s = '"\\n\\n" +'
     for sublabel_name in label_def:
-        shown_name = label_dot_format[sublabel_name]
+        shown_name = label_dot_format.get(
+            sublabel_name, sublabel_name)
         kv_sep = label_dot_format['type?label']
         sep = label_dot_format['separator']
         s += f'"{shown_name}{kv_sep}" '
-- 
2.43.0


From e301dc16ad1ceeb6b0b6de0873745a1a16f7c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:22 +0000
Subject: [PATCH 090/105] fix: systems without disturbance or drift with
 from_lti()

The default values of `E` and `K` became lists, which `LtiSysDyn` rejects.
---
 tulip/hybrid.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index e04dade..ac44c61 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -540,10 +540,6 @@ class PwaSysDyn:
             A = list()
         if B is None:
             B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         lti_sys = LtiSysDyn(
             A, B, E, K, Uset, Wset, domain)
         return cls([lti_sys], domain)
@@ -854,10 +850,6 @@ class SwitchedSysDyn:
             A = list()
         if B is None:
             B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         pwa_sys = PwaSysDyn.from_lti(
             A, B, E, K,
             Uset, Wset, domain)
-- 
2.43.0


From 5ab14ae459a9d2b23a84d07a64878b5b670d2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 091/105] fix: membership in a CartesianProduct

The test raised TypeError for every element.
---
 tulip/transys/mathset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 3f14878..4e3974b 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -670,9 +670,11 @@ class CartesianProduct:
                 'Argument element must be `Iterable`, otherwise cannot '
                 'recover which item in it belongs to which set in the '
                 'Cartesian product.')
-        pairs = zip(self.mathsets, element)
-        return all(map(
-            _op.contains, pairs))
+        element = list(element)
+        return (
+            len(element) == len(self.mathsets) and
+            all(map(
+                _op.contains, self.mathsets, element)))
 
     def add(
             self,
-- 
2.43.0


From 63a5a3069f2fdb17678bc35c81d2272561030bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 092/105] fix: elements of a MathSet that were lost or not
 found

With an element like `(1, [2])`, hashable elements were stored where
`in` did not find them. Unhashable elements of an iterator were lost,
and errors of an iterator were ignored.
---
 tulip/transys/mathset.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 4e3974b..cdfe487 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -324,9 +324,7 @@ class MathSet:
                 _abc.Iterable
             ) -> _abc.Iterable:
         return filter(
-            lambda x:
-                isinstance(x, _abc.Hashable),
-            iterable)
+            _is_hashable, iterable)
 
     def _filter_unhashables(
             self,
@@ -335,7 +333,7 @@ class MathSet:
             ) -> list:
         return list(filter(
             lambda x:
-                not isinstance(x, _abc.Hashable),
+                not _is_hashable(x),
             iterable))
 
     def _delete_all(self) -> None:
@@ -423,14 +421,10 @@ class MathSet:
             self._set |= iterable
             return
         # filter to optimize storage
-        try:
-            self._set |= set(self._filter_hashables(iterable))
-            self._list = list(unique(
-                self._list + self._filter_unhashables(iterable)))
-            return
-        except:
-            # ...if contents of elements in iterable are mutable
-            self._list = list(unique(self._list + list(iterable)))
+        items = list(iterable)
+        self._set |= set(self._filter_hashables(items))
+        self._list = list(unique(
+            self._list + self._filter_unhashables(items)))
 
     def remove(
             self,
@@ -703,6 +697,15 @@ class CartesianProduct:
         any(map(self.remove, mathsets))
 
 
+def _is_hashable(item) -> bool:
+    """Return `True` if `item` and its contents are hashable."""
+    try:
+        hash(item)
+    except TypeError:
+        return False
+    return True
+
+
 def unique(
         iterable:
             _abc.Iterable
-- 
2.43.0


From 9fd48a909aae1dff685f9d014cbb7455de1470ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 093/105] fix: MathSet difference printed its elements

---
 tulip/transys/mathset.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index cdfe487..b75e8ba 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -265,11 +265,8 @@ class MathSet:
                 _abc.Iterable
             ) -> 'MathSet':
         s = MathSet(self)
-        print(f'{s =}')
-        print(rm_items)
         for item in rm_items:
             if item in s:
-                print(f'Removing...: {(item)}')
                 s.remove(item)
         return s
 
-- 
2.43.0


From df5c4dcf7ed4d294e1e5b2d5fef5799a736a9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 094/105] fix: `|=` did not check the types of a TypedDict

---
 tulip/transys/mathset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index b75e8ba..120cdc3 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -987,6 +987,13 @@ class TypedDict(
         for key in kwargs:
             self[key] = kwargs[key]
 
+    def __ior__(
+            self,
+            other
+            ) -> 'TypedDict':
+        self.update(other)
+        return self
+
     def setdefault(
             self,
             key,
-- 
2.43.0


From f96d6b64d7fc1cd139d4ce3aaf9cf89525fa1653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 095/105] fix: is_seq_inside() raised an error for every
 sequence

`polytope.is_inside` takes vectors, not columns.
---
 tulip/abstract/find_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index f5904b6..45d7286 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -627,11 +627,11 @@ def is_seq_inside(
     for i in range(N - 1):
         u = u_seq[i, :].reshape(u_seq[i, :].size, 1)
         x = A.dot(x) + B.dot(u) + K
-        if not pc.is_inside(P0, x):
+        if not pc.is_inside(P0, x.flatten()):
             inside = False
     un_1 = u_seq[N - 1, :].reshape(u_seq[N - 1, :].size, 1)
     xn = A.dot(x) + B.dot(un_1) + K
-    if not pc.is_inside(P1, xn):
+    if not pc.is_inside(P1, xn.flatten()):
         inside = False
     return inside
 
-- 
2.43.0


From 1e83e59f4b6a8747275d1d94c7807c304f858b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 096/105] fix: states removed from Rabin automata stayed in the
 Rabin pairs

---
 tulip/transys/automata.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 89a3e62..edcd515 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -604,6 +604,16 @@ class RabinAutomaton(
         self.accepting = RabinPairs(self.states)
         self.automaton_type = 'Rabin Automaton'
 
+    def remove_node(
+            self,
+            node):
+        """Remove `node` also from the Rabin pairs."""
+        for good_set, bad_set in self.accepting:
+            for state_set in (good_set, bad_set):
+                if node in state_set:
+                    state_set.remove(node)
+        _graphs.LabeledDiGraph.remove_node(self, node)
+
 
 class DRA(
         RabinAutomaton):
-- 
2.43.0


From b65ac5d34d2668c2d6e38bcc218a695a82cb2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 097/105] fix: policies of model checking could not be saved

---
 tulip/transys/mathfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/mathfunc.py b/tulip/transys/mathfunc.py
index 04a4a5e..1f4d7d2 100644
--- a/tulip/transys/mathfunc.py
+++ b/tulip/transys/mathfunc.py
@@ -94,7 +94,7 @@ class LabeledStateInputOutputPair:
             if transys is not None else self.labels)
         ret = dict(
             state=self.state,
-            labels=labels)
+            labels=list(labels))
         for key, val in self.input_dict.items():
             ret[str(key)] = val
         for key, val in self.output_dict.items():
-- 
2.43.0


From e0167d466beddcb35c00de2d6e4326a4c3054c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 098/105] fix: dump_ppartition() ignored the offset of names of
 cells

---
 tulip/gridworld.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 72ce4ee..666db92 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -891,10 +891,8 @@ class GridWorld:
         cells = dict()
         for i in range(self.W.shape[0]):
             for j in range(self.W.shape[1]):
-                if nonbool:
-                    cell_var = self.__getitem__((i, j))
-                else:
-                    cell_var = f'{self.prefix}_{i}_{j}'
+                cell_var = self.__getitem__(
+                    (i, j), nonbool=nonbool)
                 # adjacency[i]
                 cells[cell_var] = Polytope(
                         A=np.array(
-- 
2.43.0


From 48604a1ce3565896bf6cd81a2ef7dd93c7bd484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:02 +0000
Subject: [PATCH 099/105] fix: variables with two owners were given to the
 system

---
 tulip/synth.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index aa5676b..e375956 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1372,6 +1372,7 @@ def synthesize_many(
                 _copy_options_from_ts(env_spec, t, specs)
                 _move_sys_init(env_spec, specs.qinit)
                 specs |= env_spec
+    _check_owners(specs)
     return _synthesize(
         specs, solver,
         rm_deadends=True)
@@ -1661,9 +1662,22 @@ def _spec_plus_sys(
     _logger.info(
         'Overall Spec:\n'
         f'{specs.pretty()}{_hl}')
+    _check_owners(specs)
     return specs
 
 
+def _check_owners(
+        specs:
+            _spec.GRSpec
+        ) -> None:
+    """Raise `ValueError` if a variable has two owners."""
+    both = set(specs.env_vars).intersection(specs.sys_vars)
+    if both:
+        raise ValueError(
+            'variables of both the environment '
+            f'and the system: {sorted(both)}')
+
+
 def _move_sys_init(
         ts_spec:
             _spec.GRSpec,
-- 
2.43.0


From d9b601509ddddc09f74b5121fc9a97835b5bfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:25 +0000
Subject: [PATCH 100/105] fix: add_grid rejects cell sizes that are not
 positive

add_grid() did not terminate for sizes that are zero, negative, or NaN.
---
 tulip/abstract/prop2partition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 8d3af11..488d665 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -598,6 +598,10 @@ def add_grid(
             raise Exception(
                 '`num_grid_pnts` is not given '
                 'in a correct format.')
+    if not all(size > 0 for size in size_list):
+        raise ValueError(
+            'cells of the grid must have positive size, '
+            f'but: {size_list}')
     j = 0
     list_grid = dict()
     while j < dim:
-- 
2.43.0


From a8c11b7de597494c98f973ae9d0be68524861742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:55 +0000
Subject: [PATCH 101/105] fix: pieces of a divided cell were neighbours though
 they do not touch

The first piece of the reachable part was declared adjacent to
each other piece of the cell, including other pieces of the
reachable part, which are apart.
---
 tulip/abstract/discretization.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 63f543d..093424b 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1003,13 +1003,11 @@ def _discretize_bi(
                 (0, num_new),
                 'constant')
             for r in new_idx:
-                adj[i, r] = 1
-                adj[r, i] = 1
                 adj[r, r] = 1
                 orig = np.hstack([orig, orig[i]])
             # adjacency between pieces of `isect` and `diff`
             for r in new_idx:
-                for k in new_idx:
+                for k in (i, *new_idx):
                     if r is k:
                         continue
                     if pc.is_adjacent(sol[r], sol[k]):
-- 
2.43.0


From 11142e21877ea07bfdfb582a4847aef7394ebf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:38 +0000
Subject: [PATCH 102/105] fix: load_aut_xml did not use the given namespace for
 variables and lists

---
 tulip/interfaces/gr1c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 93efdf5..829c794 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -284,9 +284,11 @@ def load_aut_xml(
             f'{elem.attrib["version"]}')
     # Extract discrete variables and LTL specification
     tag_name, env_vardict, env_vars = _untagdict(elem.find(
-        ns_prefix+"env_vars"), get_order=True)
+        ns_prefix+"env_vars"),
+        namespace=namespace, get_order=True)
     tag_name, sys_vardict, sys_vars = _untagdict(elem.find(
-        ns_prefix+"sys_vars"), get_order=True)
+        ns_prefix+"sys_vars"),
+        namespace=namespace, get_order=True)
     # variables
     env_vars = _parse_vars(env_vars, env_vardict)
     sys_vars = _parse_vars(sys_vars, sys_vardict)
@@ -334,14 +336,16 @@ def load_aut_xml(
         #     # Assume version 1
         tag_name, this_name_list = _untaglist(
             node.find(f'{ns_prefix}anno'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if len(this_name_list) == 2:
             mode, rgrad = this_name_list
         else:
             mode, rgrad = (-1, -1)
         tag_name, this_child_list = _untaglist(
             node.find(f'{ns_prefix}child_list'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if tag_name != f'{ns_prefix}child_list':
             # This really should never happen and may not even be
             # worth checking.
-- 
2.43.0


From a855eb38713f306ea63fbf38217d2d38dc817203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:29 +0000
Subject: [PATCH 103/105] fix: tuple2fts lost the labels if the states were
 given by an iterator

---
 tulip/transys/transys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 9ef80c2..390fd0a 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -782,6 +782,9 @@ def tuple2fts(
                 'The state-labeling function: '
                 '`L -> 2^AP` must be '
                 'defined using an `Iterable`.')
+        state_labeling = list(state_labeling)
+        if not state_labeling:
+            return state_labeling
         state_label_pairs = True
         # cannot be caught by try below
         if isinstance(state_labeling[0], str):
@@ -812,7 +815,7 @@ def tuple2fts(
     if isinstance(S0, str) or not isinstance(S0, _abc.Iterable):
         S0 = [S0]
     # comprehensive names
-    states = S
+    states = list(S)
     initial_states = S0
     ap = AP
     state_labeling = pair_labels_with_states(states, L)
-- 
2.43.0


From 3daaa20fbf7f2f36f12ffa1475327f0f2a52c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:34 +0000
Subject: [PATCH 104/105] fix: time data of parts of parts were not checked
 with overwrite_time=False

---
 tulip/hybrid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index ac44c61..61b6395 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -964,6 +964,8 @@ def _check_time_consistency(
         if time_semantics_differ:
             raise ValueError(
                 'Not all time-semantics are the same.')
+    if not system_list:
+        return
     # Check that time semantics for all subsystems
     # match specified system and timestep
     if system_list[0].timestep != timestep:
@@ -974,6 +976,12 @@ def _check_time_consistency(
         raise ValueError(
             'Time semantics of subsystems do not match '
             'specified time semantics.')
+    # Check the parts of each subsystem
+    for system in system_list:
+        if isinstance(system, PwaSysDyn):
+            _check_time_consistency(
+                system.list_subsys,
+                time_semantics, timestep)
 
 
 def _assert_square_array(
-- 
2.43.0


From 5daf06fdf9240b215654abcd0e5871254aeb0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:52 +0000
Subject: [PATCH 105/105] fix: build_dependent_var_table gave formulas that
 cannot be substituted

The formula of a proposition that labels no state was empty, and the
disjunction for several states lacked the documented parentheses.
---
 tulip/synth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index e375956..bd09e68 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1260,8 +1260,10 @@ def build_dependent_var_table(
         bool_states=False,
         must='xor')
     ap2states = map_ap_to_states(fts)
-    return {k: _disj(state_ids[x] for x in v)
-            for k, v in ap2states.items()}
+    return {
+        k: _pstr(_disj(state_ids[x] for x in v))
+            if v else 'False'
+        for k, v in ap2states.items()}
 
 
 def map_ap_to_states(
-- 
2.43.0

