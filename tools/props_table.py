"""The properties: claimed (PROPS) and not applicable (NA)."""

NOTE = ('Seeded search over generated executions: a quiet run is evidence, '
        'not proof. ')

PROPS = [
 dict(
  id='C01',
  title='Synthesized controllers win every closed loop they are run in',
  statement=(
   'Whenever synthesis returns a controller for a GR(1) specification, every execution of that controller against an '
   'environment that has kept its assumptions so far satisfies the initial, safety and recurrence guarantees, never '
   'stops answering, and answers with values in the declared domains. An input that the environment may not choose is '
   'rejected without changing the controller. For a Moore specification the answer does not depend on the current input.'),
  over=['inputs', 'histories', 'fault_sequences'],
  text='all GR(1) specifications (any variable kinds, goals, options, solver) and all infinite environment histories, including adversarial ones and ones with illegal inputs',
  why='The tests synthesize about thirty fixed specifications and mostly check only that the result is not None or count its nodes; no test runs a controller against an adversarial environment, and recurrence is a property of infinite histories.',
  files=['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/interfaces/gr1py.py', 'tulip/spec/form.py', 'tulip/spec/translation.py', 'tulip/transys/machines.py'],
  mechanism=[('synthesis and strategy enumeration', 'tulip/interfaces/omega.py: synthesize_enumerated_streett, _strategy_to_state_annotated'), ('strategy to Mealy machine', 'tulip/synth.py: strategy2mealy'), ('dead-end removal', 'tulip/synth.py: synthesize, rm_deadends')],
  observe=['MealyMachine.reaction', 'synthesize'],
  technique='the synthesized controller is played against seeded, partly adversarial environments (illegal inputs injected, lasso hunt for starved goals), checked against an explicit-state reference game',
  note=NOTE + 'Games have at most 20 joint valuations, so the adversary sees the whole closed loop of each run. Trusts the reference formula evaluator in vsim/gr1model.py.'),
 dict(
  id='C02',
  title='Realizability verdicts are the truth about the game, on every route',
  statement=(
   'A specification is reported realizable exactly when the system has a winning strategy in the game the specification denotes '
   '(for its Mealy/Moore, initial-quantifier and step-assumption options). The verdict is the same from the realizability check and from synthesis, '
   'from every solver that supports the specification, on repetition, after reordering declarations and formulas, and under any hash seed.'),
  over=['inputs', 'configurations', 'histories'],
  text='all GR(1) specifications and options, all routes to a verdict, all orders of declaration, all interpreter hash seeds',
  why='Tests assert the verdict of a few hand-written specifications, each once, by one route and under one hash seed.',
  files=['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/interfaces/gr1py.py', 'tulip/spec/form.py', 'tulip/spec/translation.py', 'tulip/spec/transformation.py'],
  mechanism=[('realizability', 'tulip/interfaces/omega.py: is_circular, _grspec_to_automaton'), ('gr1py verdict', 'tulip/interfaces/gr1py.py: check_realizable')],
  observe=['is_realizable', 'synthesize'],
  technique='seeded histories of verdict requests (repeat, rebuild, reorder, other solver, other hash seed) compared with an explicit-state nested fixpoint',
  note=NOTE + 'Games have at most 20 joint valuations. Trusts the fixpoint in vsim/gr1model.py.'),
 dict(
  id='C03',
  title='Synthesis against transition systems plays those very systems',
  statement=(
   'When a plant and/or environment is given as a transition system, a controller exists exactly when the game played directly on those systems is won, '
   'and in every closed loop the controller\'s plant moves only along transitions of its system, with labels, actions and initial states as declared, for as long as the environment moves along its own. '
   'Both stay so when propositions are replaced by the formulas of build_dependent_var_table(), and for other names of the state variables.'),
  over=['inputs', 'programs', 'histories', 'configurations'],
  text='all labelled, open or closed transition systems (state names, sparse integer ids, several action types, dead-ends), formulas, options, one or many systems, and all environment histories',
  why='Tests use a few fixed systems with string states; the encoding to logic is checked only through the realizability of those.',
  files=['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/spec/form.py', 'tulip/transys/transys.py'],
  mechanism=[('encoding of systems as formulas', 'tulip/synth.py: sys_to_spec, env_to_spec, fts2spec helpers'), ('several systems', 'tulip/synth.py: synthesize_many'), ('state ids', 'tulip/synth.py: create_states, _exclude_gaps')],
  observe=['synthesize', 'synthesize_many', 'MealyMachine.reaction'],
  technique='the controller is played in closed loop while reference copies of the transition systems are stepped in lockstep; verdicts are compared with a game on the systems themselves',
  note=NOTE + 'Systems have at most 4 states. Environment systems give the environment a choice for each system action.'),
 dict(
  id='C04',
  title='Executing a machine follows its transitions, and only those',
  statement=(
   'Every way of executing a deterministic Mealy machine (single reactions, partial inputs, given, random or interactive input sequences) takes exactly the transition '
   'the machine has for the present state and input and reports its outputs; an input the machine has no unique transition for, or malformed input sequences, are rejected with an error and change nothing. '
   'An interactive run advances with each selection, asks again after an answer it does not understand, and ends when the user stops.'),
  over=['histories', 'inputs', 'fault_sequences'],
  text='all deterministic machines, all histories of executions and edits, all faulty inputs and user answers at any point',
  why='Tests execute two small fixed machines along one or two input sequences; interactive runs and faulty inputs in mid-sequence are not run at all.',
  files=['tulip/transys/machines.py', 'tulip/transys/labeled_graphs.py'],
  mechanism=[('reaction', 'tulip/transys/machines.py: MealyMachine.reaction'), ('runs', 'tulip/transys/machines.py: guided_run, random_run, interactive_run')],
  observe=['MealyMachine.reaction', 'guided_run', 'random_run', 'interactive_run'],
  technique='seeded histories of executions and machine edits with faulty inputs and a simulated user, checked step by step against a transition table',
  note=NOTE + 'Machines have at most 6 states and 9 input valuations.'),
 dict(
  id='C05',
  title='Generated Python controllers behave as the machine, also after crashes',
  statement=(
   'The Python controller generated from a Mealy machine is valid code that answers every input sequence exactly as the machine does; invalid inputs raise ValueError and dead-ends RuntimeError without changing the saved state. '
   'A controller restarted from its saved state, also by newly generated code, continues where it was, and instances do not affect each other. '
   'Writing the controller to a file either leaves the whole controller there or raises an error.'),
  over=['histories', 'crash_points', 'fault_sequences', 'inputs'],
  text='all machines, input histories, interleavings of instances, crash and restart points, disk faults while writing',
  why='The test generates code for one machine and compares a short run; it injects no invalid inputs, restarts or disk faults.',
  files=['tulip/dumpsmach.py'],
  mechanism=[('code generation', 'tulip/dumpsmach.py: python_case, write_python_case')],
  observe=['python_case', 'write_python_case', 'TulipStrategy.move'],
  technique='generated controllers run in lockstep with the transition table under invalid inputs, crash/restart from saved state, interleaved instances, and disk faults on the generated file',
  note=NOTE + 'Disk faults: full disk, short write, missing directory, older file in place.'),
 dict(
  id='C06',
  title='Transformed controllers execute as the originals',
  statement=(
   'Removing output ports, masking zero outputs, making initial reactions deterministic, removing dead-ends, and converting between Mealy and Moore machines give machines whose executions are those of the original, '
   'up to exactly the documented change (the ports removed, the reaction chosen, outputs one step later). The original machine is not changed by them, nor by edits to the result.'),
  over=['histories', 'programs', 'fault_sequences'],
  text='all machines, all sequences of transformations, all input histories with faulty inputs',
  why='Tests apply each transformation to one fixed machine and inspect the graph, not its executions.',
  files=['tulip/transys/machines.py', 'tulip/synth.py', 'tulip/transys/labeled_graphs.py'],
  mechanism=[('conversions', 'tulip/transys/machines.py: moore2mealy, mealy2moore, strip_ports'), ('initial reactions', 'tulip/synth.py: determinize_machine_init, mask_outputs')],
  observe=['MealyMachine.reaction', 'MooreMachine.states'],
  technique='original and transformed machine are run in lockstep under seeded input histories with faults',
  note=NOTE + 'Machines have at most 6 states and 9 input valuations.'),
 dict(
  id='C07',
  title='Transitions of a discretized plant are executable, whatever the disturbance',
  statement=(
   'Each transition of an abstraction computed from a linear or piecewise affine system under disturbance is executable: '
   'whatever the algorithm and options chosen, from every plant state of the source cell there are admissible inputs, and the inputs computed keep the plant within '
   'the source cell (unless that is not asked for), then bring it into the target cell for every disturbance; transitions between adjacent convex cells that are executable with a margin are not missing, and cells are adjacent exactly when their closures touch. The cells (also when the partition is refined with a grid) cover the continuous domain, carry the labels of the '
   'propositional cells that they came from, and contain the plant states that find_discrete_state() maps to them. Computing inputs does not change its arguments, and a failure of the numeric solver is either recovered from or reported, never an input that violates a bound.'),
  over=['inputs', 'configurations', 'fault_sequences', 'histories'],
  text='all plants, polytopic partitions, disturbance sets, algorithms (bisimulation or dual simulation, conservative or not, open or closed loop, horizons), all plant states and adversarial disturbances, all failures of single solver calls',
  why='The tests discretize three fixed systems, compare counts of cells or reachability from a few fixed sets, and never drive the plant with the computed inputs under disturbance or solver failure.',
  files=['tulip/abstract/discretization.py', 'tulip/abstract/feasible.py', 'tulip/abstract/find_controller.py', 'tulip/abstract/prop2partition.py', 'tulip/hybrid.py'],
  mechanism=[('refinement loops', 'tulip/abstract/discretization.py: discretize, _discretize_bi, _discretize_dual'), ('backward reachability', 'tulip/abstract/feasible.py: solve_feasible'), ('controller', 'tulip/abstract/find_controller.py: get_input, get_input_helper, find_discrete_state')],
  observe=['discretize', 'get_input', 'find_discrete_state', 'AbstractPwa.ppp'],
  technique='the plant is simulated with the computed inputs under an adversarial disturbance, from corners and sampled points of cells, with injected failures of the LP and QP solver, random numbers behind a seam',
  note=NOTE + 'Plants have one or two states; tolerance 1e-5 (that of the geometry library).'),
 dict(
  id='C09',
  title='Parallel abstraction gives the serial result or an error, for every schedule',
  statement=(
   'Discretizing a switched system with worker processes returns the same abstraction as discretizing it serially (regions, labels, mode abstractions, transitions and their mode actions), '
   'for every order and speed of the workers and of their messages and for every set of parameters. If a worker fails, is killed, or its message is lost, then the caller gets an error; it never waits forever, and slow workers cause no error.'),
  over=['schedules', 'crash_points', 'configurations', 'inputs'],
  text='all switched systems and parameters, all schedules of workers and messages, all failures of workers',
  why='No test runs the parallel implementation.',
  files=['tulip/abstract/discretization.py'],
  mechanism=[('workers and collection of results', 'tulip/abstract/discretization.py: multiproc_discretize_switched, multiproc_discretize, multiproc_get_transitions')],
  observe=['multiproc_discretize_switched', 'discretize_switched'],
  technique='multiprocessing is replaced by a discrete-event simulation (own memory of each worker, simulated clock, messages that are late or lost, workers that die); results are compared with the serial ones',
  note=NOTE + 'Workers interact only through the queue, so each runs atomically; a worker killed within a write to the pipe is not simulated.'),
 dict(
  id='C10',
  title='Abstractions of switched systems are abstractions of the switched plant',
  statement=(
   'The merged partition of a switched abstraction covers the domain without overlaps, has the labels of the propositions and the adjacency of its regions, and its maps to modes, cells and subsystems are right. Each transition is labeled with the actions of a mode, and '
   'the plant in that mode can be brought from every state of the start region to the target region in the horizon, for every disturbance, whatever modes are switched to later; transitions between adjacent convex regions that are executable with a margin are not missing.'),
  over=['inputs', 'configurations', 'histories'],
  text='all switched systems (numbers and labels of modes, PWA dynamics, disturbances), partitions, per-mode parameters, plant states, disturbances and sequences of modes',
  why='One test abstracts one system and compares the graph with a fixed one; the plant is never run.',
  files=['tulip/abstract/discretization.py', 'tulip/abstract/feasible.py', 'tulip/hybrid.py'],
  mechanism=[('merging partitions', 'tulip/abstract/discretization.py: merge_partitions, merge_partition_pair'), ('transitions of each mode', 'tulip/abstract/discretization.py: get_transitions, merge_abstractions')],
  observe=['discretize_switched', 'AbstractSwitched.ppp2pwa', 'AbstractSwitched.ppp2sys', 'AbstractSwitched.ts'],
  technique='the plant is simulated under seeded mode switching and adversarial disturbance along transitions of the abstraction; executability is decided by an independent linear program',
  note=NOTE + 'Plants have one or two states. Completeness only for convex regions and horizons up to 2, with a margin.'),
 dict(
  id='C11', title='Labeled graphs keep their labels typed and their content exact',
  statement='For every history of operations on a labeled directed graph (LabeledDiGraph, FiniteTransitionSystem, KripkeStructure and its variants, ParityGame, LabeledGameGraph) and on its deep or pickled copies: nodes, edges, initial states and labels are exactly those that the successful operations define; labels are checked against the label types, whether given when adding or assigned by subscript, and inadmissible values, undeclared label names (with check=True), unknown nodes and unlabeled parallel edges are rejected, leaving the graph and the arguments of the caller unchanged (in a batch: the elements before the rejected one are kept, for initial states none); initial states are a subset of the states; there are no two edges between the same nodes with equal labels; defaults are not shared between nodes; removing edges, with and without labels, find(), pre/post, reachability, dead-end removal, is_consistent() and the constructors from tuples and label sequences agree with the definition.',
  over=['inputs', 'histories'],
  text='all histories of operations, label types (set, power set, list, guard, any, cost, probability) and defaults, graph classes, copies, and callers that fail halfway',
  why='Consistency must survive every order of operations including the rejected ones; tests sample a few fixed sequences and no rejected operation in the middle of a batch.',
  files=['tulip/transys/labeled_graphs.py', 'tulip/transys/mathset.py', 'tulip/transys/transys.py', 'tulip/transys/automata.py'],
  mechanism=[('labels and edges', 'tulip/transys/labeled_graphs.py: LabeledDiGraph, States, Transitions'), ('label types', 'tulip/transys/mathset.py: TypedDict, SubSet, PowerSet'), ('constructors', 'tulip/transys/transys.py: tuple2fts, line_labeled_with, cycle_labeled_with, add_initial_states')],
  observe=['LabeledDiGraph', 'States', 'Transitions', 'FTS', 'ParityGame'],
  technique='deterministic simulation with fault injection: seeded search over operation histories, refinement against a reference model after each step',
  note=NOTE+'Left open (either outcome accepted): labels with defaults when an existing node is added again without giving them; adding an unlabeled edge where labeled edges exist.'),
 dict(
  id='C12', title='External GR(1) solvers are used soundly, and their failures never become answers',
  statement='With gr1c or slugs as the solver, synthesize() returns a controller exactly for the realizable specifications (with the initial conditions quantified as the specification says), the controller satisfies the specification in closed loop, and is_realizable() and gr1c.check_syntax() give the right verdict, as long as the tool works as documented. When a process cannot be started, is killed, fails, is missing or too old, writes a lot of messages or output that is cut short, or when the disk is full, the call ends with an exception, or with the documented error value (None from gr1c.synthesize, False from the checks); it never returns a controller or a positive verdict that is wrong, never waits forever, leaves no process and no temporary file behind, and later calls are not affected.',
  over=['inputs', 'fault_sequences', 'histories'],
  text='all GR(1) specifications that the interface supports, all strategies that the tool may return, all failures of the processes, pipes and temporary files, sequences of calls',
  why='The tests of these interfaces need the tools, try a handful of specifications, and never make a tool or the disk fail.',
  files=['tulip/interfaces/gr1c.py', 'tulip/interfaces/slugs.py', 'tulip/synth.py'],
  mechanism=[('gr1c', 'tulip/interfaces/gr1c.py: check_syntax, check_realizable, synthesize, select_options, load_aut_json'), ('slugs', 'tulip/interfaces/slugs.py: check_realizable, synthesize, _call_slugs, _bitfields_to_ints'), ('Mealy machine', 'tulip/synth.py: synthesize, is_realizable, strategy2mealy')],
  observe=['synth.synthesize', 'synth.is_realizable', 'gr1c.check_syntax', 'gr1c.check_realizable', 'slugs.check_realizable'],
  technique='gr1c and slugs are simulated processes (own parser, explicit solver, bounded pipes, exit status) under a seeded scheduler that injects failures of processes, pipes and disk; returned controllers are played against an adversarial environment',
  note=NOTE+'The real gr1c and slugs are not installed here: the tools are simulated from their documentation and the reference outputs in the test suite.'),
 dict(
  id='C13', title='A gr1c session answers as the tool does, and reports that the tool died',
  statement='Every command of a GR1CSession returns what gr1c answers for the given state, move and goal, for every sequence of commands, resets and closes and every order of variables; when gr1c terminates before or during a command, the command raises an exception in bounded time, instead of returning a part of the answer or reading forever; reset() and close() return whether gr1c ended with success, never raise because gr1c has died, and leave no process behind; a session can be reset afterwards. A strategy file of gr1c (JSON or XML) loads as the strategy written in it (nodes, values of variables, successors, initial nodes), which implements the specification; a file that was cut short, or an unknown format, raises an exception.',
  over=['inputs', 'histories', 'crash_points', 'fault_sequences'],
  text='all specifications, sequences of commands, points where gr1c dies, strategy files and places where they are cut',
  why='The tests ask each command once or twice of a real gr1c that does not fail.',
  files=['tulip/interfaces/gr1c.py', 'tulip/synth.py'],
  mechanism=[('session', 'tulip/interfaces/gr1c.py: GR1CSession'), ('files', 'tulip/interfaces/gr1c.py: load_mealy, load_aut_json, load_aut_xml')],
  observe=['GR1CSession', 'gr1c.load_mealy', 'gr1c.load_aut_xml', 'gr1c.load_aut_json'],
  technique='an interactive simulated gr1c process, that dies at a drawn byte of its output, against drawn command histories; answers are compared with an independent explicit solver',
  note=NOTE+'gr1c is simulated from its documentation and the reference answers in the test suite.'),
 dict(
  id='C08', title='A controller built from a plant and a specification works on the plant',
  statement='When a plant is discretized and a controller is synthesized for the abstraction from GR(1) formulas about propositions of the plant state, the closed loop of the plant, the inputs computed with get_input(), and the controller (in memory or exported to Python, also after crashes) satisfies the specification, as evaluated on the plant state: initial conditions, safety formulas at every step, and each goal again and again while the environment keeps its assumptions. '
   'The reported propositions are those of the plant state, find_discrete_state() finds the cell where the plant is, and this holds for every environment behaviour, disturbance, and computation that fails once and is repeated. simulate2d() shows such an execution.',
  over=['inputs', 'histories', 'fault_sequences', 'crash_points', 'configurations'],
  text='all plants, partitions, abstraction options, GR(1) formulas, environment behaviours, disturbances, solver failures and controller crashes',
  why='No test runs a controller against a plant; the examples do so, without disturbance and for one input sequence, and are not checked.',
  files=['tulip/abstract/discretization.py', 'tulip/abstract/find_controller.py', 'tulip/abstract/plot.py', 'tulip/synth.py', 'tulip/dumpsmach.py', 'tulip/hybrid.py'],
  mechanism=[('abstraction to formulas', 'tulip/synth.py: sys_to_spec, sys_trans, synthesize'), ('cells', 'tulip/abstract/discretization.py: discretize, AbstractPwa.ppp2ts'), ('execution', 'tulip/abstract/find_controller.py: get_input, find_discrete_state; tulip/abstract/plot.py: simulate2d')],
  observe=['synth.synthesize', 'MealyMachine.reaction', 'python_case', 'get_input', 'find_discrete_state', 'simulate2d'],
  technique='the whole chain from plant to controller is run in closed loop with a simulated plant, environment and disturbance, under injected solver failures and controller crashes; formulas are evaluated on the plant state',
  note=NOTE+'Plants have one or two states and at most 24 cells. Propositions are not judged within 1e-4 of their boundaries. A fair environment is simulated by rounds; a goal is starved if the closed loop repeats a state at the end of two rounds without reaching it.'),
 dict(
  id='C14', title='Composed systems run as their parts, and policies achieve what is reported',
  statement='synchronous_parallel() of Kripke structures (weighted or not), Markov chains and Markov decision processes has exactly the joint initial states, labels, transitions, costs, probabilities and actions of the parts, also when compositions are composed, and does not change its arguments or share mutable labels with them. '
   'The values that model_checking() returns are those of the composed process, the policy takes only enabled actions and achieves these values when executed, and apply_policy() gives the chain that the policy induces. A file of the model, or of a policy (a function of labeled states and inputs, which has exactly the values last added), describes it, or writing it raises an error.',
  over=['inputs', 'programs', 'histories', 'fault_sequences'],
  text='all tuples of such systems (also with deadlocks, shared state names, several transitions between two states), all formulas of the kinds tried, all disk faults',
  why='The tests compose three fixed models with probabilities of one digit and compare numbers at the states; no execution is compared with the parts, no disk fails.',
  files=['tulip/transys/compositions.py', 'tulip/interfaces/stormpy.py', 'tulip/transys/transys.py', 'tulip/transys/mathfunc.py'],
  mechanism=[('composition', 'tulip/transys/compositions.py: synchronous_parallel, apply_policy'), ('model checking', 'tulip/interfaces/stormpy.py: model_checking, to_prism_file, to_tulip_transys, _extract_policy'), ('policies and their files', 'tulip/transys/mathfunc.py: FunctionOnLabeledState')],
  observe=['synchronous_parallel', 'apply_policy', 'stormpy.model_checking', 'stormpy.to_prism_file', 'stormpy.to_tulip_transys', 'FunctionOnLabeledState'],
  technique='seeded joint executions of composition and parts in lockstep, policies executed on a reference process whose distribution is propagated exactly, disk faults on model files',
  note=NOTE+'Parts have at most 4 states, at most 3 parts. The stormpy library itself is real. Label sets of states must be distinct, as the interface requires.'),
 dict(
  id='C15', title='An automaton read from ltl2ba accepts exactly the words that satisfy the formula',
  statement='The Buchi automaton that ltl2ba() returns, or that Parser.parse() returns for the output of call_ltl2ba(), accepts a word exactly when the automaton that the ltl2ba process printed accepts it, so exactly when the LTL formula holds on the word, and its propositions are those in the guards. '
   'When ltl2ba is missing, cannot start, rejects the formula, is killed, fails, or prints an incomplete claim, an exception is raised instead of a partial automaton, and later calls (also with the same parser) are unaffected. Translation terminates however long the output is.',
  over=['inputs', 'fault_sequences', 'histories'],
  text='all formulas, all printed claims (initial states that accept, the true and the empty automaton, states without transitions, `accept_all: skip`), all points where the process can fail, all sequences of calls',
  why='No test calls this interface, because ltl2ba is not installed.',
  files=['tulip/interfaces/ltl2ba.py', 'tulip/transys/automata.py'],
  mechanism=[('process', 'tulip/interfaces/ltl2ba.py: call_ltl2ba'), ('reader', 'tulip/interfaces/ltl2ba.py: Lexer, Parser, ltl2ba')],
  observe=['ltl2ba.ltl2ba', 'ltl2ba.call_ltl2ba', 'ltl2ba.Parser.parse'],
  technique='simulated ltl2ba process with bounded pipes and process faults; acceptance compared with the meaning of the formula on drawn ultimately periodic words',
  note=NOTE+'Formulas have depth at most 3 and at most 3 propositions. The simulated ltl2ba is a tableau translation written for this harness, which prints in the format of the real tool.'),
 dict(
  id='C16', title='Products of Buchi automata and transition systems are exact in any order',
  statement='ts_ba_sync_prod() and ba_ts_sync_prod() return exactly the reachable part of the synchronous product: initial states, transitions (with the actions, or the letters, of the transition system), state labels, and accepting states, and do not change the given automaton and system. '
   'OnTheFlyProductAutomaton contains exactly the product states visited and the transitions out of expanded states after expansions in any order, repeated or interleaved with growth of the system, add_successors() returns exactly the new states, and the final product is the same as the eager one. Automata remain consistent (states, initial, accepting, letters, Rabin pairs of good and bad states) after additions and removals.',
  over=['inputs', 'schedules', 'histories'],
  text='all automata over letters, all transition systems with or without actions, all orders of expansion, all histories of edits',
  why='The tests multiply one automaton with two states and one system with four states, without actions, dead ends, nondeterminism, or a choice of order.',
  files=['tulip/transys/products.py', 'tulip/transys/automata.py', 'tulip/transys/labeled_graphs.py'],
  mechanism=[('eager products', 'tulip/transys/products.py: ts_ba_sync_prod, ba_ts_sync_prod'), ('on-the-fly product', 'tulip/transys/products.py: OnTheFlyProductAutomaton'), ('automata', 'tulip/transys/automata.py: FiniteStateAutomaton, RabinPairs, tuple2ba')],
  observe=['products.ts_ba_sync_prod', 'products.ba_ts_sync_prod', 'products.OnTheFlyProductAutomaton', 'automata.tuple2ba'],
  technique='seeded schedules of expansions, edits and growth, compared after each step with the definition of the product over plain sets',
  note=NOTE+'Automata have at most 4 states (before edits), systems at most 6. Guards are letters or {True}. There is no I/O in this part: the faults of the family do not apply, the schedule (expansion order, repetition, interleaved growth) does.'),
 dict(
  id='C17', title='A bisimulation or dual-simulation abstraction follows its system in lockstep',
  statement='Every cell of simu_abstract(ts, ...) contains states with one and the same label, which is the label of the cell, the two maps are inverse to each other and cover all states, initial cells are those with an initial state, and the given system neither changes nor shares its actions with the result. '
   'In any joint execution, each move of the abstraction can be answered by every state of the cell with a move into the next cell, and each move of the system by a cell that contains the state; the cells of a bisimulation are the coarsest such partition.',
  over=['inputs', 'histories'],
  text='all finite transition systems, all orders in which labels were built, all joint executions of system and abstraction',
  why='The tests check one system with seven states and one discretized system.',
  files=['tulip/transys/transys.py'],
  mechanism=[('partition refinement', 'tulip/transys/transys.py: simu_abstract'), ('result', 'tulip/transys/transys.py: _output_fts')],
  observe=['simu_abstract'],
  technique='seeded lockstep executions of the system and its abstraction with an adversary on either side, and the greatest simulation as reference',
  note=NOTE+'Systems have at most 7 states. There is no I/O in this part: only executions (who moves, which answer) are scheduled.'),
 dict(
  id='C18', title='Gridworlds are generated as requested, in time, and edits and copies are exact',
  statement='random_world returns a world with exactly the requested walls, distinct initial and goal cells (and trolls) outside walls and, if ensure_feasible, all of them mutually reachable; with a timeout it returns None after the timeout and not before, whatever the system clock does; narrow_passage returns two open zones, with the initial cells in the left and the goals in the right, joined by one passage of the given width. '
   'After any history of edits, copies, dumps, loads, scalings and subworlds, every GridWorld has the cells, positions and names that the history gives it, independently of the other instances; equality, reachability and emptiness are answered accordingly, indices out of bounds are rejected, and dump_ppartition labels each rectangle of the plane with the name of its cell.',
  over=['inputs', 'histories', 'schedules', 'fault_sequences'],
  text='all sizes, densities, numbers, random draws, clock readings and histories of edits',
  why='Tests sample a few fixed worlds; how the loop with random walls ends depends on the draws and on the clock.',
  files=['tulip/gridworld.py'],
  mechanism=[('random worlds and timeouts', 'tulip/gridworld.py: random_world, narrow_passage'), ('worlds', 'tulip/gridworld.py: GridWorld')],
  observe=['random_world', 'narrow_passage', 'unoccupied', 'GridWorld'],
  technique='seeded simulation of the clock (stalls and jumps) and of the random draws, and of histories of edits, against a plain model of sets of cells',
  note=NOTE+'Worlds have at most 6 x 9 cells. numpy.random and random are real generators, seeded by the run.'),
 dict(
  id='C19', title='The specification of a gridworld permits exactly the moves on the grid',
  statement='For every gridworld and list of trolls, the formulas of GridWorld.spec and add_trolls hold in exactly those steps in which each troll stays within its trollspace, each agent stays or moves to an adjacent free cell, and the robot does not enter the cell that a troll enters, in both encodings (integers and one bit for each cell); initial positions and goals are those of the world, and the returned lists of moves are the positions of each troll. '
   'Whether the robot can visit all goals against all trolls is the verdict of synthesis from that specification, and the controller then avoids walls and trolls and visits the goals.',
  over=['inputs', 'histories', 'schedules', 'fault_sequences'],
  text='all worlds, trolls and encodings, all moves of robot and trolls, legal or not',
  why='The tests check the realizability of one world with a troll, in one of the encodings.',
  files=['tulip/gridworld.py', 'tulip/synth.py', 'tulip/interfaces/omega.py'],
  mechanism=[('moves', 'tulip/gridworld.py: GridWorld.spec'), ('trolls', 'tulip/gridworld.py: add_trolls'), ('synthesis', 'tulip/synth.py: synthesize')],
  observe=['GridWorld.spec', 'add_trolls', 'synthesize', 'is_realizable', 'MealyMachine.reaction'],
  technique='seeded simulation of robots and trolls with adversarial and illegal moves, against a model of the grid; closed loop with the synthesized controller and an explicit game',
  note=NOTE+'Formulas are read with the parser in tulip/spec and evaluated by the check. Controllers for at most 100 joint positions.'),
 dict(
  id='C20', title='Minimum-violation plans are executions of least violation, after any edits',
  statement='mvp.solve(ks, goal, spec) returns infinite cost and empty paths if no execution of the system from an initial state reaches a goal state with every rule of the prioritized specification in an accepting state; otherwise it returns such an execution (a path of the system, with automaton states that start initial) whose cost (per level, the priorities of the rules whose automaton has no transition with the propositions of the state entered; then the cost of transitions) equals the cost returned, and no other execution is cheaper in lexicographic order. '
   'This holds for states of any hashable type, any number of automaton states, levels without rules, zero costs, parallel transitions, and again after transitions, costs, labels, initial states and rules were edited; the arguments do not change. Dijkstra searches return shortest paths, and VectorCosts are totally ordered.',
  over=['inputs', 'histories'],
  text='all weighted and unweighted Kripke structures, prioritized specifications, and histories of moves and edits with replanning',
  why='The one test plans once, with rules of a single automaton state and names that are strings; none replans after an edit.',
  files=['tulip/mvp.py', 'tulip/transys/graph_algorithms.py', 'tulip/transys/cost.py', 'tulip/spec/prioritized_safety.py'],
  mechanism=[('planning', 'tulip/mvp.py: solve'), ('shortest paths', 'tulip/transys/graph_algorithms.py'), ('costs', 'tulip/transys/cost.py: VectorCost'), ('rules', 'tulip/spec/prioritized_safety.py: PrioritizedSpecification')],
  observe=['mvp.solve', 'graph_algorithms.dijkstra_single_source_multiple_targets', 'graph_algorithms.dijkstra_multiple_sources_multiple_targets', 'cost.VectorCost'],
  technique='seeded simulation of a robot that moves and replans while roads open and close, prices and labels change and rules are added; each plan is compared with the optimum by relaxation over the product as defined',
  note=NOTE+'Structures have at most 7 states, specifications at most 3 rules with at most 2 states. There is no I/O in this part; the faults are changes of the world between plans.'),
 dict(
  id='C21', title='Exported graphs describe the graph, and save() reports success truthfully',
  statement='LabeledDiGraph.save(filename, fileformat) returns True only if the file with the requested name and extension contains the complete description of the graph, and creates no other files; if GraphViz is missing, fails, or dies, if the disk is full, or if the graph cannot be expressed in the format, it raises or returns False, and succeeds when called again without the fault, over files left by earlier attempts. '
   'The description has exactly the states, initial and accepting states, transitions and label values of the graph: as nodes and edges in DOT (also for TikZ), as data with valid indices in HTML, as well-formed SCXML for Mealy machines, and as a Promela process that SPIN accepts and that has exactly the executions and the propositions of the transition system, from its initial states to its dead ends. '
   'Saving does not change the graph.',
  over=['inputs', 'fault_sequences', 'histories'],
  text='all graphs of the exported classes with names of any type, all formats, and any fault of the GraphViz process or the disk at any save of a sequence',
  why='The tests save three graphs as PDF and never look at the files, and no fault is ever injected.',
  files=['tulip/transys/labeled_graphs.py', 'tulip/transys/export/graph2dot.py', 'tulip/transys/export/graph2promela.py', 'tulip/transys/export/machine2scxml.py', 'tulip/transys/export/save_d3.py', 'tulip/graphics.py'],
  mechanism=[('saving', 'tulip/transys/labeled_graphs.py: LabeledDiGraph.save'), ('DOT', 'tulip/transys/export/graph2dot.py: save_dot'), ('Promela', 'tulip/transys/export/graph2promela.py: fts2promela'), ('SCXML', 'tulip/transys/export/machine2scxml.py: mealy2scxml'), ('HTML', 'tulip/transys/export/save_d3.py: labeled_digraph2d3')],
  observe=['LabeledDiGraph.save', 'graph2promela.fts2promela', 'machine2scxml.mealy2scxml', 'save_d3.labeled_digraph2d3'],
  technique='seeded simulation of sequences of saves with a simulated GraphViz and disk that fail at drawn points; files reported as saved are read back, and exported Promela processes are executed in lockstep with the transition system (a sample also by the real SPIN)',
  note=NOTE+'Graphs have at most 5 states. GraphViz is a stand-in that copies its input; Promela is executed by an interpreter of the exported subset.'),
 dict(
  id='C22', title='Hybrid system models are consistent, or rejected',
  statement='A PwaSysDyn or SwitchedSysDyn that is constructed has subsystems with equal dimensions whose domains cover its domain and do not overlap, modes that are declared with dynamics that are piecewise affine, and the time semantics and timestep that were given, which also all its parts have (overwritten, unless overwrite_time=False, which instead requires the parts to have them already). '
   'Matrices, sets, labels and time data that are not consistent are rejected with a ValueError or TypeError, which changes neither the parts nor the arguments. A model holds exactly the parts and matrices given, with zero drift and disturbance where these are left out, also by from_lti() and from_pwa(), and after any other models were built from the same parts.',
  over=['inputs', 'histories', 'fault_sequences'],
  text='all histories of constructions that share parts, with malformed or inconsistent parts at any point',
  why='The tests build a few valid models and check the time data of single models.',
  files=['tulip/hybrid.py'],
  mechanism=[('affine systems', 'tulip/hybrid.py: LtiSysDyn'), ('piecewise affine systems', 'tulip/hybrid.py: PwaSysDyn'), ('switched systems', 'tulip/hybrid.py: SwitchedSysDyn'), ('time data', 'tulip/hybrid.py: _push_time_data, _check_time_consistency, _check_time_data')],
  observe=['LtiSysDyn', 'PwaSysDyn', 'SwitchedSysDyn'],
  technique='seeded histories of constructions that share parts, with injected malformed parts, against a model that knows the boxes and the time data of every system',
  note=NOTE+'Domains are unions of boxes with corners on a grid, in 1 or 2 dimensions.'),
 dict(
  id='C23', title='Sets and typed dictionaries have exactly the content of their history',
  statement='After any history of operations, a MathSet or SubSet has exactly the elements that were added and not removed (hashable or not, also tuples that contain unhashable elements), each once: membership, iteration, length, equality, union, difference, intersection, and products agree with the definition for all elements. '
   'A SubSet never has elements outside its superset and rejects a batch with such an element as a whole; a TypedDict never stores a value that its types forbid, by any way of assigning; a PowerSet and a CartesianProduct contain exactly the subsets, and the tuples of elements, of their sets. '
   'Rejected operations, and iterators that raise an error, raise an error to the caller and add nothing else; no two sets share content.',
  over=['inputs', 'histories', 'fault_sequences'],
  text='all histories of operations on sets made from each other, with iterators that fail at any element',
  why='The tests apply single operations to a few sets and look at private attributes.',
  files=['tulip/transys/mathset.py'],
  mechanism=[('sets', 'tulip/transys/mathset.py: MathSet, SubSet'), ('power sets and products', 'tulip/transys/mathset.py: PowerSet, CartesianProduct'), ('typed dictionaries', 'tulip/transys/mathset.py: TypedDict')],
  observe=['MathSet', 'SubSet', 'PowerSet', 'CartesianProduct', 'TypedDict'],
  technique='seeded histories of operations on sets that are made from each other, with failing iterators and rejected elements, against lists compared by equality',
  note=NOTE+'Up to 25 operations, elements from a pool of 23 values.'),
 dict(
  id='C24', title='Backward reachable sets are winning, and exact for convex sets',
  statement='From every state of the set that solve_feasible() returns, which is a part of the start set, the plant can be brought to the target in exactly N steps (use_all_horizon: within N steps), staying in the transition set (the start set if not given) before, whatever the disturbance, with inputs that are admissible and may depend on the state (closed_loop) or are fixed in advance. '
   'When the sets are convex (with one step: also for unions), no state is missing from which this is possible with a margin (use_all_horizon underapproximates, but not for plants with one state); is_feasible() is true exactly if this holds for all of the start set; is_seq_inside() says whether an input sequence keeps the undisturbed plant inside. '
   'Arguments do not change, calls are independent of each other, and a failure of the numeric solver is reported.',
  over=['inputs', 'histories', 'fault_sequences'],
  text='all affine plants, start, target and transition sets, horizons and options, all disturbances, and failures of the numeric solver at any call',
  why='The tests call is_feasible() on two intervals.',
  files=['tulip/abstract/feasible.py', 'tulip/abstract/find_controller.py'],
  mechanism=[('backward reachability', 'tulip/abstract/feasible.py: solve_feasible, is_feasible'), ('prediction matrices', 'tulip/abstract/feasible.py: createLM, get_max_extreme'), ('checking of sequences', 'tulip/abstract/find_controller.py: is_seq_inside')],
  observe=['solve_feasible', 'is_feasible', 'is_seq_inside'],
  technique='seeded plays from states of the returned set against an adversarial disturbance, and an exact linear program over the tree of disturbances for states outside of it, with injected solver failures',
  note=NOTE+'1-2 dimensions, horizon at most 3; completeness with a margin of 1e-3.'),
 dict(
  id='C25', title='Specifications keep their meaning when put together or converted to GR(1)',
  statement='When the GR(1) form of a requirement from response_to_gr1, eventually_to_gr1, until_to_gr1 or stability_to_gr1 is conjoined with a specification, every closed loop with the synthesized controller satisfies the LTL requirement ([](p -> <>q), <>p, p U q, <>[]p), and synthesis succeeds whenever the requirement can be met (except for stability, and for until where the system cannot read the environment first). '
   'After any history of conjunctions, copies, declarations, edits of operands and copies (also after use), substitution of dependent variables, splitting of formulas (str_to_grspec), and storing as text (LTL.dumps, loads, load), the specification is the one that the history describes, its realizability is the verdict, and operands are unchanged. Conjuncts with other domains or options, variables declared for both players, formulas outside GR(1), and malformed files are rejected.',
  over=['inputs', 'histories', 'programs'],
  text='all GR(1) specifications, requirements over state formulas, options, environments, and histories of operations',
  why='The tests compare the formulas of a few conversions with strings, or with SPIN on single letters; they never synthesize from a conversion, and never combine conversions with a specification or edit the parts afterwards.',
  files=['tulip/spec/gr1_fragment.py', 'tulip/spec/form.py', 'tulip/spec/transformation.py', 'tulip/synth.py'],
  mechanism=[('conversions', 'tulip/spec/gr1_fragment.py: response_to_gr1, eventually_to_gr1, until_to_gr1, stability_to_gr1, split_gr1'), ('conjunctions', 'tulip/spec/form.py: GRSpec.__or__, copy, declare, replace_dependent_vars'), ('owners of variables', 'tulip/synth.py: _check_owners')],
  observe=['gr1_fragment.response_to_gr1', 'gr1_fragment.str_to_grspec', 'GRSpec', 'form.replace_dependent_vars', 'synth.is_realizable', 'synth.synthesize'],
  technique='seeded search over requirements and histories of operations; controllers played against an adversarial environment with a deterministic monitor of the LTL requirement, verdicts from an explicit game with that monitor',
  note=NOTE+'Specifications have at most 12 joint valuations. Eight findings in tulip/spec are recorded as known findings, because commits there cannot be made here.'),
 dict(
  id='C26', title='Partitions divide the state space exactly, with exact labels and neighbours',
  statement='In every partition made by prop2part and then refined by part2convex, pwa_partition and add_grid in any order, each point of the domain is in exactly one region, labeled with exactly the propositions that hold there; regions are adjacent exactly when their closures touch, and the maps to parent regions and subsystems, convexity, cell sizes, ppp2ts and preserves_predicates agree with that. '
   'Regions outside of the domain, undeclared propositions, adjacency of another size, malformed grids, and plants that do not cover the domain are rejected. '
   'Arguments, earlier partitions and later edits of them do not affect a partition, and a failure of the numeric solver is reported and leaves the given partition as it was.',
  over=['inputs', 'histories', 'fault_sequences'],
  text='all domains of 1 to 3 dimensions, polytopic propositions, sequences of refinements, and points where the solver fails',
  why='The tests check a few partitions with hand-computed adjacency; none applies several refinements, corner-touching regions, or a failing solver.',
  files=['tulip/abstract/prop2partition.py'],
  mechanism=[('partition', 'tulip/abstract/prop2partition.py: prop2part, PropPreservingPartition'), ('refinements', 'tulip/abstract/prop2partition.py: part2convex, pwa_partition, add_grid'), ('transition system', 'tulip/abstract/prop2partition.py: ppp2ts')],
  observe=['abstract.prop2part', 'abstract.part2convex', 'prop2partition.pwa_partition', 'prop2partition.add_grid', 'prop2partition.ppp2ts', 'PropPreservingPartition.preserves_predicates'],
  technique='seeded search over histories of refinements with failures of the numeric solver; each partition compared with the arrangement of all cuts (exactly for boxes, at sampled points and near vertices for slanted sets)',
  note=NOTE+'Points within 1e-4 of slanted cuts are not claimed; at most about 40 regions.'),
]

NA = [
 dict(
  id='N01', title='Formulas survive parsing, translation, and printing',
  statement='Parsing a formula and flattening it gives an equivalent formula for every syntax in which it is printed (GR1C, SMV, Promela, TLC, Python). Substitutions and precedence keep the meaning of the formula.',
  over=['inputs'], text='all formulas',
  why='The tests compare a handful of strings.',
  files=['tulip/spec/parser.py', 'tulip/spec/ast.py', 'tulip/spec/translation.py'],
  mechanism=[('parser', 'tulip/spec/parser.py: parse'), ('translation', 'tulip/spec/translation.py: translate')],
  observe=['tulip.spec.parser.parse', 'tulip.spec.translation.translate'],
  reason='A pure function from text to text: no schedule, time, I/O, fault or history can change its answer, so a simulation would be plain input generation. (Its effect on what is synthesized is decided under C01-C03, C12 and C19, with an independent printer and evaluator.)'),
 dict(
  id='N02', title='Plots show the objects that are plotted',
  statement='The figures that are drawn for partitions, trajectories, gridworlds and automata show the same regions, labels, and transitions as the objects.',
  over=['inputs'], text='all objects',
  why='Figures are looked at by people.',
  files=['tulip/abstract/plot.py', 'tulip/graphics.py', 'tulip/gridworld.py'],
  mechanism=[('figures', 'tulip/abstract/plot.py: plot_partition')],
  observe=['matplotlib figures'],
  reason='A drawing has no observable behaviour beyond pixels that no oracle here can read, and no party, time, or fault on which the answer depends.'),
 dict(
  id='N03', title='lily answers are read as the machines that lily found',
  statement='synthesize() of tulip.interfaces.lily returns a Moore machine that realizes the formula exactly when lily finds one, and None otherwise.',
  over=['inputs', 'fault_sequences'], text='all formulas and all failures of lily.pl',
  why='lily is not installed where the tests run.',
  files=['tulip/interfaces/lily.py'],
  mechanism=[('lily', 'tulip/interfaces/lily.py: synthesize, lily_strategy2moore')],
  observe=['tulip.interfaces.lily.synthesize'],
  reason='A stand-in for lily.pl can only be written from its output format, which is not documented in this repository and cannot be fetched offline: a simulated lily would only agree with the reader by construction.'),
]
