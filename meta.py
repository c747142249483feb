"""The properties: statement, anchors, and how each is decided. gen_meta.py writes properties.jsonl and MANIFEST.json from this."""

EXP = "explicit enumeration of the real code's executions against a reference model (bounded exhaustive)"
HIST = "stateless model checking: exhaustive operation sequences up to a depth on the real objects vs a reference model"
BRANCH = "stateless model checking: scripted randomness, every outcome branch of every bounded circuit vs a reference model"
PROPS = []


def P(**k):
    PROPS.append(k)


P(id="C01", title="Causal flow is reported exactly when one exists, and is a valid flow",
  statement="For every open graph (graph, ordered inputs and outputs), a circuit reports a causal flow if and only if the graph has one. "
            "Whenever it is reported, the successor map, the partial order, the depth and the layers satisfy the definition of a causal flow: every measured node is mapped to a neighbouring "
            "non-input node, comes before it and before that node's other neighbours, and no node precedes itself. "
            "The result does not depend on node names or on the order in which nodes, inputs and outputs are listed. "
            "A flow handed in by the user (successor map and strict partial order) is accepted exactly when it satisfies this definition.",
  over=["inputs", "configurations"], quant="all open graphs with |I|=|O| up to the bound, under every listed naming and insertion order; all successor maps x all strict partial orders of the small ones",
  why="one test checks a grid with one flow; existence on arbitrary graphs is a universally quantified combinatorial statement",
  files=["mentpy/mbqc/flow.py", "mentpy/mbqc/mbqcircuit.py"],
  mech=[("find_cflow / causal_flow_aux / check_if_flow", "mentpy/mbqc/flow.py"), ("CausalFlow / Flow", "mentpy/mbqc/flow.py")],
  observe=["MBQCircuit.flow, partial_order, depth, ordered_layers", "find_cflow, check_if_flow, CausalFlow"],
  technique=EXP, note="Exhaustive over every open graph in the bounds against a brute-force definition of flow; trusts the reference (mc/ref.py) and that larger graphs behave alike.")

P(id="C02", title="Generalised flow is found exactly when one exists, with valid layers",
  statement="For every open graph whose measurements are in the XY plane, the generalised-flow finder reports success if and only if a gflow exists, and its order and layers admit correction sets satisfying the gflow definition, "
            "with every node in the last layer in which it can be measured, so that the number of layers is the least possible. "
            "The combined flow search prefers a causal flow and otherwise reports the gflow, and never claims a flow for a graph that has neither. Node names and edge attributes (weights) do not change the answer.",
  over=["inputs"], quant="all open graphs up to the bound with |I|<=|O|",
  why="no test calls the gflow finder on a graph without causal flow",
  files=["mentpy/mbqc/flow.py"], mech=[("gflowaux / find_gflow", "mentpy/mbqc/flow.py"), ("Flow", "mentpy/mbqc/flow.py")],
  technique=EXP, note="Exhaustive against a search over all measurement orders and correction sets; the encoding of correction sets is not judged.")

P(id="C03", title="Exactly the measurement orders that respect the partial order are accepted",
  statement="The default measurement order and the layers of a circuit with flow are linear extensions of its partial order. "
            "Assigning an order, at construction or afterwards, succeeds if and only if it is a permutation of the nodes that respects the partial order; a rejected assignment leaves the circuit unchanged.",
  over=["inputs", "configurations"], quant="all circuits with flow up to the bound x all permutations (and all near-permutations) of the nodes",
  why="tests never assign an order; acceptance is a statement about all n! sequences",
  files=["mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/flow.py"], mech=[("measurement_order setter", "mentpy/mbqc/mbqcircuit.py"), ("ordered_layers", "mentpy/mbqc/mbqcircuit.py")],
  technique=EXP, note="Exhaustive over circuits and permutations in the bounds.")

P(id="C04", title="Construction keeps roles through relabelling and never touches caller data",
  statement="Building a circuit keeps every role: the relabelled graph is isomorphic to the given one with inputs, outputs (in their listed order), measurements and controls attached to the corresponding nodes. "
            "The caller's graph, lists, dictionaries and measurements are neither modified nor shared with the circuit, and invalid arguments are refused with an error.",
  over=["inputs", "configurations"], quant="all small open graphs x node namings x listing orders x measurement dictionaries x constructor options",
  why="tests construct circuits with 0..n-1 names only and never look at the arguments afterwards",
  files=["mentpy/mbqc/mbqcircuit.py"], mech=[("MBQCircuit.__init__, _relabel/_setup_nodes", "mentpy/mbqc/mbqcircuit.py")],
  technique=EXP, note="Exhaustive over the listed alphabets; node names of one graph are assumed mutually comparable.")

P(id="C05", title="An edited circuit equals the same circuit built from scratch",
  statement="After any sequence of edits (setting and deleting measurements one by one or in bulk, choosing trainable nodes, adding edges, assigning orders, and operations that are rejected), every observable of the circuit "
            "equals that of a circuit constructed directly in the final state. A rejected operation changes nothing.",
  over=["histories"], quant="every operation sequence up to the depth bound over the listed alphabet, on four base circuits",
  why="tests never edit a circuit twice; stale derived state shows only for particular sequences",
  files=["mentpy/mbqc/mbqcircuit.py"], mech=[("__setitem__/__delitem__, measurements setter, trainable_nodes setter, add_edge(s)", "mentpy/mbqc/mbqcircuit.py")],
  technique=HIST, note="Every sequence is replayed from its start without merging states; sound and complete up to the depth and alphabet.")

P(id="C06", title="A control is always measured before the node it controls, or it is refused",
  statement="Whatever controlled measurements are given, by assignment, in bulk or at construction, the circuit either ends up with a measurement order that respects the flow and puts every condition node before the node it controls, "
            "or refuses the control with an error and stays as it was. A control for which such an order exists is accepted, and removing the control restores the uncontrolled behaviour.",
  over=["inputs", "histories"], quant="all circuits with flow up to the bound x all single controls and pairs of controls x condition shapes x ways of assigning them",
  why="tests use one controlled circuit; cyclic or late conditions need particular combinations",
  files=["mentpy/mbqc/mbqcircuit.py", "mentpy/operators/controlled_ment.py", "mentpy/operators/ment.py"],
  mech=[("_check_controlled / order update", "mentpy/mbqc/mbqcircuit.py"), ("MentOutcome.cond_nodes", "mentpy/operators/ment.py")],
  technique=HIST, note="Exhaustive over the listed controls; conditions are built from outcomes of the same circuit.")

P(id="C07", title="Copies of circuits and simulators are equal and independent",
  statement="A deep copy or a dill round trip of a circuit, graph state or simulator (also in the middle of a run) is observably equal to the original. "
            "Any later sequence of operations on one of them leaves the other exactly as if it were alone.",
  over=["histories", "schedules"], quant="every edit sequence before and after copying up to the depth; every split point and interleaving of the measurement steps of copy and original",
  why="no test copies anything; the dill path is used by the parallel gradient code only at run time",
  files=["mentpy/mbqc/mbqcircuit.py", "mentpy/simulators/pattern_simulator.py", "mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py"],
  mech=[("MBQCircuit.__getattr__", "mentpy/mbqc/mbqcircuit.py"), ("PatternSimulator.__getattr__", "mentpy/simulators/pattern_simulator.py")],
  technique="stateless model checking: all interleavings of copy and original, all edit sequences up to a depth", note="Exhaustive up to the depth; plain pickle is not offered by the code (circuits hold functions).")

P(id="C08", title="All simulators compute the map the measurement pattern stands for",
  statement="For every circuit with flow, every angle vector and every input state, each backend returns the normalised output state of the pattern (all-zero outcomes, equivalently with corrections), with qubits in the order of the output nodes and inputs in the order of the input nodes. "
            "In particular the three backends agree.",
  over=["inputs", "programs"], quant="all circuits with flow up to the bound x listing orders x measurement bases x a determining grid of angles x a spanning set of inputs",
  why="tests run a handful of angles on one or two wires, always with ordered inputs and outputs",
  files=["mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py", "mentpy/simulators/pennylane_simulator.py"],
  mech=[("run / measure / current simulation window", "mentpy/simulators/np_simulator_*.py"), ("mbqcircuit_to_circuit", "mentpy/simulators/pennylane_simulator.py")],
  technique=EXP, note="Exhaustive over circuits; the angle grid determines the (trigonometric polynomial) result at every angle, inputs by linearity; PennyLane compared on X, Y, XY measurements only.")

P(id="C09", title="Measurement order, schedule and window size never change a result",
  statement="For a fixed circuit, input and angles, every valid measurement order, every schedule and every window size give the same output state, or the run is refused with an error. "
            "No choice of them silently skips an entangling gate or a measurement. The schedule is fixed when the simulator is built.",
  over=["schedules", "configurations"], quant="all circuits with flow up to the bound x all linear extensions x all schedules x all window sizes x both numpy backends",
  why="tests never set a window or a schedule",
  files=["mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py"], mech=[("schedule / window handling", "mentpy/simulators/np_simulator_*.py")],
  technique="stateless model checking: every schedule (linear extension) and window of each bounded circuit, differential against the pattern's map", note="Exhaustive over schedules in the bounds; numeric tolerance 1e-6.")

P(id="C10", title="Simulators have no memory: a reset simulator behaves like a new one",
  statement="After any sequence of runs, single measurements, resets (with or without a new input state) and rejected calls, the next result of a simulator is exactly what a fresh simulator of the same circuit and input would give. "
            "Two simulators of one circuit never influence each other, the circuit is never changed by simulating it, and a rejected call changes nothing. What the caller does afterwards with an array it gave or got has no influence.",
  over=["histories", "schedules"], quant="every operation sequence up to the depth on four circuits and three backends; every interleaving of two simulators",
  why="tests use a simulator once",
  files=["mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py", "mentpy/simulators/pattern_simulator.py", "mentpy/simulators/pennylane_simulator.py"],
  mech=[("reset / run / measure", "mentpy/simulators/np_simulator_*.py")],
  technique=HIST, note="Every history replayed from a new simulator, no state merging; sound up to the depth and alphabet.")

P(id="C11", title="The final state is the post-measurement state of the reported outcomes",
  statement="On every branch of measurement randomness, the state a numpy simulator ends in is the normalised projection of the resource state on the outcomes it reports, outcomes are drawn with the Born probabilities, and the output qubits or measured outputs are reported in the order of the output nodes. "
            "Expectation values requested instead of outcomes are the exact ones.",
  over=["inputs", "schedules"], quant="all circuits up to the bound x measurement bases x measured-output subsets x Pauli inputs x every outcome branch",
  why="tests never look at outcomes; a branch of the random choices shows in a fraction of runs only",
  files=["mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py"], mech=[("measure", "mentpy/simulators/np_simulator_*.py")],
  technique=BRANCH, note="Randomness is scripted, every branch with probability above 1e-3 is executed.")

P(id="C12", title="The reported flow makes every outcome branch implement the same map",
  statement="For every circuit with flow, however it was obtained (constructor, custom order, added edges, stacking, templates), applying the corrections prescribed by its reported flow in its reported measurement order makes all 2^m outcome branches implement the same map with equal probability. "
            "No correction is ever needed at a node measured earlier.",
  over=["programs", "inputs"], quant="all circuits with flow up to the bound, all valid orders for the small ones, x every outcome vector",
  why="determinism is the point of flow and quantifies over 2^m branches; tests never branch",
  files=["mentpy/mbqc/flow.py", "mentpy/mbqc/mbqcircuit.py", "mentpy/mbqc/templates.py"], mech=[("flow, measurement_order", "mentpy/mbqc/mbqcircuit.py")],
  technique="explicit-state exploration of all outcome branches of the adaptive pattern induced by the circuit's reported flow and order",
  note="Flow and order are read from the real circuit, the branch maps are contracted by the reference at generic angles.")

P(id="C13", title="Stacking and merging circuits composes the maps they stand for",
  statement="Horizontal stacking implements the product of the maps, vertical stacking their tensor product, and merging along chosen output/input pairs the corresponding partial composition, for every pair of circuits and listing order of the joint. "
            "Angles follow the order first circuit, then second; measurements, planes and controls are carried over; the operands are unchanged, and mismatched sizes are refused.",
  over=["programs", "inputs"], quant="all pairs of circuits with flow up to the bound x all joints x measurement assignments",
  why="two tests stack fixed wires of the same shape",
  files=["mentpy/mbqc/mbqcircuit.py"], mech=[("hstack / vstack / merge", "mentpy/mbqc/mbqcircuit.py")],
  technique=EXP, note="Excludes joints where two fused nodes are adjacent in both operands (the composite would need a cancelled edge).")

P(id="C14", title="Every template builds the circuit it documents, for every size",
  statement="Linear clusters, many wires, grids and cylinders, muta and SPT templates have exactly the documented nodes, edges, ordered inputs and outputs, measurements and trainable nodes for every size and option, "
            "and invalid sizes or options are refused.",
  over=["configurations"], quant="every template x every size and option combination up to the bound",
  why="tests build one or two sizes of each template and look at a few attributes",
  files=["mentpy/mbqc/templates.py"], mech=[("linear_cluster, many_wires, grid_cluster, muta, spturb", "mentpy/mbqc/templates.py")],
  technique=EXP, note="Composed templates are compared up to renaming of nodes that keeps the order of inputs and outputs.")

P(id="C15", title="The Pauli template implements the rotation about its Pauli operator",
  statement="For every Pauli string P the circuit built from it has one trainable angle theta and implements exp(-i phi P) with phi = theta/2 up to a sign that depends on P only, "
            "with inputs and outputs in the order of the qubits, whatever form the string was given in.",
  over=["inputs"], quant="every Pauli string up to the number of qubits x angles determining the trigonometric polynomial x tomographic inputs",
  why="the tests check one generator on a few strings with an odd number of Ys",
  files=["mentpy/mbqc/templates.py", "mentpy/operators/pauliop.py"], mech=[("from_pauli", "mentpy/mbqc/templates.py")],
  technique=EXP, note="The reference contracts the graph the code returns and the simulator runs it; both must give the rotation.")

P(id="C16", title="A measurement object always stands for the observable it was asked for",
  statement="However it is written and after any sequence of setting its angle, copying it and moving it to a node, a measurement has exactly the plane, angle and trainability asked for, "
            "and its matrix and POVM are the observable and its projectors. A fixed measurement refuses every other angle, a trainable one needs an angle, and invalid arguments are refused. "
            "An outcome handed out for a measurement stays that of its node and trainability whatever is done to the measurement or its copies later.",
  over=["inputs", "histories"], quant="every plane x an angle grid determining the observable x every constructor form; every operation sequence up to the depth",
  why="tests sample random angles for the matrix and never look at refusals or copies",
  files=["mentpy/operators/ment.py"], mech=[("Ment.__init__, set_angle, matrix, get_povm, copy", "mentpy/operators/ment.py")],
  technique=HIST, note="Observables are degree-1 trigonometric polynomials, so the grid determines them everywhere.")

P(id="C17", title="Conditions on outcomes evaluate to their value and know what they depend on",
  statement="Every expression over measurement outcomes, constants 0/1 and the documented operators evaluates to its value modulo 2 for every assignment of outcomes, depends on exactly the nodes occurring in it, "
            "leaves its operands unchanged, and refuses missing outcomes and operands that are not conditions.",
  over=["inputs"], quant="all expression trees up to the depth x all outcome assignments",
  why="no test composes conditions; closures capturing the wrong operand show in nested expressions only",
  files=["mentpy/operators/ment.py"], mech=[("MentOutcome operators", "mentpy/operators/ment.py")],
  technique=EXP, note="Division, modulo and power are not explored.")

P(id="C18", title="Controlled measurements measure what their condition selects in every branch",
  statement="A controlled measurement behaves as its true branch when its condition holds and as its false branch otherwise, for matrix, POVM, plane and angle, and for angles set afterwards. "
            "Simulating a controlled circuit gives, in every branch of the random outcomes, the state of the pattern in which every controlled node is measured as its condition on the reported outcomes selects; backends that cannot do this refuse the circuit.",
  over=["inputs", "schedules"], quant="all pairs of branch measurements x conditions x outcome assignments; all small circuits with flow x controlled nodes x conditions x outcome branches",
  why="tests run one controlled circuit with one outcome",
  files=["mentpy/operators/controlled_ment.py", "mentpy/simulators/np_simulator_dm.py"], mech=[("ControlMent", "mentpy/operators/controlled_ment.py"), ("measure", "mentpy/simulators/np_simulator_dm.py")],
  technique=BRANCH, note="Controlled circuits are simulated by the density-matrix backend, the only one supporting them.")

P(id="C19", title="Pauli operators are the Pauli group modulo phases in every notation",
  statement="A Pauli operator given as text, list or matrix has the same matrix, text, rows, slices and column selections, equality and hash. Products, commutators, the symplectic product and membership are those of the Pauli group modulo phases, "
            "for single operators and lists. Appending, indexing and products never change another operator or the caller's data, and malformed operators, sizes and indices are refused.",
  over=["inputs", "histories"], quant="all operator lists up to the bound in every notation, all pairs, every operation sequence up to the depth",
  why="tests build a few strings; aliasing between rows shows only after a sequence of operations",
  files=["mentpy/operators/pauliop.py"], mech=[("PauliOp", "mentpy/operators/pauliop.py")],
  technique=HIST, note="Phases are outside the representation; commutators are judged for single operators.")

P(id="C20", title="Stabilizers, entropy and equality of graph states are those of the state",
  statement="The stabilizers of a graph state, listed in node order, generate the stabilizer group of its state vector; the entanglement entropy of every region equals that of the state vector (with two regions that are not complementary, of the graph state on these two); two graph states are equal exactly when their graphs are isomorphic. "
            "Node names, insertion order and edge attributes (weights) do not matter, the graph is not changed.",
  over=["inputs"], quant="all labelled graphs up to the bound x node orders and names x all regions x all pairs",
  why="tests look at the stabilizers of one cluster; entropy has no test",
  files=["mentpy/mbqc/states/graphstate.py"], mech=[("stabilizers / _get_stabilizers", "mentpy/mbqc/states/graphstate.py"), ("entanglement_entropy", "mentpy/mbqc/states/graphstate.py")],
  technique=EXP, note="State vectors are the oracle; regions are bipartitions of the state.")

P(id="C21", title="Gates and partial traces act on exactly the qubits they are given",
  statement="The gate constructors (single-qubit gate, swap, CNOT, controlled Z) and qubit swaps act as documented on the given qubits of a register of any size, partial traces remove exactly the given qubits in any order of the list and keep the others in order, "
            "and density matrices are outer products. Arguments are not changed.",
  over=["inputs"], quant="every register size up to the bound x every index tuple x spanning sets of matrices and states",
  why="tests fix two or three qubits and a couple of index choices",
  files=["mentpy/operators/gates.py", "mentpy/calculator/state_ops.py"], mech=[("swap_ij, cnot_ij, controlled_z, arbitrary_qubit_gate, swap_qubits", "mentpy/operators/gates.py"), ("partial_trace*", "mentpy/calculator/state_ops.py")],
  technique=EXP, note="All functions are (sesqui)linear, so the spanning sets determine them; state-vector traces only where the result is pure.")

P(id="C22", title="The Lie algebra reported for a circuit is generated by its measurement angles",
  statement="For every circuit with causal flow, the generator reported for a measured node is the Pauli operator about which its angle rotates the output, in the order of the output nodes; repeated generators are listed once; "
            "the reported algebra is exactly the closure of the generators under commutators with the identity, and the circuit is not changed.",
  over=["inputs"], quant="all open graphs with flow up to the bound in several labellings; all small generator sets",
  why="tests compute the algebra of two templates and check its dimension",
  files=["mentpy/utils/lie_algebra.py", "mentpy/calculator/linalg2.py"], mech=[("calculate_gens_lie_algebra / _constrains", "mentpy/utils/lie_algebra.py"), ("lie_algebra_completion", "mentpy/utils/lie_algebra.py")],
  technique=EXP, note="The oracle differentiates the pattern's own map; Paulis modulo phases.")

P(id="C23", title="Local Clifford equivalence is decided correctly, with a correct Clifford",
  statement="Two graph states on the same qubits, whatever order these were added in, are reported equivalent if and only if their graphs are related by local complementations; the Clifford returned, in either form, is an invertible local Clifford that maps the stabilizer group of the first onto that of the second.",
  over=["inputs"], quant="all pairs of labelled graphs up to the bound",
  why="no test covers this module; wrong answers show for particular pairs of graphs only",
  files=["mentpy/utils/lc_equivalence.py"], mech=[("are_lc_equivalent / search_nullspace", "mentpy/utils/lc_equivalence.py")],
  technique="explicit-state reachability: orbits under local complementation explored exhaustively, compared with the real decision procedure", note="Signs of stabilizers are outside the representation.")

P(id="C24", title="The flow space holds every graph once and marks exactly those with flow",
  statement="The flow space of a circuit consists of all graphs on its nodes, each exactly once and with the circuit's inputs and outputs, joined exactly when they differ in one edge; a graph is marked as having flow, and belongs to the flow subspace, exactly when it has a causal flow.",
  over=["inputs", "configurations"], quant="all choices of inputs and outputs up to the bound, all graphs of each space",
  why="no test covers this module",
  files=["mentpy/utils/flow_space.py", "mentpy/mbqc/flow.py"], mech=[("all_graphs_graph", "mentpy/utils/flow_space.py")],
  technique=EXP, note="Causal flow is decided by the brute-force reference.")

P(id="C25", title="The linear solver solves every solvable system over GF(2)",
  statement="For every binary matrix A and every b in its column space, the solution x returned satisfies A x = b modulo 2, whatever the rank and shape of A, and the arguments are not changed.",
  over=["inputs"], quant="all matrices up to the size bound x all right hand sides in their column space",
  why="the solver is used by one module on full-rank systems only",
  files=["mentpy/calculator/linalg2.py"], mech=[("solve", "mentpy/calculator/linalg2.py")],
  technique=EXP, note="Inconsistent systems are outside the domain.")

P(id="C26", title="Training data keeps inputs with their targets and loses nothing",
  statement="Splitting data keeps every sample exactly once, with its target, in the requested proportion, in order unless randomised and in the drawn order otherwise, for arrays and sequences. "
            "In generated data every target is the image of its input under the unitary; noise affects the training targets only and as requested; invalid noise is refused.",
  over=["inputs", "configurations"], quant="all sample counts and sizes up to the bound x every permutation and every pattern of bit flips",
  why="no test covers this module",
  files=["mentpy/utils/generate_data.py"], mech=[("train_test_split", "mentpy/utils/generate_data.py"), ("generate_random_dataset_noisy", "mentpy/utils/generate_data.py")],
  technique="stateless model checking with scripted randomness: every permutation and flip pattern", note="Gaussian draws come from fixed generator states; their distribution is not judged.")

P(id="C27", title="Gradients and Hessians are the derivatives of the cost function",
  statement="The parameter-shift rule gives the exact gradient and Hessian of every trigonometric cost of degree one per parameter for every admissible shift, finite differences give those of quadratics exactly and of smooth costs within their error, "
            "for any number of parameters; every documented method name selects its rule, others are refused, and parameters are not changed.",
  over=["inputs", "configurations"], quant="a basis of cost functions x evaluation points x shifts, steps and stencils",
  why="no test covers gradients",
  files=["mentpy/gradients/grad.py", "mentpy/gradients/_parameter_shift.py", "mentpy/gradients/_finite_difference.py", "mentpy/optimizers/bp_tools.py"], mech=[("psr_gradient, psr_hessian", "mentpy/gradients/_parameter_shift.py"), ("fd_gradient, fd_hessian", "mentpy/gradients/_finite_difference.py")],
  technique=EXP, note="Rules are linear in the cost, so a basis determines them.")

P(id="C28", title="Optimisers follow their update rule through any history of calls",
  statement="After any sequence of steps, runs, gradient-norm runs, resets and step-size updates, gradient descent (plain, momentum, Nesterov), Adam and random coordinate descent are where their update rule puts them; callbacks see every iterate, "
            "gradient norms are those at the iterates, the caller's parameters are not changed and optimisers do not influence each other. "
            "Options for the gradient are passed on to every gradient that is taken.",
  over=["histories", "schedules"], quant="every call sequence up to the depth, every sequence of drawn coordinates",
  why="no test covers optimisers; wrong moments show after a particular sequence only",
  files=["mentpy/optimizers/sgd.py", "mentpy/optimizers/adam.py", "mentpy/optimizers/rcd.py"], mech=[("step / optimize / optimize_and_gradient_norm / reset", "mentpy/optimizers/*.py")],
  technique=HIST, note="Random coordinates are scripted; the cost has an analytic gradient.")

P(id="C29", title="A drawing shows the circuit as it is, and drawing never changes it",
  statement="Drawing a circuit shows every node once, its edges, one flow arrow per measured node and its controls, with the labels, planes, angles or Pauli letters of the right nodes, roles told apart by colour and wires from left to right in the order of the inputs; without a flow, inputs are in the leftmost and outputs in the rightmost column. "
            "Neither the circuit nor the caller's arguments change, and unknown options are refused.",
  over=["inputs", "configurations"], quant="all circuits with flow up to the bound x measurement kinds x labels x styles",
  why="tests check the types returned and that some colours occur",
  files=["mentpy/mbqc/view.py"], mech=[("draw / process_labels / get_node_colors", "mentpy/mbqc/view.py")],
  technique=EXP, note="Read back from the matplotlib figure.")

P(id="C30", title="Noisy simulation applies the requested channel to every qubit, and nothing else",
  statement="With a noise model, the PennyLane simulator returns the density matrix obtained by applying the requested channel with the requested parameters once to every qubit of the resource state before the adaptive measurements; "
            "without noise or with parameter zero it is the noiseless result, and unknown noise or parameters outside [0, 1] are refused.",
  over=["inputs", "configurations"], quant="all circuits with flow up to the bound x channels x parameter grids x angles x inputs",
  why="no test uses noise",
  files=["mentpy/simulators/pennylane_simulator.py"], mech=[("mbqcircuit_to_circuit", "mentpy/simulators/pennylane_simulator.py")],
  technique="explicit-state exploration of all outcome branches of the noisy adaptive pattern vs the real simulator", note="Kraus operators follow PennyLane's documentation.")

P(id="C31", title="Stepping through a pattern gives the exact state after every measurement",
  statement="Measuring a pattern node by node with a numpy simulator leaves, after every single measurement, exactly the normalised projection of the part of the resource state loaded so far on the outcomes reported so far, "
            "on the nodes reported as currently simulated and in their order. Outcomes are recorded as they occur (so that controlled measurements can be stepped through), "
            "for every schedule and window, with or without flow; a step that is refused changes nothing, and no step is possible after the last measurement.",
  over=["histories", "schedules", "configurations"], quant="all open graphs up to the bound x schedules x windows x measurement planes x outcome branches, judged after every step",
  why="tests only look at final states of whole runs",
  files=["mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py", "mentpy/simulators/pattern_simulator.py"],
  mech=[("measure / measure_ment / current_simulated_nodes", "mentpy/simulators/np_simulator_dm.py"), ("measure / measure_ment / current_simulated_nodes", "mentpy/simulators/np_simulator_sv.py")],
  technique=BRANCH, note="The reference contracts the loaded part of the graph; which nodes are loaded when is the simulator's choice.")

P(id="C32", title="A simulator answers exactly what it is asked, or refuses and stays usable",
  statement="Every well-formed request (any backend name in any case, state vectors of any numeric type, angles as list, tuple or array, any documented output form, calling the simulator or its run method) gets the state of the pattern; "
            "every malformed one (unknown backend, output form or plane, wrong number of angles, malformed or zero input state, window or schedule that does not fit, circuit without flow and schedule, unmeasured inner node) is refused with an error instead of a wrong state. "
            "After any refused calls, a reset simulator answers as a new one, and the caller's arrays are unchanged.",
  over=["inputs", "configurations", "histories"], quant="all circuits with flow up to the bound x all listed request forms x pairs of malformed calls x planes on every node",
  why="tests make well-formed requests in one form only",
  files=["mentpy/simulators/pattern_simulator.py", "mentpy/simulators/base_simulator.py", "mentpy/simulators/np_simulator_dm.py", "mentpy/simulators/np_simulator_sv.py", "mentpy/simulators/pennylane_simulator.py"],
  mech=[("PatternSimulator.__init__ / run / reset / __call__", "mentpy/simulators/pattern_simulator.py"), ("_check_input_state", "mentpy/simulators/base_simulator.py")],
  technique=EXP, note="The alphabets of well-formed and malformed requests are finite lists; the circuits are exhaustive in the bounds.")

P(id="C33", title="Expressivity statistics and clusters of a flow space are those of its circuits",
  statement="The Haar density of fidelities is (N-1)(1-F)^(N-2); the expressivity of a circuit is the requested divergence (KL, RE or JS) of the normalised histogram of its sampled fidelities from the Haar weights of the bins, "
            "one fidelity in [0, 1] per sample, and fidelity one for a circuit that implements the identity. The expressivity digraph has exactly the circuits and edges of the flow space, every edge pointing to the smaller divergence, "
            "drawing it shows every circuit and edge, and clustering it partitions the circuits into local Clifford classes. Unknown methods are refused.",
  over=["inputs", "configurations"], quant="all multisets of sampled fidelities up to the bound x bins x methods x sizes; all flow spaces and graph collections up to the bound",
  why="no test covers this module",
  files=["mentpy/utils/expressivity.py"], mech=[("expressivity_with_histogram / sample_probability_density_of_fidelities", "mentpy/utils/expressivity.py"), ("digraph_expressivity_of_flow_space / lc_cluster_flowspace", "mentpy/utils/expressivity.py")],
  technique=EXP, note="The distribution of the samples is not judged (N01).")

P(id="N01", title="Expressivity estimates converge to the frame potential of the circuit",
  statement="The expressivity measures estimated from sampled circuit states approach the divergence between the circuit's fidelity distribution and the Haar one.",
  over=["inputs"], quant="all circuits and sample sizes",
  why="a statement about distributions of random samples",
  files=["mentpy/utils/expressivity.py"], mech=[("expressivity", "mentpy/utils/expressivity.py")],
  technique="", note="",
  na="A statistical statement about estimates from random samples: no enumeration of executions decides it. What is computed from given samples is judged by C33.")

P(id="N02", title="Random states and unitaries are Haar distributed",
  statement="Random states and special unitaries are distributed according to the Haar measure.",
  over=["inputs"], quant="all draws",
  why="a statement about a continuous distribution",
  files=["mentpy/operators/gates.py", "mentpy/utils/generate_data.py"], mech=[("random_su", "mentpy/operators/gates.py")],
  technique="", note="",
  na="A statement about a continuous distribution; enumeration of executions cannot decide it. That every draw is a normalised state, and what is done with it, is part of C26.")
