"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=["mentpy/" + f for f in files],
            state=[dict(name=a, meaning=b, where="mentpy/" + c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where="mentpy/" + b) for a, b in mech],
            observe_at=observe, hook_needed=hook),
    )
    P.append(d)


SIM = ["simulators/np_simulator_dm.py", "simulators/np_simulator_sv.py", "simulators/pennylane_simulator.py", "simulators/pattern_simulator.py"]

p("C01", "Resetting a simulator makes the next run independent of its whole past",
  "After a simulator is reset with an input state (or a run is started with an input state), the run that follows returns the same state and the same recorded outcomes as a newly built simulator for the same circuit, whatever happened before: complete runs, partial step-by-step measurement, calls refused for bad arguments, edits of the angle or plane of a measured node, or calls aborted at any instant by an exception or interrupt. A reset without an input state keeps the last input state. Neither running nor resetting ever modifies the circuit, the caller's angle list or the caller's input array, and later changes the caller makes to those arrays do not reach into the simulator.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of reset/run/measure/edit calls on one simulator, every point inside a call at which it is aborted, every backend, circuit, input and angle vector",
  "The tests build a simulator, reset it once and run it once (teleportation and three templates); no test reuses a simulator after a partial, refused or aborted run.",
  SIM + ["simulators/base_simulator.py"],
  [("reset rebuilds register, counter and outcome record", "simulators/np_simulator_dm.py:reset"), ("reset", "simulators/np_simulator_sv.py:reset"), ("reset", "simulators/pennylane_simulator.py:reset")],
  ["PatternSimulator.reset", "PatternSimulator.run", "PatternSimulator.measure", "PatternSimulator.outcomes"],
  [("qstate", "current register of the sliding window", "simulators/np_simulator_dm.py"), ("current_measurement", "progress counter", "simulators/np_simulator_dm.py"), ("outcomes", "recorded outcomes", "simulators/base_simulator.py")])

p("C02", "The returned state is the physical post-measurement state of the outcomes",
  "For every measurement pattern, input state and angle vector a backend accepts, and for every record of measurement outcomes that can occur, the state returned by a numpy backend is the normalised state obtained by preparing the graph state on the input, projecting each measured node on the recorded outcome of its measurement and keeping the quantum output nodes in the circuit's output order. Every measured node is recorded exactly once, with outcome 0 or 1 of non-zero probability, and non-Z measurements are post-selected on 0 whenever outcome 0 has non-negligible probability. In expectation mode a Z measurement reports its probability of 1 and the remaining qubits are left in their unconditioned reduced state.",
  ["histories", "inputs", "programs", "configurations"],
  "every accepted circuit (planes X, Y, Z, XY, XZ, YZ; trainable or fixed angles; measured output nodes), input state, angle vector and outcome sequence",
  "The tests check teleportation at angle 0 and equality between backends at random XY angles; random outcomes (Z measurements), other planes, fixed angles, measured outputs and permuted outputs are never executed, and three equal backends can be equally wrong.",
  SIM[:2] + ["calculator/state_ops.py", "operators/gates.py", "operators/ment.py"],
  [("projection and renormalisation", "simulators/np_simulator_dm.py:measure_ment"), ("sliding window", "simulators/np_simulator_dm.py:measure"), ("partial trace of the measured qubit", "calculator/state_ops.py:partial_trace"), ("output reordering", "simulators/np_simulator_dm.py:reorder_qubits")],
  ["PatternSimulator.run", "PatternSimulator.outcomes"])

p("C03", "Sampled measurement outcomes follow the Born rule",
  "Whenever a measurement outcome is sampled, outcome 1 is drawn with the probability quantum mechanics assigns to it given the outcomes already recorded in that run, and an outcome of probability zero is never drawn. Sampling never fails because of rounding, also when an outcome is certain.",
  ["schedules", "histories", "inputs"],
  "every entropy stream feeding the sampler, every circuit with Z-plane measurements, every prefix of recorded outcomes",
  "No test executes a sampled measurement at all.",
  ["simulators/np_simulator_dm.py"],
  [("np.random.choice with p=[prob0, prob1]", "simulators/np_simulator_dm.py:measure_ment")],
  ["PatternSimulator.outcomes"])

p("C04", "A reported flow makes every outcome record and schedule give one result",
  "If a circuit reports a flow, then executing it adaptively (after outcome 1 on a node, apply X to its flow image and Z to the image's other neighbours) yields the same output state for every record of outcomes and for every measurement schedule admissible under the reported partial order or layers. The reported measurement order is itself admissible: it lists each node once and never asks for a correction on a node that has already been measured. An order assigned by the user is accepted when it lists every node once and agrees with the dependencies the circuit reports, and is refused when it is no permutation of the nodes or would ask for a correction on a node already measured.",
  ["schedules", "histories", "programs"],
  "every circuit with flow (templates, random graphs, compositions), every outcome sequence, every linear extension of the reported order, every input and angle vector",
  "No test executes a pattern with a non-zero outcome or compares two measurement schedules; flow tests are empty.",
  ["mbqc/flow.py", "mbqc/mbqcircuit.py"],
  [("causal flow search", "mbqc/flow.py:find_cflow"), ("measurement order", "mbqc/mbqcircuit.py:calculate_order"), ("order setter", "mbqc/mbqcircuit.py:measurement_order")],
  ["MBQCircuit.flow", "MBQCircuit.partial_order", "MBQCircuit.measurement_order", "MBQCircuit.ordered_layers"])

p("C05", "Flow detection is exact and independent of names, hashing and insertion order",
  "A circuit with as many inputs as outputs reports a causal flow exactly when its open graph has one, and the reported flow, layers and depth (the number of measurement rounds) are those of the maximally delayed flow. When it has none, layers are reported exactly when a generalised flow exists, are those of the maximally delayed one, and its corrections act on the corrected node and on no other node not yet measured. The answer does not depend on node names, on the hash-table iteration order of those names, or on the order in which nodes and edges were inserted or inputs and outputs listed.",
  ["schedules", "programs", "configurations"],
  "every open graph and every iteration order of its node sets",
  "The flow test file contains no test; templates exercise only integer-labelled graphs inserted in order, which all have flow.",
  ["mbqc/flow.py"],
  [("causal flow search", "mbqc/flow.py:find_cflow"), ("worklist over Python sets", "mbqc/flow.py:causal_flow_aux"), ("gflow search", "mbqc/flow.py:find_gflow")],
  ["mentpy.flow.find_cflow", "mentpy.flow.find_gflow", "mentpy.flow.Flow", "MBQCircuit.flow", "MBQCircuit.depth", "MBQCircuit.ordered_layers"])

p("C06", "Window size and measurement schedule never change a simulation result",
  "For a given circuit, input and angles, every window size and every measurement schedule that a numpy backend accepts leads to the same output state (and, with the same outcomes, the same conditional state), including the automatically chosen defaults. A window size of 1 means an automatically chosen window. A window too small to hold the qubits the pattern needs at some point is refused with an error instead of yielding a wrong state, and a window as large as the circuit is always accepted.",
  ["schedules", "configurations", "programs"],
  "every circuit, every window size from 1 to the number of nodes, every explicit or default schedule",
  "One window size per circuit is tried, on circuits where it happens to be large enough.",
  SIM[:2],
  [("sliding window", "simulators/np_simulator_sv.py:measure"), ("window/schedule set-up", "simulators/np_simulator_sv.py:__init__")],
  ["PatternSimulator(window_size=, schedule=)", "PatternSimulator.run"])

p("C07", "The correcting backend and the post-selecting backends agree; noise is applied",
  "For every circuit with flow whose measurements lie in the XY plane (X, Y, or fixed or trainable XY angles), the PennyLane backend, which averages over all outcomes and applies flow corrections, returns the same output state as the numpy backends, which keep the all-zero branch; angles are matched to nodes identically by all backends. A pattern a backend cannot represent is refused. With circuit noise of strength p the PennyLane backend returns the state obtained by applying the named single-qubit channel to every qubit of the resource state.",
  ["histories", "programs", "inputs", "fault_sequences"],
  "every circuit with flow, outcome sequence, input, angle vector, noise kind and strength",
  "Three templates with random angles; no permuted inputs/outputs, no measurement dictionaries in another order, no fixed angles other than X, no noise.",
  SIM,
  [("mid-circuit measurement with conditional X/Z", "simulators/pennylane_simulator.py:mbqcircuit_to_circuit"), ("angle extension", "simulators/pennylane_simulator.py:run")],
  ["PatternSimulator(backend='pennylane').run"])

p("C08", "Simulations in concurrent threads do not influence each other",
  "When several threads work at the same time on one shared circuit, each with a simulator, optimiser or derived circuit of its own, every thread obtains exactly what it would obtain alone, whatever the interleaving. The shared circuit is unchanged afterwards.",
  ["schedules"],
  "every interleaving, at source-line granularity, of reset/run/measure, optimisation, flow, stacking and read-only calls made by two to four threads over shared circuits",
  "No test uses threads; thread schedules are not controllable from a unit test.",
  SIM[:3] + ["mbqc/mbqcircuit.py", "optimizers/adam.py", "optimizers/sgd.py", "operators/ment.py"],
  [("no shared mutable state: measurements copied before use", "simulators/np_simulator_dm.py:measure"), ("per-object optimiser state", "optimizers/adam.py:step")],
  ["PatternSimulator.run", "optimizers.*.optimize", "MBQCircuit"])

p("C09", "Any edit history leaves a circuit equal to one rebuilt from its contents",
  "After any sequence of edits (setting or deleting node measurements, assigning the measurement table, adding edges, stacking), a circuit's measurements, trainable, controlled, quantum-output and classical-output nodes, planes, flow, partial order and measurement order are those of a circuit built afresh from the resulting graph and measurements. An edit that is refused leaves the circuit unchanged, an edit interrupted part-way and then repeated has its normal effect, simulating, drawing, stacking or analysing a circuit never changes it or the circuits it was made from, and later changes a caller makes to a measurement object it has passed have no effect on the circuit.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of edits with refusals and interrupts at any instant",
  "Tests set at most two measurements on a fresh circuit and never look at derived attributes after a second edit, a deletion, a refused edit or an added edge with measurements present.",
  ["mbqc/mbqcircuit.py", "operators/ment.py", "mbqc/view.py"],
  [("attribute recomputation", "mbqc/mbqcircuit.py:_update_attributes"), ("edge insertion", "mbqc/mbqcircuit.py:add_edge")],
  ["MBQCircuit.__setitem__", "MBQCircuit.__delitem__", "MBQCircuit.measurements", "MBQCircuit.add_edge", "MBQCircuit.add_edges_from"])

p("C10", "Optimiser runs are reproducible, crash-safe and follow their update rule",
  "Each iterate of an SGD (with or without momentum and Nesterov), Adam or random-coordinate run equals the one prescribed by the textbook update rule for the gradient actually evaluated, the callback sees every iterate exactly once and in order, and the two optimisation entry points follow the same trajectory. An exception raised by the cost function or callback at any evaluation propagates unchanged and a step it aborted leaves no trace, so that repeating it gives what it would have given; after reset the optimiser behaves like a new one. The caller's starting point and every iterate already handed out are never modified.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "every sequence of step/optimize/reset calls, every evaluation at which the cost or callback fails, every coordinate sequence the random source can produce",
  "No test touches the optimisers.",
  ["optimizers/adam.py", "optimizers/sgd.py", "optimizers/rcd.py", "gradients/grad.py"],
  [("moment buffers", "optimizers/adam.py:step"), ("velocity buffer", "optimizers/sgd.py:step"), ("random coordinate", "optimizers/rcd.py:step"), ("reset", "optimizers/adam.py:reset")],
  ["Optimizer.step", "Optimizer.optimize", "Optimizer.optimize_and_gradient_norm", "Optimizer.reset"],
  [("m, v", "moments / velocity", "optimizers/adam.py")])

p("C11", "Optimisation makes progress within bounded steps under random choices and noise",
  "On a smooth convex cost with a suitable step size every optimiser comes within a small distance of the minimum in a bounded number of iterations, for every fair sequence of random coordinate choices; random coordinate descent never increases such a cost and changes only the chosen coordinate in each step. Once evaluation faults (failures followed by a retry, or bounded evaluation noise) stop, convergence resumes within the same bound.",
  ["schedules", "fault_sequences", "histories"],
  "every coordinate sequence, every placement of evaluation failures and bounded noise before the faults stop",
  "No test runs an optimiser.",
  ["optimizers/adam.py", "optimizers/sgd.py", "optimizers/rcd.py", "gradients/_parameter_shift.py", "gradients/_finite_difference.py"],
  [("descent direction", "gradients/_parameter_shift.py:psr_gradient"), ("coordinate step", "optimizers/rcd.py:step")],
  ["Optimizer.optimize"])

p("C12", "Generated training data are valid and complete for every entropy stream",
  "For every entropy stream, also one with extreme values, generated random states are normalised and Haar distributed and random gates are special unitary; a generated dataset has the requested size, is split in the requested proportion with every sample in exactly one part and still paired with its own target (a randomised split being uniformly random), and each clean target is the given unitary applied to its input. In a noisy dataset the test part is always clean, noise level 0 leaves the training part clean, and training targets are always normalised states produced by the stated noise acting with the stated strength; an invalid noise type or level is refused.",
  ["schedules", "inputs", "configurations"],
  "every entropy stream (including extreme values), qubit number, sample count, split ratio, noise type and level",
  "The generator is only used as a source of one- and two-qubit inputs for the simulator tests; datasets, splits, shuffles and noise are never checked.",
  ["utils/generate_data.py", "operators/gates.py"],
  [("Haar sampling", "operators/gates.py:random_su"), ("split", "utils/generate_data.py:train_test_split"), ("noise", "utils/generate_data.py:generate_random_dataset_noisy")],
  ["utils.generate_random_dataset", "utils.generate_random_dataset_noisy", "utils.train_test_split", "utils.generate_haar_random_states"])

p("C13", "Results are a function of inputs and the seeded global generators only",
  "With the global Python and numpy random generators seeded, every result of the library (circuit construction, flow and generalised flow, stacking, templates, simulation, sampling, data generation, optimisation, Pauli operators, Lie algebra generators, drawing) is the same in every process: it does not depend on the hash seed, on what the process computed earlier, on the clock, on object identity or on any other entropy source. Calls that need no randomness leave the random generators untouched (drawings place free nodes at random, and the PennyLane device seeds itself from the global generator).",
  ["schedules", "histories", "configurations"],
  "every workload, every hash seed, every preceding history in the process",
  "The tests run once, unseeded, under a single hash seed.",
  ["mbqc/flow.py", "mbqc/mbqcircuit.py", "simulators/np_simulator_dm.py", "utils/generate_data.py", "utils/lie_algebra.py", "optimizers/rcd.py"],
  [("only global generators are used", "operators/gates.py:random_su"), ("ordered iteration", "mbqc/flow.py:causal_flow_aux")],
  ["all public results"])

p("C14", "A composed circuit executes as its parts, whatever the outcomes",
  "Running a horizontally stacked circuit equals running the first circuit and feeding its output to the second; running a vertically stacked circuit equals running both side by side; merging along chosen output/input pairs joins exactly those wires and leaves the others as additional inputs and outputs. This holds for every outcome record (with flow corrections applied), for circuits with any node insertion order, measurement tables and output order, and for repeated and nested composition, and every node keeps its own measurement: the angle vector of a composition is the concatenation of its parts' angle vectors, and outputs joined to an input are measured as that input.",
  ["programs", "histories", "schedules"],
  "every finite composition of circuits with flow by hstack, vstack and merge, every outcome sequence, input and angle vector",
  "Composition is exercised only through templates whose node counts are checked; no composed circuit's output is compared with its parts.",
  ["mbqc/mbqcircuit.py"],
  [("horizontal stacking", "mbqc/mbqcircuit.py:_hstack2"), ("vertical stacking", "mbqc/mbqcircuit.py:_vstack2"), ("merge", "mbqc/mbqcircuit.py:merge")],
  ["hstack", "vstack", "merge", "PatternSimulator.run"])

p("C15", "Controlled measurements obey the outcomes recorded in the same run",
  "A controlled measurement is performed with its true or false setting according to the value of its condition on the outcomes recorded earlier in the same run, for every outcome record, for conditions combining several outcomes arithmetically or logically, and for fixed and trainable settings. The measurement order of a circuit always places the nodes a condition reads before the controlled node, together with all flow dependencies, however the controls were added, replaced or removed.",
  ["histories", "programs", "schedules"],
  "every outcome sequence, every condition expression, every order of adding, replacing and removing controls",
  "No test creates a controlled measurement.",
  ["operators/controlled_ment.py", "operators/ment.py", "mbqc/mbqcircuit.py", "simulators/np_simulator_dm.py"],
  [("condition evaluation", "operators/controlled_ment.py:matrix"), ("outcome algebra", "operators/ment.py:MentOutcome"), ("extended partial order", "mbqc/mbqcircuit.py:_create_new_partial_order")],
  ["ControlMent", "MentOutcome", "MBQCircuit.measurement_order", "PatternSimulator.run"])

p("C16", "Copied or serialised objects resume exactly where the original stood",
  "A circuit, simulator or optimiser that is copied, or serialised and restored after a crash, at any point of its history behaves from there on exactly like the original would have: same attributes, same states, same outcomes for the same entropy. Afterwards original and copy evolve independently.",
  ["histories", "crash_points"],
  "every point of every history of a circuit, numpy simulator or optimiser at which it is checkpointed and the process is lost",
  "No test copies or serialises anything, although the parallelisation tutorial ships circuits and simulators to worker processes.",
  ["mbqc/mbqcircuit.py", "simulators/pattern_simulator.py", "operators/ment.py", "operators/controlled_ment.py", "optimizers/adam.py"],
  [("attribute delegation", "mbqc/mbqcircuit.py:__getattr__"), ("attribute delegation", "simulators/pattern_simulator.py:__getattr__"), ("outcome closures", "operators/ment.py:node_id")],
  ["copy.deepcopy", "dill.dumps/loads"])

p("C17", "Expressivity estimates hold for every entropy stream",
  "For every circuit the PennyLane backend accepts and every entropy stream, sampling fidelities returns as many as requested, all between 0 and 1, independent of each other and distributed like the fidelity between a Haar random input and the circuit's output at uniformly random angles; the expressivity is the named divergence (KL, RE or JS) between the histogram of such samples and the Haar density, an unknown divergence is refused, and the digraph of a flow space joins the same graphs as the flow space, each edge leading from the larger to the smaller expressivity. An aborted estimate leaves no trace and the circuit is unchanged.",
  ["inputs", "histories", "crash_points"],
  "every entropy stream, accepted circuit, sample and bin count, and every point at which an estimate is aborted",
  "No test executes the expressivity module (it could not run at all at the pinned commit).",
  ["utils/expressivity.py", "utils/generate_data.py", "simulators/pennylane_simulator.py"],
  [("sampling loop", "utils/expressivity.py:sample_probability_density_of_fidelities"), ("histogram divergence", "utils/expressivity.py:expressivity_with_histogram"), ("digraph", "utils/expressivity.py:digraph_expressivity_of_flow_space")],
  ["utils.sample_probability_density_of_fidelities", "utils.expressivity_with_histogram", "utils.digraph_expressivity_of_flow_space"])

# ---- properties outside the reach of the technique --------------------------------
p("N01", "Gradients and Hessians equal the derivatives they name",
  "For every differentiable cost function the finite-difference and parameter-shift gradients and Hessians agree with the true derivatives up to the stated method error.",
  ["inputs"], "every cost function and point", "No gradient test exists.",
  ["gradients/grad.py", "gradients/_parameter_shift.py", "gradients/_finite_difference.py"],
  [("difference quotients", "gradients/_finite_difference.py")], ["gradients.get_gradient", "gradients.get_hessian"])
p("N02", "Pauli operators form the Pauli group modulo phase",
  "Products, commutators, symplectic products, membership, subsets and text/tableau conversion of Pauli operators agree with matrix algebra for every operator list.",
  ["inputs"], "every list of Pauli strings", "Only a handful of literals are tested.",
  ["operators/pauliop.py"], [("tableau arithmetic", "operators/pauliop.py")], ["PauliOp"])
p("N03", "Local-Clifford equivalence is decided correctly",
  "Two graph states are reported equivalent exactly when local Cliffords map one to the other, and the returned Cliffords do so.",
  ["inputs"], "every pair of graphs", "No test.",
  ["utils/lc_equivalence.py"], [("null-space search", "utils/lc_equivalence.py:search_nullspace")], ["utils.are_lc_equivalent"])
p("N04", "The Lie algebra of a circuit is complete and closed",
  "The generators are the Pauli operators implemented by the trainable angles and their completion is closed under commutation and minimal.",
  ["programs"], "every circuit with flow", "Dimension is checked on four grids.",
  ["utils/lie_algebra.py"], [("closure", "utils/lie_algebra.py:lie_algebra_completion")], ["utils.calculate_lie_algebra"])
p("N05", "Gate and state primitives implement their textbook definitions",
  "Single-qubit embeddings, swaps, controlled gates, partial traces, density matrices and linear solvers agree with their mathematical definitions for all arguments; measurement operators are involutions with complete POVMs.",
  ["inputs"], "all arguments", "A few literals.",
  ["operators/gates.py", "calculator/state_ops.py", "calculator/linalg2.py", "operators/ment.py"], [("Kronecker products", "operators/gates.py")], ["gates", "calculator", "Ment.matrix"])
p("N06", "Templates build the circuits they document",
  "Each template has the documented nodes, edges, inputs, outputs and trainable nodes, and the Pauli template implements the exponential of the given operator.",
  ["inputs"], "all template arguments", "Only trainable-node counts of one template.",
  ["mbqc/templates.py"], [("constructors", "mbqc/templates.py")], ["templates"])
p("N07", "Flow space enumerates all graphs and separates those with flow",
  "The flow space over n nodes contains every graph once, marks exactly those with flow, and joins graphs that differ in one edge.",
  ["inputs"], "all input/output choices up to seven nodes", "No test.",
  ["utils/flow_space.py"], [("enumeration", "utils/flow_space.py")], ["utils.FlowSpace"])
p("N09", "Drawings show the circuit",
  "Every drawn figure shows each node, edge, flow arrow, control and label of the circuit with the colours of the chosen style.",
  ["inputs"], "all circuits and styles", "One circuit, three styles.",
  ["mbqc/view.py"], [("networkx drawing", "mbqc/view.py")], ["draw"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
