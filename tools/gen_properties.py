#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TG = "qermit/taskgraph/task_graph.py"
p("C01", "Task graphs compute exactly the dataflow their composition describes",
  "For any sequence of prepending, appending, adding in parallel and adding plain wires, running the resulting task graph on any inputs gives, wire for wire and in order, what the composed functions give when evaluated directly: the k-th input reaches the k-th open input, the k-th output of one step feeds the k-th input of the next, and outputs come back in port order. Every task runs exactly once per run and only after all tasks that feed it. Steps whose wire count does not fit are rejected without changing the graph. The same holds for result and expectation objects, and graphs converted from or to them, extended by a user's tasks; there, steps for another kind of data are rejected too. The drawing of a graph shows exactly its tasks and wires, port for port, and drawing changes nothing.",
  ["histories", "inputs"], "Every composition history (any length, any mix of operations, tasks of any arity, nested task graphs) and every input list.",
  "The tests build a handful of two- or three-step graphs whose wires never interleave; the guarantee is over every composition history and arity.",
  [TG, "qermit/taskgraph/mittask.py", "qermit/taskgraph/graphviz.py"],
  [("drawing by ports", "qermit/taskgraph/graphviz.py"), ("ports as (out, in) edge keys", TG + " prepend/append/parallel/add_n_wires"), ("topological execution, edges carry data", TG + " run")],
  ["return value of running the graph", "order and arguments of every task invocation"],
  [("edge data and port keys", "which output port feeds which input port", TG)])
p("C02", "Decomposing nested graphs preserves results; composing leaves parts usable",
  "Flattening a task graph that contains other task graphs, at any nesting depth and wiring, leaves no nested graph behind and does not change what running it returns or which tasks run. Using a task or task graph as a building block, copying it into another graph, or flattening the whole afterwards leaves the block itself unchanged: run on its own it still has the same label, tasks and results. One block may be used any number of times in one or several graphs.",
  ["histories", "inputs"], "Every nesting structure, every wiring between blocks, every order of compose / flatten / run, blocks shared between graphs.",
  "Tests flatten a few fixed graphs once and only count nodes; they never compare results before and after or re-run the parts.",
  [TG, "qermit/taskgraph/mitres.py", "qermit/taskgraph/mitex.py"],
  [("substitution of a node by its inner graph", TG + " decompose_TaskGraph_nodes"), ("copies taken when composing", TG + " prepend/append/parallel/from_TaskGraph")],
  ["results of the graph before and after flattening", "results, label and tasks of each block before and after use"])
p("C03", "Building and running mitigation never alters what the user passed in",
  "Running any mitigated result or expectation object leaves the circuits, observables, symbol values and measurement specifications supplied by the user, and any result or expectation object supplied as a building block, as they were (same circuits, same coefficients, same behaviour when run alone). Consequently the same object run again on the same input, or on other inputs in between, behaves as if it were fresh: no circuits, labels, measurements or settings leak from one run, one experiment or one generated object to another.",
  ["histories", "inputs"], "Every interleaving of building and running the library's mitigation objects on shared circuits, observables, trackers and building blocks.",
  "Each test builds fresh objects, runs them once and never looks at its inputs again; aliasing shows only across histories of several runs.",
  ["qermit/taskgraph/mitex.py", "qermit/taskgraph/mitres.py", "qermit/taskgraph/utils.py", "qermit/taskgraph/measurement_reduction.py", "qermit/frame_randomisation/frame_randomisation.py", "qermit/postselection/postselect_mitres.py", "qermit/leakage_detection/leakage_detection.py", "qermit/zero_noise_extrapolation/zne.py"],
  [("copies of circuits taken before appending", "qermit/taskgraph/mitex.py filter_observable_tracker_task_gen"), ("tracker cleared after use", "qermit/taskgraph/mitex.py get_expectations_task_gen"), ("building block copies", "generator functions taking mitres= / mitex=")],
  ["deep snapshots of every user-supplied object around build and run", "circuits reaching the backend in repeated runs", "results of repeated runs on a deterministic backend"])
p("C04", "Cache and characterisation record what each task really produced and saw",
  "After a run with caching on, the cache lists every task in an order compatible with the dataflow, with exactly the outputs it produced in that run and nothing from earlier runs; caching is refused when labels clash. Characterisation data given to the graph or to a run is visible to every task, anything a task adds is visible to the tasks that run after it and afterwards on the graph, and caching never changes results.",
  ["histories", "inputs"], "Every graph, every run history mixing cached and uncached runs and characterisation updates.",
  "Tests look at one cached run of one linear graph; staleness and visibility depend on the history of runs.",
  [TG], [("cache filled during run", TG + " run"), ("characterisation merged before and after each task", TG + " run")],
  ["cache contents after each run", "characterisation seen inside each task", "characterisation on the graph afterwards"])
p("C05", "Each circuit gets its own result, with exactly the shots requested",
  "For any list of circuits and shot counts (empty lists and repeated circuits included) a result object returns one result per circuit, in order, produced by that circuit on the backend with exactly the requested number of shots. With shot splitting, no single job exceeds the maximum, the jobs of each circuit add up to exactly what was requested, and the recombined result holds exactly the shots of those jobs; compiling beforehand changes neither the order nor the meaning of any circuit.",
  ["inputs", "configurations"], "Every list of circuits and shot counts, every maximum, with or without compilation.",
  "Tests use two or three circuits and one maximum; off-by-one shot counts (equal to, multiple of, one off the maximum) are not sampled.",
  ["qermit/taskgraph/mitres.py", "qermit/taskgraph/mitex.py"],
  [("splitting and an index list", "qermit/taskgraph/mitres.py split_shots_task_gen"), ("regrouping by index", "qermit/taskgraph/mitres.py group_shots_task_gen")],
  ["jobs received by the backend (circuit, shots, order)", "results returned, shot by shot"])
p("C06", "Expectation experiments return coefficient times the true expectation per string",
  "On an exact noiseless backend an expectation object returns, for every experiment of a batch and in order, exactly one entry per Pauli string of its observable, equal to the string's coefficient times its true expectation in the prepared state with the experiment's symbol values substituted; strings absent from the observable do not appear. The answer does not depend on which other experiments share the batch, on qubit names (any but the name tket keeps for default bits), or on how the strings are ordered, and an observable naming qubits the circuit lacks is rejected.",
  ["inputs", "histories"], "Every batch of circuits (symbolic or not, any qubit names except the default bit register's), observables of any size, coefficients, shots.",
  "Tests run one or two fixed experiments with a handful of strings; independence of batch and correctness for every Pauli string need an oracle over many.",
  ["qermit/taskgraph/mitex.py", "qermit/taskgraph/utils.py"],
  [("basis-change measurement circuits", "qermit/taskgraph/mitex.py get_basic_measurement_circuit"), ("collate and split by experiment sizes", "qermit/taskgraph/mitex.py"), ("parity expectation", "qermit/taskgraph/utils.py get_expectations")],
  ["returned operators against a dense-matrix reference", "circuits reaching the backend"])
p("C07", "Measurement reduction changes circuit count, not expectations",
  "With measurement reduction, under every partitioning strategy, colouring method and entangler layout, every string of every experiment still gets coefficient times its true expectation (sign included), no string is lost, duplicated or attributed to another experiment, and no more circuits are run than without reduction. Reduction works in front of any supplied expectation object and leaves results identical to those of that object alone on a noiseless backend.",
  ["inputs", "configurations"], "Every observable (sets of strings, identity included), circuit, strategy, method, layout, batch.",
  "Tests use one observable and the default configuration; sign inversions appear only for particular commuting sets.",
  ["qermit/taskgraph/measurement_reduction.py", "qermit/taskgraph/utils.py"],
  [("measurement setup turned into measurement infos with inversion flags", "qermit/taskgraph/measurement_reduction.py")],
  ["returned operators against dense reference", "number of circuits reaching the backend"])
p("C08", "Observable and symbol bookkeeping matches a simple model under any history",
  "Under any sequence of adding measurement circuits, extending the observable, changing coefficients, removing strings, clearing and copying, an observable tracker reports exactly the strings still needing measurement, returns for each tracked string coefficient times the parity expectation of the bits and inversion registered for it, and rejects untracked strings. A copy and its original never influence each other, nor do separately created trackers or the operator a tracker was made from. Symbol dictionaries keep their symbols in order and substitute exactly the values set.",
  ["histories", "inputs"], "Every sequence of tracker and symbol-dictionary operations, interleaved over copies.",
  "Tests exercise each method once on one tracker; leakage between copies or after particular sequences is outside their reach.",
  ["qermit/taskgraph/utils.py"],
  [("string to (circuit index, bits, invert) map kept in step with the operator", "qermit/taskgraph/utils.py ObservableTracker"), ("ordered symbol map", "qermit/taskgraph/utils.py SymbolsDict")],
  ["public tracker / symbol methods after every operation compared with a reference model"])
SPAM = "qermit/spam/full_transition_tomography.py"
p("C09", "SPAM correction inverts exactly the calibrated readout channel",
  "For every grouping of qubits into correlated subsets (any sizes, any order) and every readout noise acting independently on those subsets, correcting results measured under that noise recovers the noiseless outcome distribution, for any circuit, any assignment of qubits to bits and any choice of measured subsets of qubits (exactly when inverting, within its tolerance for the iterative method). Subsets measured only in part are corrected in the same way when the measured part reads independently of the rest. Under noiseless readout the correction changes nothing.",
  ["inputs", "configurations"], "Every subset structure, readout channel, measured subset, qubit-to-bit map and outcome distribution; inversion, least-squares and iterative methods.",
  "Tests use one or two fixed correlation structures already in ascending order with all qubits measured in order.",
  [SPAM, "qermit/spam/full_spam_correction.py", "qermit/spam/spam_mitres.py"],
  [("transition matrices from calibration counts", SPAM + " calculate_correlation_matrices"), ("kron inversion and bit reordering", SPAM + " correct_transition_noise"), ("per-method solvers", SPAM)],
  ["calibration circuits reaching the backend", "corrected counts against exact channel inversion"])
p("C10", "SPAM correction returns a valid result for the circuit it corrects",
  "Whatever the calibration and whatever is measured, every corrected result has non-negative counts, exactly the measured bits of its own circuit in their own positions, and exactly as many shots in total as the raw result; results come back in the order of the circuits. Calibration covers every basis state of every subset, with each calibration circuit run once with the requested shots, is stored with the backend characterisation, and is not repeated while calibration for those subsets is present. Calibrations which cannot be inverted are refused rather than used.",
  ["inputs", "histories"], "Every batch of circuits, calibration state and history of calibrated and uncalibrated runs.",
  "Tests check one batch on one calibration; mixing circuits with different measured bits and reusing calibrations is not sampled.",
  [SPAM, "qermit/spam/full_spam_correction.py", "qermit/spam/spam_mitres.py"],
  [("clamping and renormalisation of corrected distributions", SPAM), ("calibration reuse from backend characterisation", "qermit/spam/full_spam_correction.py")],
  ["corrected results", "jobs received by the backend over a history of runs"])
p("C11", "Post-selection keeps exactly the accepted shots and drops the selection bits",
  "A post-selected result contains, for each assignment of the remaining bits, exactly the shots whose selection bits all read 0 (or, when merging, all shots), with the selection bits removed and the remaining bits in their original order and values. Running through a backend, this is applied to each circuit with its own selection bits, in order, over whatever registers they are spread, and with the requested shots on the backend.",
  ["inputs", "configurations"], "Every circuit register layout, set of selection bits (any, none, all), count table.",
  "Tests use two or three fixed count tables; bit positions and orders vary freely in use.",
  ["qermit/postselection/postselect_manager.py", "qermit/postselection/postselect_mitres.py"],
  [("keep/drop bits by position in the result", "qermit/postselection/postselect_manager.py"), ("per-circuit managers carried on a wire", "qermit/postselection/postselect_mitres.py")],
  ["returned counts against a per-shot filter over the raw counts at the backend boundary"])
p("C12", "Leakage detection is transparent without leakage and drops exactly flagged shots",
  "With leakage detection on a backend without leakage, every result of a circuit of gates followed by at least one measurement has the same outcome distribution over the circuit's own bits as without it, no shot being discarded, whatever registers the circuit has. When shots are flagged as leaked, exactly those shots are dropped, nothing else, and results keep their circuit's bits and order.",
  ["inputs", "fault_sequences"], "Every measured circuit, register naming, number of qubits and every pattern of flagged shots.",
  "Tests check circuit structure of one example and a mock; which shots are dropped for arbitrary patterns and layouts is not covered.",
  ["qermit/leakage_detection/leakage_detection.py", "qermit/postselection/postselect_manager.py"],
  [("detection gadget circuits from pytket-quantinuum and post-selection on flag bits", "qermit/leakage_detection/leakage_detection.py")],
  ["circuits reaching the backend", "returned counts against filtering of raw shots"])
p("C13", "Frame randomisation leaves the noiseless outcome distribution unchanged",
  "Every randomised instance of a circuit, under each randomisation type, has the same noiseless outcome distribution as the original, per bit, for circuits of any gates and registers measured at their end. The requested number of instances is run per circuit, and the collated result of each circuit holds exactly the shots of its own instances, in order.",
  ["inputs", "configurations"], "Every circuit, every randomisation type, number of instances, shots, batch and random choice of frames.",
  "Tests inspect one instance of one circuit; random frames and circuits vary and must all be exact.",
  ["qermit/frame_randomisation/frame_randomisation.py"],
  [("rebasing then sampling frames via pytket tailoring", "qermit/frame_randomisation/frame_randomisation.py"), ("collation of counts by instance", "qermit/frame_randomisation/frame_randomisation.py")],
  ["instances reaching the backend against an exact simulator", "collated counts"])
BOX = "qermit/coherent_pauli_checks/box_clifford_subcircuits.py"
p("C14", "Boxing Clifford subcircuits preserves the circuit and boxes only Clifford gates",
  "Grouping the Clifford parts of any circuit into boxes yields an equivalent circuit (same unitary, and same outcome distribution when it has measurements, classical control, barriers or resets), in which every box contains only Clifford gates and every gate of a Clifford type, and every quarter-turn Rz(0.5), is in some box. A box never requires its gates to run both before and after a gate outside it; for any directed acyclic graph the underlying colouring assigns every coloured node and gives convex subsets, of one colour, which can be run one after another.",
  ["programs"], "Every circuit (gates, registers, classical bits, conditionals, any size) and every directed acyclic graph and colouring.",
  "Tests use a few small circuits; illegal reordering shows only for particular dependency shapes.",
  [BOX, "qermit/coherent_pauli_checks/monochromatic_convex_subdag.py"],
  [("dependency DAG of commands", BOX), ("greedy convex merging", "qermit/coherent_pauli_checks/monochromatic_convex_subdag.py")],
  ["boxed circuit against exact simulation of the original", "sub-DAG assignment checked directly"])
p("C15", "Coherent Pauli checks accept all noiseless shots and catch detectable errors",
  "Adding coherent Pauli checks to a circuit, with any sampler of checks, leaves the noiseless outcome distribution over the circuit's own bits unchanged and never discards a shot. The checks come in pairs that really cancel through the subcircuit between them, and an error that flips any check leads to the shot being discarded while an error that flips none leads to it being kept.",
  ["programs", "fault_sequences"], "Every boxed circuit, number of checks, sampler (deterministic, random, optimal), and Pauli fault inserted at any place.",
  "Tests compare gate lists for a few fixed circuits and checks; the stabiliser identity must hold for every Clifford subcircuit, sign included.",
  ["qermit/coherent_pauli_checks/pauli_sampler.py", "qermit/coherent_pauli_checks/coherent_pauli_checks_mitres.py", BOX],
  [("check on one side, propagated Pauli on the other, with sign", "qermit/coherent_pauli_checks/pauli_sampler.py"), ("post-selection on ancilla bits", "qermit/coherent_pauli_checks/coherent_pauli_checks_mitres.py")],
  ["checked circuits simulated exactly, with and without inserted faults", "returned counts"])
QP = "qermit/noise_model/qermit_pauli.py"
p("C16", "Pauli propagation agrees with conjugation by the gate's matrix",
  "Pushing a Pauli string with phase through any supported gate, circuit or sequence gives exactly the operator obtained by conjugating with the unitary, phase included, for any qubits and any order; gates which are not Clifford or not supported are refused rather than pushed through wrongly. Products, duals, qubit access, conversion to and from strings and circuits, and comparison of such Paulis agree with the corresponding matrices, and propagating through a circuit and then its inverse restores the Pauli.",
  ["inputs", "programs"], "Every Pauli with phase, every supported gate and angle, every Clifford circuit and qubit naming.",
  "Tests check selected gates on selected Paulis; sign errors hide in particular gate/Pauli combinations and angles.",
  [QP], [("symplectic updates per gate", QP)],
  ["result of each propagation against dense matrices"])
NM = "qermit/noise_model/noise_model.py"
p("C17", "Pauli error channels obey probability and channel algebra",
  "Error distributions stay valid probability distributions whose sampling only yields listed errors; converting to a Pauli transfer matrix and back is the identity, and scaling by a factor raises the transfer matrix to that power whenever the scaled channel is a probability distribution (rates below 1e-6 may be dropped). Mixing averages, averaging weighted, post-selecting keeps exactly the relative rates of the errors that commute as requested and reports the discarded mass, and order of listing is irrelevant. Noise models survive serialisation to and from dictionaries unchanged, and scaling, equality and lookup act gate by gate. Plots show each error with its rate, and a matrix which is not the transfer matrix of a Pauli channel (not diagonal, or of a wrong shape) is refused.",
  ["inputs"], "Every distribution of Pauli errors on any number of qubits and any rates, factors, qubit subsets, models.",
  "Tests use two or three distributions with a few rates; the algebraic laws are over all of them.",
  [NM], [("Walsh-Hadamard style transfer matrix", NM + " ErrorDistribution.to_ptm/from_ptm"), ("scaling through the logarithm/power", NM + " scale")],
  ["returned distributions against dense channel computations"])
p("C18", "Noise insertion places the modelled errors and conserves shots",
  "Transpiling a circuit with a noise model inserts after each noisy gate an error drawn from that gate's distribution on that gate's qubits, and nothing else: all original operations stay in order with their arguments, and gates without noise are untouched. A transpiling backend executes every requested shot exactly once in batches, merges them all into one result over the circuit's own bits, and the effective noise reported for a circuit is that obtained by propagating inserted errors to its end. The noisy simulated devices supplied (Aer with depolarising noise, mock Quantinuum) return for each circuit submitted its own result, over its own bits, with the shots requested, and with noise of their rates.",
  ["inputs", "programs", "configurations"], "Every circuit, noise model, batch size, shot count and random draw.",
  "Tests count errors on single-gate circuits; placement and shot conservation must hold for every circuit and batch remainder.",
  ["qermit/noise_model/pauli_error_transpile.py", "qermit/noise_model/transpiler_backend.py", NM, "qermit/noise_model/noisy_aer_backend.py", "qermit/noise_model/mock_quantinuum_backend.py"],
  [("per-command insertion", "qermit/noise_model/pauli_error_transpile.py"), ("batched processing and merging of counts", "qermit/noise_model/transpiler_backend.py"), ("forward propagation of sampled errors", NM)],
  ["transpiled circuits aligned with the originals", "merged results"])
ZNE = "qermit/zero_noise_extrapolation/zne.py"
p("C19", "Noise folding keeps the circuit's action and reaches the requested scaling",
  "For every folding method and every permitted scaling factor, the folded circuit implements the same unitary as the original up to global phase, contains the original gates, and its amount of the folded gate type is the requested multiple of the original (within the granularity of one fold); noise-aware folding scales the errors inserted instead. Scalings a method cannot reach are refused: whole circuits fold only by odd whole factors, exact gate folding refuses factors it cannot reach exactly, and two-qubit folding refuses factors below one and circuits without two-qubit gates. Classical bits, qubit names, implicit permutations and symbolic or non-symbolic parameters survive.",
  ["inputs", "programs"], "Every circuit, folding method, factor, tolerance and random choice of folded gates.",
  "Tests fold two or three fixed circuits by integer factors; fractional factors, rounding and odd gate counts are not sampled.",
  [ZNE], [("circuit, gate, odd-gate and two-qubit folding", ZNE + " Folding")],
  ["folded circuits against dense unitaries and gate counts"])
p("C20", "Zero-noise extrapolation recovers exactly extrapolatable data, string by string",
  "If measured values follow exactly the model a fit assumes (polynomial, linear, Richardson, exponential, poly-exponential, cube root), the extrapolated value is the zero-noise value of the model. In a run over any batch, empty ones included, each string of each experiment is extrapolated from its own values at exactly the requested noise scalings, with the experiment's own circuit, shots and symbols, and returned under its own name with its own coefficient. On a noiseless backend the result equals the plain expectation. Showing the fits changes no value, and each plot shows the data, the fitted curve and the value returned.",
  ["inputs", "configurations"], "Every batch, scaling list (any order, non-integer), fit type and degree, folding type, observable.",
  "Tests check a few fits on one data set and one experiment; alignment between strings, scalings and experiments needs many.",
  [ZNE], [("per-fold MitEx graphs in parallel, collated", ZNE), ("fit functions", ZNE + " Fit"), ("qubit relabelling and compilation", ZNE)],
  ["circuits reaching the backend per scaling", "returned operators against model data"])
CC = "qermit/clifford_noise_characterisation/"
p("C21", "Clifford-data regression learns from right data and corrects each string with it",
  "Each training circuit is near-Clifford with the same structure as the experiment's circuit (same gates and qubits except for angles moved to Clifford values) and keeps the requested number of non-Clifford gates, or all but one where the circuit has no more. Each string's correction is fitted from the noisy and exact values of that string's own training circuits and applied to that string's own noisy value, so that data following exactly the fitted relation, with enough distinct values to determine it, is corrected exactly. Identical noisy and exact data is left unchanged, and every experiment of a batch is treated on its own and in order. A warning is raised if and only if, for some experiment, more than the accepted fraction of its training circuits have noisy values further from its own than the accepted distance.",
  ["inputs", "configurations"], "Every batch of circuits and observables, numbers of training circuits and non-Clifford gates, seeds, likelihood options, fit order.",
  "Tests inspect one circuit and linear data; pairing and alignment between strings, training circuits and experiments needs many.",
  [CC + "ccl.py", CC + "cdr_post.py"],
  [("sampled state circuits", CC + "ccl.py"), ("split by experiment and string, fit, apply", CC + "ccl.py, cdr_post.py")],
  ["training circuits reaching noisy and exact backends", "returned operators against a reference regression"])
p("C22", "Depolarisation-factor correction divides each string by its own factor",
  "Depolarisation-factor correction characterises each string of each experiment with a Clifford version of that experiment's own measurement circuit whose ideal value for the string is known to be plus or minus one, and returns the noisy value divided by the magnitude of the measured factor; so uniform damping of expectations is removed exactly and noiseless values are unchanged. Strings without a usable factor keep their noisy value.",
  ["inputs"], "Every batch of circuits, observables (all Pauli strings), damping factors.",
  "Tests check the parts on one or two strings each; sign and pairing over all strings and experiments need an oracle.",
  [CC + "dfsc.py"], [("Clifford preparation per commuting partition", CC + "dfsc.py"), ("division by measured factor", CC + "dfsc.py")],
  ["characterisation circuits reaching the backend", "returned operators"])
SF = "qermit/spectral_filtering/spectral_filtering.py"
p("C23", "Spectral filtering evaluates, filters and interpolates each point correctly",
  "Each symbol of each experiment is swept over the same uniform grid on one period [0, 2), the expectation at every grid point is that of the experiment's own circuit with exactly that point's values, transforming to the frequency domain and back without filtering is the identity, and the filter keeps exactly the modes whose magnitude reaches its threshold. Interpolating the landscape, closed periodically at the end of the period, returns the value at the experiment's own parameter values within the period under each string's own name. On noiseless signals within the grid's bandwidth the mitigated value at a grid point equals the plain expectation.",
  ["inputs", "configurations"], "Every number of symbols, grid size, parameter value, filter and batch.",
  "Tests check single tasks on one or two symbols and coarse plots; axis order and symbol pairing need asymmetric inputs.",
  [SF, "qermit/spectral_filtering/signal_filter.py"],
  [("mesh grids, fft per string, inverse fft, interpolation", SF)],
  ["grid experiments reaching the inner expectation object", "returned operators"])
PEC = "qermit/probabilistic_error_cancellation/"
p("C24", "Quasi-probability cancellation weights the right circuits correctly",
  "Every noisy or Clifford variant generated from a circuit keeps its computing gates and frame positions aligned: a noisy variant differs from the circuit by exactly one pair of Paulis around one two-qubit gate, and a training circuit only in Clifford gates replacing its computing gates, drawn uniformly at random and reproducibly from a seed. The learned quasi-probabilities are the least-squares solution over the noisy and exact values of the experiment's own training circuits, and the mitigated expectation of each string is the sum over exactly its own variants weighted by them, so that without noise it equals the plain expectation whenever the training determines it. Circuits without computing or two-qubit gates, and gates outside the labelled gate set, are refused.",
  ["inputs", "programs"], "Every labelled circuit, observable, number of training circuits, seed.",
  "Tests use one circuit per function; pairing of variants with quasi-probabilities must survive batching and every circuit shape.",
  [PEC + "pec_learning_based.py", PEC + "cliff_circuit_gen.py"],
  [("labelled frame and computing gates", PEC + "pec_learning_based.py"), ("linear least squares for quasi-probabilities", PEC + "pec_learning_based.py"), ("random Clifford circuits", PEC + "cliff_circuit_gen.py")],
  ["variants reaching the backends", "returned operators"])
p("C25", "Mitigation methods compose: exact without noise, and built from the parts given",
  "Result and expectation objects of different methods (shot splitting, SPAM correction, frame randomisation, leakage detection, Pauli checks, measurement reduction, zero-noise extrapolation, Clifford-data regression, depolarisation-factor correction, spectral filtering) can be built around one another in any order that gives each of them circuits it is made for. Without noise, on a single device, such a composition returns for every experiment, string by string, the plain expectation; with readout noise which a SPAM correction among its parts removes, likewise. Every object supplied as a part is used, and no circuit is sent to the default of a part which was supplied.",
  ["inputs", "configurations"], "Every tree of methods down to plain objects, every batch.",
  "Tests run each method on its own or around one other, with a handful of fixed circuits; the combinations of methods are too many to list.",
  ["qermit/taskgraph/mitex.py", "qermit/taskgraph/mitres.py", ZNE, CC + "ccl.py", CC + "dfsc.py", SF, "qermit/taskgraph/measurement_reduction.py", "qermit/spam/spam_mitres.py", "qermit/frame_randomisation/frame_randomisation.py", "qermit/leakage_detection/leakage_detection.py"],
  [("keyword arguments giving the objects a method is built around", "the gen_..._MitEx and gen_..._MitRes functions"), ("copying the parts into the method's graph", "qermit/taskgraph/task_graph.py from_TaskGraph")],
  ["circuits reaching each backend of a composition", "returned operators"])
p("C26", "Seeds fix every random choice, and without them choices vary",
  "Wherever a seed or a random generator can be given (training circuits and likelihood filtering, random gate folding, quasi-probability training, random Clifford circuits, error distributions and noise models, randomly sampled checks), and wherever the global generators are seeded for a method that takes none, building and running the same programme again with the same seed sends exactly the same circuits with the same shots, in the same order, to the backends and returns the same values: in the same process after any other random work, or in another process whatever its hash seed. Methods without random choices do so without a seed. Other seeds, and runs without a seed, do not repeat one choice.",
  ["inputs", "histories"], "Every programme and seed, any random work in between, any process.",
  "Tests hardly use seeds, and compare nothing across processes; whether an order depends on hashing or on leftover random state shows only between runs.",
  [CC + "ccl.py", ZNE, PEC + "pec_learning_based.py", PEC + "cliff_circuit_gen.py", NM, "qermit/noise_model/pauli_error_transpile.py", "qermit/coherent_pauli_checks/pauli_sampler.py"],
  [("seeding of numpy and random", "qermit/clifford_noise_characterisation/ccl.py gen_state_circuits, gen_ZNE_MitEx, gen_PEC_learning_based_MitEx, random_clifford_circ"), ("generators kept by objects", "ErrorDistribution.rng, RandomPauliSampler.rng")],
  ["circuits and shots reaching backends", "samples drawn", "returned values"])
p("C27", "Experiments of a batch, and successive runs, do not influence each other",
  "What an experiment or circuit gets from a result or expectation object, alone or built from others, depends on nothing but itself and the object: the same whether it is run alone or with others, at whatever position, repeated within the batch or not, on a new object or on one that has run any other batches before (empty ones included), with caching or without, and whatever other objects of other devices run in between. This holds for values and counts, up to what a method leaves to chance.",
  ["inputs", "histories", "orders"], "Every object, batch and history of batches and objects; noise is whatever the device does.",
  "Tests run single batches on new objects, and mostly one experiment; what leaks between positions, runs or objects shows only in comparisons across histories.",
  ["qermit/taskgraph/mitex.py", "qermit/taskgraph/mitres.py", "qermit/taskgraph/task_graph.py", ZNE, CC + "dfsc.py", CC + "ccl.py", "qermit/spectral_filtering/spectral_filtering.py", "qermit/spam/spam_mitres.py", "qermit/leakage_detection/leakage_detection.py"],
  [("tasks indexing wires of a batch in parallel", "gen_DFSC_MitEx, gen_ZNE_MitEx, gen_spectral_filtering_MitEx, gen_shot_split_MitRes, frame_randomisation_result_task_gen"), ("state kept by graphs between runs", "TaskGraph._cache, TaskGraph.characterisation, MitTask.characterisation")],
  ["counts and values returned to each experiment"])
p("C28", "Failed runs are reported, and leave nothing behind",
  "When a task of a graph, or a device (or the compiler pass of a simulated device) used by a result or expectation object, fails during a run, or when a batch holds an experiment or circuit that cannot be run, the run does not return as if it had succeeded: it raises (for a failing task, that very failure, and no further task is run), or, where the failing call was not needed, returns what it would have returned anyway. After a failed run the objects behave as if it had not taken place: later runs, of whichever batches, return what new objects would, caches are those of the run they are asked for, and the circuits, observables and symbol values given by the user are unchanged.",
  ["faults", "histories", "inputs"], "Every object, batch, history, and point of failure (submission, retrieval, compilation, any task).",
  "Tests check a few refused inputs and no failing device, and never use an object again after a failure.",
  ["qermit/taskgraph/task_graph.py", "qermit/taskgraph/mittask.py", "qermit/taskgraph/mitex.py", "qermit/taskgraph/mitres.py", "qermit/spam/spam_mitres.py", "qermit/spam/full_spam_correction.py", "qermit/noise_model/transpiler_backend.py", CC + "dfsc.py", ZNE],
  [("data put on the wires of a graph while it runs", "TaskGraph.run"), ("state kept by graphs and backends between runs", "TaskGraph._cache, TaskGraph.characterisation, backend.backend_info.misc"), ("submission and retrieval", "backend_handle_task_gen, backend_res_task_gen, backend_compile_circuit_shots_task_gen"), ("simulated devices", "TranspilerBackend.process_circuit, TranspilerBackend.result_dict")],
  ["exceptions raised by runs", "counts and values returned by runs that follow failed ones"])
p("C29", "Objects that run at the same time do not influence each other",
  "Different task graphs, result objects and expectation objects may run at the same time, each in a thread of its own: however their tasks and device calls interleave, each run returns, caches and submits what it would alone. This includes objects that are copies of one another, were built from the same parts, of which one was built from the other, or that were given the same circuits, observables and symbol values, which stay as the user gave them throughout. (One object run by several threads at once is not included.)",
  ["schedules", "orders", "inputs"], "All objects, inputs and interleavings of tasks and device calls.",
  "No test runs two objects at once; what tasks keep outside the wires of their graph shows only under particular interleavings.",
  ["qermit/taskgraph/task_graph.py", "qermit/taskgraph/mittask.py", "qermit/taskgraph/mitex.py", "qermit/taskgraph/mitres.py", "qermit/spam/full_spam_correction.py", CC + "dfsc.py", CC + "ccl.py", ZNE, "qermit/spectral_filtering/spectral_filtering.py", "qermit/frame_randomisation/frame_randomisation.py"],
  [("data on the wires of graphs, copies of graphs and tasks", "TaskGraph.run, TaskGraph.__copy__, MitTask.__copy__, from_TaskGraph"), ("functions that make tasks, whose variables tasks could share", "*_task_gen, gen_*_task")],
  ["results of runs in interleaved threads"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
