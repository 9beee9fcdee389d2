"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
    })


prop("C01", "A gate acts on a state vector as its unitary on its targets",
     "Applying any supported gate (I, X, Y, Z, H, S, T, RX, RY, RZ, PHASE, SWAP, the square-root and "
     "i-SWAP gates) to a state vector applies exactly its textbook unitary to the target qubits, in the "
     "order the targets are listed, on the part of the state where all control qubits are 1, and leaves "
     "everything else unchanged. It does so for any number of controls, any distinct placement in a register "
     "of any size, angles given as numbers or as named parameters, and any accepted way of writing qubit indices. "
     "Called without a state, a gate on qubits 0..k-1 acts on their zero state.",
     ["inputs", "configurations"],
     "every gate x ordered targets x control set x register size x angle x input state",
     "The tests apply a few gates to random or basis states at fixed or random placements and mostly compare "
     "with products of the library's own matrices; several SWAP-type gates are never applied.",
     ["horqrux/apply.py", "horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/matrices.py",
      "horqrux/utils/operator_utils.py"],
     [("tensor contraction over control+target axes", "horqrux/apply.py: apply_operator (Array)"),
      ("block embedding of controlled operators", "horqrux/utils/operator_utils.py: _controlled"),
      ("gate matrices", "horqrux/matrices.py: OPERATIONS_DICT"),
      ("rotation and phase unitaries", "horqrux/utils/operator_utils.py: _unitary, parametric.py: _PHASE")],
     ["apply_gates", "calling a gate"])
prop("C02", "A program applies its operations in order, however it is nested",
     "Running a program, given as a list of gates, a (nested) operation sequence or a quantum circuit, equals "
     "applying its gates one after the other in the order written, with parameters read from the values given. "
     "Grouping operations into nested sequences, and names in the values that no gate uses, change nothing; an "
     "empty program changes nothing.",
     ["programs", "inputs"],
     "every finite program over the gate set, every nesting, every parameter assignment and input state",
     "The tests run a handful of fixed circuits and compare with the library's own other entry points.",
     ["horqrux/apply.py", "horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/api.py"],
     [("fold over the prepared operations", "horqrux/apply.py: apply_gates"),
      ("fold of nested calls", "horqrux/composite/sequence.py: OpSequence.__call__"),
      ("flattening iterator", "horqrux/composite/sequence.py: OpSequence.__iter__")],
     ["run", "apply_gates", "calling a circuit"])
prop("C03", "Merging and grouping of gates never change the result",
     "The options that merge consecutive gates on the same qubits into one matrix and that group gates by "
     "qubit before execution are pure optimisations. For every program, on state vectors and density matrices, "
     "every combination of these options gives the same result as applying the gates one by one in order.",
     ["programs", "configurations"],
     "every program (also with repeated wires, controls and multi-target gates) x the four option settings",
     "One test compares grouping on a fixed circuit; reorderings that matter need gates that do not commute at "
     "particular places.",
     ["horqrux/apply.py"],
     [("batching between barriers", "horqrux/apply.py: group_by_index"),
      ("merging of equal target/control runs", "horqrux/apply.py: merge_operators")],
     ["apply_gates(group_gates=, merge_ops=)"])
prop("C04", "Density matrices evolve by conjugation with the same unitary",
     "Applying a gate or program with unitary U to a density matrix rho gives U rho U^dagger, for every "
     "gate, placement, control set and mixed input. In particular the evolution of the density matrix of a pure state is the density matrix of the evolved "
     "state, and trace, hermiticity and positivity are preserved.",
     ["inputs", "programs"],
     "every gate placement and program x every density matrix",
     "The tests mostly convert pure states, for which row/column mix-ups and missing conjugations often cancel.",
     ["horqrux/apply.py", "horqrux/utils/operator_utils.py"],
     [("two-sided contraction", "horqrux/apply.py: apply_operator (DensityMatrix)"),
      ("conjugation and axis swap", "horqrux/utils/operator_utils.py: _dagger, permute_basis"),
      ("lifting vectors", "horqrux/utils/operator_utils.py: density_mat")],
     ["apply_gates on a DensityMatrix"])
prop("C05", "A noisy gate applies its unitary and then its channels, on its target",
     "A gate carrying digital noise turns a state (vector or density matrix) into the density matrix obtained by "
     "applying the gate and then each listed channel, in the listed order, on the gate's target qubit only. "
     "Each of the seven channel types acts as its textbook completely positive map, controls "
     "are unaffected, and noisy and noiseless gates can be mixed freely within a program.",
     ["inputs", "programs"],
     "every noise type and admissible probability x gate x placement x controls x input, and every program mixing them",
     "The tests check channels on one qubit or compare with the library's own Kraus operators on a few circuits.",
     ["horqrux/apply.py", "horqrux/noise/noise.py", "horqrux/noise/utils_noise.py"],
     [("gate, then Kraus sums", "horqrux/apply.py: apply_operator_with_noise, apply_kraus_sum"),
      ("Kraus operators", "horqrux/noise/utils_noise.py")],
     ["apply_gates with noisy gates"])
prop("C06", "Noise channels are trace preserving; bad probabilities are refused",
     "For every noise type and admissible probabilities the Kraus operators satisfy the completeness relation and "
     "compose to the documented channel, including at the boundaries 0 and 1. Probabilities outside [0, 1], or "
     "Pauli probabilities adding up to more than 1, are refused with a ValueError instead of being simulated.",
     ["inputs"],
     "every noise type x every tuple of probabilities, inside, on and outside the boundary",
     "The tests sample random probabilities inside the range and a few outside values.",
     ["horqrux/noise/noise.py", "horqrux/noise/utils_noise.py"],
     [("range checks", "horqrux/noise/utils_noise.py"), ("dispatch by type", "horqrux/noise/noise.py: DigitalNoiseInstance.kraus")],
     ["DigitalNoiseInstance.kraus", "apply_gates"])
prop("C07", "Matrix representations agree with the action on states",
     "The matrix of a gate, sequence, circuit, scaled operation, sum or observable, over its own sorted qubit support or "
     "expanded to any larger set of qubits, is the matrix of the linear map that the object applies to states. "
     "This holds for any target order, controls, nesting and parameter values.",
     ["inputs", "programs"],
     "every gate placement, program and observable tree x every superset of its qubits",
     "The tests compare matrices with the action for ordered targets and a few composites.",
     ["horqrux/primitives/primitive.py", "horqrux/composite/sequence.py", "horqrux/composite/compose.py",
      "horqrux/utils/operator_utils.py"],
     [("embedding", "horqrux/utils/operator_utils.py: expand_operator, permute_basis, controlled"),
      ("products and sums", "horqrux/composite/sequence.py, compose.py: tensor")],
     ["tensor"])
prop("C08", "Exact expectation values equal <O> in the evolved state",
     "For every state, program, and list of observables built from gates, products, scalings (by numbers or named "
     "parameters) and sums, the exact expectation values returned are the real parts of <psi|O|psi> or Tr(O rho), one per "
     "observable in the order given. All exact modes agree, on state vectors, density matrices and noisy programs, whether "
     "values are given together or separately for circuit and observables.",
     ["inputs", "programs", "configurations"],
     "every observable tree x program x state x exact mode x way of giving values",
     "The tests use Pauli observables on fixed circuits and compare modes with each other.",
     ["horqrux/api.py", "horqrux/differentiation/ad.py", "horqrux/differentiation/adjoint.py",
      "horqrux/differentiation/gpsr/analytical.py", "horqrux/composite/compose.py", "horqrux/utils/values_utils.py"],
     [("projection and inner product", "horqrux/differentiation/ad.py: _ad_expectation_single_observable"),
      ("observable action", "horqrux/composite/compose.py: Add, Scale, Observable"),
      ("splitting of values", "horqrux/utils/values_utils.py")],
     ["expectation", "calling an Observable"])
prop("C09", "Automatic differentiation returns the true gradient",
     "Differentiating exact expectation values in automatic mode, in forward or reverse, gives the true partial "
     "derivatives with respect to every circuit parameter and every parameter scaling an observable, and the derivative along any change of the initial state. This holds for parameters "
     "shared by several gates, or by the circuit and the observables, controlled gates, density matrices and noisy programs.",
     ["inputs", "programs"],
     "every parametrised program x observables x parameter values x kind of state",
     "The tests compare gradient modes with each other on a few circuits, which cannot reveal a common error.",
     ["horqrux/api.py", "horqrux/differentiation/ad.py", "horqrux/utils/operator_utils.py"],
     [("differentiable rotation", "horqrux/utils/operator_utils.py: _unitary"), ("expectation", "horqrux/differentiation/ad.py")],
     ["jax.grad / jacfwd / jacrev of expectation"])
prop("C10", "Adjoint mode returns the true values and gradients",
     "In adjoint mode the expectation values and their derivatives, by the parameters or along a change of the initial state, are those of the exact mathematical expectation value, for "
     "every noiseless program on state vectors, including repeated parameters, controlled gates, scaled observables, parameters of both the circuit and the observables, and separated values.",
     ["inputs", "programs"],
     "every noiseless parametrised program x observables x parameter values",
     "The tests compare adjoint with automatic mode on few circuits.",
     ["horqrux/api.py", "horqrux/differentiation/adjoint.py"],
     [("adjoint expectation", "horqrux/differentiation/adjoint.py")],
     ["jax.grad of expectation(diff_mode=adjoint)"])
prop("C11", "Parameter-shift gradients equal the true gradient",
     "The generalised parameter-shift mode returns the exact derivatives with respect to every parameter, both through the "
     "differentiable function and the explicit gradient function; without shots the derivative along a change of the initial state is exact too. This holds when a parameter occurs in several gates, in "
     "controlled rotations (more than one spectral gap), in phase gates, for noisy programs and density matrices, for parameters of observables "
     "(also those of the circuit and the observables at once) and for separated values.",
     ["inputs", "programs"],
     "every parametrised program x observables x parameter values x kind of state",
     "The tests use uncontrolled rotations with at most a few repetitions and compare with automatic mode.",
     ["horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/differentiation/gpsr/analytical.py",
      "horqrux/primitives/parametric.py"],
     [("shift rule", "horqrux/differentiation/gpsr/gpsr_utils.py: shift_rule"),
      ("shifting gates and values", "gpsr_utils.py: alter_gate_sequence, prepare_shifts"),
      ("custom jvp", "horqrux/differentiation/gpsr/analytical.py: analytical_gpsr_jvp")],
     ["jax.grad of expectation(diff_mode=gpsr)", "analytical_gpsr_bwd"])
prop("C12", "Second derivatives are the true Hessian in AD and parameter-shift modes",
     "Differentiating twice gives the true matrix of second derivatives, symmetric, in automatic and parameter-shift mode, "
     "including mixed derivatives, repeated parameters, controlled gates and parameters scaling observables.",
     ["inputs", "programs"],
     "every parametrised program x observable x pair of parameters",
     "One test compares two modes' Hessians on one circuit.",
     ["horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/differentiation/ad.py"],
     [("nested custom jvp", "horqrux/differentiation/gpsr/analytical.py")],
     ["jax.hessian of expectation"])
prop("C13", "Finite-shot expectation values are honest samples of each observable",
     "With n shots every expectation value is the mean of n draws of an eigenvalue of that observable with the Born "
     "probabilities of the final state: it lies within the spectrum, is exact on eigenstates, and its deviation from the exact value "
     "shrinks like the standard deviation over the square root of n. The same key gives the same result, another key gives another, and each observable of a list "
     "is estimated for itself, independently of the others, on vectors, density matrices and noisy programs.",
     ["inputs", "programs"],
     "every program x list of (non-commuting) observables x number of shots x key",
     "The tests compare a single-observable or commuting case with a loose tolerance.",
     ["horqrux/shots.py", "horqrux/api.py"],
     [("eigenbasis measurement", "horqrux/shots.py: eigen_sample, eigen_probabilities"),
      ("expansion to the register", "horqrux/shots.py: expand_operator")],
     ["expectation(n_shots>0)"])
prop("C14", "Shot-based parameter-shift gradients estimate the true gradient",
     "Gradients in parameter-shift mode with shots are unbiased estimates of the true derivatives, built from independent "
     "estimates of shifted expectation values: for any number of shots they lie within statistical error of the exact gradient, are exact when "
     "all shifted states are eigenstates, and are reproducible from the key.",
     ["inputs", "programs"],
     "every parametrised program x observables x shots x key",
     "The tests compare with automatic gradients on one circuit with a loose tolerance.",
     ["horqrux/differentiation/gpsr/shots.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/shots.py"],
     [("custom jvp", "horqrux/differentiation/gpsr/shots.py: finite_shots_jvp"),
      ("explicit gradient", "horqrux/differentiation/gpsr/shots.py: finite_shots_gpsr_backward")],
     ["jax.grad of expectation(diff_mode=gpsr, n_shots>0)"])
prop("C15", "Sampling returns bitstrings with the Born probabilities",
     "Sampling a program n times returns counts that add up to n over bitstrings with one character per qubit, most "
     "significant qubit first, never a bitstring of probability zero, and with frequencies within statistical error of the Born "
     "probabilities of the final state. It does so for vectors, density matrices and noisy programs.",
     ["inputs", "programs"],
     "every program x state x number of shots",
     "The tests sample a Bell-like state and compare counts loosely; bit order errors need asymmetric states.",
     ["horqrux/api.py", "horqrux/utils/operator_utils.py"],
     [("probabilities", "horqrux/utils/operator_utils.py: probabilities"),
      ("drawing and formatting", "horqrux/utils/operator_utils.py: sample_from_probs")],
     ["sample"])
prop("C16", "Sparse arrays give the same results as dense arrays",
     "Converting states, gates, sequences, circuits and observables to their sparse form and back loses nothing, and running programs, "
     "building matrices and computing exact expectation values with sparse objects gives the same numbers as with dense ones.",
     ["inputs", "programs"],
     "every program, observable and state in both representations",
     "The tests run some circuits in both representations, not every gate, control set and composite.",
     ["horqrux/utils/conversion.py", "horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/utils/sparse_utils.py"],
     [("conversion by type", "horqrux/utils/conversion.py"),
      ("sparse contraction", "horqrux/apply.py: apply_operator (BCOO)"),
      ("sparse embedding", "horqrux/utils/operator_utils.py: _controlled, controlled (BCOO)")],
     ["to_sparse", "to_dense", "apply_gates on BCOO"])
prop("C17", "Daggers undo gates and jacobians are derivatives of gates",
     "Applying a gate as its dagger undoes it, and applying the daggers of a program's gates in reverse order undoes the "
     "program, on vectors and density matrices. Applying a parametric gate as its jacobian gives the derivative of the gate's action with respect to "
     "its angle, which vanishes where a control is 0.",
     ["inputs", "programs"],
     "every gate x placement x controls x angle x state",
     "The tests do not apply jacobians and apply daggers to few gates.",
     ["horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/primitives/parametric.py"],
     [("operation types", "horqrux/apply.py: _operation"), ("dagger and jacobian", "horqrux/utils/operator_utils.py: _dagger, _jacobian")],
     ["apply_gates(op_type=)"])
prop("C18", "Hamiltonian evolution applies exp(-i t H)",
     "The analog evolution operation applies exp(-i t H) for the Hamiltonian and time found in the values, on its target "
     "qubits in the listed order and under its controls, within programs, on vectors and density matrices. Evolving for times t1 and t2 in turn equals evolving for "
     "t1 + t2, only the product of time and Hamiltonian matters, and its matrix representation agrees. Expectation values of such programs, and their first "
     "and second derivatives with respect to the time and other parameters by automatic differentiation, are exact.",
     ["inputs", "programs"],
     "every Hermitian Hamiltonian x time x placement x state",
     "The tests evolve a few random Hamiltonians on one placement and compare with expm of the library.",
     ["horqrux/analog.py", "horqrux/apply.py"],
     [("matrix exponential", "horqrux/analog.py: _HamiltonianEvolution._unitary")],
     ["apply_gates with HamiltonianEvolution"])
prop("C19", "Results are the same under jit and vmap; objects survive pytree transport",
     "Running programs, expectation values and their gradients gives the same results when jit-compiled or vectorised over states or parameter "
     "values as when called directly, in every differentiation mode, and also inside scan, map and checkpoint, or when differentiating a compiled function. Circuits, gates, noise, observables and density matrices can be flattened to and rebuilt from JAX pytrees, or passed "
     "through jit as arguments, without changing what they do.",
     ["programs", "configurations"],
     "every program and observable x transformation (jit, vmap, flatten/unflatten)",
     "A few tests jit a gradient; argument passing of circuits and round trips of composites are untested.",
     ["horqrux/composite/compose.py", "horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/primitives/parametric.py",
      "horqrux/utils/operator_utils.py", "horqrux/noise/noise.py"],
     [("tree_flatten / tree_unflatten", "each registered class")],
     ["jax.jit", "jax.vmap", "jax.tree_util"])
prop("C20", "Calls have no side effects and no memory",
     "The result of a call depends only on its arguments, neither on the calls made before nor on those other threads make at the same time: running, sampling, measuring, differentiating and converting any "
     "number of times, in any order, with shared circuits, states, observables and values, including calls that fail, gives the same results as fresh calls, also after the caller "
     "changed the values or operations it holds. No call modifies its arguments.",
     ["histories"],
     "every history of calls over shared objects, one after the other or overlapping",
     "Every test builds fresh objects and makes one or two calls.",
     ["horqrux/api.py", "horqrux/apply.py", "horqrux/shots.py", "horqrux/composite/sequence.py", "horqrux/differentiation/gpsr/gpsr_utils.py"],
     [("functional updates", "horqrux/apply.py"), ("copies of gates and values", "horqrux/differentiation/gpsr/gpsr_utils.py")],
     ["run", "sample", "expectation"])
prop("C21", "Circuits report their qubits and parameters truthfully",
     "A program's qubit support is the sorted set of qubits its gates touch, its parameter names are exactly the "
     "named parameters of its gates at any nesting (of the gates it holds when asked), and a circuit's variational parameters are those names that are not declared as feature-map "
     "parameters. The hardware-efficient ansatz has the documented structure with a fresh name for every rotation.",
     ["programs"],
     "every program, nesting, declaration of feature parameters and ansatz size",
     "The tests check one circuit's parameter counts.",
     ["horqrux/circuit.py", "horqrux/composite/sequence.py", "horqrux/primitives/primitive.py"],
     [("properties over the flattened operations", "horqrux/composite/sequence.py, circuit.py"),
      ("ansatz loop", "horqrux/circuit.py: hea")],
     ["param_names", "vparams", "n_vparams", "qubit_support", "n_qubits", "hea"])
prop("C22", "Impossible requests are refused, possible ones are answered",
     "Over the public calls, a request outside what is supported (negative or zero shots where shots are needed, adjoint mode on density "
     "matrices, an unknown mode, expanding an operator to qubits that do not contain its own, a missing parameter value, noise with sparse arrays) raises the documented kind of error "
     "and returns no number. Every other combination of mode, shots, kind of state and noise is answered.",
     ["inputs", "configurations"],
     "every combination of call, mode, shots, state kind, noise and support",
     "The tests check single error cases; the table of combinations is not enumerated.",
     ["horqrux/api.py", "horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/composite/sequence.py", "horqrux/utils/conversion.py"],
     [("guards", "horqrux/api.py: expectation, sample"), ("support checks", "sequence.py, operator_utils.py: expand_operator")],
     ["expectation", "sample", "tensor", "apply_gates"])
prop("C23", "State helpers prepare and compare states as documented",
     "Product, zero and uniform states have exactly the documented amplitudes with the first character or qubit most significant, random states are "
     "normalised and reproducible, for dense and sparse arrays of any size. The inner product, overlap, equivalence and normalisation helpers "
     "and the conversion to density matrices and probabilities agree with their mathematical definitions, insensitive to global phase where documented.",
     ["inputs"],
     "every bitstring and number of qubits, every pair of states",
     "The tests compare a few states with themselves.",
     ["horqrux/utils/operator_utils.py"],
     [("state constructors", "horqrux/utils/operator_utils.py: product_state, zero_state, uniform_state, random_state"),
      ("comparison", "horqrux/utils/operator_utils.py: overlap, inner, equivalent_state, is_normalized")],
     ["product_state", "overlap", "equivalent_state", "density_mat", "probabilities"])

NOTE = {
    "default": "Every behaviour TLC generated from the exact specification (no rounding) was reproduced by the real code; "
               "bounded registers (up to 5 wires placed at random in up to 10 qubits) and program lengths; trusts TLC, numpy for comparisons and the "
               "normalisation of exact states.",
}


def main():
    import sys
    sys.path.insert(0, str(VERIF / "harness"))
    from jobs import NOTES, PROPS
    (VERIF / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    checks = []
    missing = []
    for p in P:
        i = p["id"]
        if i not in PROPS:
            missing.append({"property": i, "reason": "check under construction"})
            continue
        tech, note = NOTES.get(i, (None, None))
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python harness/check.py {i}",
            "thorough_cmd": f"/opt/venv/bin/python harness/check.py {i} thorough",
            "technique": tech or "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code",
            "level": "model_checking",
            "level_note": note or NOTE["default"],
        })
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks,
         "not_applicable": missing,
         "notes": "No hooks in /repo: the public interface exposes the abstract state. All checks import horqrux from /repo's working tree."}
    (VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
