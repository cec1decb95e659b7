#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for wording is here)."""
import json, os
P = []
G, U, S = "evoMPS/mps_gen.py", "evoMPS/mps_uniform.py", "evoMPS/mps_sandwich.py"
TG, TU, TS = "evoMPS/tdvp_gen.py", "evoMPS/tdvp_uniform.py", "evoMPS/tdvp_sandwich.py"
CC, TC = "evoMPS/core_common.py", "evoMPS/tdvp_common.py"
DI, DY, SP, SX, EX, PI, MM, NS = ("evoMPS/tdvp_gen_diss.py", "evoMPS/dynamics.py", "evoMPS/split_step.py",
  "evoMPS/sexpmv.py", "evoMPS/mps_uniform_excite.py", "evoMPS/mps_uniform_pinv.py", "evoMPS/matmul.py", "evoMPS/nullspace.py")
PYX = ["evoMPS/eps_maps_c.pyx", "evoMPS/tdvp_calc_C.pyx", "evoMPS/allclose.pyx"]

def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Observables are the gauge-invariant sandwich <psi|O|psi> on the right sites",
  "Every expectation value, reduced density matrix, correlation function, string observable, overlap and Hamiltonian-term energy of a finite, uniform or sandwich state is the contraction of the ket tensors, the complex-conjugated bra tensors, the operator (elements <row|O|column>, columns acting on the ket) and the environments of exactly the bonds that adjoin the operator's support. "
  "It is therefore unchanged by any change of gauge of the state, transforms correctly under a change of local basis, and is the same for an operator given as an array and as a callable, at every site, separation and block position.",
  ["inputs", "configurations"], "every state, gauge, site, separation, unit-cell position, local dimension per site, operator form (array or callable) and complex-valued tensors",
  "The stable tests evaluate no multi-site observable, density matrix or correlation of any state class, use real spin-1/2 operators on homogeneous dimensions, and a fixed gauge, so a wrong environment, a missing conjugate or swapped index is invisible to them.",
  [G, U, S, TG, TU, TS, CC, TC, EX],
  [("expect_1s/2s/3s, density_1s/2s, correlation_1s_1s, expect_string_1s, inner", G), ("expect_*, density_*, correlation, fidelity", U), ("sandwich expectation wrappers", S)],
  ["returned scalars and matrices of the observable methods"])

p("C02", "Transfer maps pair every ket index with its own bra index, in all variants",
  "Each transfer-map and local contraction primitive (left or right; zero to three sites; operator absent, as array, as callable, or pre-applied; pure Python or compiled) joins each bond index only to the adjoining bond of the same layer, each physical index only to the operator or bra index of the same site, and conjugates exactly the bra tensors. "
  "All variants that share a name, and the compiled and pure-Python versions, take the same arguments and produce a result with the same index structure for any (also unequal) bond and site dimensions.",
  ["inputs", "configurations"], "all shapes (ket and bra of different dimension, different local dimensions per site), complex values, C or Fortran layouts, compiled or fallback implementation",
  "Tests compare a few variants on one set of shapes with equal local dimensions on neighbouring sites; the compiled kernels are never imported by the test run and three-site and left-with-operator variants are not called.",
  [CC, TC] + PYX + ["evoMPS/eps_maps_c.pxd"],
  [("eps_l_*/eps_r_* maps, calc_AA/AAA/C", CC), ("eps_*_op_3s, calc_C_3s, calc_C_conj", TC), ("zgemm-based kernels", PYX[0])],
  ["returned matrices / tensors"])

p("C03", "Tangent vectors contain every Hamiltonian contribution once, on matching bonds",
  "The time-evolution direction computed for each site of a finite, uniform, sandwich or dissipative system is built from the tangent-space basis of that site and, exactly once each, the Hamiltonian (or Lindblad) terms acting on the site, to its left and to its right, using environments, inverse square roots and energy accumulators of matching bonds and layers. "
  "Under a change of gauge it changes exactly as the site tensor does, in the left- and the right-handed construction alike, for nearest-neighbour and three-site Hamiltonians and for the dynamical bond-expansion directions.",
  ["inputs", "configurations"], "all sites, block positions, Hamiltonian ranges, absent Hamiltonian terms, canonical forms, gauges",
  "Only the finite chain with a nearest-neighbour Ising Hamiltonian in right-canonical form is stepped by the tests; three-site terms, left gauge fixing, block uniform states, the sandwich ends and dissipation are never run, and canonical form hides wrong environments because they equal the identity.",
  [TG, TU, TS, TC, DI, CC],
  [("calc_x/calc_x_l/calc_x_3s, calc_BB_*", TC), ("calc_K, calc_C, calc_B", TG), ("calc_K, calc_B*, _calc_x", TU), ("calc_B centre/left/right", TS), ("take_step_dissipative", DI)],
  ["A, B, K, x arrays"])

p("C04", "Gauge changes and canonicalisation leave the physical state unchanged",
  "Restoring canonical form, aligning gauge or phase, and every other gauge operation only ever insert a matrix together with its own inverse on one bond (or an isometric factorisation whose remainder is passed on to the neighbour), up to a global scale or phase that is applied consistently. "
  "Environments, stored transformation matrices and accumulated Hamiltonian quantities carried across the operation are expressed in the same new gauge as the tensors.",
  ["inputs", "histories"], "every state, canonical form, direction of sweep, block length and truncation option",
  "Tests only canonicalise a random right-canonical finite chain; left-canonical, uniform, rank-deficient and sandwich gauge operations are untested, and a wrong gauge of a carried environment does not show in any value they check.",
  [G, U, S, TC, TU],
  [("restore_LCF, restore_RCF, restore_CF_to", G), ("restore_LCF/RCF/SCF, gauge_align, phase_align", U), ("restore_LCF_l/r, restore_RCF_l/r", TC), ("restore_CF", S)],
  ["A, l, r after the operation"])

p("C05", "Split-step and variational sweeps use the full effective problem and right signs",
  "Sweeping integrators and variational optimisation evolve each centre tensor with the Hamiltonian (or matrix-product operator) projected onto exactly its site or bond, with the left and right blocks of its own boundary bonds, sites and bonds propagating with opposite signs. "
  "The centre moves through every site once per half-sweep, carries its remainder into the neighbouring site, and left and right blocks are refreshed from the tensors already updated, so that the sweep is symmetric.",
  ["inputs", "histories", "configurations"], "every chain length, start side, Hamiltonian form (nearest-neighbour list or matrix-product operator), and step",
  "No stable test executes the one-site split-step path or the matrix-product-operator path; the DMRG test observes only the converged energy of one model.",
  [SP, SX, TG, TC],
  [("evolve_split, Vari_Opt_*", SP), ("take_step_split, vari_opt_ss_sweep, Vari_Opt_SC_op, Vari_Opt_Single_Site_Op", TG), ("gexpmv", SX)],
  ["A after the sweep", "returned energy"])

p("C06", "The excitation Hamiltonian acts within tangent space on matching bonds",
  "The effective Hamiltonian of the momentum excitation ansatz, trivial or topologically non-trivial, collects every contribution (local, left, right, and the momentum-phased ones) with the ket tensors of its own side, the bra tensors of its own side, environments and pseudo-inverses of matching bonds, and conjugate phases for left- and right-moving sums. "
  "It therefore depends neither on the gauge of the two vacua nor on a change of local basis.",
  ["inputs", "configurations"], "all momenta, vacua, nearest-neighbour and three-site Hamiltonians",
  "No test runs the excitation code at all.",
  [EX, TC, CC, PI], [("Excite_H_Op, Excite_H_Op_tp, calc_BHB, calc_BHB_prereq, calc_x", EX), ("pinv_1mE", PI)], ["matvec result", "excitation energies"])

p("C07", "Derived quantities read by users are never stale",
  "After a state has been updated, or after a time step followed by the documented update, every derived quantity that a query, step or energy uses (environments, merged tensors, Hamiltonian blocks, energy accumulators, cached operators) has been recomputed from the current tensors and Hamiltonian before it is read. "
  "Operations that modify the tensors either refresh what they invalidate or are documented to need an update.",
  ["histories"], "every order of state changes, updates, steps and queries",
  "Tests call one fixed sequence (set state, update, step, update, energy); caches that are stale only after a second step, after truncation or with other Hamiltonian ranges are not reached.",
  [G, U, S, TG, TU, TS, DI],
  [("update", TG), ("update", TU), ("update", TS), ("calc_l/calc_r/calc_C/calc_K", G), ("take_step_dissipative", DI)], ["observables after update()"])

p("C08", "Reading observables never changes the state",
  "Expectation values, densities, correlations, entropies, overlaps, fidelities, norms, energy errors and consistency checks are pure reads: calling one leaves tensors, environments, Hamiltonian data and configuration of every involved object exactly as they were. "
  "The results of repeated queries in any order are the same.",
  ["histories", "inputs"], "every sequence of queries on any state",
  "A test would have to snapshot the whole object around each query in each configuration; none does.",
  [G, U, S, TG, TU, TS, CC, TC, EX], [("expect_*, density_*, entropy, schmidt, inner, fidelity, check_RCF", G), ("same", U), ("same", S)], ["object state before and after a query"])

p("C09", "Caller-owned arrays are never modified, and copies are independent",
  "Tensors, operators, tangent vectors, product states, Hamiltonians and option objects passed in by the caller are never modified in place, except where the documentation says the argument is an output. "
  "State set from caller data, and copies of a state, do not share mutable storage with their source.",
  ["inputs", "histories"], "all calls that take arrays or objects and any later use of either side",
  "Tests build fresh arguments for each call and never look at them afterwards.",
  [G, U, S, TG, TU, TS, CC, TC, DI, SP, DY, EX, MM], [("take_step, take_step_RK4, set_state_*, mps_from_tensors_gen, from_mps, convert_*", TG)], ["argument arrays after the call"])

p("C10", "Euler and Runge-Kutta steps have their stated order, with the right sign",
  "A plain step moves the tensors by minus the step size times the tangent vector of the current state, and the fourth-order step evaluates four tangent vectors at the current, two mid-point and end-point states, combined with weights that satisfy the order conditions of a fourth-order method and starting from one and the same saved state, for the finite, uniform and sandwich geometries. "
  "A tangent vector that the caller supplies takes the place of the first stage only.",
  ["inputs", "configurations"], "every step size (real or imaginary time), site, block position and precomputed tangent vector",
  "Tests assert only the energy reached by finite-chain steps in imaginary time; a wrong weight still converges there. The uniform and sandwich integrators are never run.",
  [TG, TU, TS, DI], [("take_step, take_step_RK4", TG), ("take_step, take_step_RK4", TU), ("take_step, take_step_RK4", TS)], ["A after the step"])

p("C11", "Saved states restore completely",
  "Every field that a save operation writes is read back, in the same position and with the same meaning, by the corresponding load or import operation of the same class, and a file written by the library can be opened by it. "
  "After loading, all derived data are rebuilt or restored so that the object describes the saved state.",
  ["histories", "inputs"], "every state geometry, block length, dimension and canonical form",
  "No test saves or loads a state.",
  [G, U, S, TG, TU, TS], [("save_state/load_state", G), ("export_state/import_state, save_state/load_state", U), ("save_state/load_state", S), ("import_state/export_state", TU), ("save_state/load_state", TS)], ["object after load"])

p("C12", "Failures are reported, and temporary state is restored on every exit",
  "A solver, eigensolver or iteration that does not converge, a rank loss, an inconsistent argument or a failed consistency condition reaches the caller as an exception, a returned flag or a log record; it is never dropped or overwritten, and a success on the last permitted attempt is not reported as failure. "
  "Operations that alter the state or its settings temporarily (line searches, trial steps, substituted Hamiltonians) put every altered field back on every exit, early returns and exceptions included.",
  ["fault_sequences", "inputs"], "every place a numerical library call can fail or run out of iterations, and every exit of an operation with temporary changes",
  "Tests contain no failing solver, and no line search is exercised.",
  [PI, U, TU, TG, TS, DI, DY, EX, SX, NS, TC], [("pinv_1mE", PI), ("_calc_lr_ARPACK, _calc_E_largest_eigenvalues", U), ("calc_B_CG / find_min_h_brent", TG), ("line search", TU)], ["exceptions, flags, log records, restored fields"])

p("C13", "Diagnostics and verbosity never influence results",
  "Consistency checking, verbosity, progress printing, logging and debug switches, and user callbacks receiving progress, only observe: with them on or off the library computes the same tensors, environments and return values. "
  "Library calls leave no change in process-wide settings such as floating-point error handling or warning filters. "
  "(The `debug` argument of evolve_split and the `dbg` argument of the sandwich restore_CF are dry-run modes, not diagnostic switches.)",
  ["configurations"], "every combination of diagnostic switches",
  "The suite runs with the default switches only and does not compare runs.",
  [G, U, S, TG, TU, TS, DY, EX, SP, SX, PI, TC], [("sanity_checks guards", G), ("sanity_checks / ev_use etc.", U), ("verbose / print_progress", SX)], ["results under both settings"])

p("C14", "Every public operation runs on every option path without programming errors",
  "No path of any public operation, whatever options are chosen, refers to a name, attribute, method, keyword or return component that does not exist, passes a wrong number of arguments, or reads a local variable before it is set. "
  "Agreement extends to library functions, callbacks supplied by the package itself and compiled kernels with their declarations.",
  ["configurations", "programs"], "every branch of every function in the package, for all option combinations",
  "Two thirds of the code is on paths that no test executes, and Python reports such errors only when the line runs.",
  ["evoMPS"], [("all modules", "evoMPS")], ["NameError, AttributeError, TypeError, ValueError (unpack)"])

p("C15", "Options given by the caller are honoured and forwarded",
  "Each parameter and setting of a public operation (whether to update, normalise or restore canonical form; which canonical form; tolerances, iteration limits, bond-dimension caps, Hamiltonian range, gauge side, selected sites) governs the computation it documents: it is used, handed on unchanged to the operation it is meant for, and selects the branch it names. "
  "No option is silently ignored, shadowed, inverted or replaced by a default.",
  ["configurations"], "every option of every public operation, at each of its values",
  "Tests use defaults for most options.",
  [G, U, S, TG, TU, TS, TC, SP, SX, DY, EX, PI, DI], [("update / take_step / restore_* keyword arguments", G), ("calc_B / pinv tolerance settings", TU)], ["behaviour under non-default options"])

p("C16", "Bond-dimension changes keep tensors, records and environments consistent",
  "Whenever bond dimensions change (growth by dynamic or explicit expansion, truncation, loading, rank detection, setting a state, growing a window), the recorded dimensions, the site tensors on both sides of the bond and the environments of the bond all get the same new dimension. "
  "Truncation keeps the largest Schmidt values, never exceeds a given cap, discards only below the given tolerance, and keeps matching rows and columns on the two sides.",
  ["inputs", "histories"], "every old and new dimension profile, cap, tolerance and rank",
  "The single truncation test uses one profile on a finite chain; uniform and sandwich growth and shrinkage are not run.",
  [G, U, S, TC, TG, TU], [("_update_after_truncate, auto_truncate, correct_bond_dim_open_chain", G), ("truncate, auto_truncate, expand_D", U), ("restore_*_seq with sv_tol / truncate", TC), ("calc_BB_Y_2s/dynexp", TG)], ["shapes of A, l, r, D"])

p("C17", "Sweeps and sums cover every site, bond and Hamiltonian term exactly once",
  "For every chain length, block length and Hamiltonian range, each whole-state operation (environments, canonical form, Hamiltonian blocks, energy accumulation, steps, expansion, truncation, copying, saving) treats every site or bond of its documented range exactly once, in the order its recursion needs, and no index outside the lattice. "
  "Total energies sum every Hamiltonian term once.",
  ["inputs", "configurations"], "every chain length N, block length L and Hamiltonian range",
  "Tests use a few fixed sizes and one Hamiltonian range.",
  [G, U, S, TG, TU, TS, TC, SP, DI], [("calc_l/calc_r/restore loops", G), ("calc_C/calc_K loops", TG), ("block loops", U), ("window loops", TS)], ["which sites are written"])

p("C18", "Structured matrices act exactly like the dense matrices they stand for",
  "The identity and diagonal matrix types used for canonical environments give, for every supported operation (products from either side, in-place products, transpose, conjugation, inverse, square root, scaling, sums, traces, conversion, copying), the result the equivalent dense matrix would give, and never modify their operands; explicit copies are independent. "
  "The helper products, inner products and Hermitian square-root / inverse helpers likewise satisfy their defining identities.",
  ["inputs"], "every size and (complex) diagonal, every operand type and side",
  "Tests reach these types only implicitly through the identity environment; complex diagonals, left products, inverses and powers of diagonals are not checked.",
  [MM], [("eyemat, simple_diag_matrix, mmul, dot_inplace, adot, H, sqrtmh, invmh, invpo", MM)], ["values of products and sums"])

p("C19", "Only operations documented as random depend on random numbers",
  "Evolution, updates, gauge operations and queries are deterministic functions of the state, the Hamiltonian and the options: random numbers are drawn only in operations documented to randomise, or as seeds of iterative solvers whose converged result does not depend on them. "
  "No operation reads clocks, the environment or other ambient process state to compute a result, nor keeps hidden mutable state shared between independent objects.",
  ["histories", "configurations"], "every operation, and any interleaving of operations on independent objects",
  "Tests do not compare repeated runs, nor use two objects side by side.",
  ["evoMPS"], [("randomize, add_noise, randomised expand", G), ("randomize, gap search", U)], ["results of repeated runs"])

p("N01", "Imaginary-time evolution lowers the energy and converges",
  "In imaginary time each sufficiently small step does not raise the energy, and ground-state search ends at a stationary state with the requested tolerance.",
  ["inputs", "histories"], "every Hamiltonian and initial state", "Convergence is seen for one model only.", [TG, TU, DY], [("find_ground", DY)], ["energy, eta"])
p("N02", "Real-time evolution conserves norm and energy to the integrator's order",
  "Real-time steps keep norm and energy up to an error of the stated order in the step size.",
  ["inputs", "histories"], "every state, Hamiltonian and step", "Only few steps on one model.", [TG, TU, TS, SP], [("take_step*", TG)], ["norm, energy"])
p("N03", "Iterative solvers reach the requested accuracy",
  "Dominant eigenvectors, pseudo-inverses and matrix exponentials returned by iterative solvers satisfy their defining equation to the requested tolerance.",
  ["inputs"], "all spectra and gaps", "One random instance each.", [PI, U, SX], [("pinv_1mE", PI), ("calc_lr", U), ("gexpmv", SX)], ["residuals"])
p("N04", "Canonical conditions, positivity and normalisation hold numerically",
  "After canonicalisation the orthonormality, positivity, Schmidt-ordering and unit-norm conditions hold to rounding for every input, well- or ill-conditioned.",
  ["inputs"], "all condition numbers and ranks", "Random well-conditioned inputs only.", [G, U, TC], [("restore_*CF", G)], ["l, r, A"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
