"""Writes MANIFEST.json: claims and not-applicable properties."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("tensor-leg type inference (abstract interpretation of the syntax tree with symbolic sites)",
         "Decides index pairing and factor content of every observable method of the finite and uniform classes for all shapes and sites; operator distances up to 3 sites (longer ones repeat the same typed loop body). Trusted: the axioms for numpy/matmul primitives, the class invariant of an up-to-date state (decided under C02/C07)."),
 "C02": ("tensor-leg type inference (abstract interpretation of the syntax tree with symbolic sites); abstract interpretation of the compiled kernels over formal index expressions",
         "Decides that every variant of the transfer maps pairs ket, bra, operator and environment indices as specified, for all dimensions; the compiled kernels (eps_maps_c.pyx, tdvp_calc_C.pyx) are interpreted over formal index expressions for every thread count of a grid, unequal shapes, any layout and dense, diagonal or identity arguments. Trusted: numpy and BLAS axioms; the generated .c files and allclose.pyx are not analysed."),
 "C03": ("tensor-leg type inference with symbolic factor polynomials (abstract interpretation of the syntax tree)",
         "Decides, for all dimensions and sites, that C, K (both hands), tangent bases, x, B (finite and uniform) and the expansion blocks are the specified sums of contractions, with the recursions checked inductively. Not decided: the pseudo-inverse solve for K[0] of uniform states (numeric), the norm of the null-space bases. Trusted: numpy axioms, nullspace returns a basis of the null space (dimension checked)."),
 "C10": ("abstract interpretation with linear forms over rationals and a heap of aliased cells, followed by Butcher order conditions",
         "Decides, exactly and for every path, that the Euler and RK4 steps of all three classes add the stated combination of tangent vectors and recompute what those depend on; also the block structure of bond expansion. Trusted: calc_B returns the tangent vector (C03), update() recomputes environments (C07). ODE-library integrators (dynamics.py) are not covered."),
 "C04": ("abstract interpretation of the syntax tree over an exact (noncommutative) algebra of matrix words, with factorisations as rewriting rules",
         "Decides, for every gauge and truncation-free operation of the generic, uniform and sandwich classes and all options, on chains of 2 to 4 sites, blocks of 1 to 3 and windows, that the matrices inserted on each bond cancel to one scalar, that returned transformations are those applied, and that l and r are the environments of the final tensors. Trusted: defining identities of eigh/svd/qr/cholesky/inverses; full rank; converged fixed points; rounding is not modelled. Where an expression cannot be interpreted the scenario is reported as undecided."),
 "C07": ("abstract interpretation of histories of public operations over exact expressions, with stale markers in every derived field",
         "Decides, for histories (update variants, truncation, state setting, operator application, noise, steps, growth; then the documented update) of the generic, dissipative, uniform and sandwich classes on 3-4 sites, blocks of 1-3 and windows, that every derived field read by users or steps is the exact expression in the final tensors that the defining recursions (l, r) and the class's own calculation from stale fields (AA, AAA, C, K, energies) give, and that nothing rests on a value the operation did not recompute. Trusted: as for C04; the values of C and K as functions of the tensors are C02's matter; scale factors of environments after canonical-form restoration are C04's."),
 "C17": ("abstract interpretation of whole-state loops over distinct unknowns, with occurrence counting in the resulting expressions",
         "Decides, for chains of 2-5 sites (6 thorough), blocks of 1-4 (6), windows of 3-5 (6) sites with every centre, two- and three-site terms, missing terms, every partial range of calc_l/calc_r/calc_C/calc_K/calc_K_l, both steps, state setting, noise, operator application, growth: that every site, bond and term of the range takes part exactly once, with its own tensor, stage and energy slot, and none outside; that canonical forms reach every bond; that the memory-saving step equals the plain one. Loops are the same code for every size; sizes beyond the interpreted ones are covered only through that uniformity. Split-step sweeps: C05; saving: C11."),
 "C16": ("abstract interpretation with exact shapes and index sets of slices, over operations that change bond dimensions",
         "Decides, for truncation, automatic truncation, update, state setting, operator application, dynamic expansion, explicit expansion, set_q, import, and window growth, on chains of 3-4 sites (5 thorough) with all smaller profiles, blocks of 1-3 and four windows: that records, tensors and environments agree on every bond, that rows and columns kept on the two sides of a bond are the same and are the largest Schmidt values in the order the interpreted canonicalisation leaves them, that the tolerance compared with is the given one, that growth stays within both caps and puts the expansion of a bond into that bond's new columns and rows. Numerical rank decisions are free variables (every rank is assumed possible). Bonds of dimension one as truncation targets: not covered."),
 "C06": ("abstract interpretation of the syntax tree in a domain of formal tensor networks, compared up to graph isomorphism",
         "Interprets EvoMPS_TDVP_Uniform_Excitations' preparation, the operator objects' constructors and matvec for Hamiltonians given as two-site or three-site arrays and in tensor-product form with one and two terms, for equal and different vacua, structured or plain environments and both pseudo-inverse back ends. The result of matvec is a sum of tensor networks; the networks it must consist of are generated from the definition (position of B, of the projected hole and of h, geometric sums to the left and right with their momentum phases, tangent gauge) and every matrix element is compared term by term. PinvOp.matvec and the pseudo-inverse are compared with their definition for blocks of 1-3 sites. Trusted: the transfer kernels' formulae as axioms (decided under C02), environments, K and vacuum alignment as given (C03, C04), a Hermitian Hamiltonian. The excitation state's correlation and expectation helpers are not covered; block length 1 only, as the code."),
 "C05": ("abstract interpretation over an exact algebra of matrix words, with a term-counting domain for the effective operators",
         "Decides, for take_step_split, vari_opt_ss_sweep and evolve_split (one-site, two-site, switching, variational; real and imaginary steps; local terms of two and three sites, matrix-product operators, both), on chains of 2-4 sites (5 thorough): the term content, sign, length and tensors of every local problem, the carrying of the remainder, the canonical form around the centre, the order of the half-sweeps, and what is left at the end. Library routines and the exponential itself are uninterpreted; split_twosite is checked on its own for the index sets it keeps. A two-site matrix-product operator is not supported by the code; the real part of a complex step is outside of what is compared."),
 "C08": ("compositional may-alias and effect analysis over the syntax tree",
         "Decides, for every query of every state class (helpers and callees included), that no write reaches an object existing before the call. May-alias: sound up to unknown receivers (listed in the evidence) and library functions treated per a frozen table of view/fresh/in-place behaviour."),
 "C09": ("compositional may-alias and effect analysis over the syntax tree",
         "Decides, for every function, that argument memory is written only through documented outputs, and that setters/copies leave no state field sharing storage with an argument. Not covered: dynamics.py drivers and go() (unknown receivers); Hamiltonians are stored by reference by design. Trusted: frozen table of library view/fresh/in-place behaviour."),
 "C19": ("call-graph tracing of ambient sources with per-class effect summaries, plus syntactic shared-state lints",
         "Decides which operations can reach a random draw, clock or process state, and that no module-, class- or default-argument-level object carries state. Trusted: frozen table of documented random operations; ARPACK's internal start vectors are treated as solver seeds; drivers are analysed for three state classes."),
 "C12": ("status-value dataflow, exception-handler lint, counter abstraction of bounded attempts, truth-table comparison of report conditions, save/restore pairing over exits",
         "Decides that each status value reaches a report, that no handler drops a failure, that last-attempt success and exhaustion are distinguished, that every inventoried failure report is still made under an equivalent condition, and that temporarily altered fields are put back on return and exception exits. Trusted: frozen inventory of reports (data/reports.json) and table of status-returning routines; conditions rewritten over different comparisons are reported as undecided."),
 "C13": ("non-interference of diagnostic switches: liveness plus write-effect summaries of every diagnostic branch, log argument, assertion and callback wrapper; set/restore pairing of process-wide settings",
         "Decides that code guarded by a diagnostic switch, log-call arguments, assertions and callback wrappers write no variable that is live afterwards, no caller-visible object, draw no random number and do not transfer control, and that the switch itself is used nowhere else. Switches are recognised by name; applying a locally built linear operator may use the operator's own scratch arrays."),
 "C18": ("abstract interpretation of the syntax tree in a domain of exact index expressions (named entries, Kronecker deltas, index sets, bound sums)",
         "Decides, for symbolic sizes and entries, that every operation of the identity and diagonal types and every matrix helper (products, inner products, adjoint, Hermitian roots, factors, inverses, null spaces) gives the dense result, for every combination of operand kinds and option flags, without writing its operands and without losing a complex part. Trusted: defining identities of eigh, cholesky, trtri, svd, qr; broadcasting and operator-dispatch model."),
 "C11": ("provenance-tracking abstract interpretation of every save/load pair over abstract state objects",
         "Decides, for the finite, uniform (block lengths 1 to 3; same, smaller, larger dimension; expand/truncate) and sandwich classes (blocks of 1 and 2 sites, other window lengths, autogrow, files of the other class), that every value a save writes is at its own place in the loading object before derived data are rebuilt, that recorded sizes follow the tensors, that userdata and status values come back, and that files that do not fit are reported and leave a uniform state unchanged. Chain lengths are fixed small instances (loops are interpreted, sizes of tensors are symbols); expand_q/shrink_q are a recorded C14 finding. Trusted: model of numpy save/load/pickle."),
 "C15": ("compositional option-flow analysis (interprocedural taint summaries of options with guard polarity) over the syntax tree",
         "Decides, for every option and setting of every public operation, callees included, that its value still reaches the calls, stores and tests it documents, unaltered and under the same guard polarity, that fixed settings and defaults are as documented and that no option is without effect. Trusted: frozen inventory of documented flows (data/options.json) generated from the reviewed tree; conditions written over different comparisons and options packed in unknown collections are undecided, not alarms."),
 "C14": ("static name/attribute/signature resolution, type inference and path-enumerating definite-assignment analysis over the syntax tree",
         "Decides, for every function of the package, that each name, attribute, import, call signature, unpacking, format string and local read resolves; sound only for constructs whose types are inferred (counts are in the evidence), trusted: frozen name/signature tables of numpy/scipy/stdlib, loops run at least once."),
}
NA = {
 "N01": "quantifies over numerical values along a trajectory (energy decrease for a small enough step, convergence to a tolerance); no static argument over the source bounds them. Its structural ingredients (signs, weights, coverage) are decided under C03, C05, C10, C17.",
 "N02": "conservation up to an order in the step size is a statement about floating-point values of whole trajectories; only the integrator's algebraic coefficients are visible in the source, and those are decided under C10 and C05.",
 "N03": "accuracy of ARPACK/Krylov/bicgstab results depends on spectra and rounding of runtime data; whether failures of these solvers are reported is decided under C12.",
 "N04": "orthonormality, positivity and Schmidt ordering to rounding for every (ill-conditioned) input are numerical; the structural part (inserted matrices cancel, dimensions agree) is decided under C04 and C16.",
}
PENDING = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in TECH:
            t, note = TECH[p]
            checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                               technique=t, level="other", level_note=note))
    na = [dict(property=p, reason=NA.get(p) or PENDING.get(p) or "no check built yet for this property") for p in props if p not in TECH]
    json.dump(dict(version=1, setup_cmd="python3 -c \"import ast, sys; sys.path.insert(0, '.'); import sa.props\"", checks=checks, not_applicable=na,
                   notes="All checks read /repo's current source with the standard library's ast module; nothing of /repo is imported or executed. No hooks."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
