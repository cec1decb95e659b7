"""One entry per property: runs its engines and reports."""
from .repo import Program
from .report import Ctx, finish


def c14(prog, ctx):
    from .rules14 import Rules
    Rules(prog, ctx).run()
    ctx.require("functions checked for definite assignment", 200)
    ctx.require("calls with resolved signature", 500)
    return "other", ("Every function of the package is analysed on the syntax tree: names, imports, attributes, call signatures, "
                     "unpackings, format strings and definite assignment of locals are resolved against the package, the frozen "
                     "name tables of numpy/scipy/stdlib, and the compiled kernels' declarations.")


def c01(prog, ctx):
    from . import spec01
    spec01.run(prog, ctx)
    ctx.require("results equal to the documented matrix element", 20)
    ctx.require("index pairings checked", 30)
    return "other", ("Every observable method is typed by abstract interpretation of its syntax tree (calls followed) for symbolic "
                     "sites on a state that satisfies the class invariant; each index contraction must join a bond or site index "
                     "with its own dual of the same layer, and the result must consist of exactly the documented factors.")


def c02(prog, ctx):
    from . import spec02
    from . import cyk
    spec02.run(prog, ctx)
    cyk.run(prog, ctx)
    ctx.require("compiled kernels equal to the map, by case of shapes, threads and layout", 2)
    ctx.require("results with the specified type", 12)
    ctx.require("index pairings checked", 30)
    return "other", ("Each transfer-map and local contraction primitive is typed by abstract interpretation of its syntax tree: bond and "
                     "site indices carry bond number, layer and variance, every contraction must join dual indices, and the result "
                     "type (index order and factor multiset) must be the specified one. The compiled kernels (.pyx) are reduced to Python "
                     "syntax and interpreted over formal index expressions with the range of every sum as a function of shapes and threads.")


def c03(prog, ctx):
    from . import spec03
    spec03.run(prog, ctx)
    ctx.require("results with the specified type", 15)
    ctx.require("entries equal to their definition", 15)
    ctx.require("results equal to the documented matrix element", 200)
    ctx.require("dissipative generators equal to their definition", 4)
    return "other", ("Every routine building C, K, the tangent-space bases, x, B and the bond-expansion blocks is typed by abstract "
                     "interpretation for symbolic sites and at both boundaries, both gauges, two- and three-site and tensor-product "
                     "Hamiltonians; the sum of products of state tensors, environments, roots and Hamiltonian terms it returns must "
                     "be the specified one.")


def c10(prog, ctx):
    from . import integ
    integ.run(prog, ctx)
    ctx.require("order conditions", 24)
    ctx.require("paths with the stated increment", 9)
    return "other", ("Each integrator is interpreted abstractly with the state tensor as a linear form in the saved tensors and the "
                     "tangent vectors (aliasing of the saved copy included); the coefficients must satisfy the order conditions of the "
                     "Euler step / of a fourth-order Runge-Kutta method exactly, and each tangent vector must be evaluated with C, K and "
                     "environments recomputed for the state it belongs to.")


def c08(prog, ctx):
    from .rules08 import c08 as run
    run(prog, ctx)
    ctx.require("queries without effects", 60)
    return "other", ("Every query of every state class is summarised by a compositional may-alias and effect analysis (calls followed, "
                     "views alias their base); no write may reach an object that exists before the call.")


def c09(prog, ctx):
    from .rules08 import c09 as run
    run(prog, ctx)
    ctx.require("parameters tracked", 400)
    ctx.require("setters checked for shared storage", 15)
    return "other", ("Every function is summarised by a compositional may-alias and effect analysis; a write may reach memory of an argument "
                     "only where the frozen table of documented outputs allows it, and after a setter no state field may reach memory of an argument.")


def c19(prog, ctx):
    from .rules19 import c19 as run
    run(prog, ctx)
    ctx.require("functions analysed per class", 200)
    return "other", ("Call-graph-precise tracing of random draws, clocks and process state (effect summaries per class), module- and class-level "
                     "mutable objects, mutable defaults and memoisation; allowed sources are a frozen table taken from the documentation.")


def c13(prog, ctx):
    from .rules13 import c13 as run
    run(prog, ctx)
    ctx.require("diagnostic branches", 20)
    return "other", ("Noninterference of diagnostic switches: every branch under a switch is summarised by the effect analysis as a function of all it "
                     "reads (no writes to outside objects, no random draws, no control transfer), liveness shows that no variable it sets is read later, "
                     "switches appear nowhere else in computations, log arguments are pure, process settings are restored in finally.")


def c12(prog, ctx):
    from .rules12 import c12 as run
    run(prog, ctx)
    ctx.require("failure reports of the inventory", 150)
    ctx.require("status-returning calls", 8)
    ctx.require("temporarily altered fields", 8)
    return "other", ("Status dataflow (every status value of solvers, LAPACK and Krylov routines is evaluated against the test that consumes it), "
                     "exception-handler lint, abstract counter analysis of bounded attempts (last-attempt success vs exhaustion), truth-table comparison "
                     "of the conditions of every failure report with a frozen inventory, and save/restore pairing over all exits.")


def c18(prog, ctx):
    from . import spec18
    spec18.run(prog, ctx)
    ctx.require("identities checked", 100)
    return "other", ("Every method of the identity and diagonal matrix types and every matrix helper is interpreted on its syntax tree in a "
                     "domain of exact index expressions (named entries, Kronecker deltas, index sets, bound sums; sizes and entries are "
                     "symbols), once per combination of operand kinds and option flags; the generic entry of the result, its shape, type "
                     "and storage must be those of the equivalent dense computation and no operand may be written.")


def c11(prog, ctx):
    from . import spec11
    spec11.run(prog, ctx)
    ctx.require("save/load scenarios", 60)
    ctx.require("saved arrays followed to the loading object", 20)
    return "other", ("Save and load operations are interpreted on their syntax trees over abstract objects whose fields are provenance atoms; "
                     "the written container is handed to the loading operation of another abstract object, and every saved atom must be at "
                     "its own path there before derived data are recomputed, for every undecided branch.")


def c15(prog, ctx):
    from . import spec15
    spec15.run(prog, ctx)
    spec15.conversions(prog, ctx)
    ctx.require("options of public operations", 300)
    return "other", ("Compositional option-flow summaries of every public operation (callees substituted): each option must reach a use, "
                     "must be handed on unchanged to the calls it is documented for, and must decide the same calls and stores with the same "
                     "polarity as in the inventory of documented behaviour.")


def c04(prog, ctx):
    from . import spec04
    spec04.run(prog, ctx)
    ctx.require("matrix products telescoping to a scalar", 30)
    return "other", ("Every gauge operation is interpreted on its syntax tree over an exact algebra of matrix words (sites as opaque tensors, "
                     "factorisations as rewriting rules), for chains of 2-4 sites, blocks of 1-3 and windows, every option; the matrices it "
                     "inserts on each bond must cancel to a scalar and the environments must be those of the tensors it leaves.")


def c07(prog, ctx):
    from . import spec07
    spec07.run(prog, ctx)
    ctx.require("derived quantities equal to those of the final tensors", 1000)
    return "other", ("Histories of public operations ending in an update are interpreted on their syntax trees from states whose derived fields "
                     "all hold stale markers; every derived field found afterwards must be the same exact expression in the final site tensors "
                     "as the class's own calculation from scratch gives.")


def c17(prog, ctx):
    from . import spec17
    spec17.run(prog, ctx)
    ctx.require("coverage obligations met", 2000)
    return "other", ("Whole-state operations are interpreted on their syntax trees on lattices of 2-5 sites, blocks of 1-4 and windows whose site "
                     "tensors, Hamiltonian terms and tangent tensors are distinct unknowns; which of them take part in each resulting entry, and how "
                     "often, is counted against the documented range.")


def c16(prog, ctx):
    from . import spec16
    spec16.run(prog, ctx)
    ctx.require("shapes equal to the recorded dimensions", 3000)
    ctx.require("kept rows and columns", 800)
    ctx.require("bonds within the caps", 200)
    return "other", ("Operations that change bond dimensions are interpreted on their syntax trees on chains, blocks and windows with pairwise "
                     "different dimensions; every array carries its shape and every slice the indices it selects, which are compared across each "
                     "bond, with the recorded dimensions, with the order the Schmidt values come in, with the caps and the tolerance.")


def c05(prog, ctx):
    from . import spec05
    spec05.run(prog, ctx)
    ctx.require("operator entries checked", 800)
    ctx.require("sweeps in order", 10)
    ctx.require("operator results equal to the effective Hamiltonian", 30)
    return "other", ("The sweeps are interpreted on their syntax trees on chains of 2-5 sites with distinct unknowns for tensors, Hamiltonian terms and "
                     "operator matrices; every operator handed to the exponential or eigenvalue solver is applied, through its own matvec, to the tensor "
                     "handed in, and must contain each term once, only tensors of the present state in canonical form around the centre, and the "
                     "documented step; what the solver returns is a new unknown that must be carried on unchanged.")


def c06(prog, ctx):
    from . import spec06
    spec06.run(prog, ctx)
    ctx.require("operators evaluated", 16)
    ctx.require("transfer operators evaluated", 12)
    return "other", ("The preparation and one application of the excitation operators are evaluated on their syntax trees in the domain of formal "
                     "tensor networks: the tensors of the two vacua are different unknowns, a loop over a physical index is an open label, momentum "
                     "phases are integer powers.  Each resulting network must be, wire by wire, a matrix element of the Hamiltonian between tangent "
                     "vectors (every position of the tensor, the hole and the Hamiltonian term once), and the geometric series must be over the "
                     "transfer operator of the stated tensors with the stated phase.")


RUN = {"C06": c06, "C05": c05, "C16": c16, "C17": c17, "C07": c07, "C04": c04, "C15": c15, "C11": c11, "C18": c18, "C12": c12, "C13": c13, "C19": c19, "C08": c08, "C09": c09, "C10": c10, "C03": c03, "C01": c01, "C02": c02, "C14": c14}


def run(pid, tier):
    ctx = Ctx(pid, tier)
    prog = Program()
    level, expl = RUN[pid](prog, ctx)[:2]
    return finish(ctx, level, expl)
