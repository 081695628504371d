"""What each check runs: targets (how to build a harness) and properties (which stages)."""
LEVEL = "exploration"

CELL_F = ["celldiffusion%s%dd" % (k, d) for k in ("flux", "apply", "stencilcoeffs") for d in (1, 2, 3)] + \
         ["cellsetcorrectionbc%dd" % d for d in (1, 2, 3)] + ["copycoarsetofine"]
LIN_F = ["cellsmooth%dd" % d for d in (1, 2, 3)] + ["cellblocksmooth%dd" % d for d in (1, 2, 3)] + \
        ["applystencil%dd" % d for d in (1, 2, 3)] + ["celladjustrhs%dd" % d for d in (1, 2, 3)] + \
        ["nodediffusion%s%dd" % (k, d) for k in ("flux", "apply", "stencilcoeffs") for d in (1, 2, 3)]
CELL_K = ["%s_%dd_cuda" % (k, d) for k in ("cdf", "cd_apply", "cd_correct_bc", "cd_stencil") for d in (1, 2, 3)] + \
         ["coarse_to_fine_cuda"]

TARGETS = {
    "kernels": dict(harness=["kernels.cpp"], kernels=CELL_K, fortran=CELL_F),
    "iter": dict(harness=["iter.cpp"], reduced="-DPBT_REDUCED"),
    "win": dict(harness=[], program=["win.cpp"]),
    "winall": dict(harness=[], program=["winall.cpp"]),
    "span": dict(harness=[], generator="span_gen"),
    "linsolve": dict(harness=["linsolve.cpp", "lapack_stub.cpp"], kernels=CELL_K, fortran=CELL_F + LIN_F),
    # the program takes both headers in one file: with either one alone it has to compile
    "vec": dict(harness=[], program=["vec.cpp"], kernels=["../random"], probe='#include "md_device_vector.hpp"\n'),
    "rand": dict(harness=["rand.cpp"], kernels=["../random"]),
    "script": dict(harness=["script.cpp"]),
    "kmeta": dict(harness=["kmeta.cpp"], kernels=CELL_K, fortran=CELL_F),
}

# a stage: which executable and flavour, and per tier (cases, wall-clock cap in seconds)
def opt(target, q, t, **kw):
    return dict(target=target, flavour="opt", quick=(q, 60), thorough=(t, 900), **kw)

def san(target, q, t, **kw):
    return dict(target=target, flavour="san", quick=(q, 60), thorough=(t, 900), **kw)

KRULE = ("case = kernel variant, dimension, precision, index box, ghost widths, scalars, array contents, selectors and "
         "thread count drawn from a choice sequence; non-trivial = the reference model writes at least two cells")
KASS = ["arguments are admissible: boxes non-empty, arrays large enough for the cells the rule names, no zero denominators"]
PROPS = {}
for i, n in (("K01", 400000), ("K02", 400000), ("K03", 800000), ("K04", 800000), ("K05", 800000), ("K06", 400000),
             ("K07", 400000), ("K08", 400000), ("K09", 800000)):
    PROPS[i] = dict(stages=[opt("kernels", n, n * 20)], rule=KRULE, assumptions=KASS)
PROPS["K10"] = dict(stages=[san("kernels", 60000, 1500000)], rule=KRULE + "; run with AddressSanitizer, UBSan and Fortran bounds checks on exact-size heap arrays",
                    assumptions=KASS)

MTECH = "property-based testing: generated inputs against a metamorphic relation, shrunk to a minimal replay"
def meta(i, n, what, **kw):
    PROPS[i] = dict(stages=[opt("kmeta", n, n * 20, **kw)], technique=MTECH, rule="case = " + what + ", drawn from a choice sequence; "
                    "non-trivial = at least two result cells are compared", assumptions=KASS)
meta("K11", 100000, "any kernel call run with one thread and then with three to five other thread counts, whole memory compared bit for bit")
PROPS["K11"]["stages"].append(opt("span", 20000, 400000, prop="K11s", workers=3))
PROPS["K11"]["rule"] += "; the second stage runs generated lazy-array programs with one thread and with two to five other thread counts"
meta("K12", 160000, "operator form, dimension, box, data and interface segment; assembled rows against flux + apply, then ghost elimination")
meta("K13", 300000, "relation (residual+operator, telescoping, constant, linearity, scaling), kernel call and data")
meta("K14", 400000, "any kernel call and the same call with all boxes translated and/or ghost layers added")
meta("K15", 500000, "symmetric kernel call and the same call with directions relabelled, or with one direction removed")
meta("K16", 160000, "operator form, dimension, box, data and 1-6 boundary segments (physical conditions and coarse-fine interfaces); rows with the ghosts eliminated by the stencil adjustments against flux + apply on ghosts filled by the boundary routines or by interpolation")

meta("K17", 16000, "two to four calls with their own arrays, of one kernel or of different ones, run alone, in another order with repetitions, and at the same time from several host threads in 8-400 rounds, in step or freely; whole memory of every call compared bit for bit", workers=3)
PROPS["K17"]["stages"].append(dict(target="kmeta", flavour="tsan", quick=(4000, 60), thorough=(150000, 900)))
PROPS["K17"]["rule"] += "; the second stage repeats under ThreadSanitizer"

meta("K18", 200000, "any kernel call, and the same call with one cell of one array set to another number, infinity or not a number (one to four such cells, one at a time); whole memory compared bit for bit where the formula does not name the cell")
PROPS["K18"]["rule"] = PROPS["K18"]["rule"].replace("at least two result cells are compared", "at least two results that must not change are compared")

IASS = ["iterators are combined only as their comments require: equal base and sizes, positions between first and last"]
ITECH = "model-based property testing: generated operation histories on iterators against an explicit index-list model, shrunk to a minimal replay"
def it(i, n, what, **kw):
    PROPS[i] = dict(stages=[opt("iter", n, n * 30, **kw)], technique=ITECH, rule="case = " + what + ", drawn from a choice sequence; "
                    "non-trivial = the traversal has at least two positions", assumptions=IASS)
SASS = ["expressions are well-formed in the language: spans kept in variables when an expression outlives the statement, no integer division by zero, "
        "operands cover the cells the expression names"]
STECH = ("property-based testing over generated programs: random expression programs compiled against the headers and run on generated "
         "ranges, layouts and data, compared with a per-cell reference evaluation; failing inputs shrunk to a minimal replay")
def spn(i, n, what, **kw):
    PROPS[i] = dict(stages=[opt("span", n, n * 15, **kw)], technique=STECH, rule="case = one of the generated programs (" + what + ") plus ranges, "
                    "ghost widths, steps, scalars, contents and thread count drawn from a choice sequence; non-trivial = the domain has at least two cells",
                    assumptions=SASS)
it("I01", 400000, "dimension, extents and linear indices, visited exhaustively for small boxes")
it("I02", 1500000, "array extents, sub-box, step per dimension, traversed by increments, decrements and jumps")
it("I03", 400000, "array extents, permutation and sub-box")
it("I04", 3000000, "kind of traversal (plain, transposed, windowed, stepped) and a history of moves, jumps, differences and comparisons")
PROPS["I04"]["stages"].append(opt("win", 400000, 12000000, prop="I04w"))
it("I05", 1500000, "traversal and direction of the neighbour pair")
it("I06", 3000000, "neighbour-pair traversal and a history of moves, jumps, differences and comparisons")
it("I07", 3000000, "coarse array, ratio, fine start (also negative), step and history of moves")
it("I08", 400000, "offset table, array and history of moves", prop="I08a")
PROPS["I08"]["stages"].append(opt("span", 80000, 1500000))
PROPS["I08"]["technique"] = ITECH + "; generated dot-product programs against a per-cell reference"
PROPS["I08"]["assumptions"] = IASS + SASS
it("I10", 3000000, "range and sequence of range operations")
spn("D01", 160000, "arithmetic expressions of spans and numbers, one to three assignments")
spn("D02", 160000, "numeric and array right-hand sides over sub-domains with steps")
spn("D03", 80000, "assignments, coefficient statements and updates written twice with different storage and domain orders")
spn("D04", 160000, "shifts, corner shifts, gradients and neighbour pairs")
spn("D05", 100000, "coefficient statements of one to six assignments")
spn("D06", 100000, "in-place updates of one or several right-hand sides")
spn("D07", 160000, "coarse lookups inside expressions")
spn("D08", 160000, "whole-span assignment, element access and offset tables")
spn("I09", 120000, "windows of coefficients over a domain")
PROPS["I09"]["stages"].append(opt("winall", 200000, 6000000, prop="I09w"))
PROPS["I09"]["rule"] += "; the second stage walks and writes through the window over a whole array"
PROPS["I04"]["rule"] += "; the second stage walks windows reached through the array interface"
PROPS["D02"]["stages"].append(san("span", 12000, 300000, programs_quick=32, programs_thorough=96))
PROPS["D02"]["rule"] += "; the second stage runs programs under AddressSanitizer and UBSan on exact-size heap arrays"

LASS = ["arrays cover the cells the call names, first stencil entry is the (non-zero) diagonal, blocks are diagonally dominant, "
        "block displacements are consecutive multiples of the block size; LAPACK is replaced by an own LU (none is installed)"]
def lin(i, n, what):
    PROPS[i] = dict(stages=[opt("linsolve", n, n * 20), san("linsolve", n // 16, n // 2)], rule="case = " + what + ", drawn from a choice sequence; "
                    "non-trivial = the reference model writes at least two entries; the second stage repeats with sanitizers and Fortran bounds checks",
                    assumptions=LASS)
lin("L01", 400000, "smoother, dimension, box, array bounds, offset table, colour and data")
lin("L02", 160000, "block smoother, box, ghost widths, block layout, offset table and data")
lin("L03", 400000, "dimension, patch or point, box, offset table, ghost widths, factors and data")
lin("L04", 400000, "adjustment, dimension, box, segment, direction, side, offset table and data")
lin("L05", 400000, "node routine, dimension, box, segment, selectors, scalars and data")

PROPS["V01"] = dict(stages=[opt("vec", 400000, 8000000)], technique=ITECH.replace("operation histories on iterators", "operation histories on owning arrays").replace("index-list model", "model of both copies"),
                    rule="case = storage order, bounds, ghost width, element type and a history of device writes and reads, host writes and reads, fills, copies and table rows, "
                    "drawn from a choice sequence; non-trivial = more than one element and more than one operation",
                    assumptions=["device pointers are fetched again after host reads, table rows are set while no device write is pending"])
PROPS["V02"] = dict(stages=[opt("rand", 60000, 1500000)], technique="property-based testing: generated ranges and seeds against range, coverage and replay invariants, shrunk to a minimal replay",
                    rule="case = kind, range, seed and number of picks drawn from a choice sequence; non-trivial = the range has more than one value",
                    assumptions=["the lower end of a range is not above its upper end"])
PROPS["S01"] = dict(stages=[opt("script", 2400, 40000)], technique="property-based testing: generated source trees and repeated runs of the script against a model of the tree, shrunk to a minimal replay",
                    rule="case = notice, source tree (names, directories, contents, line endings, permissions) and number of runs drawn from a choice sequence; non-trivial = at least one file has to be stamped",
                    assumptions=["the notice ends in a newline; files are writable and no symbolic links"])
