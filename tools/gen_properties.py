#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so wording and anchors stay editable)."""
import json, os
P = []
H = "src/cuda/"
def prop(id, title, statement, over, quant, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

INP = ["inputs"]; CFG = ["inputs", "configurations"]
# ---------------------------------------------------------------- iterators
prop("I01", "Linear index and multi-dimensional coordinate are inverse maps",
  "For every box shape in one to five dimensions, turning a coordinate into a row-major linear index and back gives the same coordinate, turning an index into a coordinate and back gives the same index, and the index one past the end has its own coordinate that maps back to it. Per-dimension strides derived from a shape are the products of the faster extents, also when a per-dimension step is given, whether they are computed one at a time, by runtime dimension, or all at once.",
  INP, "every shape (1-5 dimensions, extent-1 dimensions included), every index in [0, size]",
  "the test suite never calls these maps directly; it sees a few cubic and 2-3 rectangular shapes through other code, and no 4-D shape or past-the-end index in the general branch",
  [H+"matrix_utils.hpp"], [("row-major linearisation", H+"matrix_utils.hpp ravel/unravel"), ("strides", H+"matrix_utils.hpp stride_dim/stride_from_size")])
prop("I02", "Sub-box traversal visits exactly the strided sub-box in row-major order",
  "Traversing a rectangular sub-box of a row-major array with a positive step per dimension yields exactly the elements whose coordinates are lower bound plus multiples of the step not beyond the upper bound, each once, last dimension fastest, and reports that many elements. Writing through the traversal changes those elements and no other.",
  INP, "every array shape in 1-4 dimensions, every non-empty sub-box, every step (also those that do not divide the extent)",
  "tests use a handful of fixed boxes with unit step only and 1-3 dimensions; extents, steps and partial last steps are unbounded",
  [H+"submatrix_iterator.hpp", H+"matrix_traversal_iterator.hpp"], [("sub-box construction", H+"submatrix_iterator.hpp make_submatrix"), ("odometer increment", H+"matrix_traversal_iterator.hpp increment")])
prop("I03", "Transposed traversal visits every element in the permuted order",
  "Traversing an array under a permutation of its dimensions yields every element exactly once, ordered as a row-major loop over the permuted dimensions, for every permutation and shape. Applying a permutation and then its inverse reproduces the original order.",
  INP, "every permutation of 1-4 dimensions and every shape, equal and unequal extents, extent-1 dimensions",
  "tests check single 2-D/3-D shapes with distinct extents; permutations of 4 dimensions and degenerate shapes are never reached",
  [H+"transpose_iterator.hpp", H+"matrix_traversal_iterator.hpp"], [("transposed strides", H+"transpose_iterator.hpp make_transpose")])
prop("I04", "Traversal positions obey random-access arithmetic after any moves",
  "After any sequence of single steps forwards or backwards and jumps of any signed length that stays within [begin, end], a sub-box, strided, transposed or window traversal denotes the element at the net position; distances and comparisons between positions equal the difference of net positions, including at the end position and after stepping back from it.",
  ["histories", "inputs"], "every history of ++, --, +=n, -=n, copies and comparisons over every shape, step and permutation",
  "parallel algorithms only jump forward from the beginning, and tests only ever do that: backward moves, the end position and mixed histories are not exercised",
  [H+"matrix_traversal_iterator.hpp", H+"matrix_utils.hpp"], [("advance through linear index", H+"matrix_traversal_iterator.hpp advance"), ("odometer", H+"matrix_traversal_iterator.hpp increment/decrement"), ("distance", H+"matrix_traversal_iterator.hpp distance_to")])
prop("I05", "Forward stencil traversal pairs each element with its next neighbour",
  "A forward stencil along one dimension of a (sub-boxed, transposed or plain) array yields, for each element that has a successor along that dimension, exactly one pair (element, successor), in traversal order and with the pairs whose second member would fall outside the box skipped. Its size is the number of such pairs.",
  INP, "every dimension of every 1-4 dimensional shape with at least two elements along it, selected at compile time or at run time, on plain arrays, sub-boxes and transposes",
  "tests take the stencil of a few fixed shapes, mostly the fastest or slowest dimension of a whole array",
  [H+"forward_stencil_iterator.hpp", H+"matrix_traversal_iterator.hpp", H+"stencil_impl.hpp"], [("skip of the last row", H+"forward_stencil_iterator.hpp increment/advance"), ("limits", H+"matrix_traversal_iterator.hpp stencil")])
prop("I06", "Forward stencil positions obey random-access arithmetic after any moves",
  "After any sequence of single steps and signed jumps within [begin, end], a forward stencil position denotes the same pair as counting steps one by one from the beginning, and distances and equality between positions agree with the net positions, including the end position.",
  ["histories", "inputs"], "every history of ++, --, +=n, -=n over every shape, dimension and underlying traversal",
  "parallel algorithms jump forward once from the beginning; backward jumps, jumps that land exactly on a row boundary and moves away from the end never occur in tests",
  [H+"forward_stencil_iterator.hpp"], [("rollover arithmetic", H+"forward_stencil_iterator.hpp advance/decrement"), ("distance", H+"forward_stencil_iterator.hpp distance_to")])
prop("I07", "Coarse lookup uses the coarse cell that contains the fine cell",
  "Walking over fine indices along one dimension with an integer refinement ratio reads, for every fine index, the coarse element whose index is the floor of fine index over ratio, for negative indices too, in every dimension of the coarse array and after any sequence of moves.",
  ["inputs", "histories"], "every ratio >= 1, fine start (negative, zero, positive, unaligned), length, coarse shape, dimension and move history",
  "tests use ratio 2-4 at a few starting points along one dimension and walk forwards only; floor versus truncation differs only for negative, unaligned indices",
  [H+"coarse_to_fine_iterator.hpp"], [("floor division", H+"coarse_to_fine_iterator.hpp coarse_index"), ("base index", H+"coarse_to_fine_iterator.hpp make_coarse_to_fine")])
prop("I08", "Offset-table lookups and dot products sum the addressed neighbours",
  "An offset lookup reads the element displaced from the base by the sum over dimensions of offset times stride, for every table entry and after any moves. The dot product of per-cell stencil coefficients with offset neighbours equals, in every cell of the domain, the sum over table rows of coefficient times the neighbour at that (i,j,k) displacement.",
  ["inputs", "histories"], "every offset table (signed, repeated, zero rows), number of rows, 1-3 dimensions, ghost widths, boxes and coefficients",
  "tests use one 5-point and one 7-point table on one box each; the order of table columns versus array dimensions only matters for asymmetric offsets and extents",
  [H+"offset_iterator.hpp", H+"md_device_span.hpp"], [("displacement", H+"offset_iterator.hpp dereference"), ("stride reversal", H+"md_device_span.hpp dot_impl")])
prop("I09", "A window over a domain exposes each cell's own coefficient block",
  "Iterating a coefficient array (several coefficients per cell, stored fastest) over a domain gives, for each cell in domain order, access to exactly that cell's coefficients, for any order and sub-box of the domain directions and any ghost width. Reads and writes through it touch only the coefficients of cells in the domain.",
  INP, "every box, ghost width, sub-domain, direction order, window length, 1-3 dimensions",
  "tests use 2 small boxes with full domains and fixed values",
  [H+"md_device_span.hpp", H+"submatrix_iterator.hpp", H+"matrix_traversal_iterator.hpp"], [("window view", H+"md_device_span.hpp window/call_helper"), ("iterator-valued traversal", H+"matrix_traversal_iterator.hpp dereference")])
prop("I10", "Index-range arithmetic moves exactly the intended end",
  "Adding a positive amount to a directional range raises its upper end, adding a negative amount or subtracting lowers its lower end, widening moves both ends outwards (inwards for a negative amount) and shifting moves both together, and none of them changes anything else or the original range; size is the number of indices it steps through, and dropping the step keeps the ends.",
  ["inputs", "programs"], "every range and every sequence of range operations, for plain and directional ranges, inclusive and exclusive construction",
  "only exercised indirectly with gradients and ghost widths of 0-2 in tests",
  [H+"md_bounds.hpp"], [("range operators", H+"md_bounds.hpp bounds/dir_bounds")])
# ---------------------------------------------------------------- lazy spans
prop("D01", "A lazy array expression equals pointwise evaluation over the domain",
  "Assigning an arithmetic expression of spans and numbers (+, -, *, /, on either side, nested) over a domain stores in each domain cell the value obtained by evaluating the expression on the operands' values at that cell's coordinates. This holds for spans of different storage order, bounds and ghost width, sub-domains, 1-4 dimensions, both precisions, and several assignments in one statement take effect in order.",
  ["programs", "inputs", "configurations"], "every well-formed expression, operand layout, domain and array content",
  "tests contain a dozen fixed expressions on fixed boxes; expressions are unbounded compile-time programs and layouts unbounded inputs",
  [H+"iter_math.hpp", H+"md_device_span.hpp"], [("operator templates", H+"iter_math.hpp"), ("evaluation", H+"md_device_span.hpp assign_proxy/call_helper")])
prop("D02", "An assignment writes exactly its domain and nothing else",
  "Assigning over a domain, with or without a step per direction, writes every cell of the domain (all cells lower bound plus multiples of the step up to the upper bound) and leaves every other cell of the destination, and every source, bit-for-bit unchanged; a domain with a range that ends before it begins is empty and nothing is written. Nothing outside the destination or source storage is accessed.",
  INP, "every box, ghost width, sub-domain, steps (also not dividing the extent), direction order, numeric and array right-hand sides, 1-3 dimensions",
  "tests compare a few results over the whole box; ghost cells and skipped cells around partial steps are rarely looked at",
  [H+"md_device_span.hpp", H+"submatrix_iterator.hpp", H+"md_bounds.hpp"], [("domain to traversal", H+"md_device_span.hpp call_helper"), ("fill/copy", H+"md_device_span.hpp assign_proxy")])
prop("D03", "Results do not depend on storage order or on direction order of the domain",
  "For the same logical arrays, storing an operand or the destination with its dimensions in any order, or listing the domain's directions in any order, gives bit-identical logical results, including for gradients, shifts, pairs of neighbours and coefficient windows.",
  CFG, "every combination of storage orders of operands and destination and domain order in 2 and 3 dimensions",
  "tests fix one storage order per operand (cell: kji; face: cyclic) and one domain order per kernel",
  [H+"md_device_span.hpp", H+"traits.hpp"], [("order mapping", H+"traits.hpp map_index/transpose_sequence"), ("permuted strides", H+"md_device_span.hpp call_helper")])
prop("D04", "Shifts and gradients read the neighbour in the named direction",
  "A shift by s in x, y or z (or in two directions) reads the operand at the cell displaced by s in that direction; an up gradient is (next - here)/h and a down gradient (here - previous)/h; a neighbour pair gives (here, next) or (previous, here). This holds whatever the operand's storage order and the domain order, for negative and zero shifts and arbitrary bounds.",
  CFG, "every shift in every direction and pair of directions, both gradient senses, all storage and domain orders, boxes with negative and offset bounds",
  "tests use shifts of at most 4 on symmetric ranges and gradients on conventional layouts only",
  [H+"md_device_span.hpp", H+"md_bounds.hpp", H+"forward_stencil_iterator.hpp"], [("shift", H+"md_device_span.hpp shift_helper"), ("gradient", H+"md_device_span.hpp stencil_helper/gradient")])
prop("D05", "Coefficient assignments evaluate per cell, in order, on that cell's block",
  "Within one coefficient statement over a domain, each assignment sets the named coefficient (or pair of coefficients) of each cell to the value of its right-hand side - a number, a span expression, a neighbour pair, or an expression mixing that cell's coefficients with numbers and spans - using the coefficients as left by the assignments before it. Operand order of the arithmetic is respected, and coefficients not named and cells outside the domain are unchanged.",
  ["programs", "inputs"], "every such statement (1-6 assignments, nested expressions, span operands on either side), window length, box, sub-domain and ghost width",
  "tests cover the statements the kernels use; operand order only matters for - and / with several spans, which no test combines",
  [H+"stencil_proxy.hpp", H+"md_device_span.hpp", H+"tuple_utils.hpp"], [("per-cell evaluation", H+"stencil_proxy.hpp stencil_proxy/stencil_assign_proxy"), ("operand iterators", H+"stencil_proxy.hpp get_iterators"), ("ordering", H+"stencil_proxy.hpp tp_invoke")])
prop("D06", "In-place subtraction updates each right-hand-side cell by its own term",
  "Subtracting a coefficient-times-neighbour expression in place from an array over a domain replaces each domain cell's value by itself minus the expression evaluated from that cell's coefficients and operand values, leaves all other cells and the operands unchanged, and several such updates in one statement accumulate.",
  ["programs", "inputs"], "every box, ghost width, sub-domain, coefficient index, shift and value; one and several updates",
  "one fixed statement on one fixed box in the tests plus the kernels' own use",
  [H+"md_device_span.hpp", H+"stencil_proxy.hpp"], [("operator-=", H+"md_device_span.hpp"), ("layered invoke", H+"stencil_proxy.hpp tp_layered_invoke/self_assign_proxy")])
prop("D07", "A coarse array viewed on a fine line repeats each coarse value ratio times",
  "In an expression over a fine domain, a coarse span viewed with ratio r and fixed coarse coordinates in the other directions contributes, at fine index x, the coarse value at floor(x/r) along the free direction, for every free direction, storage order, bounds and ghost width, and can be combined arithmetically with other operands' values.",
  CFG, "every ratio, fine range (negative, unaligned), free direction, storage order and bounds",
  "tests cover the conventional storage order with ghost width and three axes at a few sizes",
  [H+"md_device_span.hpp", H+"coarse_to_fine_iterator.hpp"], [("coarse view", H+"md_device_span.hpp coarse_to_fine/fine")])
prop("D08", "Whole-span assignment and element access address the span's own bounds",
  "Assigning without naming a domain covers exactly the destination span's own index box (ghost cells included), and element access by coordinates in the span's storage order returns the element at those coordinates, for spans with arbitrary bounds, ghost width, order and for offset tables.",
  INP, "every bounds, ghost width, storage order, coordinate, 1-3 dimensions and window spans",
  "no test uses whole-span assignment with offset bounds in more than one dimension; element access is untested",
  [H+"md_device_span.hpp"], [("lhs domain", H+"md_device_span.hpp with_lhs_domain/dir_bounds"), ("element access", H+"md_device_span.hpp at")])
# ---------------------------------------------------------------- kernels
KW = "tests run a few boxes with default data; ghost widths, offsets, coefficients, selectors and degenerate boxes are quantified over all inputs"
prop("K01", "Face flux is coefficient times the backward difference of the solution",
  "In 1, 2 and 3 dimensions and both precisions the flux on each face equals the face coefficient (or one, for Poisson) times (value in the cell above the face minus value in the cell below) divided by the mesh width of that direction, for all faces of the box including its outer faces. The reference Fortran routines give the same values.",
  CFG, "every box, ghost width >= 1, mesh widths, coefficients, solution",
  KW, [H+"cdf_1d_cuda.cpp", H+"cdf_2d_cuda.cpp", H+"cdf_3d_cuda.cpp", "m4/celldiffusionflux1d.m4", "m4/celldiffusionflux2d.m4", "m4/celldiffusionflux3d.m4"],
  [("flux assignment", H+"cdf_Nd_cuda.cpp flux/poisson_flux")])
prop("K02", "Apply and residual combine flux divergence, reaction and source correctly",
  "In 1, 2 and 3 dimensions and both precisions, apply returns minus beta times the flux divergence plus the reaction term (alpha times coefficient times solution, alpha times solution, or none), and residual returns the source plus beta times the flux divergence minus the same reaction term, in every cell of the box. The reference Fortran routines give the same values.",
  CFG, "every box, independent ghost widths of every argument, alpha, beta, mesh widths, fields",
  KW, [H+"cd_apply_1d_cuda.cpp", H+"cd_apply_2d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", "m4/celldiffusionapply1d.m4", "m4/celldiffusionapply2d.m4", "m4/celldiffusionapply3d.m4"],
  [("residual/apply expressions", H+"cd_apply_Nd_cuda.cpp")])
prop("K03", "Boundary faces get the ghost value their condition prescribes",
  "For each boundary face segment, condition kind (Dirichlet, Neumann, Robin), extrapolation order and side, the ghost cells of the segment that lie along the patch get the value the condition prescribes from the one or two nearest inward cells and, for the variable-coefficient form, from the diffusion coefficient on the boundary face; every other cell keeps its value, and a segment that misses the patch changes nothing. This holds in 1-3 dimensions, both precisions, with and without coefficients, and agrees with the reference Fortran routines where the segment lies within the patch.",
  CFG, "every box, ghost widths, boundary segment, face, condition kind, order, alpha, beta, mesh width, data; also unused selector combinations, which must change nothing",
  KW, [H+"cd_correct_bc_1d_cuda.cpp", H+"cd_correct_bc_2d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp", "m4/cellsetcorrectionbc1d.m4", "m4/cellsetcorrectionbc2d.m4", "m4/cellsetcorrectionbc3d.m4"],
  [("face ghost fill", H+"cd_correct_bc_Nd_cuda.cpp set_bc/set_poisson_bc")])
prop("K04", "Edge and corner ghosts are extrapolated from their own inward neighbours",
  "For every corner of a 2-D patch and every edge and corner selector in 3-D, the ghost cells on the named edge or corner get the sum of the inward neighbours along the two normal directions minus the diagonal inward neighbour, along the whole part of the edge inside the patch; all other cells keep their value. The reference Fortran routines agree where the segment lies within the patch.",
  CFG, "every box, ghost width, edge/corner selector, boundary box and data, both precisions",
  KW, [H+"cd_correct_bc_2d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp", "m4/cellsetcorrectionbc2d.m4", "m4/cellsetcorrectionbc3d.m4"],
  [("edge/corner fill", H+"cd_correct_bc_Nd_cuda.cpp type 2 and 3")])
prop("K05", "2-D homogeneous and interior-corner ghosts follow their extrapolation rule",
  "On each side of a 2-D patch, homogeneous boundary filling sets the one-cell ghost layer along the boundary segment to the order-1 to order-4 extrapolation that vanishes on the boundary face and copies the two corner ghosts of that side from their diagonal interior neighbours; interior-corner filling sets the named corner cell to minus five times its diagonal inward neighbour. Everything else keeps its value, and the reference Fortran routines agree.",
  CFG, "every box, segment, face, order, data, both precisions",
  KW, [H+"cd_correct_bc_2d_cuda.cpp", "m4/cellsetcorrectionbc2d.m4"],
  [("homogeneous fill", H+"cd_correct_bc_2d_cuda.cpp set_homogenous_bc"), ("interior corner", H+"cd_correct_bc_2d_cuda.cpp set_corner_bc")])
prop("K06", "Assembled coefficients are the finite-volume stencil of the operator",
  "In 1-3 dimensions and both precisions the off-diagonal coefficients of a cell are minus beta over mesh width squared times the coefficient on the low and high face of each direction (or without it, for Poisson), and the diagonal is minus the sum of that cell's off-diagonals plus the reaction term, for every cell of the box; coefficient arrays may live on larger boxes. The reference Fortran routines give the same coefficients.",
  CFG, "every box, containing coefficient box, ghost width of the stencil array, beta, alpha, mesh widths, coefficients",
  KW, [H+"cd_stencil_1d_cuda.cpp", H+"cd_stencil_2d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
  [("assembly", H+"cd_stencil_Nd_cuda.cpp offdiag/*diag")])
prop("K07", "Physical-boundary adjustments change only the adjacent cells' coefficients",
  "For each boundary segment, side, direction, condition kind and order, the diagonal and off-diagonal adjustments modify only the coefficients of the layer of cells next to that segment, by the amounts the condition's elimination prescribes, with and without variable coefficients, in 1-3 dimensions and both precisions; selector combinations without a rule change nothing. The reference Fortran routines give the same coefficients.",
  CFG, "every box, segment, direction, side, condition kind, order, factors, beta, mesh widths, coefficients",
  KW, [H+"cd_stencil_1d_cuda.cpp", H+"cd_stencil_2d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
  [("boundary adjustment", H+"cd_stencil_Nd_cuda.cpp adj_diag/adj_offdiag/adj_poisson_*")])
prop("K08", "Coarse-fine interface adjustments apply the interpolation of the given ratio",
  "At a coarse-fine interface segment, the diagonal and off-diagonal adjustments use the refinement ratio and interpolation order exactly as the interface elimination prescribes, coefficient removal zeroes the coefficient across the interface, and the right-hand-side update subtracts that coefficient times the ghost value, all only in the layer of cells next to the segment, in 1-3 dimensions and both precisions. The reference Fortran routines agree.",
  CFG, "every box, segment, ratio >= 2, direction, side, order, beta, mesh widths, data, ghost widths",
  KW, [H+"cd_stencil_1d_cuda.cpp", H+"cd_stencil_2d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", "m4/celldiffusionstencilcoeffs1d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
  [("interface adjustment", H+"cd_stencil_Nd_cuda.cpp adj_cf_*/readj_offdiag/adj_cf_bdryrhs")])
prop("K09", "Coarse-to-fine copy fills fine edges from the containing coarse cell",
  "Copying a coarse edge to a fine edge along any axis sets each fine cell on the edge to the coarse value at the floor of its index over the axis ratio (other coordinates taken from the given boxes), the corner copy sets the single fine corner cell, and no other fine cell changes. The reference Fortran routines agree.",
  CFG, "every axis, ratio, patch boxes, edge ranges (negative, unaligned), ghost widths, data, both precisions",
  KW, [H+"coarse_to_fine_cuda.cpp", "m4/copycoarsetofine.m4"], [("edge copy", H+"coarse_to_fine_cuda.cpp copy/copy_corner")])
prop("K10", "Kernels stay inside their arrays and write only their outputs",
  "For every admissible call of every kernel (Thrust and Fortran), no memory outside the argument arrays is read or written, no undefined operation is executed, input arrays are not modified, and output cells outside the documented region keep their previous bits. This includes arrays that are exactly as large as the call requires, one-cell boxes and minimal ghost widths.",
  CFG, "every kernel, every admissible box, ghost width, segment and selector",
  "tests run without sanitizers and compare only the region they expect to change; out-of-range reads are silent",
  [H+"md_device_span.hpp", H+"submatrix_iterator.hpp", H+"cd_stencil_3d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", H+"cdf_3d_cuda.cpp", H+"coarse_to_fine_cuda.cpp"],
  [("span bounds", H+"md_device_span.hpp call_helper"), ("kernel domains", H+"*_cuda.cpp")])
prop("K11", "Results are bit-identical for every number of threads and every repetition",
  "Running any kernel or lazy assignment on the same inputs with any number of worker threads, or repeatedly, yields bit-identical outputs: no result depends on how cells are divided among threads or on the order in which threads run.",
  ["schedules", "inputs", "configurations"], "thread counts 1-16, repetitions, boxes from one cell to far more cells than threads, every kernel",
  "tests run once with the machine's default thread count",
  [H+"md_device_span.hpp", H+"matrix_traversal_iterator.hpp", H+"forward_stencil_iterator.hpp"], [("parallel copy/fill/for_each", H+"md_device_span.hpp assign_proxy/with_domain"), ("mid-range iterator construction", H+"matrix_traversal_iterator.hpp advance")])
prop("K12", "The assembled stencil and the matrix-free operator are the same operator",
  "For every solution, applying the assembled coefficients (assembled diagonal and off-diagonals, interior cells) to the solution equals computing fluxes and applying the operator matrix-free, for the variable-coefficient and Poisson forms in 1-3 dimensions; eliminating a coarse-fine ghost through the right-hand side and removing its coefficient leaves the cell's equation unchanged.",
  INP, "every box, coefficients, alpha, beta, mesh widths, solution",
  "no test relates two kernels to each other; each is only compared to its own Fortran twin",
  [H+"cd_stencil_2d_cuda.cpp", H+"cd_apply_2d_cuda.cpp", H+"cdf_2d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", H+"cdf_3d_cuda.cpp", H+"cd_stencil_1d_cuda.cpp"],
  [("assembly", H+"cd_stencil_Nd_cuda.cpp"), ("matrix-free", H+"cdf_Nd_cuda.cpp + cd_apply_Nd_cuda.cpp")])
prop("K13", "Residual is source minus operator, and operators are linear",
  "For every input the residual plus the applied operator equals the source; flux, apply and boundary filling are linear in the solution, scale with beta and the coefficients as the formulas say, a constant solution has zero flux everywhere, and the interior flux divergence telescopes to the boundary fluxes.",
  INP, "every box, fields, scalars",
  "tests never relate calls to each other",
  [H+"cd_apply_1d_cuda.cpp", H+"cd_apply_2d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", H+"cdf_1d_cuda.cpp", H+"cdf_2d_cuda.cpp", H+"cdf_3d_cuda.cpp"],
  [("apply/residual pairing", H+"cd_apply_Nd_cuda.cpp")])
prop("K14", "Translating or relabelling the index box does not change results",
  "Shifting all index boxes of a call by a common integer vector, and changing ghost widths without changing the data the call needs, yields bit-identical values at the shifted cells for every kernel in both precisions.",
  CFG, "every kernel, box, shift vector (also large and negative), ghost widths",
  "tests use boxes starting near zero, mostly one ghost width per argument",
  [H+"md_device_span.hpp", H+"md_bounds.hpp", H+"cd_correct_bc_3d_cuda.cpp"], [("lower-bound normalisation", H+"md_device_span.hpp call_helper")])
prop("K15", "Directions are interchangeable and lower dimensions embed in higher ones",
  "Relabelling the coordinate directions of every argument of a direction-symmetric kernel (flux, apply, residual, assembly, boundary filling and adjustment) relabels the result, up to rounding; and data that do not vary in a direction reduce the 3-D result to the 2-D one and the 2-D result to the 1-D one.",
  CFG, "every kernel with a rule for all directions, every permutation, box and data",
  "tests treat each direction's code separately with its own fixed data",
  [H+"cdf_2d_cuda.cpp", H+"cdf_3d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp"], [("per-direction code", H+"*_3d_cuda.cpp")])
prop("K16", "Eliminating ghosts in the stencil equals filling them in the solution",
  "Let the off-diagonals be assembled, adjusted for the physical boundary, then the diagonal assembled and adjusted, and coarse-fine diagonals and off-diagonals adjusted. For every solution, the resulting rows (leaving out the boundary-value term of physical ghosts, with the coarse value in place of coarse-fine ghosts) equal the matrix-free operator applied after the boundary routines filled the physical ghosts (Dirichlet factor 2, Robin coefficients 2 and 1) and coarse-fine ghosts were interpolated (second order: quadratically with the ratio; first order: linearly with the weights of ratio two). This holds for each condition and order for which rules exist, every face, and several boundaries at once.",
  INP, "every box, coefficients, scalars, mesh widths, solution, set of boundary segments, condition, order and ratio",
  "no test relates boundary filling to stencil adjustment; each routine is compared only to its own Fortran twin on one call",
  [H+"cd_stencil_1d_cuda.cpp", H+"cd_stencil_2d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", H+"cd_correct_bc_1d_cuda.cpp", H+"cd_correct_bc_2d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp"],
  [("adjustments", H+"cd_stencil_Nd_cuda.cpp adj_*"), ("ghost filling", H+"cd_correct_bc_Nd_cuda.cpp")])
prop("K17", "Calls do not influence each other, one after another or at the same time",
  "The result of a kernel call depends on its arguments only: it is bit-identical whichever calls were made before it, in any order, with any data and however often, and when the host program makes other calls on other arrays at the same time from other threads. Calls share no unsynchronised state, and a call leaves the arrays of other calls alone.",
  ["histories", "schedules", "inputs"], "sequences of calls of one kernel or of different kernels, precisions and dimensions, and two to four host threads calling at the same time",
  "each test makes one call at a time from one thread, and most kernels are called once per process",
  [H+"cdf_3d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp", H+"coarse_to_fine_cuda.cpp", H+"md_device_span.hpp"],
  [("no shared state", H+"*_cuda.cpp: arguments and locals only"), ("views", H+"md_device_span.hpp make_md_span/copy_to")])
prop("K18", "A result depends only on the cells its formula names",
  "Changing the content of one cell of an argument array, also to infinity or to a value that is not a number, leaves every bit of all results whose formula does not name that cell: cells that a call does not need, such as unfilled ghost cells, corners and coefficients outside the box, have no influence whatever they hold, and a bad value spreads to the results that use it and no further.",
  INP, "every kernel, box, cell and content, including infinities and not-a-number",
  "tests fill every array with ordinary numbers and never change one cell at a time",
  [H+"cdf_3d_cuda.cpp", H+"cd_apply_3d_cuda.cpp", H+"cd_stencil_3d_cuda.cpp", H+"cd_correct_bc_3d_cuda.cpp", H+"coarse_to_fine_cuda.cpp", H+"forward_stencil_iterator.hpp"],
  [("domain of a call", H+"*_cuda.cpp with_domain"), ("neighbours read", H+"forward_stencil_iterator.hpp")])
# ---------------------------------------------------------------- level solver Fortran
LW = "the repository's tests never call these routines at all"
prop("L01", "Point smoothers perform exactly one weighted or coloured relaxation sweep",
  "One Jacobi sweep replaces every cell of the box by the weighted average of its old value and the value solving its own equation with old neighbours; Gauss-Seidel does the same sequentially with updated neighbours, and red-black Gauss-Seidel updates exactly the cells of the requested colour, for any stencil offsets, negative and positive index boxes and array bounds. Cells outside the box are unchanged, and an exact solution is a fixed point.",
  CFG, "every box (also negative and odd lower bounds), array bounds, stencil, colour, data, 1-3 dimensions",
  LW, ["m4/cellsmooth1d.m4", "m4/cellsmooth2d.m4", "m4/cellsmooth3d.m4"], [("relaxation sweeps", "m4/cellsmoothNd.m4")])
prop("L02", "Block smoothers add the exact solution of each block system",
  "The one- and two-unknown block sweeps add to each cell's unknowns the damped solution of that cell's own 1x1 or 2x2 system for the given right-hand side; the coupled per-cell sweep (any number of unknowns per cell, cells in storage order) stores and adds the solution of the cell's diagonal block for the right-hand side minus the coupled neighbours; the 3-D cell-block sweep adds, for each block of cells, the damped solution of the couplings inside the block for the residual of the old solution, with an arbitrary offset table. Nothing else is changed.",
  CFG, "every box, ghost width, block layout, offset table, non-singular block coefficients, data",
  LW, ["m4/cellblocksmooth1d.m4", "m4/cellblocksmooth2d.m4", "m4/cellblocksmooth3d.m4", "m4/cellsmooth3d.m4"], [("block solve", "m4/cellblocksmoothNd.m4")])
prop("L03", "Generic stencil application computes b*f + a*S*u over exactly the patch",
  "Applying a general stencil given by an offset table computes, at a point or in every cell of a rectangular patch of any shape, b times the source plus a times the sum of coefficient times solution at the offset neighbour, and writes only those cells.",
  CFG, "every patch (square or not), offset table, ghost widths, a, b, data, 1-3 dimensions",
  LW, ["m4/applystencil1d.m4", "m4/applystencil2d.m4", "m4/applystencil3d.m4"], [("stencil application", "m4/applystencilNd.m4")])
prop("L04", "Level right-hand-side corrections subtract the eliminated couplings",
  "The coarse-fine right-hand-side adjustment subtracts, in each cell of the layer next to the named segment, every stencil coefficient whose offset points across the interface times the solution it couples to; the system right-hand-side update of a patch adds, in every cell, the listed coefficients times the solution at their offsets. Both change nothing else, for every patch shape, direction, side and offset table.",
  CFG, "every patch (square or not), segment, direction, side, offset table, ghost widths, data, 1-3 dimensions",
  LW, ["m4/celladjustrhs1d.m4", "m4/celladjustrhs2d.m4", "m4/celladjustrhs3d.m4"], [("right-hand-side update", "m4/celladjustrhsNd.m4")])
prop("L05", "Node-centred flux, operator and coefficients follow the same formulas",
  "The node-centred reference routines for flux, operator application (b*f + a*L u), stencil assembly, physical-boundary and coarse-fine adjustments compute the same difference formulas as the cell-centred ones in every entry of the box or segment for 1-3 dimensions and write nothing else.",
  CFG, "every box, ghost width, scalars and fields",
  LW, ["m4/nodediffusionflux1d.m4", "m4/nodediffusionflux2d.m4", "m4/nodediffusionflux3d.m4", "m4/nodediffusionapply1d.m4", "m4/nodediffusionapply2d.m4", "m4/nodediffusionapply3d.m4", "m4/nodediffusionstencilcoeffs1d.m4", "m4/nodediffusionstencilcoeffs2d.m4", "m4/nodediffusionstencilcoeffs3d.m4"],
  [("node formulas", "m4/nodediffusion*.m4")])

# ---------------------------------------------------------------- containers
prop("V01", "An owning array keeps both its copies in step and addresses like its spans",
  "An owning array built from index ranges (and a ghost width, which widens every range but the coefficient range) has the size and extents of those ranges and starts as zeros; the element named by an index tuple is the row-major one, counted from the lower bounds, as a span over the same ranges sees it, and the container and span headers work together in one source file. After any history of device writes, host reads, conversions, fills, offset-table rows and copies, reading on the host gives what was last written on the device once the device pointer was handed out, a fill shows the same numbers on both sides within the requested range, a table row appears on both sides at its place, and a copy is independent of its original.",
  ["histories", "inputs"], "every storage order, index range, ghost width, element type and history of operations",
  "the container is exercised only on the way into kernel comparisons, with one write and one read per array",
  ["src/md_device_vector.hpp", H+"md_bounds.hpp", H+"matrix_utils.hpp"], [("lazy host synchronisation", "src/md_device_vector.hpp host/operator std::vector"), ("addressing", "src/md_device_vector.hpp index"), ("ghost widening", H+"md_bounds.hpp expand_bounds")])
prop("V02", "Random picks stay in their range, cover it, and repeat with the generator",
  "A pick of integers lies between both ends inclusive and reaches every value of a short range, a pick of reals lies in the given range (zero to one where an end is not given) and reaches both halves of it, for every range; setting the shared generator to the same state repeats the same picks.",
  INP, "every integer range (also negative and up to the whole int range), every real range, every seed",
  "tests use picks only as input data and would pass with any numbers",
  ["src/random.cpp", "src/random.hpp"], [("pick", "src/random.cpp pick"), ("shared generator", "src/random.cpp global_urng/randomize")])
prop("S01", "The copyright script stamps each C++ source once and changes nothing else",
  "Running the copyright script on a project puts the project's notice, every line as a C++ comment and two empty lines after it, in front of every file below src whose name ends in pp and whose first ten lines do not name a Copyright. The file's own bytes, line endings and permissions are kept, every other file and directory stays as it was, nothing is left behind, and running the script again with a notice that names a Copyright changes nothing.",
  ["inputs", "histories"], "every notice, every tree of file names, directories and contents (also CRLF, non-UTF-8, empty files), every number of runs",
  "no test runs the script", ["scripts/add_copyright.py"], [("stamping", "scripts/add_copyright.py add_copyright"), ("recognition of a stamped file", "scripts/add_copyright.py file_contains_copyright"), ("choice of files", "scripts/add_copyright.py main loop")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
