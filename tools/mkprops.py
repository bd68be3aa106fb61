#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
C = "src/cuda/"
p("C01", "Every view is a lawful random-access range",
  "For every view the library hands out (rectangular sub-blocks with or without strides, axis permutations, neighbour-pair views, coarse-to-fine views, offset views) the element seen after any sequence of increments, decrements and jumps of any sign is the element at the resulting position. Distances, equality and ordering always agree with those positions, and the past-the-end position reached by jumping is the same one reached by stepping and can be walked back from. No sequence of moves inside the range changes what a position refers to.",
  ["inputs", "histories"],
  "all ranks 1..4, extents, sub-block limits, strides, axis permutations and pair directions; all sequences of ++, --, += n, -= n, [n] that stay within [begin, end]",
  "Tests walk a few shapes forwards and check jumps only from begin(); negative jumps, jumps that land on a row or block boundary, and mixed histories through end() are never exercised.",
  [C+"matrix_traversal_iterator.hpp", C+"forward_stencil_iterator.hpp", C+"coarse_to_fine_iterator.hpp", C+"offset_iterator.hpp", C+"matrix_utils.hpp"],
  [("branch-free odometer increment/decrement", C+"matrix_traversal_iterator.hpp: increment, decrement"),
   ("ravel/unravel with end-position adjustment", C+"matrix_utils.hpp: ravel, unravel"),
   ("block skip bookkeeping of pair views", C+"forward_stencil_iterator.hpp: increment, decrement, advance")],
  [("current[N]", "logical coordinate of the cursor", C+"matrix_traversal_iterator.hpp"),
   ("current_distance/distance_to_last", "position within a contiguous run / to the end", C+"forward_stencil_iterator.hpp")],
  ["dereferenced address, it2-it1, ==, <, it[n]"])
p("C02", "A view addresses exactly the elements its bounds and axis order name",
  "An array declared over named-axis bounds in some storage order, with any lower bounds (including negative) and any ghost width, when restricted to any sub-box with any strides and listed in any axis order, yields exactly the elements with those coordinates, in row-major order of the requested axes, each once. It never refers to any element outside the declared array.",
  ["inputs", "configurations"],
  "all ranks, storage orders, request orders, declared boxes, ghost widths, sub-boxes and strides",
  "Tests use a handful of orders with small positive boxes; negative origins and strided permuted sub-boxes are not sampled.",
  [C+"md_device_span.hpp", C+"submatrix_iterator.hpp", C+"transpose_iterator.hpp", C+"matrix_utils.hpp", C+"traits.hpp"],
  [("reordering of bounds into storage order", C+"md_device_span.hpp: call_helper"),
   ("sub-block size/stride computation", C+"submatrix_iterator.hpp: make_submatrix_helper"),
   ("axis permutation", C+"transpose_iterator.hpp: make_transpose_fn")],
  [("b[N]", "declared bounds of the array", C+"md_device_span.hpp")],
  ["address of every element of the view"])
p("C03", "Neighbour-pair views pair each element with its successor along one axis",
  "The pair view along an axis of a box enumerates, in row-major order of the box shortened by one along that axis, each element together with the element one step further along that axis, each pair once and nothing else. This holds at every position, however that position was reached.",
  ["inputs", "histories"],
  "all ranks 1..4, all extents >= 2 along the axis, every axis, every permutation of the underlying view, every way of reaching a position",
  "Tests compare a few shapes by forward traversal; the rollover arithmetic depends on extents, axis and direction of motion jointly.",
  [C+"forward_stencil_iterator.hpp", C+"matrix_traversal_iterator.hpp"],
  [("pair stride/run length/total size", C+"matrix_traversal_iterator.hpp: stencil<I>, stencil(int)"),
   ("rollover skip", C+"forward_stencil_iterator.hpp: increment, decrement, advance")],
  [("first/current_distance", "position of the left element and within its run", C+"forward_stencil_iterator.hpp")],
  ["addresses of both members of each pair"])
p("C04", "Directional difference and shift act on the named axis in any storage order",
  "A gradient, neighbour pair or shift in the x, y or z direction evaluated at a point uses exactly the values at that point and at the point displaced along that named axis (forward pairs [i,i+1], backward pairs [i-1,i], shifts by the given signed amounts on one or two axes), whatever storage order the array has and whatever axis order the computation is written in. The gradient is the difference of the pair divided by the spacing.",
  ["inputs", "configurations", "programs"],
  "all storage orders x computation orders x direction x up/down x signed shifts x boxes with unit stride",
  "Tests fix one or two order combinations per kernel; a slip in the axis map is invisible when extents or orders coincide.",
  [C+"md_device_span.hpp", C+"traits.hpp", C+"iter_math.hpp"],
  [("axis lookup and bound widening", C+"md_device_span.hpp: stencil_helper, shift_v"),
   ("shift by axis", C+"md_device_span.hpp: shift_helper, shift_xy/xz/yz"),
   ("gradient", C+"iter_math.hpp: gradient")],
  [], ["value stored by an assignment whose right side uses the operator"])
p("C05", "Lazy expressions mean pointwise arithmetic with C++ precedence and association",
  "The value an expression of arrays, scalars, gradients, shifts and nested sub-expressions stores at each point equals the value of the same arithmetic written for that point alone, with operands in the written order (including scalar-left and scalar-right forms, subtraction and division) and every operand read at that point's coordinates. Operands are not modified and temporaries in the expression do not affect the result.",
  ["programs", "inputs"],
  "all expression trees over + - * /, scalars and array operands of any supported kind, all boxes",
  "The expression language is infinite; tests contain about a dozen fixed expressions.",
  [C+"iter_math.hpp", C+"md_device_span.hpp", C+"traits.hpp", C+"stencil_impl.hpp"],
  [("expression nodes and scalar binding side", C+"iter_math.hpp: transform_op, apply_left, apply_right, apply_zip"),
   ("value category capture", C+"traits.hpp: arithmetic_by_value_t")],
  [], ["contents of the assigned array"])
p("C06", "An assignment writes every point of its domain once and nothing else",
  "After an assignment over a domain, every point of the domain (as selected by its bounds and strides, including the last point of a strided range and single-point or empty domains) holds the right-hand side's value and every other element, including ghosts, skipped points and the operands, is unchanged. With no explicit domain the declared box of the assigned array is the domain, and several assignments under one domain take effect in order.",
  ["inputs", "programs"],
  "all domains within the declared box, all strides, all ghost widths, all storage orders, scalar and expression right-hand sides, window assignments included",
  "Tests compare the interior of a few boxes; untouched neighbours, strided tails and empty domains are seldom compared.",
  [C+"md_device_span.hpp", C+"md_bounds.hpp", C+"submatrix_iterator.hpp"],
  [("domain drivers", C+"md_device_span.hpp: assign_proxy, with_domain, with_lhs_domain"),
   ("domain extent", C+"md_bounds.hpp: size; "+C+"submatrix_iterator.hpp: n[]")],
  [], ["whole backing store of every array before and after"])
p("C07", "Window updates run their assignments in order on each point's own window",
  "A multi-assignment over a window domain behaves at every point as if its assignments were executed one after another on that point's window entries: an assignment sees the results of the earlier ones, a two-index form receives the two members of the neighbour pair, and array operands are read at that point with the operand order as written. Entries not named, other points' windows and the operands are unchanged; the self-subtracting form updates each target element by the window product at that point.",
  ["programs", "inputs"],
  "all sequences of window assignments over supported right-hand sides, all boxes, window widths and storage orders",
  "Tests hold five fixed window programs on one shape.",
  [C+"stencil_proxy.hpp", C+"md_device_span.hpp", C+"window_iterator.hpp"],
  [("per-point sequential execution", C+"stencil_proxy.hpp: tp_invoke, tp_layered_invoke"),
   ("operand tuple construction", C+"stencil_proxy.hpp: get_iterators, maybe_invoke_with"),
   ("window driver", C+"md_device_span.hpp: with_domain(W, P...)")],
  [], ["whole backing store of window and operands"])
p("C08", "Offset-table products read each neighbour the table names",
  "The product of a coefficient window with an offset table at a point is the sum over table rows of the coefficient times the operand's value at the point displaced by that row (first column the fastest spatial axis), in any supported rank, box, ghost width and declared operand order of the computation. Offset views visit table rows in order and dereference the displaced element.",
  ["inputs", "configurations"],
  "all ranks 1..3, tables of signed offsets inside the ghost region, boxes, strided or unit domains, axis orders",
  "Tests use one canonical 3/5/7-point table and unit-stride boxes.",
  [C+"md_device_span.hpp", C+"offset_iterator.hpp"],
  [("stride reversal to match table columns", C+"md_device_span.hpp: dot_impl, dot_helper"),
   ("table row addressing", C+"offset_iterator.hpp: dereference")],
  [("o_idx", "current table row", C+"offset_iterator.hpp")], ["stored products; dereferenced addresses"])
p("C09", "Coarse-to-fine reads use the coarse cell that contains the fine cell",
  "Reading a coarse array on a fine index range along one axis gives, at fine index f, the coarse value at floor(f / ratio) for every sign of f, any ratio >= 1 and any starting index, with the other coordinates fixed as given. The line-copy and corner-copy operations write exactly the requested fine cells with those values.",
  ["inputs", "histories"],
  "all ratios, fine start/end (negative included), axes, declared boxes, ghost widths, and ways of reaching a position",
  "Tests use a few positive/negative ranges with ratio 2 or so and forward traversal only.",
  [C+"coarse_to_fine_iterator.hpp", C+"md_device_span.hpp", C+"coarse_to_fine_cuda.cpp", "m4/copycoarsetofine.m4"],
  [("floor division", C+"coarse_to_fine_iterator.hpp: coarse_index, dereference"),
   ("axis selection and base index", C+"md_device_span.hpp: fine, coarse_to_fine"),
   ("line/corner copy", C+"coarse_to_fine_cuda.cpp: copy, copy_corner")],
  [("fi/ci", "fine index and base coarse index", C+"coarse_to_fine_iterator.hpp")], ["copied cells; dereferenced addresses"])
p("C10", "Bounds algebra and index computations agree everywhere",
  "Growing, shrinking, shifting, expanding and stride-dropping a range change exactly the ends they name; its reported size is the number of indices it selects. The linear index an owning array computes for a coordinate, the element a view reports at that coordinate and the position the traversal visits it at all agree, for every declared box and storage order.",
  ["inputs", "histories"],
  "all ranges, signed adjustments and sequences of adjustments; all coordinates of all declared boxes",
  "Tests use these operations only incidentally.",
  [C+"md_bounds.hpp", "src/md_device_vector.hpp", C+"md_device_span.hpp"],
  [("range arithmetic", C+"md_bounds.hpp: operator+, operator-, expand, shift, unit_stride, size"),
   ("element access", C+"md_device_span.hpp: at; src/md_device_vector.hpp: index, dim, size")],
  [("first/last/stride", "half-open range", C+"md_bounds.hpp")], ["lb, ub, size, index, at"])
p("C11", "Results do not depend on thread count, backend or execution order",
  "Every domain assignment, window update and solver kernel whose points write distinct elements and read only inputs or their own output point gives the same stored values for any number of threads, any partition and interleaving of points among threads, and for the serial and multithreaded back ends.",
  ["schedules", "programs"],
  "all partitions/interleavings of the points of a domain among workers; all supported statements and kernels",
  "Tests run one backend with one thread count on the machine at hand.",
  [C+"md_device_span.hpp", C+"stencil_proxy.hpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp"],
  [("data-parallel drivers over random-access views", C+"md_device_span.hpp: assign_proxy, with_domain"),
   ("one point per work item, no cross-point output reads", C+"stencil_proxy.hpp: tp_invoke")],
  [], ["whole backing store under 1..8 threads and under the sequential backend"])
p("C12", "Owning arrays keep host and device copies coherent",
  "Reading an owning array on the host returns the values most recently written, whether they were written through its device pointer, by random fill, by offset initialisation or at construction, for any sequence of these operations, copies included. Reads never alter contents, and sizes match the declared box.",
  ["histories"],
  "all sequences of construct, fill, obtain device pointer, write through it, read host view, convert, copy",
  "Tests perform one write phase followed by one read.",
  ["src/md_device_vector.hpp"],
  [("dirty flag and refresh", "src/md_device_vector.hpp: data, host, operator std::vector, fill_random, set_offset")],
  [("sync", "host mirror is current", "src/md_device_vector.hpp"), ("h, d", "host and device storage", "src/md_device_vector.hpp")],
  ["values returned by host reads"])
p("C13", "Operator and residual kernels compute the stated discrete operator",
  "In 1, 2 and 3 dimensions the operator kernels store -beta*div(F)+alpha*a*u (a absent or the whole reaction term absent in the variants) and the residual kernels store f+beta*div(F)-alpha*a*u at every interior cell, where div sums over axes the difference of the two face fluxes of that cell over that axis's spacing. Ghost widths of each array may differ and cells outside the interior box are untouched.",
  ["inputs", "configurations"],
  "all boxes (negative origins, single cells), independent ghost widths, spacings, coefficients, array contents",
  "Tests use one or two box shapes with equal spacing of arguments and compare against a reference that shares conventions.",
  [C+"cd_apply_1d_cuda.cpp", C+"cd_apply_2d_cuda.cpp", C+"cd_apply_3d_cuda.cpp"],
  [("kernel statements", C+"cd_apply_{1,2,3}d_cuda.cpp")], [], ["result array"])
p("C14", "Flux kernels compute face fluxes from the two cells adjoining each face",
  "For every face of the box normal to each axis (both boundary faces included) the stored flux is the face coefficient times the difference of the cell values on its two sides divided by that axis's spacing, and the constant-coefficient variant omits the coefficient. Faces are stored in the layout of that axis's face array and nothing else is written.",
  ["inputs", "configurations"],
  "all boxes, ghost widths of u, spacings, contents, ranks 1..3",
  "Tests use equal extents or a single shape and cannot distinguish exchanged axes everywhere.",
  [C+"cdf_1d_cuda.cpp", C+"cdf_2d_cuda.cpp", C+"cdf_3d_cuda.cpp"],
  [("kernel statements", C+"cdf_{1,2,3}d_cuda.cpp: flux, poisson_flux")], [], ["face arrays"])
p("C15", "Boundary kernels fill exactly the requested ghosts with the right extrapolation",
  "For every side, order and boundary type (value, slope, mixed) the boundary kernels set each ghost on the requested segment to the documented combination of the inward neighbours and face coefficients, corner and edge ghosts to the documented combination of already-filled neighbours, and leave every other element unchanged. Combinations the interface does not define change nothing.",
  ["inputs", "configurations"],
  "all sides/edges/corners, orders, types, segments inside the box, coefficients, ghost widths and contents, ranks 1..3",
  "Tests sample a few combinations of a product space of side x type x order x segment.",
  [C+"cd_correct_bc_1d_cuda.cpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp"],
  [("per-side dispatch and extrapolation statements", C+"cd_correct_bc_{1,2,3}d_cuda.cpp: set_bc, set_poisson_bc, set_corner_bc, set_homogenous_bc")],
  [], ["the array u including all ghosts"])
p("C16", "Stencil assembly stores the coefficients of the discrete operator",
  "The off-diagonal assembly kernels store, for every cell and axis, minus beta times the face coefficient over the squared spacing for the low and the high neighbour; the diagonal kernels store minus the sum of the off-diagonals plus the reaction term of the variant. Every entry of the window in the box is set and nothing else.",
  ["inputs", "configurations"],
  "all boxes, ghost widths, coefficients, spacings, contents, ranks 1..3",
  "Tests use one shape per rank; entries for swapped axes or sides coincide for symmetric data.",
  [C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp"],
  [("assembly statements", C+"cd_stencil_{1,2,3}d_cuda.cpp: offdiag, v1diag, v2diag, poisson_offdiag, poisson_diag")],
  [], ["the stencil array"])
p("C17", "Boundary stencil adjustments change only the boundary layer, as documented",
  "For every side, boundary type and order, including coarse-fine sides with any refinement ratio, the adjustment kernels modify exactly the window entries of the cells adjoining the requested boundary segment by the documented formula, and the right-hand-side adjustment subtracts the removed coupling times the ghost value exactly once per cell. All other entries and arrays are unchanged.",
  ["inputs", "configurations"],
  "all sides, types, orders, ratios, segments, coefficients, contents, ranks 1..3",
  "A product of side x type x order x variant of which tests visit a small part, comparing only sampled segments.",
  [C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp"],
  [("adjustment statements", C+"cd_stencil_{1,2,3}d_cuda.cpp: adj_diag, adj_poisson_diag, adj_cf_diag, adj_poisson_cf_diag, adj_offdiag, adj_poisson_offdiag, adj_cf_offdiag, readj_offdiag, adj_cf_bdryrhs")],
  [], ["the stencil and right-hand-side arrays"])
p("C18", "Kernel call sequences compose: each call is a function of current contents",
  "In any sequence of kernel calls on shared arrays, each call's effect depends only on the arrays' current contents and its arguments, and it changes only the array it is documented to produce. Repeating an assembly, interleaving boundary adjustments of different sides, or re-running a call gives exactly the composition of the individual effects.",
  ["histories"],
  "all finite sequences of kernel calls with arbitrary arguments on shared arrays",
  "Every test issues one call on fresh data.",
  [C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp", C+"cd_apply_3d_cuda.cpp", C+"cdf_3d_cuda.cpp"],
  [("stateless kernels over caller arrays", C+"*_cuda.cpp")],
  [("caller arrays", "u, fluxes, residual, stencil, rhs, coefficients", "arguments of every kernel")], ["all arrays after each call"])
p("C19", "Matrix-free and assembled forms are the same discrete operator",
  "For any data, applying the operator through fluxes and divergence equals multiplying by the assembled stencil at every interior cell; the residual equals right-hand side minus the operator; without reaction the stencil rows sum to zero and, away from the boundary, neighbouring off-diagonals are equal; and the sum of the divergence over the box equals the net boundary flux.",
  ["inputs", "configurations"],
  "all boxes, coefficients, spacings, contents, ranks 1..3",
  "Tests compare each kernel with its own reference and never one kernel family with another.",
  [C+"cd_apply_2d_cuda.cpp", C+"cd_apply_3d_cuda.cpp", C+"cdf_2d_cuda.cpp", C+"cdf_3d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp"],
  [("shared sign, spacing and face conventions", C+"cdf_*d_cuda.cpp, "+C+"cd_apply_*d_cuda.cpp, "+C+"cd_stencil_*d_cuda.cpp")],
  [], ["results of the two pipelines on the same data"])
p("C20", "Single and double precision compute the same formulas",
  "Every kernel and lazy expression instantiated in single precision computes the same formula over the same points as in double precision, differing only by rounding of that precision; integer-valued data with exactly representable results give identical results.",
  ["inputs", "configurations"],
  "all kernels and statement kinds, all argument combinations with exactly representable results",
  "Tests instantiate double precision only.",
  [C+"cd_apply_3d_cuda.cpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cdf_2d_cuda.cpp", C+"coarse_to_fine_cuda.cpp", C+"iter_math.hpp"],
  [("templates over the element type", C+"*_cuda.cpp explicit instantiations")], [], ["single- and double-precision outputs on the same data"])
p("C21", "Ported kernels agree with the reference kernels they replace",
  "For every ported kernel and every argument combination both implementations define, the data-parallel version and the reference Fortran version leave the same contents in every array. The reference itself satisfies the same stated formulas.",
  ["inputs", "configurations"],
  "all kernels with a reference, all in-range arguments, boxes (negative origins included), ghost widths and contents",
  "Tests compare the two on a few random shapes and never check either against a stated meaning.",
  ["m4/celldiffusionapply3d.m4", "m4/celldiffusionflux3d.m4", "m4/cellsetcorrectionbc2d.m4", "m4/cellsetcorrectionbc3d.m4", "m4/celldiffusionstencilcoeffs2d.m4", "m4/celldiffusionstencilcoeffs3d.m4", "m4/copycoarsetofine.m4"],
  [("reference kernels", "m4/*.m4"), ("ported kernels", C+"*_cuda.cpp")], [], ["all arrays after the same call on both implementations"])
p("C22", "General stencils are applied and moved to the right-hand side as asked",
  "For any stencil given as a list of offsets (centre included or not, any order, any length) with per-cell coefficients, the application kernels set every cell of the requested box (or the single requested point) to beta times f plus alpha times the sum of coefficient times neighbour value; the system adjustment adds that sum to f over the box with the given number of coefficients per cell; and the coarse-fine adjustment subtracts, from the cells adjoining the given side only, exactly the couplings whose offset crosses that side. Nothing else changes, in one, two and three dimensions.",
  ["inputs", "configurations"],
  "all boxes (negative origins included), offset tables, coefficients, ghost widths, sides, segments, contents, ranks 1..3",
  "No test calls these kernels; an index that is wrong only for non-square boxes or for one side is invisible on symmetric data.",
  ["m4/applystencil1d.m4", "m4/applystencil2d.m4", "m4/applystencil3d.m4", "m4/celladjustrhs1d.m4", "m4/celladjustrhs2d.m4", "m4/celladjustrhs3d.m4"],
  [("application on a patch or at a point", "m4/applystencil{1,2,3}d.m4"), ("system and coarse-fine adjustment", "m4/celladjustrhs{1,2,3}d.m4")],
  [], ["the output array and all others, before and after each call"])
p("C23", "Smoothers perform exactly their iteration on exactly the requested cells",
  "A Jacobi call adds to every cell of the box the damped residual over the diagonal, computed from the old values; a Gauss-Seidel call relaxes the cells of the box in order of their index, each seeing the cells relaxed before it; a coloured call does so for the cells of the requested colour only, the two colours partitioning every box wherever its origin lies; the block variants solve the local one-by-one, two-by-two, n-by-n or box-shaped systems with all their coefficients. Consequently the solution of the discrete equations is a fixed point of every smoother, cells outside the box keep their values, and double precision is kept throughout.",
  ["inputs", "configurations", "histories"],
  "all boxes inside the arrays (negative origins included), stencils, diagonals, block shapes, contents, sequences of calls, ranks 1..3",
  "No test calls these kernels; order, colour, damping and block structure show only on particular boxes and contents.",
  ["m4/cellsmooth1d.m4", "m4/cellsmooth2d.m4", "m4/cellsmooth3d.m4", "m4/cellblocksmooth1d.m4", "m4/cellblocksmooth2d.m4", "m4/cellblocksmooth3d.m4"],
  [("point smoothers", "m4/cellsmooth{1,2,3}d.m4"), ("block smoothers", "m4/cellblocksmooth{1,2,3}d.m4")],
  [("iterate", "u", "every smoother call")], ["all arrays after each call"])
p("C24", "The node-centred operator obeys the same formulas as the cell-centred one",
  "The node-centred kernels compute face fluxes, apply the operator in the form b f + a (alpha times reaction plus beta times divergence), assemble its stencil and adjust it at boundaries and coarse-fine interfaces by the same documented formulas as the cell-centred family, along every axis, on exactly the entries asked for; the application equals the product with the assembled stencil.",
  ["inputs", "configurations", "histories"],
  "all boxes, ghost widths, coefficients, spacings, sides, boundary types, orders, ratios, contents, sequences of calls, ranks 1..3",
  "No test calls these kernels; an axis mixed up with another one is invisible for symmetric data.",
  ["m4/nodediffusionapply1d.m4", "m4/nodediffusionapply2d.m4", "m4/nodediffusionapply3d.m4", "m4/nodediffusionflux1d.m4", "m4/nodediffusionflux2d.m4", "m4/nodediffusionflux3d.m4", "m4/nodediffusionstencilcoeffs1d.m4", "m4/nodediffusionstencilcoeffs2d.m4", "m4/nodediffusionstencilcoeffs3d.m4"],
  [("application", "m4/nodediffusionapply{1,2,3}d.m4"), ("fluxes", "m4/nodediffusionflux{1,2,3}d.m4"), ("assembly and adjustment", "m4/nodediffusionstencilcoeffs{1,2,3}d.m4")],
  [("caller arrays", "u, fluxes, result, stencil, rhs", "every call")], ["all arrays after each call"])
p("C25", "Ghosts, adjusted stencils and moved right-hand sides state one boundary problem",
  "Filling the ghost cells of a side, adjusting the stencil there and moving couplings to the right-hand side are three statements of the same boundary problem. For a homogeneous Dirichlet, Neumann or Robin condition of first or second order, the ghost written is the value for which the polynomial through it and the cells next to it meets the condition at the face; the adjusted row applied to the interior cells equals the unadjusted row applied with the filled ghosts, and rows away from the side are untouched. At a coarse-fine interface of any ratio the adjusted row equals the row whose ghost is interpolated from the coarse value and the fine cells. Moving the coupling across a side to the right-hand side keeps the residual of the equations. Edges and corners continue the sides so that mixed differences vanish; the homogeneous fill of order k is the polynomial of degree k that vanishes on the face.",
  ["inputs", "configurations", "histories"],
  "all ranks 1..3, sides, types, orders, ratios, segments, coefficients and contents; any order of the sides and of the adjustments",
  "Tests compare each kernel with its own reference on one call; a wrong coefficient present in both, or a ghost and a stencil that disagree, passes every test.",
  [C+"cd_correct_bc_1d_cuda.cpp", C+"cd_correct_bc_2d_cuda.cpp", C+"cd_correct_bc_3d_cuda.cpp", C+"cd_stencil_1d_cuda.cpp", C+"cd_stencil_2d_cuda.cpp", C+"cd_stencil_3d_cuda.cpp", "m4/cellsetcorrectionbc3d.m4", "m4/celldiffusionstencilcoeffs3d.m4"],
  [("ghost filling", C+"cd_correct_bc_{1,2,3}d_cuda.cpp: set_bc, set_poisson_bc, set_homogenous_bc"), ("row adjustment", C+"cd_stencil_{1,2,3}d_cuda.cpp: adj_*, readj_offdiag, adj_cf_bdryrhs")],
  [("caller arrays", "u with ghosts, stencil, rhs", "every call")], ["ghosts, stencil rows and right-hand side after a scenario of calls"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
