#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
I = "include/samurai/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Cell collections contain exactly the cells that were inserted",
  "Whatever cells and runs of cells are inserted into a cell collection, in whatever order, overlapping, touching, repeated or with negative coordinates, the collection holds exactly the union of what was inserted, stored per row as sorted, disjoint, non-touching runs. Converting between the list form used to build and the array form used to compute, in 1, 2 or 3 dimensions and over several levels, loses and adds nothing. Cell counts, emptiness, level extents, index bounds and equality are those of that set of cells.",
  ["inputs", "histories"], "all sequences of insertions into list-form collections, all resulting cell sets, dimensions 1-3, one or many levels",
  "test_list_of_intervals/test_level_cell_list/test_cell_list insert a handful of fixed intervals; the merge logic has a case per relative position of the new run to every stored run, and the list-to-array compression a case per row pattern.",
  ["list_of_intervals.hpp", "level_cell_list.hpp", "cell_list.hpp", "level_cell_array.hpp", "cell_array.hpp", "interval.hpp"],
  [("interval insertion and merging", "list_of_intervals.hpp:add_interval"), ("list to array compression", "level_cell_array.hpp:init_from_level_cell_list"), ("multi-level conversion", "cell_array.hpp:CellArray(cell_list)")])

p("C02", "Iteration and lookup agree with the stored cells",
  "Traversing a cell collection, forwards or backwards, visits every stored run of cells exactly once, in lexicographic order, with the right transverse coordinates. Looking up a coordinate (its run, its storage index, its cell) succeeds exactly when a cell is stored there and returns that very cell; storage indices number the cells consecutively with neither gap nor repetition. The geometric data of a cell (length, corner, centre, face centres) follow from its level and coordinates and the domain's origin and scale.",
  ["inputs"], "all small cell sets in 1-3 dimensions and over several levels, all coordinates in and around them",
  "test_cell_array and test_level_cell_array check a few fixed boxes; lookups use per-dimension binary searches whose off-by-one cases depend on the exact pattern of rows and runs.",
  ["level_cell_array.hpp", "cell_array.hpp", "algorithm.hpp", "cell.hpp", "mesh_interval.hpp"],
  [("row iterator", "level_cell_array.hpp:LevelCellArray_iterator"), ("multi-level iterator", "cell_array.hpp:CellArray_iterator"), ("dimension-wise search", "algorithm.hpp:find_impl"), ("index numbering", "cell_array.hpp:update_index")])

p("C03", "Interval arithmetic is arithmetic on sets of integers",
  "Shifting, scaling, coarsening and refining an interval of cells gives the interval of the correspondingly shifted, scaled, coarsened or refined cells, for positive and negative coordinates alike; coarsening covers every original cell and refining contains exactly the children. Size, emptiness, membership, even/odd sub-intervals and comparisons agree with the set of integers the interval denotes.",
  ["inputs"], "all intervals with small (also negative) bounds, all operations, all shift amounts and strides",
  "test_interval samples a few intervals; rounding for negative and odd bounds is where a shift or a parity test goes wrong.",
  ["interval.hpp"], [("interval operators", "interval.hpp:Interval"), ("even/odd sub-intervals", "interval.hpp:even_elements, odd_elements")])

p("C04", "Set expressions denote the pointwise set operation",
  "An expression of intersections, unions and differences over cell collections, nested in any way and evaluated at any level, hands out exactly the cells that belong to the set so denoted, each exactly once, as non-empty disjoint runs (in lexicographic order unless the evaluation refines). When operands or the evaluation live on different levels, an operand on a coarser level stands for all its descendants; for an evaluation on a coarser level each operand is first replaced by the cells of that level containing one of its cells, and the operands are then combined cell by cell. Evaluating the same expression twice gives the same cells.",
  ["inputs", "programs"], "all pairs and triples of small cell sets, all expression shapes up to depth two, all level combinations, dimensions 1-3",
  "test_operator_set samples random sets for a few 1-level expressions and a fixed list of subsets; the sweep-line evaluation has a distinct path for each interleaving of run boundaries.",
  ["subset/subset_op.hpp", "subset/subset_op_base.hpp", "subset/subset_node.hpp", "subset/node_op.hpp"],
  [("sweep-line evaluation", "subset/subset_op.hpp:sub_apply"), ("operator kernels", "subset/subset_op_base.hpp"), ("level change of a node", "subset/subset_node.hpp")])

p("C05", "Translated, shrunk and grown sets are exactly shifted, shrunk or grown",
  "Translating a cell set by a vector yields every cell of the set moved by that vector; shrinking it by a vector c yields the cells for which both the cell displaced by +c and the cell displaced by -c are in the set; growing it by a vector yields the union of its translations by all sign combinations of that vector. These compose with intersection, union and difference, with each other and with evaluation on other levels, in all dimensions and for negative coordinates.",
  ["inputs", "programs"], "all small cell sets, all translation vectors and widths in range, nestings with set operations and level changes",
  "Tests translate and contract a few boxes only; ghost layers, boundary layers and periodic images are all computed through these nodes.",
  ["subset/node_op.hpp", "subset/subset_op.hpp"],
  [("translation", "subset/node_op.hpp:translate_op"), ("contraction", "subset/node_op.hpp:contraction_op"), ("expansion", "subset/node_op.hpp:expand")])

p("C06", "Traversals hand out each cell once, with its own storage",
  "Every traversal of cells or cell runs - over a collection, a mesh, one level, or the cells of a set expression - hands out each cell exactly once, and the storage index, level, coordinates and geometry it hands out are those of that cell, so that writing through them and reading by coordinate agree.",
  ["inputs", "configurations"], "all small meshes of up to three levels, all sub-collections and set expressions over them, dimensions 1-3",
  "test_for_each only checks two fixed meshes; a wrong storage index for a cell in the second row or for an expression over another sub-mesh silently aliases another cell.",
  ["algorithm.hpp", "mesh.hpp", "field.hpp"],
  [("cell traversal", "algorithm.hpp:for_each_cell"), ("run traversal", "algorithm.hpp:for_each_interval, for_each_meshinterval"), ("sub-mesh renumbering", "mesh.hpp:renumbering")])

p("M01", "A mesh provides every ghost its leaves need, with unique storage",
  "For every leaf configuration, a mesh keeps its leaves exactly as given and provides storage for every neighbour within the stencil width of each leaf (across periodic boundaries too), for the ancestors needed to project leaves and the neighbourhoods needed to predict ghosts. Each storage cell belongs to exactly one (level, coordinate) pair, and every sub-collection of the mesh uses that same numbering. Copying or swapping meshes carries all of this over, including level bounds, domain and periodicity.",
  ["inputs", "configurations"], "all graded leaf configurations of small domains, 1-3 dimensions, all stencil widths and periodicity flags in range, every mesh kind",
  "Tests build a few box meshes on a single level; missing ghosts only appear at particular corner/level-jump/periodic configurations.",
  ["mesh.hpp", "mr/mesh.hpp", "mr/mesh_with_overleaves.hpp", "amr/mesh.hpp", "uniform_mesh.hpp"],
  [("ghost construction", "mr/mesh.hpp:update_sub_mesh_impl"), ("AMR ghost construction", "amr/mesh.hpp:update_sub_mesh_impl"), ("union of finer levels", "mesh.hpp:construct_union"), ("renumbering", "mesh.hpp:renumbering")])

p("M02", "Graduation yields the coarsest graded refinement",
  "Graduating any multi-level leaf configuration yields leaves that tile the same region, in which cells in contact (including through corners, or as far as the requested width) differ by at most one level. No leaf is ever coarsened, nothing is refined that the 2:1 rule does not force, and graduating a graded mesh changes nothing.",
  ["inputs"], "all leaf configurations obtained by refining small root grids up to three levels deep, dimensions 1-3, all supported stencils and widths",
  "test_graduation checks one random 2D/3D refinement for the final property only.",
  ["graduation.hpp", "algorithm/graduation.hpp"],
  [("graduation of a cell array", "graduation.hpp:make_graduation"), ("list intervals to refine", "graduation.hpp:list_intervals_to_refine"), ("tag graduation", "algorithm/graduation.hpp:graduation")])

p("M03", "Adaptation keeps a graded partition of the domain within level bounds",
  "Whatever the field values, thresholds and the current mesh, after any sequence of multiresolution adaptations the leaves tile the domain exactly once, stay between the minimum and maximum level, and differ by at most one level between neighbours (across periodic boundaries too). A mesh whose minimum and maximum levels coincide is left alone, constant fields coarsen the mesh to the minimum level (on domains made of whole cells of the level below it), and a finest-level detail above the threshold is never coarsened away.",
  ["histories", "inputs", "configurations"], "all reachable leaf configurations of small domains under all field value patterns of a finite alphabet and thresholds, 1-3 dimensions, periodic and not",
  "No test that runs here calls the adaptation at all; the tag phases (coarsen, keep, refine, graduate) interact in ways that depend on the mesh history.",
  ["mr/adapt.hpp", "mr/criteria.hpp", "mr/operators.hpp", "algorithm/update.hpp", "algorithm/utils.hpp", "algorithm/graduation.hpp"],
  [("adaptation loop", "mr/adapt.hpp:harten"), ("tagging", "mr/criteria.hpp:to_coarsen_mr, to_refine_mr"), ("rebuilding the mesh", "algorithm/update.hpp:update_field_mr")])

p("M04", "Adaptation transfers data conservatively and follows the tags",
  "When the mesh is adapted, each field registered with the adaptation, of whatever number of components or memory layout, and every other field passed along, is carried to the new mesh: cells that stay keep their values, merged cells receive the mean of their children, and split cells receive children whose mean is the parent's value, so integrals are preserved. Constant fields stay constant and polynomial data within the prediction's degree that vary along one coordinate direction are split exactly. Cells flagged to be refined, coarsened or kept end up so, as far as siblings agree and level bounds allow.",
  ["histories", "inputs"], "all reachable meshes and field patterns as for adaptation; all flag patterns for flag-driven updates, several fields and layouts",
  "No running test exercises the transfer of data between meshes.",
  ["algorithm/update.hpp", "mr/adapt.hpp", "numeric/prediction.hpp", "numeric/projection.hpp", "field.hpp"],
  [("transfer", "algorithm/update.hpp:update_field_mr, update_field"), ("coarse value", "numeric/projection.hpp"), ("fine value", "numeric/prediction.hpp")])

p("N01", "Projection and prediction are mutually consistent and exact",
  "Projecting fine values onto a coarser cell gives the mean of its children; predicting fine values from coarse ones preserves the coarse mean, so that projecting a prediction returns the coarse value. With prediction order s, cell averages of polynomials up to degree 2s are predicted exactly, in every dimension, for every child position, for every scalar or vector field and memory layout.",
  ["inputs", "configurations"], "all children positions and parities, all basis input vectors of the (linear) operators, orders 0-5, dimensions 1-3, layouts, both directions of call",
  "No running test evaluates the operators; being linear they are decided by their action on a basis, position by position.",
  ["numeric/prediction.hpp", "numeric/projection.hpp", "reconstruction.hpp"],
  [("prediction", "numeric/prediction.hpp:prediction_op"), ("projection", "numeric/projection.hpp:projection_op"), ("coefficients", "numeric/prediction.hpp:interp_coeffs")])

p("N02", "Ghost update fills every ghost consistently and leaves leaves alone",
  "Updating the ghosts of fields on an adapted mesh never changes a leaf value and depends on nothing but leaf values and boundary conditions, whatever the ghosts held before; doing it twice equals doing it once. Ghosts below leaves hold the mean of the leaves they cover, ghosts above coarser leaves hold the predicted values, so that a constant field (and, away from boundaries, any polynomial field of the prediction's degree varying along one coordinate direction) is reproduced in every ghost, for several fields, components and layouts at once.",
  ["inputs", "configurations"], "all graded leaf configurations of small domains, all basis fields (one leaf set to one), stale ghost contents, 1-3 dimensions, periodic and not",
  "No running test calls the ghost update.",
  ["algorithm/update.hpp", "numeric/prediction.hpp", "numeric/projection.hpp", "bc.hpp"],
  [("ghost update", "algorithm/update.hpp:update_ghost_mr, update_ghost"), ("ghosts at a level", "algorithm/update.hpp:update_ghost_periodic")])

p("N03", "Boundary conditions set exactly the ghosts they should",
  "Every boundary condition attached to a field determines the ghosts behind the part of the boundary (everywhere, given directions, or a region given by a predicate) it was attached to, at every level, and only those: Dirichlet of order p makes the value extrapolated to the boundary face equal the prescribed value, Neumann makes the normal difference quotient equal the prescribed slope, with values constant or computed from position. Later conditions override earlier ones where they overlap; interior cells are unchanged; copying a field copies its boundary conditions.",
  ["inputs", "configurations"], "all small meshes (uniform and adapted, with boundary cells at several levels), all direction subsets, conditions, orders and values of a finite alphabet, scalar/vector fields, dimensions 1-3",
  "test_bc only constructs conditions and inspects their types/regions for a few cases, it never checks a ghost value.",
  ["bc.hpp", "boundary.hpp", "stencil.hpp", "algorithm/update.hpp"],
  [("application", "bc.hpp:apply_bc_impl"), ("regions", "bc.hpp:BcRegion"), ("value formulas", "bc.hpp:Dirichlet, Neumann"), ("boundary cells", "boundary.hpp")])

p("N04", "Periodic directions behave as if the domain were wrapped",
  "In periodic directions every ghost outside the domain, up to the ghost width, holds the value of the interior cell or ghost it is the image of, at each level, including through corners when several directions are periodic. Hence shifting the mesh and data with wrap-around by a whole number of coarsest cells (of their parents, for adaptation) commutes with ghost update, adaptation and explicit schemes.",
  ["inputs", "configurations"], "all leaf configurations of small periodic domains, all periodicity combinations, all basis fields, all shifts, 1-3 dimensions",
  "test_periodic exists but is not among the tests that can run here; it advects one profile along the diagonal.",
  ["algorithm/update.hpp", "mr/mesh.hpp"],
  [("periodic ghosts", "algorithm/update.hpp:update_ghost_periodic"), ("periodic tags", "algorithm/update.hpp:update_tag_periodic"), ("periodic storage", "mr/mesh.hpp:update_sub_mesh_impl")])

p("F01", "Fields are cell-wise values: access, expressions, copies, iteration",
  "A field holds one independent value (or vector of components) per cell, and all ways to reach it - by cell, by index, by level and interval, with unit or larger stride, by iterator, as a whole array, for each memory layout - address the same value. Arithmetic expressions of fields assign, cell by cell, the expression of the operand values. Copying, assigning, swapping, resizing and filling act on values, name, mesh and boundary conditions as their names say, and a copy never shares values with its original.",
  ["inputs", "histories", "configurations"], "all small meshes, all access paths pairwise, all sequences of copy/assign/move/swap/fill up to a depth, component counts and layouts, expression shapes up to a depth",
  "test_field checks a few constructions and one expression on a single level.",
  ["field.hpp", "field_expression.hpp", "mesh_holder.hpp", "stencil_field.hpp"],
  [("interval access", "field.hpp:operator()"), ("expression assignment", "field_expression.hpp"), ("copy and swap", "field.hpp:Field")])

p("S01", "Flux-based schemes conserve: what leaves a cell enters its neighbour",
  "For every flux-based scheme - linear with constant coefficients, with space-dependent coefficients, or nonlinear - on every adapted mesh, the volume-weighted sum of the discrete divergence equals the net flux through the domain boundary, and vanishes for periodic uniform meshes or when boundary fluxes vanish: each interior face contributes equal and opposite amounts to its two sides, also where levels change. A field that is constant (with compatible boundary values) has zero discrete divergence everywhere.",
  ["inputs", "configurations"], "all graded leaf configurations of small domains, basis fields and all patterns of a finite value alphabet, all built-in operators, dimensions 1-3",
  "No running test applies a scheme.",
  ["schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__lin_het.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp", "schemes/fv/flux_based/flux_based_scheme__lin_hom.hpp", "schemes/fv/flux_based/flux_based_scheme__lin_het.hpp", "schemes/fv/flux_based/flux_based_scheme__nonlin.hpp", "interface.hpp"],
  [("explicit application", "schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp:apply"), ("face traversal", "interface.hpp:for_each_interior_interface"), ("cell coefficients", "schemes/fv/flux_based/flux_based_scheme.hpp:contribution")])

p("S02", "Built-in operators compute the operator they are named after",
  "On every mesh, the built-in discrete operators applied to a field give, in each interior cell, the formula they stand for: diffusion the (minus) Laplacian, gradient the centred or upwinded derivative, divergence the sum of component derivatives, upwind and WENO5 convection the transport term for every sign of the velocity, identity the field itself and zero nothing - exactly for polynomial data of the operator's degree, for scalar and vector fields (component by component), constant or field coefficients and velocities (a coefficient or velocity field is read on the lower side of each face, a constant one is fixed when the operator is built). User-defined cell-based schemes, linear or nonlinear, give in every leaf their formula on the stencil around it.",
  ["inputs", "configurations"], "all polynomial basis data within the exactness degree, all velocity sign combinations, all small uniform and adapted meshes, dimensions 1-3, scalar and vector fields, layouts",
  "No running test applies an operator.",
  ["schemes/fv/operators/diffusion.hpp", "schemes/fv/operators/gradient.hpp", "schemes/fv/operators/divergence.hpp", "schemes/fv/operators/convection_lin.hpp", "schemes/fv/operators/convection_nonlin.hpp", "schemes/fv/operators/weno_impl.hpp", "schemes/fv/operators/identity.hpp", "schemes/fv/operators/zero_operator.hpp"],
  [("diffusion", "schemes/fv/operators/diffusion.hpp"), ("linear convection", "schemes/fv/operators/convection_lin.hpp"), ("nonlinear convection", "schemes/fv/operators/convection_nonlin.hpp")])

p("S03", "Scheme algebra: sums, differences and multiples act term by term",
  "Applying a sum, difference, opposite or scalar multiple of schemes, in every combination and grouping the library offers of flux-based and cell-based, linear and nonlinear terms, gives the sum, difference, opposite or multiple of what the terms give separately. Building a combination never alters the schemes it is built from, and a scheme gives the same result however often and in whatever order it is applied, for the constant-coefficient, variable-coefficient and nonlinear forms of the same operator alike.",
  ["programs", "histories"], "all expressions over a pool of built-in schemes up to depth three, all application orders, basis fields on small adapted meshes",
  "No running test combines schemes.",
  ["schemes/fv/scheme_operators.hpp", "schemes/fv/explicit_operator_sum.hpp", "schemes/fv/flux_based/algebraic_operators.hpp", "schemes/fv/cell_based/algebraic_operators.hpp", "operators_base.hpp"],
  [("operator sums", "schemes/fv/scheme_operators.hpp"), ("flux scheme algebra", "schemes/fv/flux_based/algebraic_operators.hpp"), ("cell scheme algebra", "schemes/fv/cell_based/algebraic_operators.hpp")])

p("S04", "Interface and stencil traversals enumerate each face and neighbour once",
  "The traversal of interior faces in a direction hands out every face between two leaves exactly once, with the two adjacent cells (or the ghost that stands for the coarse side where the level changes) in the right order and the full stencil around it; the traversal of boundary faces hands out every leaf face on the boundary exactly once with its outward direction. Stencil traversals hand out, for every cell, exactly the cells displaced by the stencil's offsets, with their own storage.",
  ["inputs", "configurations"], "all graded leaf configurations of small domains, all directions, stencils of several widths, dimensions 1-3",
  "test_scaling (not among the running tests) only checks that boundary faces lie near the boundary.",
  ["interface.hpp", "stencil.hpp", "indices.hpp", "boundary.hpp"],
  [("interior faces", "interface.hpp:for_each_interior_interface"), ("boundary faces", "interface.hpp:for_each_boundary_interface"), ("stencil iterator", "stencil.hpp:IteratorStencil")])

p("R01", "Reconstruction onto finer levels equals repeated prediction",
  "Reconstructing a field on the finest level, asking for the value of a sub-cell several levels below a cell, or transferring a field between two meshes all give what repeated one-level prediction and averaging give; leaves already at the target level are copied, means are preserved, constants stay constant. The answer depends only on the field, the cell and the level difference, never on earlier queries.",
  ["inputs", "histories"], "all sub-cell positions and level differences up to 3, all basis inputs, all small adapted meshes, all sequences of queries up to a depth, dimensions 1-3",
  "test_portion checks a constant-in-level formula for a few 1D/2D/3D cases on one field.",
  ["reconstruction.hpp"],
  [("prediction map", "reconstruction.hpp:prediction"), ("sub-cell values", "reconstruction.hpp:portion"), ("full reconstruction", "reconstruction.hpp:reconstruction"), ("transfer", "reconstruction.hpp:transfer")])

p("H01", "Saved files describe every cell once with its geometry and data",
  "Saving a mesh with fields writes one element per cell of the saved collection, whose vertices are the cell's corners, with shared vertices written once, and for every field (and component) the value of that cell at the same position; the accompanying description file declares matching sizes and refers only to data sets that exist. This holds for single-level collections, multi-level collections and meshes, with all options (split by level or by sub-mesh).",
  ["inputs", "configurations"], "all small leaf configurations, 1-3 dimensions, all option combinations, scalar/vector fields and layouts",
  "No test reads a saved file back.",
  ["hdf5.hpp"], [("geometry extraction", "hdf5.hpp:extract_coords_and_connectivity"), ("data extraction", "hdf5.hpp:extract_data"), ("writing", "hdf5.hpp:save_on_mesh, save_field")])

p("T01", "Implicit solves agree with the explicit schemes",
  "The system assembled for a scheme, its boundary conditions and ghost relations represents the scheme: for every mesh and every choice of Dirichlet and Neumann conditions, solving it (linear solver, block solver with one or nested matrices, non-linear solver, local non-linear solvers) yields a field on which the scheme, with ghosts given by the boundary conditions, the projection and the prediction, returns the right-hand side in every leaf. This holds for scalar and vector fields, homogeneous and heterogeneous fluxes, sums, multiples and identity shifts of operators, whatever the field held before, and solving leaves the right-hand side's leaves unchanged.",
  ["inputs", "configurations"], "all graded leaf configurations of small domains, basis and generic right-hand sides, all Dirichlet/Neumann choices per side, operators of a finite alphabet, 1-3 dimensions",
  "The PETSc part is not built by the tests that run here.",
  ["petsc/matrix_assembly.hpp", "petsc/fv/FV_scheme_assembly.hpp", "petsc/fv/flux_based_scheme_assembly.hpp", "petsc/fv/cell_based_scheme_assembly.hpp", "petsc/fv/operator_sum_assembly.hpp", "petsc/linear_solver.hpp", "petsc/nonlinear_solver.hpp", "petsc/nonlinear_local_solvers.hpp", "petsc/block_assembly.hpp", "petsc/linear_block_solver.hpp"],
  [("assembly of ghosts and boundary", "petsc/fv/FV_scheme_assembly.hpp"), ("assembly of fluxes", "petsc/fv/flux_based_scheme_assembly.hpp"), ("solve", "petsc/linear_solver.hpp")])

p("D01", "The meshed domain approximates the requested box within tolerance",
  "Meshing a box covers it with whole cells of one size per level, halving with each level; the covered region starts at the requested corner and differs from the requested box by no more than the stated tolerance, exactly (up to rounding) for boxes whose sides are whole multiples of the shortest one or of the requested subdivision length. Cell coordinates reported by the mesh tile exactly that region, and all parts of a mesh (its sub-collections, domain and union) report the same origin and cell size, also after the mesh is moved or rescaled and in meshes derived from it. Box operations (length, shortest side, validity, scaling) are those of axis-aligned boxes.",
  ["inputs", "configurations"], "all boxes with corners on a small rational grid, tolerances and scaling factors in a finite alphabet, dimensions 1-3, levels 0-6",
  "test_box and test_scaling try a few boxes.",
  ["box.hpp", "level_cell_array.hpp", "mesh.hpp", "cell.hpp"],
  [("box approximation", "box.hpp:approximate_box"), ("meshing a box", "level_cell_array.hpp:LevelCellArray(level, box)"), ("cell size", "cell.hpp:cell_length")])

p("Q01", "Cell quadratures, cell means and error norms are exact",
  "The quadrature rule requested for a degree integrates every polynomial of at most that degree in each variable exactly over every cell, of every level, position and dimension, for scalar and vector integrands; a field initialised with it holds the exact mean of such a polynomial in every leaf. The discrete error norm of a field against an exact solution is the square root of the sum over all leaves (and nothing else) of the cell volume times the squared difference at the cell centre, summed over components; the relative norm divides it by the same norm of the exact solution; and the error bound, its constant and the convergence order derived from mesh sizes and errors are mutually consistent.",
  ["inputs", "configurations"], "every rule of degree 0-39, monomials up to its degree, cells of small coordinates and levels in two frames, all graded leaf configurations of small domains, errors in all leaves or in a single one, 1-3 dimensions",
  "No test calls the quadrature or the error norms.",
  ["numeric/gauss_legendre.hpp", "numeric/error.hpp", "field.hpp", "static_algorithm.hpp"],
  [("quadrature rules", "numeric/gauss_legendre.hpp"), ("error norms", "numeric/error.hpp:L2_error"), ("cell means", "field.hpp:make_field")])

p("P01", "Parallel traversal is race-free and equals sequential traversal",
  "With shared-memory parallelism enabled, every schedule of a parallel traversal or scheme application performs the same cell updates as the sequential one: every run is processed exactly once with its own coordinates, and no two concurrently runnable pieces of work access the same memory unsynchronised with at least one writing. The result is the sequential result (up to rounding of reordered sums).",
  ["schedules", "inputs"], "all orders and interleavings of the tasks created, on small adapted meshes, 1-3 dimensions",
  "Tests are built without OpenMP; a schedule-dependent error cannot be settled by running.",
  ["algorithm.hpp", "interface.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__lin_hom.hpp", "schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp"],
  [("task creation", "algorithm.hpp:parallel_for_each_interval"), ("concurrent accumulation", "schemes/fv/flux_based/explicit_flux_based_scheme__nonlin.hpp")])

p("X01", "Distributed runs give the result of the sequential run",
  "With message-passing parallelism, for every number of processes, every way to share the coarsest cells among them and every message order: building the mesh of a box gives each cell of the domain to exactly one process, and what a process knows about another one's mesh (its cells, ghosts, sub-domain, domain and level bounds) is that mesh; no run waits for ever or leaves a message unreceived; after a ghost update every leaf and ghost a process stores, inside and outside the domain, holds the value it has in the run on one process; one application of a finite-volume scheme, and any number of adaptations with all the fields carried along, give on the union of the processes the same leaves, each on the process that owned its area, with the same values as on one process.",
  ["schedules", "configurations"], "1-5 processes, all small boxes, all graded leaf configurations of small non-periodic domains and all ways to share their coarsest cells among 2-3 processes, all process priorities, early and late reading of messages",
  "No test runs with several processes; message orders cannot be settled by running.",
  ["mesh.hpp", "mr/mesh.hpp", "algorithm/update.hpp", "mr/adapt.hpp", "level_cell_array.hpp", "cell_array.hpp"], [("partition", "mesh.hpp:partition_mesh"), ("mesh exchange", "mesh.hpp:update_mesh_neighbour"), ("value exchange", "algorithm/update.hpp:update_ghost_subdomains"), ("tag exchange", "algorithm/update.hpp:update_tag_subdomains")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
