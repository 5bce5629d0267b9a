"""What each check runs: configurations (ranks, number of cases in the quick
tier), the rule that makes a case non-trivial, and notes for MANIFEST.json."""

COMMON_ASSUMPTIONS = [
    "SYCL OpenCL CPU device, Open MPI over shared memory in one machine, Release flags (-O1 -DNDEBUG)",
    "a failing case counts when at least two of three fresh processes fail it again",
]


def cfg(ranks, cases, **kw):
    d = {"ranks": ranks, "cases": cases}
    d.update(kw)
    return d


DEVICE_MPI = {"name": "2 ranks, device aware MPI", "env": {"NESO_PARTICLES_DEVICE_AWARE_MPI": "1"}}
IN_ORDER = {"name": "1 rank, in order queue", "env": {"NESO_PARTICLES_IN_ORDER_QUEUE": "1"}}
UNITS = {"name": "1 rank, 3 compute units", "env": {"NESO_PARTICLES_MAX_COMPUTE_UNITS": "3"}}
DIAGNOSED = {"name": "1 rank, profiled and traced", "env": {
    "NESO_PARTICLES_AUTO_PROFILE": "profile", "NESO_PARTICLES_DEBUG_SUB_GROUPS": "1",
    "NESO_PARTICLES_DEBUG_LEVEL": "3", "NESO_PARTICLES_VERBOSE_DEVICE": "1"}}


CHECKS = {
    "C01": {
        "configs": [cfg(1, 1500), cfg(2, 900), cfg(1, 300, **IN_ORDER)],
        "rule": "a case is a history of up to 26 operations (add, remove by layers/device pointers/sub group/"
                "remover, clear, cell move, loop write, add/remove property, fetch) on a generated mesh, property "
                "layout and launch parameters; after every operation the group is compared with a host model. "
                "Non-trivial: particles were added and at least one removal or cell move affected particles.",
        "technique": "stateful model-based property testing with shrinking",
        "level_note": "Random search over operation histories against an exact host model (ids, bitwise values, cells, counts).",
    },
    "C02": {
        "configs": [cfg(2, 250), cfg(3, 200), cfg(4, 200), cfg(1, 100), cfg(2, 150, **DEVICE_MPI)],
        "rule": "a case is a history of displacements followed by hybrid_move and cell_move, direct global and neighbour "
                "moves, additions and removals on a generated mesh; the positions, ranks, cells and values of all particles "
                "are compared with a replicated host model after every step. Non-trivial: a particle changed rank "
                "(on one rank: several particles).",
        "technique": "stateful model-based property testing over MPI ranks",
        "level_note": "Random search over displacement histories on 1-4 ranks; owner and cell computed by the harness from the "
                      "decomposition box of every rank.",
    },
    "C03": {
        "configs": [cfg(1, 900), cfg(2, 300)],
        "rule": "a case is a sequence of additions into a group (particle sets, product matrices, descendant products, "
                "whole groups, sub groups) with generated layouts on both sides, interleaved with removals and cell moves; "
                "the content of both groups is compared with a host model as multisets of full rows after every step. "
                "Non-trivial: some source added at least one particle.",
        "technique": "stateful model-based property testing with shrinking",
        "level_note": "Random search over layouts and addition histories against an exact host model.",
    },
    "C04": {
        "configs": [cfg(1, 2500), cfg(2, 300)],
        "rule": "a case is (a) a generated group (mesh, occupancy pattern, launch parameters, removals) with loops over the group, "
                "a property or a nested sub group over all cells, a cell, a range or split submits, (b) per-particle local memory "
                "of generated sizes, or (c) a bare occupancy vector run through the iteration-set classes with generated block "
                "count, local size, stride and local memory. Every visit and every index value is compared with the definition. "
                "Non-trivial: at least one particle was in an executed range.",
        "technique": "property-based testing against an exact visit-count model",
        "level_note": "Random search over occupancy vectors and launch configurations; exact per-particle oracle.",
    },
    "C05": {
        "configs": [cfg(1, 900), cfg(2, 400), cfg(2, 200, **DEVICE_MPI), cfg(1, 200, **IN_ORDER)],
        "rule": "a case is a sequence of up to 9 loops and host calls over local, n-dimensional and global arrays, per-cell matrices, "
                "device particle sets, product matrices and symbol vectors of generated shapes, over a generated group or nested sub group and cell range; after every step "
                "all containers and properties are compared with a host model (sums are of dyadic values and therefore exact; values "
                "returned by fetch_add must each appear once). Non-trivial: a loop reached at least one particle.",
        "technique": "stateful model-based property testing with shrinking",
        "level_note": "Random search over container shapes, access modes and loop sequences against an exact host model.",
    },
    "C06": {
        "configs": [cfg(1, 3000), cfg(2, 800), cfg(4, 300), cfg(1, 500, **DIAGNOSED)],
        "rule": "a case is a history over a forest of nested sub groups (filters on integer, real and symbol vector properties, on the loop index and "
                "on cell counts, whole group, cells, copies; static and dynamic): property writes by group, sub group, property and symbol vector loops and "
                "by the host, additions, removals, clears, cell and hybrid moves, property replacement. At random points a sub group is used "
                "(loop, per-cell loop, counts, get_particles, get_cells_layers, copy to another group, removal) and compared with its definition evaluated on the current data. "
                "Non-trivial: a proper non-empty sub group was used after a change.",
        "technique": "stateful model-based property testing with shrinking",
        "level_note": "Random search over change/use orders; exact set oracle evaluated on the data read back from the group.",
    },
    "C07": {
        "configs": [cfg(1, 700), cfg(2, 300)],
        "rule": "as C06, over forests that also contain truncations, discards, disjoint unions (of label classes, cell ranges of different parents, a truncation "
                "and a discard) and partitions by an integer property. Every use is compared with the set operation applied to the verified sets of the parents; "
                "truncation and discard with the same n must be complementary in every cell. Non-trivial: a proper non-empty sub group was used after a change.",
        "technique": "stateful model-based property testing with shrinking",
        "level_note": "Random search over nestings and histories; exact set oracle (relational for truncation and discard of sub groups, whose order is unspecified).",
    },
    "C08": {
        "configs": [cfg(1, 800), cfg(2, 300)],
        "rule": "a case is a history over 1-5 generated (nested, static or dynamic) sub groups: add, re-add and remove ephemeral properties (also with the name of an "
                "ordinary property), writes by loops over cell ranges through symbols and mixed symbol vectors and by the host, reads by four routes, copies to and from "
                "ordinary properties, ordinary writes and structural changes. Values are compared per particle with a host model; existence is compared with what the "
                "history implies. Non-trivial: a written ephemeral value was read back.",
        "technique": "stateful model-based property testing with shrinking",
        "level_note": "Random search over histories; exact value oracle per particle and component.",
    },
    "C09": {
        "configs": [cfg(1, 900), cfg(2, 200)],
        "rule": "a case keeps a per-particle and an atomic generator (REAL or INT, generated component counts, block sizes, host or device generators, sample count overrides) "
                "over 1-6 loops: group, sub group and pair loops (several pair lists and waves), tuples of generators, cell ranges, with additions and removals in between. The "
                "generators produce 1, 2, 3, ...; every value a kernel received must be one of them, must never have been handed out before, must be valid when enough were "
                "requested, and exhaustion must be reported. Non-trivial: a loop read more than one value.",
        "technique": "stateful property-based testing with a uniquely labelled generator",
        "level_note": "Random search over loop histories; exact uniqueness oracle on labelled values.",
    },
    "C10": {
        "configs": [cfg(1, 900), cfg(2, 150), cfg(1, 200, **DIAGNOSED)],
        "rule": "a case runs 1-5 pair loops over generated pair lists (simple lists built by several push_back calls, lists with waves, blocked lists; 1-3 lists at a "
                "time; one or two groups; random, hot-particle, ring and few-particle sharing patterns; cell ranges; additions and removals in between; reused and cleared "
                "lists). Every kernel call logs ids, the versions of both particles and the linear index, and updates both particles: the log must be the multiset of listed "
                "pairs, the versions must be explained by a serial order, and the final state must equal that order replayed on the host. Non-trivial: a pair was processed.",
        "technique": "property-based testing with a serializability oracle",
        "level_note": "Random search over pair lists; exact serializability check of the logged history. Schedules are those of the OpenCL CPU device.",
    },
    "C11": {
        "configs": [cfg(1, 1200), cfg(2, 150)],
        "rule": "a case assigns generated species and collision cells (also unlisted species, empty cells, skewed assignments) to a generated group over 1-4 rounds with "
                "additions and removals, builds the collision cell partition of a group or nested sub group and compares it with the serial definition, then samples pairs "
                "without replacement (up to the reported maximum) or NTC pairs (one group or two disjoint ones, up to thousands per cell) with uniform and extreme random "
                "sequences; or it enumerates an all-to-all loop. Non-trivial: at least one pair was produced.",
        "technique": "property-based testing against the serial definition",
        "level_note": "Random search over assignments, counts and random sequences; every pair is checked, and under uniform samples every particle must be reachable.",
    },
    "C12": {
        "configs": [cfg(1, 1200), cfg(2, 150), cfg(1, 500, **UNITS)],
        "rule": "a case runs 1-4 algorithms against the serial computation: exclusive and inclusive scans (single, auxiliary, blocking, segmented with gaps and reversed order, "
                "fixed size), transposes and reductions of generated lengths and shapes with guard elements after every output, under generated work-group sizes and compute unit "
                "counts; or, on a generated group and nested sub group, cell-wise reductions of one or all components, cell counts, broadcasts, element-wise matrix operations with "
                "broadcast and aliasing, unseen value extraction over rounds, copies through ephemeral properties. Non-trivial: more than one element or particle was processed.",
        "technique": "property-based testing against serial definitions",
        "level_note": "Random search over shapes, occupancies and launch parameters; every element of every output is compared exactly.",
    },
    "C13": {
        "configs": [cfg(1, 6000), cfg(2, 2500), cfg(4, 2000)],
        "rule": "a case builds a generated mesh hierarchy (1D-3D, subdivision orders, extents, origins) on 1, 2 or 4 ranks with a generated layout of ranks over shared memory "
                "nodes and checks all index conversions exhaustively, point maps (inside, on grid lines, at the upper end, outside), neighbour sets against enumeration with and "
                "without periodicity, or 1-3 claim epochs with generated weights (ties, extremes, double claims) on every cell and rank, followed by contributions of variable size "
                "objects and 1-3 rounds of gathers by changing subsets of ranks. Non-trivial: more than one cell, or an object was delivered.",
        "technique": "property-based testing against enumeration, with emulated node layouts",
        "level_note": "Random search over hierarchies; within a case all cells are checked exhaustively.",
    },
    "C14": {
        "configs": [cfg(1, 1200), cfg(2, 700), cfg(3, 500), cfg(4, 500), cfg(6, 400)],
        "rule": "a case builds a generated 2D or 3D grid (shapes with single cells, subdivisions, stencil widths, extents) over 1-6 ranks, with the library's or a user's "
                "decomposition and a generated node layout, and compares every cell (owner, conversions, VTK vertices), the neighbour ranks, every face cell (tuple, owner, "
                "adjacent cell, vertices, per-face lists, communicator) with the global grid, or maps generated points (interior, next to and on grid lines, at the upper end) "
                "through hybrid_move and cell_move; or checks 1D decompositions and their inverse. Non-trivial: more than one cell or item, or a point was mapped.",
        "technique": "property-based testing against enumeration of the global grid",
        "level_note": "Random search over grids and rank counts; within a case cells and faces are checked exhaustively.",
    },
    "C15": {
        "configs": [cfg(1, 3000), cfg(2, 700)],
        "rule": "a case wraps generated coordinates (inside, on and next to the ends and multiples of the extent, a few to 2^58 extents away, any finite magnitude) of the positions or "
                "another property with additional components, under generated masks, constructors and meshes, repeatedly and over rounds of additions and displacements. Every masked-in "
                "coordinate must end inside, congruent to the old one; everything else must be bitwise unchanged. Non-trivial: a coordinate outside of the domain was wrapped.",
        "technique": "property-based testing against an exact congruence oracle",
        "level_note": "Random search over coordinates weighted to the ends of the domain and to extreme magnitudes.",
    },
    "C16": {
        "configs": [cfg(1, 2500), cfg(2, 500), cfg(4, 200)],
        "rule": "a case moves generated particles of a group or sub group over 1-3 steps (inside, tiny crossings, axis aligned, onto faces, edges and corners, through cell lines, "
                "overshoots up to 2^14 lengths) in 2D or 3D boxes with generated groupings of the faces (also left out, empty) and tolerances, on 1-4 ranks. Every particle is compared "
                "with its first exit in extended precision: group, face, hit point, normal and face cell, within the rounding of the hit point and the tolerance. Where a trajectory "
                "meets an edge within that, any of the faces is accepted. Non-trivial: a hit was reported.",
        "technique": "property-based testing against an extended-precision geometric oracle",
        "level_note": "Random search over trajectories weighted to walls, edges and corners. Trajectories start strictly inside.",
    },
    "C17": {
        "configs": [cfg(1, 1500), cfg(2, 250)],
        "rule": "a case either gives generated intersection data (any unit normal, 1D-3D, hits at the start, the end and next to them, several reset distances) to a reflection or "
                "truncation of a sub group, or advects generated particles (oblique, axis aligned, grazing, into corners, at rest) through up to 6 domain lengths with generated groups of "
                "faces that reflect, truncate or do nothing, repeating until the step is complete. Every application is checked against the definition in extended precision (position, "
                "velocity, time, everything else bitwise unchanged), and completed steps against the closed form of specular motion in a box. Non-trivial: a particle was reflected or truncated.",
        "technique": "stateful property-based testing with an exact step oracle and a closed-form oracle",
        "level_note": "Random search over trajectories and histories; tolerances are the rounding of the positions plus the reset distance per reflection.",
    },
    "C18": {
        "configs": [cfg(1, 1200), cfg(2, 400), cfg(4, 250), cfg(2, 250, **DEVICE_MPI)],
        "rule": "a case creates 1-2 functions on each of the generated groups of faces of a 2D or 3D box on 1-4 ranks and runs 3-16 operations: new particles cross the boundary "
                "(from any rank, also none on a rank, so the set of seen faces grows between any two operations), projection in one call, initialise, contribute, finalise in any "
                "interleaving over the functions, from properties or ephemeral data and with no sub group on some ranks, assignment of values, and evaluation into properties or "
                "ephemeral data. Every projected value is compared with the sum over all ranks of the contributed weights per face cell divided by its area (within rounding), the "
                "integral with the total weight, and every evaluated particle value exactly with the value of the owner. Non-trivial: a nonzero weight was projected or a hit "
                "particle received a value.",
        "technique": "stateful property-based testing (model-based, all ranks) against a reference sum",
        "level_note": "Random search over histories. Floating point sums are compared within a rounding bound.",
    },
    "C20": {
        "configs": [cfg(1, 4500), cfg(2, 4500), cfg(3, 3000), cfg(4, 3000), cfg(6, 1500)],
        "rule": "a case runs 1-8 operations on a communicator (the world, reordered, or parts): gathers, set exchanges, broadcasts and unions of int, INT and REAL, neighbour exchanges over "
                "generated multigraphs with self edges and gaps, graph reversal, edge counting and payload exchange, shared memory splits, decompositions, with per-rank contributions that "
                "may be empty, generated roots and delays. Every rank knows all inputs and compares with the definition; a call that does not complete is a violation. "
                "Non-trivial: more than one rank contributed.",
        "technique": "property-based testing against the definitions of the collective operations",
        "level_note": "Random search over contributions, graphs and roots on 1-6 ranks.",
    },
    "C19": {
        "configs": [cfg(1, 1200), cfg(2, 500), cfg(4, 250)],
        "rule": "a case writes a group or sub group with generated properties (1-4 components, REAL and INT, names that look like columns) for 0-4 steps with additions, removals and changes in "
                "between, drawn selections of the properties, explicit and automatic step numbers, closing in between, and ranks or steps without particles. The file is read with the plain HDF5 "
                "interface and with the reader under drawn specifications; the multiset of rows over all ranks must be that at the time of the write, bitwise. Non-trivial: a step with 2 or more particles.",
        "technique": "property-based round-trip testing with an independent reader",
        "level_note": "Random search over populations, histories and selections on 1-4 ranks.",
    },
    "C21": {
        "configs": [cfg(1, 50000)],
        "rule": "a case takes an overlay grid (1D-3D, given or created over a box, exact dyadic or arbitrary), a triangle, a convex quadrilateral (any, trapezoids, almost and exact "
                "parallelograms, integer vertices, any first vertex and orientation, scaled, rotated, sheared, moved), a torus, matrices, segments or concurrent atomic updates, with up to 20 "
                "points weighted to grid lines, vertices, edges and centre lines, on host and device. Cells, reported cells, coordinates and round trips are compared with extended-precision "
                "definitions within bounds derived from the conditioning. Non-trivial: two or more points or cells.",
        "technique": "property-based round-trip testing against extended-precision definitions",
        "level_note": "Random search over grids, elements and points; single rank, the code has no communication.",
    },
    "C22": {
        "configs": [cfg(1, 1500), cfg(2, 1000), cfg(4, 800)],
        "rule": "a case takes a generated mesh (quadrilaterals, triangles or mixed; graded, perturbed, sheared, rotated, with sliver rows, holes and ragged outlines; any numbering, first vertex and "
                "orientation; lattice or arbitrary coordinates) partitioned scattered, in strips or unevenly over 1, 2 or 4 ranks with or without overlap, checks its geometry, queries, numbering and "
                "halo against the generated elements, and moves up to 60 particles between arbitrary points of the domain, a share of them on or next to vertices and edges. One case in six "
                "takes a three-dimensional mesh of hexahedra or tetrahedra instead (graded, sheared, partitioned, with or without overlap) with up to 40 particles inside elements. "
                "Non-trivial: at least two particles and two elements.",
        "technique": "stateful property-based testing against a geometric model of the mesh",
        "level_note": "Random search over meshes, partitions and histories on 1, 2 and 4 ranks.",
    },
    "C23": {
        "configs": [cfg(1, 1500), cfg(2, 1000), cfg(4, 800)],
        "rule": "a case takes a generated unstructured mesh partitioned over 1, 2 or 4 ranks with up to 80 particles and runs one of: a history of piecewise constant projections, evaluations, DOF and "
                "point updates over groups and sub groups against a per cell model; barycentric projections (weight and first moments of each cell) and evaluations of linear functions at every "
                "particle; values at points added by any rank (round trips, functions of the position); DOF reordering; sampling inside cells. Non-trivial: at least two particles or points and two "
                "elements.",
        "technique": "stateful property-based testing against a per-cell reference model, conservation and reproduction laws",
        "level_note": "Random search over meshes, partitions, weights and histories on 1, 2 and 4 ranks.",
    },
    "C24": {
        "configs": [cfg(1, 120000)],
        "rule": "a case takes one container (blocked tree with various block widths, key and value types and negative keys; lookup table; device, host, shared and paired buffers; CellDat; "
                "CellDatConst; NDIndex and NDLocalArray; local and global arrays; particle sets, device particle sets, product matrices and descendant products; particle specifications; tuples; "
                "resource stacks) of generated shape and drives it with up to 40 drawn operations against a plain host model, reading back on host and device. Non-trivial: by container, e.g. two "
                "keys and an absent one looked up, storage that grew and shrank, two writes to two or more particles and properties, two objects held at a time.",
        "technique": "stateful model-based property testing",
        "level_note": "Random search over histories and shapes; single rank, the containers have no communication (GlobalArray's reduction is part of C05).",
    },
    "C25": {
        "configs": [cfg(1, 1200), cfg(2, 800), cfg(4, 500)],
        "rule": "a case distributes up to 120 particles per rank (equal, ragged, or all on one rank; positions anywhere, on cell edges, within a few ulps of the upper end of the domain) by advection in "
                "1-20 steps on a generated 2D or 3D mesh with or without a local mapper; or generates points inside every Cartesian cell, uniform or normal points; or decomposes 0-20000 items over "
                "1-100 workers in four integer types. Ownership, cells, values and totals are compared with the model. Non-trivial: two particles (one of which changes rank on 2 or more ranks), more "
                "items than workers, two points in two cells.",
        "technique": "model-based property testing",
        "level_note": "Random search over inputs, meshes and distributions on 1, 2 and 4 ranks.",
    },
    "C26": {
        "configs": [cfg(1, 1500), cfg(2, 1000), cfg(4, 800)],
        "rule": "a case takes a generated unstructured mesh with facets of the outline (and, for a share, of the interior) labelled and grouped at random, partitioned over 1, 2 or 4 ranks on "
                "generated shared memory nodes, and moves up to 60 particles along trajectories that stay, cross facets obliquely or along an axis, pass several facets, leave the mesh far behind or "
                "only take part through a sub group. Non-trivial: an intersection is reported on one rank, or the case runs on several ranks.",
        "technique": "stateful property-based testing against a brute force intersection of each trajectory with each facet",
        "level_note": "Random search over meshes, labels, partitions and trajectories on 1, 2 and 4 ranks.",
    },
    "C27": {
        "configs": [cfg(1, 800), cfg(2, 800), cfg(3, 600), cfg(4, 600)],
        "rule": "a case takes a generated unstructured mesh partitioned over 1 to 4 ranks, a second mesh with up to 20 cells on each rank, generated couplings (none, few, many, repeated pairs, one "
                "sided between ranks) with integer weights, and up to six forward and backward transfers of 1 to 4 components. Non-trivial: at least two couplings.",
        "technique": "property-based testing against the dense linear map",
        "level_note": "Random search over meshes, partitions, couplings and transfer histories on 1 to 4 ranks; values are integers, so the sums are exact.",
    },
    "C28": {
        "configs": [cfg(1, 8000), cfg(2, 5000), cfg(4, 3000)],
        "rule": "a case writes one or two VTKHDF files (generated cells of all shapes, point and cell values, ranks without cells, subsets of ranks, files open together or written again), the cells and "
                "faces of a generated Cartesian mesh and a surface function on a subset of its faces, the cells of a generated unstructured mesh, or the cell outlines of a generated mesh hierarchy; "
                "the files are read back without the library and compared with the geometry and values. Non-trivial: at least two cells.",
        "technique": "property-based round-trip testing with an independent reader",
        "level_note": "Random search over meshes, cells and values on 1, 2 and 4 ranks.",
    },
    "C29": {
        "configs": [cfg(1, 6000)],
        "rule": "a case sends requests drawn at and around the border of validity to one of twenty parts of the interface (properties, adding particles and products, indices, cells, moves, column and row access, "
                "selections, ephemeral data, loops and their submit and wait protocol, kernel assertions, pair loops, arrays, cell constants, particle sets, generators, parameters, mesh construction and queries, "
                "overlay meshes, surfaces); the harness decides validity from the documented preconditions and requires a refusal (an assertion or exception) exactly when the request is invalid. Non-trivial: a request was invalid.",
        "technique": "property-based testing of accepted and refused requests against the documented preconditions",
        "level_note": "Random search at the border of validity, one rank. Only requests whose validity the interface itself states (assertions with a message, exceptions, documentation) are judged; negative indices "
                      "of containers that say nothing about them are left out.",
    },
    "C30": {
        "configs": [cfg(1, 30000)],
        "rule": "a case evaluates batches of generated arguments in device kernels: the arithmetic wrappers (min, max, abs, roots, exponentials, logarithms, trigonometry, rounding, fma) on dyadic values against "
                "extended precision; dot and cross products on integers; segment, axis aligned and plane intersections, line parameters and orientation on integer coordinates times a power of two (shared ends, aligned and "
                "parallel lines, touching ends with and without tolerance, offsets) against exact rationals; naive and PETSc matrix inverses of integer matrices against the adjugate; atomic add, min, max (also by "
                "compare and swap) and reductions from up to 600 work items with the returned values required to come from some order; group reductions and sorts of eight; one dimensional ranges with a peel loop, "
                "N dimensional indices, tuples, sorting permutations and formatting on the host. Non-trivial: more than one value was processed (intersections: one was found; matrices: the matrix is regular).",
        "technique": "property-based testing against exact arithmetic",
        "level_note": "Random search. The intersection functions are judged exactly except where the exact crossing is an end of a segment at tolerance zero and rounding decides.",
    },
    "C31": {
        "configs": [cfg(1, 2500)],
        "rule": "a case runs a history of 1-24 operations with profiling switched on and off in between, also between submit and wait: loops and pair loops over groups and sub groups (all cells, one, a range) with "
                "generated names and metadata, user regions and region handles, events, incremented and set entries, resets, cell moves, JSON files (parsed by an independent parser) and printing. The recorded regions (type, name, "
                "bytes, flops, level, order, times), events and entries must be exactly those of a model and the particle data must be that of the model whatever is recorded; or it reads run time settings "
                "from generated environment variables (unset, empty, not numbers, out of range) and makes a fresh target with generated settings, including the automatic profile file. Non-trivial: a region was "
                "recorded and profiling was switched in between, or a variable was set.",
        "technique": "model-based stateful property testing with an independent parser",
        "level_note": "Random search over histories, one rank; times are only required to be ordered.",
    },
}
NOT_CLAIMED = {}
