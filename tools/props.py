"""Single source of the property list: `python3 tools/props.py` rewrites properties.jsonl."""
import json, os
I = "include/neso_particles/"
S = "src/"
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe=None):
    anchors = {"files": files, "mechanism": mechanism}
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=tests, anchors=anchors))


prop("C01", "Particles are conserved and uncorrupted under any local history",
     "After any sequence of adding, removing and clearing particles, moving them between cells, adding or removing particle properties and updating properties with loops, a ParticleGroup holds exactly the particles that the history implies, each once. "
     "Every property component of every particle keeps the value last given to it (properties left out when a particle is added are zero; a property added to a group that already holds particles is unspecified for them until written), and each particle is stored in the cell its cell id names. "
     "All reported counts (per cell and local) and all particles fetched by cell and layer agree with that content.",
     ["histories", "inputs"],
     "every interleaving of add/remove/clear/cell_move/loop/add_particle_dat/remove_particle_dat on groups with any property layout and any cell occupancies including empty ones",
     "each test runs one fixed script with one operation; holes left by removal, storage reuse, regrowth and stale metadata only show after particular multi-operation histories.",
     [S + "particle_group.cpp", I + "particle_group.hpp", I + "particle_dat.hpp", I + "containers/cell_dat.hpp", I + "cell_dat_compression.hpp", S + "cell_dat_move.cpp", I + "particle_remover.hpp"],
     "per-cell column storage with compaction on removal, over-allocation on growth, and device copies of the cell occupancies")

prop("C02", "Global moves deliver every particle to the rank and cell that own it",
     "After a hybrid (global) move followed by binning and a cell move, on any number of MPI ranks, every particle sits on the rank that owns the mesh cell containing its position and in that cell. "
     "No particle is lost, duplicated or altered in any property, whatever the displacements, and ranks with no particles to send or receive take part without deadlock.",
     ["histories", "inputs", "configurations"],
     "every rank count, mesh shape, subdivision and halo width, and every history of displacements from staying put to crossing the whole domain",
     "the stable tests run on one MPI rank, so no particle ever crosses a rank boundary in them.",
     [S + "particle_group.cpp", I + "global_move.hpp", I + "global_move_exchange.hpp", S + "global_mapping.cpp", I + "local_move.hpp", S + "packing_unpacking.cpp", S + "departing_particle_identification.cpp", S + "cartesian_mesh.cpp"],
     "two-stage routing: mesh-hierarchy lookup of owners for far particles and halo lookup for near ones, packed into per-rank messages and unpacked into cell 0")

prop("C03", "Adding particles fills exactly the requested particles and properties",
     "Adding particles from a particle set, a product matrix, descendant products, another group or a sub group creates exactly the requested particles in the requested cells and leaves existing particles untouched. "
     "Properties the source provides are copied component by component, descendants inherit all other properties from their parent, and anything else is zero; particle set or source group properties the group does not have are ignored, and descendants whose parent was never set are not created. "
     "The source itself is left unchanged.",
     ["inputs", "histories"],
     "every source kind, property layout overlap between source and destination, particle count including zero, cell list and parent selection",
     "tests add one hand-written batch per source kind to a group with the same layout.",
     [S + "particle_group.cpp", I + "containers/product_matrix.hpp", I + "containers/descendant_products.hpp", I + "containers/particle_set_device.hpp", S + "containers/particle_set_device.cpp", S + "particle_set.cpp", S + "particle_group_pointer_map.cpp"],
     "device-side copy of columns through pointer maps after growing each cell's storage")

prop("C04", "A particle loop runs its kernel exactly once per particle in its range",
     "Executing a particle loop over a group, a property or a sub group, over all cells, one cell or a range of cells, applies the kernel exactly once to each particle in that iteration set and to no other particle. "
     "This holds for every occupancy pattern, loop block count and local size, and repeated execution or split submit/wait behaves the same. "
     "The cell, layer and linear indices and the per-cell counts the kernel sees identify each particle correctly and uniquely.",
     ["inputs", "configurations"],
     "every vector of cell occupancies, loop configuration (number of blocks, work-group size) and cell range",
     "tests use near-uniform occupancies with the default configuration; the iteration set is split by minimum and maximum occupancies so faults hide in uneven patterns.",
     [I + "loop/particle_loop.hpp", S + "loop/particle_loop_iteration_set.cpp", I + "loop/particle_loop_iteration_set.hpp", S + "loop/particle_loop_base.cpp", I + "loop/particle_loop_index.hpp", I + "loop/cell_info_npart.hpp", I + "particle_sub_group/particle_loop_sub_group.hpp"],
     "block iteration sets over (cell, layer) with a masked tail and an unmasked bulk")

prop("C05", "Loop data arguments deliver reads, writes and reductions exactly",
     "Values a loop kernel reads from particle properties, symbol vectors, local arrays, n-dimensional arrays, global arrays and per-cell matrices are the current ones, and its writes go to exactly the addressed element. "
     "Concurrent add, min and max contributions to local arrays, n-dimensional arrays, per-cell matrices and global arrays, including loop reductions, combine to the result of applying every contribution once; global arrays hold the same MPI-reduced result on every rank. "
     "Host get/set/fill calls on these containers round-trip.",
     ["inputs", "histories", "schedules"],
     "every container shape, access mode combination, occupancy, cell range and sequence of loops over the same containers, on any number of ranks",
     "tests run one loop per container with one occupancy on one rank.",
     [I + "containers/local_array.hpp", I + "containers/nd_local_array.hpp", I + "containers/global_array.hpp", I + "containers/cell_dat_const.hpp", I + "containers/cell_dat.hpp", I + "containers/sym_vector.hpp", I + "containers/sym_vector_pointer_cache.hpp", I + "loop/particle_loop_reduction.hpp", I + "particle_sub_group/particle_loop_sub_group_reduction.hpp"],
     "per-argument pre-loop/post-loop hooks, device atomics, per-work-group local reduction, MPI allreduce for global arrays")

prop("C06", "A sub group always denotes the particles that currently satisfy its selector",
     "Whenever a non-static sub group is used after any history of property writes, particle addition, removal and movement, it denotes exactly the particles of its parent that satisfy its selector with the current data, each once. "
     "A static sub group keeps its original selection and is reported invalid once the group structure has changed. "
     "Counts, iteration, fetching and removing through a sub group all agree with that set.",
     ["histories", "inputs"],
     "every nesting of sub groups and every interleaving of reads through them with writes by loops, direct host writes, adds, removes and moves",
     "tests check one rebuild after one change; cached selections go stale only for particular change/use orders and dependency kinds.",
     [S + "particle_sub_group/particle_sub_group_base.cpp", S + "particle_sub_group/sub_group_selector_base.cpp", S + "particle_sub_group/sub_group_selector.cpp", I + "particle_sub_group/sub_group_selector.hpp", I + "particle_group.hpp", I + "particle_dat.hpp"],
     "version counters for group structure and for each particle property decide whether a cached selection is rebuilt")

prop("C07", "Derived sub groups obey set algebra",
     "Truncating, discarding, restricting to cells, copying, forming disjoint unions and partitioning produce exactly the corresponding set of particles of the parent at the time of use. "
     "Truncation to n and discarding n split each cell's particles into two disjoint complementary parts with min(n, occupancy) in the first, a partition assigns each particle to exactly the sub group its label selects, and a disjoint union contains each member of its inputs once.",
     ["inputs", "histories"],
     "every parent (group or nested sub group), every n including zero and above the occupancy, every cell range, every label array, before and after changes to the parent",
     "tests use one parent and a couple of values of n.",
     [S + "particle_sub_group/truncate_sub_group_selector.cpp", S + "particle_sub_group/discard_sub_group_selector.cpp", S + "particle_sub_group/cell_sub_group_selector.cpp", S + "particle_sub_group/copy_selector.cpp", S + "particle_sub_group/disjoint_union_sub_group_selector.cpp", S + "particle_sub_group/particle_group_partition.cpp"],
     "each selector builds per-cell counts, offsets and a map from loop layer to storage layer")

prop("C08", "Ephemeral properties follow their sub group and die with its invalidation",
     "Data stored in an ephemeral property of a sub group is read back for the same particle and component for as long as the sub group stays valid, independently of the other ephemeral and ordinary properties. "
     "Copies between ephemeral and ordinary properties move exactly the sub group's particles, and once the sub group is rebuilt or invalidated its ephemeral properties no longer exist.",
     ["histories", "inputs"],
     "every sub group, property layout and history of writes, copies and invalidating changes",
     "tests write and read one ephemeral property once.",
     [S + "containers/ephemeral_dats.cpp", I + "containers/ephemeral_dats.hpp", I + "algorithms/particle_data_movement.hpp", S + "particle_sub_group/particle_sub_group_base.cpp"],
     "per sub group storage indexed by (cell, loop layer), dropped on re-creation")

prop("C09", "Kernel random numbers are delivered completely and without reuse",
     "A kernel that draws random numbers receives, for each particle and component, a value produced by the supplied generator, and no generated value is handed out twice within a loop. "
     "This holds for every block size, component count, loop kind and iteration range, and generator calls supply enough values for every particle; exhausted atomic blocks are reported rather than reused.",
     ["inputs", "configurations"],
     "every occupancy, number of components, block size, loop type (group, sub group, cell range) and sequence of loops with the same generator",
     "tests use one occupancy and mostly default block sizes.",
     [I + "containers/rng/host_per_particle_block_rng.hpp", I + "containers/rng/host_atomic_block_kernel_rng.hpp", I + "containers/rng/kernel_rng.hpp", I + "containers/rng/host_rng_common.hpp", I + "containers/rng/tuple_rng.hpp"],
     "host generator fills a device buffer in blocks; kernels index it by linear particle index or by an atomic counter")

prop("C10", "Pair loops visit every listed pair exactly once without write conflicts",
     "A particle pair loop applies its kernel exactly once to each pair of the pair list, giving it the data of the correct first and second particle in the correct cell. "
     "Kernels may write to both particles: pairs processed at the same time never share a particle, so the result equals applying the pairs one at a time.",
     ["inputs", "schedules"],
     "every pair list (arbitrary lists per cell, single lists and blocked lists of several lists) over any occupancy",
     "tests use a few fixed pair lists; conflicts appear only for lists with particular sharing patterns.",
     [I + "pair_loop/particle_pair_loop_cellwise_pair_list.hpp", I + "pair_loop/particle_pair_loop_cellwise_pair_list_block.hpp", S + "pair_loop/cellwise_pair_list_simple.cpp", S + "pair_loop/cellwise_pair_list_block.cpp", I + "pair_loop/cellwise_pair_list.hpp"],
     "pairs are coloured into waves that run one after another")

prop("C11", "DSMC sampling yields valid collision pairs in the requested numbers",
     "The collision cell partition lists each particle exactly once under its mesh cell, collision cell and species. "
     "Sampling without replacement returns the requested number of pairs per collision cell with correct species and no particle used twice, and NTC sampling returns the requested number of pairs of distinct particles drawn from the given sub groups in each cell; all-to-all looping visits each unordered pair once. "
     "Maximum pair counts never exceed what the occupancies allow.",
     ["inputs", "configurations"],
     "every species and collision cell assignment, occupancy (including zero and one), requested count up to the maximum and random sequence",
     "tests sample from a handful of fixed occupancies.",
     [S + "algorithms/dsmc/collision_cell_partition.cpp", S + "algorithms/dsmc/pair_sampler_no_replacement.cpp", S + "algorithms/dsmc/pair_sampler_ntc.cpp", I + "algorithms/dsmc/cellwise_all_to_all.hpp"],
     "counting sort into (cell, collision cell, species) offsets and device-side sampling with host random numbers")

prop("C12", "Cell-wise algorithms and scans equal their serial definitions",
     "Cell-wise reductions of particle components, cell counts, broadcasts and element-wise operations on per-cell matrices, unseen value extraction, prefix scans, transposes and reductions give the result of the obvious serial computation on the same data. "
     "This holds for groups and sub groups, for every length, shape and occupancy including zero.",
     ["inputs"],
     "every array length and segmentation, every matrix shape, every occupancy and selection",
     "tests use a few sizes; the device algorithms switch strategy with size and pad to work-group multiples.",
     [I + "algorithms/common.hpp", I + "algorithms/reduce_dat_cellwise.hpp", I + "algorithms/cellwise_methods.hpp", I + "algorithms/unseen_value_extractor.hpp", S + "algorithms/common.cpp", S + "algorithms/reduce_dat_cellwise.cpp"],
     "work-group scans with auxiliary block sums, tiled transposes, atomic accumulation per cell")

prop("C13", "Mesh hierarchy indices, ownership claims and distributed data are consistent",
     "Linear and tuple indices of coarse and fine mesh hierarchy cells are bijections and neighbour queries return exactly the adjacent cells. "
     "After ranks claim cells, every rank that asks sees the same owner, which is a rank with the greatest claimed weight, and unclaimed cells have no owner. "
     "Data contributed to hierarchy cells from any ranks is returned complete and unaltered to whichever rank requests the cell.",
     ["inputs", "configurations"],
     "every dimension, subdivision, pattern of claims and weights, set of contributors and requests and rank count",
     "tests use one or two hierarchies on one rank, where the requester always owns the cell.",
     [I + "mesh_hierarchy.hpp", S + "mesh_hierarchy.cpp", I + "mesh_hierarchy_data/mesh_hierarchy_container.hpp", I + "mesh_hierarchy_data/serial_container.hpp"],
     "MPI one-sided windows hold claims and locks on ranks in shared-memory groups")

prop("C14", "The Cartesian mesh decomposition covers every cell once and maps points exactly",
     "For every grid and rank count each mesh cell belongs to exactly one rank, all index conversions are mutually inverse, and a point in the domain maps to the one owned cell that contains it on the rank that owns it. "
     "Halo and neighbour information, and the ids, owners and adjacency of boundary faces, agree on all ranks with the global grid.",
     ["inputs", "configurations"],
     "every 2D or 3D grid shape, subdivision order, halo width, cell width and rank count, and every point including ones on cell edges",
     "tests use a few symmetric grids on one rank.",
     [S + "cartesian_mesh/cartesian_h_mesh.cpp", I + "cartesian_mesh/cartesian_h_mesh.hpp", S + "cartesian_mesh.cpp", S + "cartesian_mesh/cartesian_cell_bin.cpp", I + "mesh_interface.hpp"],
     "MPI Cartesian topology with per-dimension block decomposition and owned cell ranges")

prop("C15", "Periodic wrapping returns positions to the domain without changing their image",
     "Applying periodic boundary conditions leaves every masked-in coordinate inside the domain, changed by an integer multiple of the extent (to rounding), and leaves coordinates already inside, masked-out dimensions and every other property untouched. "
     "The result does not depend on how often it is applied.",
     ["inputs"],
     "every finite position from just outside to many domain lengths away in either direction, every mask, dimension and particle collection",
     "tests wrap random positions at moderate distance only.",
     [S + "cartesian_mesh/cartesian_periodic.cpp", I + "cartesian_mesh/cartesian_periodic.hpp"],
     "device loop with fmod and sign handling per dimension")

prop("C16", "Boundary intersection finds the face each leaving trajectory crosses",
     "After an update of positions, exactly the particles whose straight trajectory leaves the Cartesian domain are returned, each in the one group whose faces contain its first exit face. "
     "The reported intersection point lies on the trajectory and on that face, the normal points inward, and the reported face id is that of the boundary cell containing the point.",
     ["inputs", "configurations"],
     "every start inside the domain and every end position, in 2D and 3D, every grouping of faces and rank count",
     "tests use a few hand-placed trajectories.",
     [S + "cartesian_mesh/cartesian_trajectory_intersection.cpp", I + "cartesian_mesh/cartesian_trajectory_intersection.hpp", I + "device_functions.hpp", S + "boundary/boundary_interaction_specification.cpp"],
     "per-face plane intersection tests choosing the smallest parameter along the trajectory")

prop("C17", "Reflection and truncation treat hit particles specularly and in place",
     "Reflecting a sub group that hit a boundary mirrors the velocity in the reported normal, preserving speed and tangential velocity, and leaves the particle inside the domain next to the hit point with the remaining step time reduced by the time already used. "
     "Truncation places the particle at the hit point, just inside, with the used time accounted for; particles that did not hit are untouched.",
     ["inputs", "histories"],
     "every velocity, time step and hit configuration, including corners and repeated reflections until the step is complete",
     "tests advect a few random particles.",
     [S + "boundary/boundary_reflection.cpp", I + "boundary/boundary_reflection.hpp", S + "boundary/boundary_truncation.cpp", I + "boundary/boundary_truncation.hpp"],
     "kernels that use the ephemeral intersection data and a reset distance")

prop("C18", "Surface functions conserve deposits and evaluate consistently across ranks",
     "Projecting particle weights onto boundary functions deposits each hit particle's weight once, on the face it hit, wherever that face is owned, so the integral over the faces equals the total weight. "
     "Evaluating a boundary function gives each hit particle the value held for its face, whichever rank holds it, also when the set of faces seen by a rank grows between calls.",
     ["histories", "inputs", "configurations"],
     "every assignment of faces to ranks and every history of hits, exchange pattern extensions, projections and evaluations",
     "on one rank every face is local, so the exchange never carries data in the stable tests.",
     [S + "boundary/boundary_mesh_interface.cpp", I + "boundary/boundary_mesh_interface.hpp", S + "cartesian_mesh/cartesian_h_mesh_function.cpp", S + "cartesian_mesh/cartesian_trajectory_intersection.cpp"],
     "incrementally extended MPI neighbour exchange from hit-face staging buffers to owned dofs")

prop("C19", "Particle output files contain exactly the written particles",
     "Writing a group or sub group and reading the file back gives exactly the particles present at each write, once each, with every requested property component unchanged, for any number of ranks and steps. "
     "Ranks or steps without particles are handled.",
     ["histories", "inputs", "configurations"],
     "every distribution of particles over ranks (including none), property selection, number of steps and sub group",
     "tests write one fixed distribution on one rank.",
     [I + "particle_io.hpp", S + "particle_io.cpp"],
     "collective HDF5 writes at offsets from an exclusive scan of the local counts")

prop("C20", "Collective communication helpers return the defined result on every rank",
     "Gathers, all-gathers, set unions, pairwise and broadcast exchanges, reversal of communication graphs and edge counting return, on each rank, exactly what their definition gives for the inputs of all ranks, including empty contributions. "
     "They complete on every rank for every input.",
     ["inputs", "configurations"],
     "every per-rank contribution (sizes, contents, empty) and rank count",
     "on one rank these helpers are trivial.",
     [S + "communication/communication_utility.cpp", I + "communication/communication_utility.hpp", S + "communication/communication_edges_counter.cpp", I + "communication/communication_edges_counter.hpp"],
     "MPI collectives, neighbour exchanges and one-sided counters")

prop("C21", "Overlay meshes and coordinate maps are exact inverses and covers",
     "Every point of an overlay grid's box maps to the one cell that contains it, and the cells reported for a bounding box are exactly those it meets. "
     "Mapping coordinates to a reference element or curvilinear system and back returns the original point within rounding, and reference coordinates of points inside an element are admissible.",
     ["inputs"],
     "every grid origin, extent and cell count, every non-degenerate element and every point, including vertices and edges",
     "tests use a few hand-picked elements and points.",
     [S + "external_interfaces/common/overlay_cartesian_mesh.cpp", I + "external_interfaces/common/overlay_cartesian_mesh.hpp", I + "external_interfaces/common/coordinate_mapping.hpp", I + "external_interfaces/common/bounding_box.hpp", I + "device_functions.hpp"],
     "per-dimension index arithmetic with clamping; closed-form inverse maps")

prop("C22", "Unstructured meshes map every particle to the cell and rank that contain it",
     "For every partitioned unstructured mesh in two or three dimensions, a particle anywhere in the domain ends, after the global and cell moves, on the rank and in the cell whose element contains its position, with no particle lost, duplicated or altered. "
     "Element volumes and point-in-cell queries agree with the geometry of the elements.",
     ["inputs", "histories", "configurations"],
     "every quadrilateral or triangular mesh, partition over ranks, particle position and displacement history",
     "the tests use a few structured meshes on one rank.",
     [S + "external_interfaces/petsc/dmplex_interface.cpp", S + "external_interfaces/petsc/dmplex_helper.cpp", S + "external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp", S + "external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp", S + "external_interfaces/petsc/dmplex_cell_serialise.cpp", S + "external_interfaces/common/local_claim.cpp"],
     "element bounding boxes claim mesh hierarchy cells; halo elements are exchanged; candidate elements are tested with reference coordinates")

prop("C23", "Projection onto unstructured meshes conserves and evaluation reproduces",
     "Projecting particle weights onto a piecewise constant function conserves the total exactly to rounding and puts each particle's weight in its own cell. "
     "Evaluating a piecewise constant function gives each particle the value of its cell, and barycentric evaluation reproduces every linear function at every particle.",
     ["inputs", "configurations"],
     "every mesh, particle distribution, weight and coefficient vector and rank count",
     "tests project one distribution on one mesh.",
     [S + "external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_dg.cpp", S + "external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_barycentric.cpp", S + "external_interfaces/common/quadrature_point_mapper.cpp", S + "external_interfaces/common/dof_mapper_dg.cpp"],
     "per-cell atomics scaled by inverse volume; vertex values weighted by barycentric coordinates")

prop("C24", "Containers behave as their abstract data types",
     "Ordered trees and lookup tables behave as maps, on host and device; resizing and cell-wise storage keeps existing values; product matrices, n-dimensional indices, tuples and particle sets address each element independently. "
     "Resource stacks hand out each resource to one holder at a time and get all of them back.",
     ["histories", "inputs"],
     "every sequence of container operations and every shape",
     "tests run a single fixed sequence for each container.",
     [I + "containers/blocked_binary_tree.hpp", I + "containers/lookup_table.hpp", I + "containers/cell_dat.hpp", I + "containers/cell_dat_const.hpp", I + "containers/product_matrix.hpp", I + "containers/nd_index.hpp", I + "containers/resource_stack.hpp", I + "device_buffers.hpp", I + "containers/tuple.hpp"],
     "flat device buffers with host-side shape metadata")

prop("C25", "Parallel initialisation spreads and keeps every requested particle",
     "Distributing an initial set of particles over ranks, and decomposing index ranges or points over ranks, assigns every item to exactly one rank, in balanced contiguous shares, and keeps generated points within the requested extents. "
     "After the distribution all particles are on the rank that owns their position with unchanged properties.",
     ["inputs", "configurations"],
     "every number of items and ranks, extents and dimension",
     "tests use one count on one rank.",
     [S + "parallel_initialisation.cpp", I + "parallel_initialisation.hpp", S + "utility.cpp", I + "utility.hpp", I + "typedefs.hpp"],
     "store positions, move in small steps or by mesh hierarchy lookups, then restore")

prop("C26", "Unstructured boundary crossings are found exactly once at the nearest facet",
     "After particles move, each particle whose trajectory crosses labelled facets of a two-dimensional unstructured mesh is reported once, in the group of the facet it crosses first, with that facet's id, the point of "
     "intersection and a unit normal of the facet. Particles whose trajectory crosses no labelled facet are in no group, and finding the crossings changes no particle. This holds for boundary facets held by any rank.",
     ["inputs", "histories", "configurations"],
     "every mesh, set of labels and groups, partition, trajectory and sub group",
     "the tests move all particles of one square mesh along an axis on one rank.",
     [S + "external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.cpp", S + "external_interfaces/petsc/boundary_interaction/boundary_interaction_common.cpp", I + "external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp", I + "external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp", I + "device_functions.hpp"],
     "facets are gathered to every node, binned into mesh hierarchy cells and intersected with each trajectory")

prop("C27", "Transfers between coupled meshes are the linear maps they were given",
     "A coupling of the cells of one mesh to the cells of a partitioned unstructured mesh, given as weighted pairs, transfers cell values forwards and backwards exactly as the linear maps with those weights: each target value is the sum over "
     "its pairs of weight times source value. This holds for every number of components, repeated pairs, cells without pairs, cells owned by any rank and any number of transfers in either direction.",
     ["inputs", "histories", "configurations"],
     "every partitioned mesh, every set of weighted pairs, component count and sequence of transfers",
     "the tests couple one mesh with itself on one rank.",
     [S + "external_interfaces/petsc/dmplex_mesh_coupler_dg0.cpp", I + "external_interfaces/petsc/dmplex_mesh_coupler_dg0.hpp", S + "external_interfaces/petsc/dmplex_helper.cpp"],
     "neighbour communicators in both directions; values are packed per destination rank")

prop("C28", "Visualisation output describes exactly the cells and values given",
     "A visualisation file holds every cell passed by every rank exactly once, with its shape, vertices, cell values and vertex values unchanged, and a consistent numbering, also when ranks have no cells. "
     "The cells, boundary faces and cell outlines that meshes provide for such files are those of the mesh: each once over all ranks, with vertices at its corners in order around it, and a surface function is written with the value of each face.",
     ["inputs", "configurations"],
     "every set of cells and values per rank, every mesh and partition",
     "tests write one file and do not read it back.",
     [S + "external_interfaces/vtk/vtk.cpp", I + "external_interfaces/vtk/vtk.hpp", S + "cartesian_mesh/cartesian_h_mesh.cpp", S + "cartesian_mesh/cartesian_h_mesh_function.cpp", S + "external_interfaces/petsc/dmplex_helper.cpp", S + "utility_mesh_hierarchy_plotting.cpp"],
     "ranks write consecutive slabs of shared datasets; connectivity and offsets are per rank")

prop("C29", "Invalid requests are refused and valid requests are not",
     "A request that breaks a precondition the interface checks is refused with an assertion or an exception, and a request at the border of validity that keeps it is carried out: properties that are missing, mandatory or of another size; "
     "sets, products and groups whose sizes, symbols, cells or domains do not match; cells, layers, rows, columns and elements out of range; selections and ephemeral data used wrongly; loops over missing data or submitted and waited out of turn; "
     "failed kernel assertions, each counted and reported; containers, generators and parameters of other sizes; meshes, overlays, boundary groups and surface functions with impossible arguments. Refusal never depends on the data of unrelated particles or cells.",
     ["inputs", "histories"],
     "every request against every group, mesh and container",
     "assertions abort the process, so tests hardly exercise them.",
     [S + "particle_group.cpp", I + "loop/particle_loop.hpp", I + "particle_sub_group/particle_sub_group_base.hpp", I + "containers/cell_dat_const.hpp", I + "containers/local_array.hpp", I + "containers/product_matrix.hpp", S + "mesh_hierarchy.cpp", I + "error_propagate.hpp", S + "cartesian_mesh/cartesian_trajectory_intersection.cpp"],
     "loops are submitted, waited and submitted again; kernel assertions raise a flag on the device that the host reads")

prop("C30", "Functions offered to kernels and users give the mathematical result",
     "For every argument the helper functions give the mathematical result: arithmetic wrappers agree with the standard functions to rounding; dot and cross products are exact where the products are; the 2D and 3D intersection functions "
     "report an intersection exactly when there is one (up to rounding at the ends of a segment), at its position and parameter; the orientation of a segment does not depend on the order of its ends; matrix inverses are inverses. "
     "Atomic additions, minima and maxima lose no update and return a value the memory held before it, reductions over a group and with the given identities equal the serial reduction, and the sort of eight sorts. "
     "One dimensional ranges visit each index once, N dimensional indices are row major bijections, tuples keep and pass their members, and sorting permutations, products and formatted numbers are right.",
     ["inputs", "schedules"],
     "every argument and every interleaving of the work items",
     "tests evaluate a handful of points, many helpers not at all; signs, ends and alignments of segments and concurrent updates combine.",
     [I + "device_functions.hpp", I + "external_interfaces/petsc/petsc_utility.hpp", I + "containers/nd_index.hpp", I + "containers/tuple.hpp", S + "compute_target.cpp", I + "typedefs.hpp"],
     "work items update the same memory with atomics")

prop("C31", "Profiling and run time settings record what happened and change nothing",
     "While profiling is enabled each loop, pair loop and region that ends is recorded once with its type, name, level, number of bytes and flops (the kernel's, times the number of particles in the iterated cells) and ordered times; while it is disabled nothing is "
     "recorded; events and entries are recorded in order with the given values, reset removes everything, and the JSON file is valid JSON that holds exactly the recorded events and regions for any names. Switching profiling at any point never "
     "changes the result of an operation or makes it fail. Settings from the environment take the given value when it is a number and the default otherwise, and a new target applies them.",
     ["histories", "inputs"],
     "every history of operations with profiling switched at any point, and every environment",
     "tests write one profile and never switch it during operations.",
     [I + "profiling.hpp", I + "loop/particle_loop_base.hpp", I + "pair_loop/particle_pair_loop_cellwise_pair_list.hpp", S + "loop/particle_loop_iteration_set.cpp", S + "compute_target.cpp", I + "typedefs.hpp"],
     "profiling is switched between the submission and the wait of a loop")


if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    for p in P:
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
