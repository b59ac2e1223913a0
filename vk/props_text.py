P("C01", "Region allocator: live blocks stay disjoint, aligned, intact until popped",
  "Every block obtained from a memory region is aligned to 16 bytes, fully usable for the requested size, disjoint from every other live block, and keeps its contents and address until it, or something allocated or marked before it, is popped or the region is released or destroyed. Popping to any earlier block or mark frees exactly what was allocated after it and nothing before, whatever the chunk layout, and destroying a region returns all of its memory. Temporary buffers keep their contents when they are resized.",
  ["inputs", "histories"], "every interleaving of allocate, zero-allocate, duplicate, format, temporary allocate and resize, mark, pop and release on regions of any initial size, with any request sizes",
  "The region tests use a handful of fixed sizes and never combine marks at chunk boundaries, exact fits and temporary buffers; correctness depends on where chunk boundaries fall in the history.",
  ["src/mem.c", "include/amino/mem.h", "include/amino/mem.hpp"], [("chunk list with head pointer, pop by address, chunk replacement", "src/mem.c aa_mem_region_*")],
  SAN + "shadow-model monitor over random allocation histories",
  "Held on the random histories run: each live block is mirrored in a shadow model and checked for overlap, alignment and content after every operation; chunks are individually malloc'ed so ASan sees overruns. Trusts the shadow model and gcc's sanitizers.")
P("C02", "Containers behave as their abstract types for every operation history",
  "Memory pools hand out disjoint usable objects and reuse only released ones; region lists preserve the order of pushes and enqueues, removal through an iterator and array or filled copies; dynamic vectors keep their elements in order across growth; bit vectors behave as sets of indices for get, set and bitwise and/or/xor; array heaps always yield the elements in key order and sort any array; memory swap exchanges exactly the named bytes.",
  ["inputs", "histories"], "every operation sequence, element size, length and alignment",
  "Unit tests push a few elements once; ordering, growth and word-boundary errors appear only for particular lengths and sequences.",
  ["include/amino/mem.h", "src/mem.c", "src/heap.c", "include/amino/heap.h"], [("pool free list, rlist links, bit words, array heap sift", "include/amino/mem.h, src/heap.c")],
  SAN + "reference-container monitors over random operation histories",
  "Held on the random histories run; each container is compared with a std:: reference after every operation.")
P("C04", "Matrix and vector operations match dense algebra on any view",
  "Every operation on matrix and vector descriptors (copy, swap, scale, increment, axpy, dot, norm, transpose, matrix-vector and matrix-matrix product with either transpose flag, inverse, pseudo-inverses, slices, rows, columns, diagonals and blocks) computes the mathematically defined result for any dimensions, strides and leading dimensions, reads its inputs without changing them, and writes nothing outside the addressed elements. Operands of mismatched size are reported through the error handler and left unmodified.",
  ["inputs"], "every shape from empty or 1x1 upwards, every stride and leading dimension, transpose flags, scalars including 0 and 1",
  "Tests use square or contiguous matrices; stride, leading-dimension and transpose-size mistakes only show on rectangular strided views.",
  ["src/mat.c", "include/amino/mat.h"], [("descriptor with explicit stride / leading dimension forwarded to BLAS and LAPACK", "src/mat.c")],
  SAN + "reference-model monitor (long double dense algebra) with canaries in stride padding",
  "Held on the random shapes and values run (dimensions up to 9); reference arithmetic is naive long double; padding between elements holds canaries and blocks are exact-size heap allocations.")
P("C05", "Linear algebra, statistics, interpolation and assignment solve their problem",
  "For every input in its domain, in double and single precision and for any leading dimension, each numeric routine satisfies its defining equations: QR, SVD and eigen factors reproduce the matrix with orthogonal or eigen structure, least-squares and damped or null-space solutions minimise what they claim, symmetric solves, Riccati solutions, medians, deviations, means, covariances, angles, plane fits, linear, quadratic, cubic and quintic interpolation meet their definitions, and the assignment solver terminates with an optimal full matching for any finite costs.",
  ["inputs"], "every matrix shape, leading dimension, precision and value, including negative, zero and tied costs and rank-deficient matrices",
  "Tests check a few fixed matrices; assignment optimality, workspace sizes and leading-dimension handling vary with shape and value.",
  ["src/la.c", "src/la_impl.c", "src/la2.c", "src/la_implf.F90", "src/are.c", "include/amino/math.h", "include/amino/la_impl.h"],
  [("type-generic wrappers around LAPACK, Hungarian algorithm, spline formulas", "src/la_impl.c, src/la_implf.F90")],
  SAN + "defining-equation and brute-force oracles",
  "Held on the random inputs run; oracles are residuals of the defining equations evaluated in long double, Jacobi SVD and subset dynamic programming for assignment.")
P("C07", "Rotation and pose representations convert consistently",
  "Converting a rotation or rigid transformation between representations (quaternion, rotation matrix, axis-angle, rotation vector, quaternion-translation, transformation matrix, dual quaternion, and single-axis rotations) always denotes the same rotation and translation to numerical precision, quaternions up to sign; every conversion result is a valid element of its representation, and converting there and back returns the original pose. This includes zero, tiny and half-turn angles and both quaternion signs.",
  ["inputs"], "every unit quaternion and finite translation, with rotation angles from 0 to pi including their neighbourhoods",
  "Tests sample random generic rotations; conversions branch on the trace, the angle and the sign, and errors sit in rare branches.",
  ["src/tf/conv.c", "src/tf/quat.c", "src/tf/quat_ord.c", "src/tf/quat_qutr.c", "src/tf/quat_duqu.c", "src/tf/tfmatrix.c", "src/tff.F90", "include/amino/tf.h"],
  [("conversion kernels with trace / small-angle branches", "src/tf/*.c, src/tff.F90")],
  SAN + "long-double reference model of rotations and poses",
  "Held on the random poses run, with angles biased to branch points; the oracle is an independent long-double model of SO(3) and SE(3).")
P("C08", "Composing, inverting and applying rotations and poses obeys the group laws",
  "Products, conjugate products, inverses, relative transforms, chains, left and right multiplication matrices and point actions of quaternions, rotation matrices, quaternion-translations, transformation matrices and dual quaternions all implement the same rotation and rigid-motion groups to numerical precision: composing then acting equals acting in turn, an inverse undoes its argument, relative transforms complete the chain, normalisation returns the nearest-by valid element without moving the pose, and inputs are never modified. Quaternion, dual quaternion and 3-vector algebra holds for non-unit operands too.",
  ["inputs"], "every pair or triple of rotations, poses, quaternions, dual quaternions and vectors, and every leading dimension of matrix outputs",
  "Tests compose a few random poses and compare representations with each other, so an error shared by two code paths or confined to a special angle goes unnoticed.",
  ["src/tf.c", "src/tf/quat_ord.c", "src/tf/quat_qutr.c", "src/tf/quat_duqu.c", "src/tf/tfmatrix.c", "include/amino/tf/spatial.h"],
  [("hand-expanded product kernels and macros per representation", "src/tf/*.c, include/amino/tf/spatial.h")],
  SAN + "long-double reference model of the groups",
  "Held on the random operands run; the oracle is an independent long-double implementation of Hamilton products and SE(3).")
P("C09", "Exponentials, logarithms, angles and their derivatives are exact at every angle",
  "For every angle, including zero, tiny and half turns, the exponential and logarithm of quaternions, quaternion-translations, rotation and transformation matrices and dual quaternions agree with the mathematical exponential map (translation coupling included) and invert each other; quaternion angles and spherical interpolation follow the constant-speed short arc and stay unit; and the directional derivatives and Jacobians of exp and log equal the true derivatives, with no loss of precision in the small-angle branches.",
  ["inputs"], "every exponent, rotation angle, axis, translation, interpolation parameter and direction of differentiation",
  "The formulas switch to series near zero; tests draw generic angles and never enter those branches, and Jacobians are compared only at a few points.",
  ["src/tf/quat_ord.c", "src/tf/quat_pde.c", "src/tf/quat_qutr.c", "src/tf/quat_duqu.c", "src/tf/tfmatrix.c", "include/amino/tf/spatial.h"],
  [("small-angle Taylor branches of sinc-like factors", "src/tf/*.c, include/amino/tf/spatial.h AA_TF_DEF_SERIES")],
  SAN + "long-double closed forms and high-order long-double differences",
  "Held on the random exponents and poses run; excluded as undefined: the logarithm of the exact negative identity quaternion and its immediate neighbourhood.")
P("C10", "Velocities, derivatives, twists and integration describe one motion",
  "For every pose, velocity and time step, conversions between spatial velocity, twist and the time derivative of each representation (quaternion, rotation matrix, quaternion-translation, dual quaternion, rotation vector, and Jacobian columns) are mutually inverse and equal the true derivative of the motion; closed-form integration of a constant velocity or derivative moves the pose along exactly that motion in every representation; Runge-Kutta and acceleration steps stay within their order; and derivatives of spherical interpolation, also with moving end points, are the true derivatives.",
  ["inputs"], "every pose, velocity, acceleration, time step of either sign, interpolation parameter and number of Jacobian columns",
  "Tests compare one representation with another at a few random poses; a shared convention error or a special angle escapes, and interpolation derivatives are untested.",
  ["src/tf/quat_ord.c", "src/tf/quat_qutr.c", "src/tf/quat_duqu.c", "src/tf/tfmatrix.c", "src/tff.F90"],
  [("derivative and step formulas per representation", "src/tf/*.c, src/tff.F90")],
  SAN + "long-double motion model with high-order differences",
  "Held on the random motions run; interpolation derivatives are judged away from the ambiguous quarter-turn fold.")
P("C11", "Euler, DH, planar, look-at, two-vector and averaged poses meet their definitions",
  "All twelve Euler orders, both Denavit-Hartenberg conventions, planar rotations and transforms (complex and matrix), the two-link planar inverse kinematics, look-at frames, frames from two axes, the minimal rotation between two vectors and the weighted average of orientations or poses produce exactly the rotation or pose of their definition in every output representation, for all angles, vector lengths and relative directions (parallel and opposite included); recovering zyx angles inverts the construction away from gimbal lock and is finite everywhere; an average is the unit quaternion that maximises the weighted fit.",
  ["inputs"], "every angle triple, link parameter set, vector pair of any length and direction, weight set and count",
  "Each construction has special directions and angles (parallel vectors, gimbal lock, quarter turns) that random tests do not hit.",
  ["src/mac/euler.mac", "src/tf/conv.c", "src/tf/tfp.c", "src/tf/quat_ord.c", "src/tf.c", "src/kin.c", "src/tff.F90"],
  [("generated Euler kernels, direct formulas with degenerate-case branches", "src/mac/euler.mac, src/tf/conv.c, src/tf/quat_ord.c")],
  SAN + "long-double definitions as oracle",
  "Held on the random angles and vectors run. Excluded: recovery of individual angles at gimbal lock, two-link targets on the axis the closed form divides by.")
P("C13", "A scene graph reports exactly the frames, joints and data put into it",
  "After any history of adding, replacing, removing and reparenting frames, setting limits, inertials, geometry and allowed collisions, copying and destroying graphs, indexing a graph succeeds exactly when every chain of parents ends at the root (orphans and cycles are reported, and the graph can be repaired); then names and ids of frames and configurations are bijections onto 0..n-1, parents come before children, and every query (type, parent, axis, configuration, limits, centre, inertial, geometry, allowed collisions, transforms in all forms) returns what was last set; unknown names and ids are answered as such. Copies are deep and independent, and nothing is leaked or used after being freed.",
  ["inputs", "histories"], "every history of edits on any number of graphs, any frame and configuration names, any insertion order",
  "Tests build a few fixed graphs once; stale indices, dangling names and shared state after edits appear only in histories.",
  ["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/sg_capi.c", "src/rx/collision_set.cpp", "include/amino/rx/scenegraph.h", "include/amino/rx/scene_dyn.h"],
  [("name maps, topological indexing and dirty flags", "src/rx/scenegraph.cpp, src/rx/sg_api.cpp")],
  SAN + "online model of the graph by names over random edit histories",
  "Held on the random histories run; ids are judged after indexing, as documented.")
P("C14", "Forward kinematics give the true pose of every frame in every form",
  "For every scene graph and configuration, the relative and absolute transforms of each frame (quaternion-translation, matrix, dual quaternion, incremental update, FK objects, descriptor entry points) equal the product of fixed transforms and joint motions (revolute about, prismatic along, the axis in the joint frame, offset included) along the path from the root, to numerical precision and with unit rotations; joints sharing a configuration move together; transforms between two frames complete the chain; results do not depend on storage strides or on which frames changed, and writes stay inside the entries asked for.",
  ["inputs"], "every valid graph, configuration, storage layout and pair of configurations for incremental updates",
  "Tests compare a few transforms of one robot in one form; the matrix, dual quaternion and incremental forms of each joint type are separate code.",
  ["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "include/amino/rx/scene_fk.h", "include/amino/rx/scenegraph.h"],
  [("per-type relative transforms in three forms; change propagation in tf_update", "src/rx/scenegraph.cpp, src/rx/sg_api.cpp")],
  SAN + "long-double reference model of the kinematic tree",
  "Held on the random graphs and configurations run; revolute axes are unit vectors, as the interface requires.")
P("C15", "Chains select the right joints and their Jacobians are the true derivatives",
  "The chain from any root to any tip (or several tips) of a scene graph contains exactly the frames between them, parents first, with the configurations of its joints in that order; moving configurations or paths between chain and whole graph touches exactly those entries; centre and random configurations respect the limits; evaluating only the chain's kinematics updates exactly its frames. The velocity Jacobian equals the derivative of the tip position and orientation with respect to the chain's configurations, and the twist Jacobian the same motion as a twist at the origin, through every entry point and leading dimension.",
  ["inputs"], "every graph, root, tip or set of tips, configuration and leading dimension; each joint of a chain has its own configuration",
  "Tests use one arm whose chain starts at the root; column order, axis frames and reference points differ only for general trees.",
  ["src/rx/scene_kin.c", "src/rx/scene_sub.cpp", "include/amino/rx/scene_sub.h", "include/amino/rx/scene_ik_internal.h"],
  [("chain extraction and column-wise geometric Jacobians", "src/rx/scene_kin.c, src/rx/scene_sub.cpp")],
  SAN + "model of chains by names; 6th-order long-double differences of the reference kinematics",
  "Held on the random trees run; Jacobians of chains without joints (rejected by the block view) are excluded.")
P("C18", "Workspace control moves the end effector as commanded and within joint limits",
  "For every chain and posture, converting a workspace velocity gives the damped least-squares joint velocity: exact away from singularities, never larger than the damping bound near them. A projected reference velocity moves only joints in the null space and never opposes the reference; joint centring points to the middle of each limited joint in proportion to its range and is zero for unlimited ones. The pose-error term, added to the given velocity, is half the twist of the shortest screw from the actual to the reference pose for either quaternion sign, so servoing converges. LC3 control, over any history of one controller, returns a velocity within every velocity, acceleration and stopping-distance limit that follows the requested velocity as far as the linear program of the method allows, and fails only when no such velocity exists.",
  ["inputs", "histories"], "every chain, posture, velocity, limit set, time step and stride; pose errors away from a half turn; default control options",
  "No test runs these controllers on a redundant arm with limits; a null-space term cut short or a limit of the wrong sign shows only then.",
  ["src/rx/scene_wk.c", "src/rx/lc3.c", "src/rx/scene_wk_internal.h", "include/amino/rx/scene_wk.h", "src/mat.c"],
  [("damped pseudo-inverse, null-space projector and a reused linear program", "src/rx/scene_wk.c, src/rx/lc3.c")],
  SAN + "long-double Jacobian and eigen-decomposition reference; simplex reference for LC3; closed-loop runs",
  "Linear-program answers are judged to the solver's feasibility tolerance (1e-6).")
P("C19", "Trajectories pass their waypoints within limits at every time",
  "For every waypoint list and limits, linear, trapezoidal and parabolic-blend trajectories start at the first waypoint, end at the last at the reported duration, visit the others in order (through them, or blending around them as the method prescribes), never exceed the velocity limits nor, where they bound it, the acceleration limits, and report the position, velocity and acceleration of one and the same motion. Evaluation gives the same answer whatever times were asked before, says inside exactly for times in [0, duration], and fills just the arrays supplied. SLERP and workspace blends do the same for poses on the shorter arc. The validity check sees every step and reports the first failure, and the continuity check is right in both directions. Workspace paths integrate the workspace controller from the start, inside the joint limits, and arrive. States and waypoints are copied, compared and printed faithfully.",
  ["inputs", "histories"], "every number of joints and waypoints, every limit (symmetric accelerations for trapezoids), every order of evaluation times",
  "The trajectory test is not even built; wrong signs, limits broken by synchronisation and stale evaluation state need random limits and random time orders.",
  ["src/ct/traj.cpp", "src/ct/state.c", "include/amino/ct/traj.h", "include/amino/ct/traj_internal.hpp", "src/rx/rx_ct.c"],
  [("segment list with a remembered position", "src/ct/traj.cpp"), ("RK4 integration of a workspace controller", "src/rx/rx_ct.c")],
  SAN + "long-double reference trajectories; invariants on every evaluated state; callback monitor",
  "Trapezoids assume the symmetric acceleration limits their source states; waypoints closer than the library's comparison tolerance count as one.")
P("C20", "Integrators, simulation steps and finite differences follow the system given",
  "For every system, time, state and step (of either sign, or zero), each Runge-Kutta step is the published method of its order, evaluates the system only within the step, keeps its inputs, and leaves the derivative columns its interface promises; the ODE solver takes exactly such steps from the initial state, advances time by the step taken, accepts only steps within the error tolerance, changes the step size by the given factors, hands the check function the true time, state and derivative, honours changes the check makes, stops when told with the right status, and the path holds every point in order. Discrete, Euler and Runge-Kutta steps of linear and affine systems and finite-difference gradients and Jacobians equal their definitions.",
  ["inputs", "histories"], "every system of any size, time-dependent or not, initial state, step, tolerance, adaptation factor, check function and storage layout",
  "Tests integrate a few time-independent systems to loose tolerances, where a wrong stage time, weight or adaptation rule cannot be seen.",
  ["src/sigsys.c", "src/diffeq.c", "include/amino/math.h", "include/amino/diffeq.h"],
  [("tableau coefficients with reused columns; adaptation loop", "src/sigsys.c")],
  SAN + "online log of every solver step replayed by a long-double tableau interpreter",
  "Held on the random systems run. The Dormand-Prince pair is judged as published, whichever of its two results is called the fourth-order one.")
P("C17", "Inverse kinematics never claims a wrong solution and optimises the stated error",
  "When the inverse-kinematics solver reports success the configuration it returns is finite, within every joint limit, and puts the chosen frame within the configured angle (quaternion half angle) and translation tolerances of the target, with all other joints at the start configuration; otherwise it reports no solution or an invalid parameter. It accepts a seed that is already a solution, terminates, leaves seed, start and strided storage intact, gives the same answer when repeated, and its centre and random seeds respect the limits. The check function accepts exactly the configurations within tolerance. Every objective is the stated pose error with its true gradient, and the local step commands the feedback velocity plus the null-space motion.",
  ["inputs", "histories"], "every chain, limits, target, seed, start, tolerance, algorithm, objective and restart time; gradients away from half-turn errors",
  "Tests solve a few poses of two arms; a loose acceptance test, a gradient wrong off the diagonal or a limit missed shows only on other chains and seeds.",
  ["src/rx/scene_ik.c", "src/rx/ik_nlopt.c", "src/rx/ik_jacobian.c", "include/amino/rx/scene_ik.h", "src/rx/scene_wk.c"],
  [("acceptance test separate from the optimiser; analytic gradients", "src/rx/scene_ik.c, src/rx/ik_nlopt.c")],
  SAN + "online monitor inside the optimiser's objective; long-double forward kinematics judges every claimed solution",
  "Completeness (finding a solution whenever one exists) is not claimed; only that exact solutions are kept.")
P("C21", "Every linear-program backend solves the current problem or says it cannot",
  "For every linear program, whichever backend solves it and however it was entered (dense with any leading dimension, sparse rows, one call or a context), success means a finite point within the bounds and constraints whose objective is optimal in the current direction, and infeasible or unbounded problems are never reported as solved. A context whose direction, objective, bounds, constraints or variable types were changed any number of times, between any number of solutions, solves the problem as last set; integer and binary variables take such values. Contexts free everything they own.",
  ["inputs", "histories"], "every problem size, data, bound pattern, backend and history of changes; quadratic programs are not built here",
  "Tests solve three feasible problems once each; equality, free and empty rows, infeasible problems and stale state after changes need other data.",
  ["src/opt/opt.c", "src/opt/opt_glpk.c", "src/opt/opt_lpsolve.c", "src/opt/opt_clp.cpp", "src/opt/opt_internal.h", "include/amino/opt/lp.h"],
  [("one vtable over three solvers with different bound and row conventions", "src/opt")],
  SAN + "exact rational simplex reference; model-based histories",
  "Small exactly representable problems; statuses that CLP itself misjudges when called directly on the same data are not counted.")
P("C25", "Numeric text is read and printed exactly, whatever the line lengths",
  "For every text, reading a line gives exactly its characters whatever its length, the free space of the memory region or the objects already in it; parsing gives exactly the numbers before the first comment, junk or end, in order, with any increment, stops where it says, and touches nothing else. Reading a matrix skips blank and comment lines, stores every number of every line whatever capacity the caller's buffer has, and reports the line number of the first bad line. Printing writes every element of vectors and matrices of any shape (including empty) in the stated order, and what is printed reads back to the printed precision. Streams arriving in pieces accumulate without loss.",
  ["inputs", "histories"], "every line length, free space, number format, capacity, shape and arrival pattern",
  "Tests parse a few short lines; the defects sit where a line exactly fills a chunk or a buffer is smaller than a row.",
  ["src/io.c", "src/debug.c", "include/amino/io.h"],
  [("lines grow in the free space of a region and move between chunks", "src/io.c")],
  SAN + "model of the text (reference splitter and strtod), redzoned exact-size strings",
  "Output uses %f, so magnitudes far below 1e-6 are not preserved.")
P("C24", "Wavefront files give exactly their contents or are rejected",
  "For every OBJ and MTL file within the documented grammar the parser returns exactly the vertices, normals, faces with zero-based indices (and the not-used mark for absent texture indices), the material of each face, the material names in order of first use, and the referenced material files with every property present in them and no other; decimals and exponents of any length keep their value. A file with a line outside the grammar, incomplete elements, properties without a material or a missing material file is rejected; whatever the bytes, nothing crashes, leaks, or is accepted as part of an element, and accessors past the end give nothing.",
  ["inputs"], "every file; faces before the first usemtl and the values of texture vertices (not retrievable) are not judged",
  "No stable test parses any file; number forms, truncation and damaged input need generated files with known contents.",
  ["src/wavefront/wavefront.l", "src/wavefront/mtl.l", "src/wavefront/wf_obj.c", "src/wavefront/wf_mtl.c", "include/amino/rx/wavefront.h"],
  [("start-condition lexers; hand-written number conversion", "src/wavefront")],
  SAN + "generator-known contents; mutation of whole files with shape invariants",
  "A final line without a newline may be rejected, but never loses data silently.")
P("C22", "Collision queries and distances agree with the geometry of the scene",
  "For every scene, configuration and history of allowed pairs: a check reports exactly the pairs of different frames whose collision shapes (scaled spheres, boxes, cylinders extending in +Z, and meshes) intersect and that are not allowed; with and without a set the result agrees, and pairs found are added to what the set held. Collision sets stay symmetric and behave as sets of unordered pairs under set, clear, fill, merge and copy. Distances of unallowed pairs equal the separation of the shapes, are at most zero exactly when they penetrate, come with closest points on the two shapes in the order asked for, and the nearest-pair query is their minimum. Allowing a configuration silences exactly its collisions. Inputs are not changed and no memory error occurs.",
  ["inputs", "histories"], "every scene of supported shapes; placements within 0.1 mm of touching, and pairs on which FCL itself contradicts the geometry, are not judged",
  "The stable tests make no collision query with several shapes; stale bounding boxes, offsets, scale and pair order only show on particular scenes.",
  ["src/rx/amino_fcl.cpp", "src/rx/collision_set.cpp", "include/amino/rx/scene_collision.h", "include/amino/rx/scene_fcl.h"],
  [("broad phase over cached bounding boxes; narrow phase by FCL", "src/rx/amino_fcl.cpp s_update_tf, cl_check_callback"), ("lower-triangle distance store with normalised order", "src/rx/amino_fcl.cpp")],
  SAN + "alternating-projection certificates in long double and direct FCL queries at the same placement; reference pair sets over operation histories",
  "FCL is not part of this repository: a pair is a violation only if amino differs both from the certificate and from FCL asked directly.")
P("C27", "Geometry objects keep their contents and live exactly as long as referenced",
  "After every history of creating, copying, re-optioning, attaching, detaching and destroying geometries, meshes and graphs that share them: each live geometry has the shape, dimensions and options it was created with (later edits of the option object or of copies do not show), its reference count is the number of its owners, and a mesh is held once by each creator and each geometry using it; mesh data are those last set, copied or referenced as asked; every option getter returns what its setter was given; objects are freed with their last owner, nothing is used after that, and nothing leaks. An octree adds exactly one frame per occupied voxel, of its centre and size, with the given options.",
  ["inputs", "histories"], "every history of valid operations",
  "The stable tests never destroy shared geometry in different orders nor read back options; lifetimes only fail on particular histories.",
  ["src/rx/scene_geom.c", "src/rx/geom_opt.c", "src/rx/sg_octree.cpp", "src/rx/octree_geom.cpp", "include/amino/rx/scene_geom.h", "src/refcount.c"],
  [("reference counts shared by graphs and geometries", "src/rx/scene_geom.c aa_rx_geom_destroy"), ("owned and borrowed mesh arrays", "src/rx/scene_geom.c MESH_SET_THING"), ("one frame per occupied voxel", "src/rx/sg_octree.cpp")],
  SAN + "model of owners compared after every operation; every history run twice and its heap balance compared",
  "Normals, texture coordinates and colours have no public getter; they are read from the internal structure.")
P("C28", "Compiled scenes load completely and stay loaded exactly while used",
  "Loading a compiled scene or mesh gives exactly the frames, poses, limits, permissions, geometry and mesh data its plugin describes, into a new or a given graph and below the given frame, leaving what the graph held before. Any number of scenes of any plugins may be loaded into one graph, copied, edited and destroyed in any order: a plugin stays in memory exactly as long as a graph, a copy of one or a mesh that came from it exists, so nothing ever refers to unloaded data, and it is unloaded with the last of them. A load that cannot succeed returns nothing and changes nothing.",
  ["histories"], "every history of loading, copying, attaching, removing and destroying; a geometry the user holds beyond every graph of its plugin is not judged",
  "No stable test loads a plugin; the mesh arrays live in the plugin's own data, so a wrong order of unloading is invisible until some later read of them.",
  ["src/rx/plugin.c", "include/amino/rx/scene_plugin.h", "src/rx/sg_api.cpp", "src/rx/scene_geom.c"],
  [("destructors registered with graphs and meshes close the plugin", "src/rx/plugin.c plugin_destructor"), ("copies of a graph share its destructors", "src/rx/sg_api.cpp aa_rx_sg_copy")],
  SAN + "model of graphs, meshes and loaded plugins compared after every operation with the program's own table of loaded objects",
  "The plugins are written in the form the scene compiler emits; the compiler itself (Common Lisp) cannot run here.")
P("C29", "The viewer draws every visible object where and as the scene says",
  "For every scene, configuration, camera and setting, one rendering draws exactly the objects that are visible: those whose visual or collision flag is shown and whose frame is not masked. Each appears at the pose of its frame, at its scale, in its colour or texture, seen through the current camera and perspective, lit in proportion to the light. What is drawn of a shape is that shape: boxes, spheres, cylinders, cones, tori, grids, meshes and octrees of any dimensions are covered by triangles on their surface, complete, with outward normals, one cube for each occupied voxel. Camera, light, perspective, mask and visibility settings hold what was set last. Every call of the graphics library is valid; its objects are created once however many graphs share a shape, and they are released, like all memory, with the last user.",
  ["inputs", "histories"], "every scene and history of attaching, copying, removing, rendering and destroying (also from other threads); OpenGL is stood in for by a recording model, so the driver itself is not judged; normals on the side of a cone need only point outwards",
  "No stable test draws anything; index and count mistakes show only as wrong triangles on a screen or as reads past a buffer inside the driver.",
  ["src/amino_gl.c", "src/octree_gl.cpp", "include/amino/rx/scene_gl.h", "src/rx/sg_api.cpp", "src/rx/scene_geom.c"],
  [("counts and indices of generated triangles", "src/amino_gl.c init_* and tri_mesh"), ("deferred deletion of buffers of other threads", "src/amino_gl.c aa_gl_buffers_schedule_destroy"), ("mask grown on demand", "src/amino_gl.c aa_gl_globals_mask")],
  SAN + "recording model of OpenGL that rejects invalid calls, interprets the library's own shaders and compares every drawn triangle with the scene",
  "The driver and the pixels are outside; the shaders are run by an interpreter of the subset of GLSL they use, and other shaders would be left unjudged.")
P("C26", "Scalar, angle, statistics, time and endian utilities follow their definitions",
  "For all operands: integer and real modulo have the sign of the divisor and are congruent; angles normalise into the stated interval without changing the direction, and differences of angles are the short way round; clamping, dead zones, fuzzy comparison, location of extrema, uniform numbers and validity tests hold exactly on boundaries, NaN and infinities. Sums, differences, comparisons and conversions of times equal exact integer nanoseconds with normalised results, and a sleep lasts at least as long as asked although signals interrupt it. Every load, store and conversion of byte order produces exactly the big or little endian bytes at any alignment. Means, deviations, covariances, circular and outlier-excluding statistics, Mahalanobis distance, plane fits, least squares, SVD, colour conversion, planar inverse kinematics (both solutions, exactly when reachable) and plot scripts equal their definitions.",
  ["inputs"], "every operand, including boundaries; targets within a few percent of the edge of the planar workspace and ill-determined mean directions are not judged",
  "Tests use a handful of operands; the defects found sat at boundaries (large divisors, NaN, targets on an axis) or in a factor no test pinned down.",
  ["src/math.c", "include/amino/math.h", "include/amino/time.h", "src/time.c", "include/amino/endconv.h", "src/validate.c", "src/kin.c", "src/cv.c", "src/plot.c"],
  [("modulo of negative and extreme operands", "include/amino/math.h"), ("normalisation of times", "include/amino/time.h"), ("closed forms divided by an operand that may vanish", "src/kin.c")],
  SAN + "128-bit integer and long-double reference models; signal injection during sleeps",
  "Held on the operands run.")
P("C06", "Every library call leaves the scratch region balanced and nothing on the heap",
  "Whatever the arguments, the size and state of the calling thread's scratch region, and the outcome (success, failure, rejected input, calls made from callbacks), a library call returns with that region balanced: everything it allocated there is released, everything the caller had allocated before is still allocated with its contents unchanged, and repeating the call any number of times does not grow the region. Nor does it leave anything on the heap that the caller has no handle to: repeating a piece of work and destroying everything it returned does not make the heap grow.",
  ["inputs", "histories"], "every library call that the workloads of the other properties make, for every argument they generate; results documented as allocated from the scratch region are exempt, and so are objects for which the library has no function that destroys them (the context of the linearly constrained controller)",
  "Tests never look at the scratch region nor at what stays on the heap; an imbalance silently grows it or frees a caller's temporary only on the paths that miss the matching release.",
  ["src/mem.c", "src/la.c", "src/la_impl.c", "src/mat.c", "src/are.c", "src/tf.c", "src/sigsys.c", "src/diffeq.c", "src/rx/lc3.c", "src/rx/scene_wk.c", "src/rx/scene_ik.c", "src/rx/sg_api.cpp", "src/rx/rx_ct.c", "src/ct/traj.cpp", "src/io.c", "src/wavefront/wf_obj.c"],
  [("manual pairing of allocation and release on every path", "src/rx/scene_ik.c, src/rx/rx_ct.c, src/la_impl.c")],
  SAN + "balance monitor wrapped around every library call (marked allocation, top of region, chunk count); heap balance: one case in ten runs again with the same seed, and bytes on the heap that grow at every repeat are a leak, reported with the stacks that allocated them",
  "Held on the calls made by the workloads; calls those workloads do not make are not observed.")
P("C03", "Concurrent use is race-free: reference counts, thread regions, shared queries",
  "For every schedule of threads: increments and decrements of a reference counter are atomic (their returned previous values are explained by one total order, exactly one release sees the last reference), so geometries and meshes shared by graphs of different threads stay valid while referenced and are freed exactly once; every thread has its own scratch region, untouched by other threads, kept for the life of the thread and freed with it; and threads that only query a shared scene graph, chain or pose, or that use solvers, integrators, transforms and parsers on their own data, never race and obtain exactly the sequential results.",
  ["schedules"], "2 to 7 threads on every operation mix the workload draws; editing an object while another thread uses it is not permitted use",
  "The tests are single threaded.",
  ["src/refcount.c", "src/mem.c", "src/rx/scene_geom.c", "include/amino/refcount.h", "src/rx/amino_fcl.cpp", "src/opt/opt_glpk.c"],
  [("atomic counters with a mutex fallback", "src/refcount.c"), ("lazily created thread-specific region", "src/mem.c aa_mem_region_local_get"), ("shared const graph", "src/rx/sg_api.cpp")],
  "ThreadSanitizer (gcc -fsanitize=thread) plus offline checkers over per-thread operation logs (counter linearizability), ownership patterns in scratch memory and comparison with sequential answers under injected delays",
  "Held on the schedules run; libraries outside this repository (FCL, NLopt, LP solvers, LAPACK) are not instrumented.")
P("C23", "Planned paths join start to goal within limits and free of collisions",
  "For every scene, planner and history of requests on one planning context: a path that planning reports as found begins at the last start given, ends at the last accepted goal (the joint goal exactly, a pose goal within the IK tolerance), keeps every planned joint within its position limits, leaves every other joint at its start value, and has no two frames in collision at its points or, up to the planner's resolution, between them, except pairs allowed by the graph, by a request, or because they collide in the start or an allowed configuration. Earlier starts, goals, permissions since withdrawn and earlier results have no effect. A joint goal is accepted exactly if it is within the limits and free of unallowed collisions. When no path is found none is returned; without obstacles a path to a reachable goal is found. The planner's own view agrees: its bounds are the limits, a state is valid (from any thread) exactly if it is free of unallowed collisions, frame poses are those of the scene, and the distance to a goal of several poses is the sum of their errors. Plan sequences return every plan appended, unchanged and in order, and a status prints as the names of its errors. No memory error, leak or use of freed goals occurs, with pose goals sampled by a concurrent thread.",
  ["inputs", "histories", "schedules"], "every scene of sphere-shaped frames and history of valid requests, all planners except SBL and LBKPIECE in fewer than three dimensions (where the installed OMPL aborts)",
  "No stable test plans a path; reuse of a context, joints outside the plan, withdrawn permissions and the sampling thread only matter in particular histories and schedules.",
  ["src/rx/mp/scene_ompl.cpp", "src/rx/mp/scene_state_space.cpp", "src/rx/mp/scene_state_validity_checker.cpp", "src/rx/mp/workspace_goal.cpp", "src/rx/mp/ompl_rrt.cpp", "src/rx/mp_seq.cpp", "include/amino/rx/scene_planning.h"],
  [("state validity by collision check at the start's values of other joints", "src/rx/mp/scene_state_validity_checker.cpp isValid"), ("goal sampling thread solving IK from random seeds", "src/rx/mp/workspace_goal.cpp sampler_fun"), ("path array filled from the start and the planned joints", "src/rx/mp/scene_ompl.cpp aa_rx_mp_plan")],
  SAN + "online model of starts, goals and allowed pairs; every returned path judged by a long-double sphere model along its length",
  "Between the states OMPL checked (1% of the space's extent) an overlap up to a first-order bound is not judged. OMPL itself is trusted and not instrumented.")
P("C30", "The viewer shows the current configuration or plan and answers input",
  "For every history of input and calls on a window: the camera moves exactly as the wheel, keys with modifiers, drags and 3D mouse say, each by its documented step, and no input or set pose is lost; the title, size, full-screen state and handled events are as requested; a handler bound to an event is the one called, and the default applies only if it declines. Each display function is called once per frame with correct first, previous, current and initial times, at no more than the set rate, and buffers are swapped only if something was drawn. A frame shows the scene at the last configuration set before it (no mixture, none older than one shown before); a displayed plan is a continuous walk along its own path at constant pace in its own scene, each segment held at its end, beginning again only after the end, whatever becomes of the caller's array. Workspace control moves the end effector with the commanded twist, other joints staying, within limits. The loop begins whether started before or after its window exists, stops on stop, or on quit if enabled, and counts as running until its last frame is done. Window functions used from any thread exclude each other, every destructor runs exactly once after the last use of its context, and nothing leaks.",
  ["inputs", "histories", "schedules"], "every history of permitted calls on one window per process, with SDL and OpenGL replaced by recording stand-ins and a virtual or real clock",
  "The stable tests open no window; the event loop, timing and locking are not run at all.",
  ["src/rx/sdl_win.c", "src/amino_sdl.c", "src/sdl_handler.c", "src/sdl_ui.c", "include/amino/rx/scene_sdl.h", "include/amino/rx/scene_win.h"],
  [("window shared between the display thread and callers under its mutex", "src/rx/sdl_win.c"), ("event dispatch and frame pacing", "src/amino_sdl.c aa_sdl_display_loop"), ("camera control by keys, mouse and 3D mouse", "src/sdl_ui.c")],
  SAN + "ThreadSanitizer, stand-ins recording every OpenGL and SDL call, model of camera, plan and frame times, offline checker of frames against the tickets of concurrent writes",
  "Not judged: aa_rx_win_call, resizing to height zero, three modifier keys at once, empty plans, feedback gain and null-space drift of workspace control.")
P("C12", "The C++ classes and expression templates compute what they denote",
  "For all shapes, strides, scalars and operand orders: assigning a C++ vector or matrix expression (scaling, sums, products, transposes, nested in any supported way) to a view stores the value the expression denotes in exactly the elements of that view, leaving operands and everything between strides unchanged; slices, blocks, rows, columns, diagonals and iterators address exactly the stated elements. Every constructor, conversion, product, inverse and assignment between the C++ rotation, transform and planar classes denotes the same rigid motion as its operands, and default construction gives the identity. Containers and scopes backed by a memory region hold what was put in them and give all memory back when the scope ends, in any nesting.",
  ["inputs", "histories"], "every well-formed expression whose target does not overlap its operands",
  "Few of the overloads are instantiated by any test; a template that is never instantiated is not even compiled, and stride or operand-order slips show only on particular shapes.",
  ["include/amino/mat.hpp", "include/amino/mat_internal.h", "include/amino/spatial.hpp", "include/amino/planar.hpp", "include/amino/mem.hpp", "include/amino/eigen_compat.hpp"],
  [("expression nodes evaluated on assignment through BLAS calls", "include/amino/mat.hpp"), ("overloaded converting constructors", "include/amino/spatial.hpp"), ("RegionScope releasing on destruction", "include/amino/mem.hpp")],
  SAN + "every overload evaluated on generated operands against long-double references; guard bytes between strides",
  "An expression whose target is also an operand (x = x + y) is outside the property: evaluation is in place.")
P("C16", "The Python bindings denote the library's objects and keep them alive",
  "For all operands: arithmetic, comparison, slices, blocks, rows, columns and BLAS calls (with transposition) on Python vectors and matrices, and every conversion, product, inverse and setter of the Python rotation and transform classes, give the values of their mathematical definition; slices and blocks are views of the object they were taken from. Indices, names and sizes out of range raise the documented exception. Scene graphs built, copied, edited and queried from Python have the poses, names, parents, configuration vectors and chains their construction says; options read back what was set; collision, distance, kinematics and planning calls agree with the geometry. An object stays usable as long as Python holds it or a view of it, whatever else was dropped and in whatever order collections happen, and repeating work does not grow the heap.",
  ["inputs", "histories"], "every use of the public classes with operands of matching size; the viewer window (OpenGL) is excluded",
  "The Python tests use a few fixed operands, never drop a parent before its view, and never build a scene.",
  ["python/amino/mat.py", "python/amino/tf.py", "python/amino/mixin.py", "python/amino/scenegraph.py", "python/amino/kinematics.py", "python/amino/collision.py", "python/amino/motionplanning.py"],
  [("views hold raw pointers into their parent", "python/amino/mat.py"), ("ownership shared between Python objects and reference counted C objects", "python/amino/scenegraph.py Geom, SceneGraph"), ("argument conversion by ctypes declarations", "python/amino/*.py")],
  SAN + "the real bindings in an interpreter whose libraries are instrumented, freed memory overwritten, all results compared with a pure Python reference and the heap measured",
  "Vec3.ssd and Quat.ssd return the square root of the sum (the tests pin this); size mismatches that the C library rejects end the process and are not judged.")
