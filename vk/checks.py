HARNESSES = {
    "c01": dict(src="c01_region.cpp", exe="c01", flavour="asan"),
    "c02": dict(src="c02_containers.cpp", exe="c02", flavour="asan"),
}
CHECKS = {
    "C01": dict(harnesses=["c01"],
                rule="random operation histories (alloc/zalloc/dup/strdup/printf/tmpalloc/tmprealloc/mark/pop/release) on regions of hostile initial sizes, request sizes biased to the exact free space; distinct = distinct (operation prefix, chunk count, live-block count) states observed"),
    "C02": dict(harnesses=["c02"], rule="operation histories on pools, lists, bit vectors, vectors, heaps of mixed element sizes; distinct = distinct (operation prefix, size) states"),
}
HARNESSES["c04"] = dict(src="c04_mat.cpp", exe="c04", flavour="asan")
CHECKS["C04"] = dict(harnesses=["c04"], scale=4, rule="random shapes (0..9), strides, leading dimensions, transpose flags and scalars for every descriptor operation; each result is compared with naive long-double algebra and the padding with canaries; distinct = distinct (operation, shape, stride, flag) tuples judged")
HARNESSES["c05"] = dict(src="c05_la.cpp", exe="c05", flavour="asan")
CHECKS["C05"] = dict(harnesses=["c05"], scale=4, rule="random shapes, leading dimensions, ranks, ties and signs for every routine in both precisions; residuals of the defining equations in long double; distinct = distinct (routine, precision, shape, leading dimension) tuples judged")
HARNESSES["c07"] = dict(src="c07_conv.cpp", exe="c07", flavour="asan")
CHECKS["C07"] = dict(harnesses=["c07"], rule="unit quaternions of hostile angles (0, tiny, small, near pi, multiples of 30 degrees, uniform), both signs, axis-aligned and generic axes, translations from 0 to 1e3; every conversion is compared with a long-double reference; distinct = distinct (angle regime, angle bucket, sign, zero pattern)")
HARNESSES["c08"] = dict(src="c08_group.cpp", exe="c08", flavour="asan")
CHECKS["C08"] = dict(harnesses=["c08"], rule="random pairs and triples of rotations and poses of hostile angles and translations, arbitrary non-unit quaternions and dual quaternions, padded matrix destinations; every product, inverse, relative transform and action is compared with the long-double group; distinct = distinct operand situations (angle regimes and buckets, or operand values)")
HARNESSES["c09"] = dict(src="c09_explog.cpp", exe="c09", flavour="asan")
CHECKS["C09"] = dict(harnesses=["c09"], rule="exponents and poses of hostile angles (0, 1e-17 to 1e-1, near and beyond pi) and translations, non-unit quaternions, random directions of differentiation; results are compared with long-double closed forms and 6th-order long-double differences; distinct = distinct (angle regime, angle bucket)")
HARNESSES["c10"] = dict(src="c10_vel.cpp", exe="c10", flavour="asan")
CHECKS["C10"] = dict(harnesses=["c10"], rule="poses of hostile angle and position with velocities from 0 to 10 and steps from 0 to 2 (both signs); derivative, velocity, twist and integration results are compared with long-double closed forms or 6th-order differences of the long-double motion; distinct = distinct (angle regime and bucket, velocity and step magnitude)")
HARNESSES["c11"] = dict(src="c11_special.cpp", exe="c11", flavour="asan")
CHECKS["C11"] = dict(harnesses=["c11"], rule="angles from multiples of 90 degrees, tiny and large values, all 12 Euler orders, both Denavit-Hartenberg conventions, vectors of equal, opposite, nearly equal and nearly opposite direction and of 12 orders of magnitude, gimbal-locked rotations; distinct = distinct (angle bucket) tuples or vector situations")
HARNESSES["c13"] = dict(src="c13_sgraph.cpp", exe="c13", flavour="asan", collision=True)
CHECKS["C13"] = dict(heap=True, harnesses=["c13"], rule="histories of 5 to 60 random edits (add and replace frames in any order, remove, reparent, limits, inertials, geometry, allowed collisions, copy, destroy, init) on up to 4 graphs at once with hostile names, orphans and cycles; after each init every query is compared with a model by names; distinct = distinct (operation prefix, frame count) states")
HARNESSES["c14"] = dict(src="c14_fk.cpp", exe="c14", flavour="asan")
CHECKS["C14"] = dict(harnesses=["c14"], rule="random graphs of 1 to 30 fixed, revolute and prismatic frames (default and random fixed transforms, offsets, shared configurations, chains and bushes, hostile insertion order) and configurations from 0 to 20 rad including tiny and quarter-turn values, any leading dimension and increment; distinct = distinct (configuration vector, frame count)")
HARNESSES["c15"] = dict(src="c15_jac.cpp", exe="c15", flavour="asan")
CHECKS["C15"] = dict(harnesses=["c15"], rule="random graphs of 1 to 24 frames and random chains between any two frames (root, ancestor, unrelated, empty) or to several tips; chain contents are compared with a model by names, Jacobians with 6th-order long-double differences of the model's forward kinematics; distinct = distinct (joint type sequence, graph size) or (configuration vector, joints)")
HARNESSES["c18"] = dict(src="c18_wk.cpp", exe="c18", flavour="asan")
CHECKS["C18"] = dict(harnesses=["c18"], rule="random chains of 1 to 14 joints, regular and near-singular postures, achievable and arbitrary requested velocities, strided vectors; random pose errors up to just under a half turn; closed-loop servoing; LC3 controllers reused over up to 8 steps, rolling forward or jumping, with random velocity, acceleration and position limits, feasible and infeasible; each LC3 answer judged against a long-double simplex; distinct = distinct postures, pose pairs or requests")
HARNESSES["c19"] = dict(src="c19_traj.cpp", exe="c19", flavour="asan")
CHECKS["C19"] = dict(harnesses=["c19"], rule="random waypoint lists of 1 to 30 points and 1 to 20 joints with repeated points and coordinates, random asymmetric limits; every kind of trajectory evaluated at random, ordered, boundary and outside times with every subset of the state arrays and compared with a long-double model; the library's checks observed through the callback; random pose pairs and sequences; random arms following workspace trajectories, integrated independently; distinct = distinct waypoint lists, poses, states or starts")
HARNESSES["c20"] = dict(src="c20_ode.cpp", exe="c20", flavour="asan")
CHECKS["C20"] = dict(harnesses=["c20"], rule="random linear and nonlinear, autonomous and time-dependent systems of 1 to 8 states, steps of both signs and of size 0, all seven integrators, tolerances from 1e-14 to 1e-4 with several adaptation factors; every accepted solver step in the event log is replayed with the published tableau in long double; distinct = distinct initial states or step sequences")
HARNESSES["c17"] = dict(src="c17_ik.cpp", exe="c17", flavour="asan")
CHECKS["C17"] = dict(harnesses=["c17"], rule="random chains of 1 to 7 joints with and without limits, fixed frames and side branches; reachable and unreachable targets with either quaternion sign; centred, random, exact, nearby, arbitrary and out-of-limit seeds; gradient and Jacobian solvers with every objective; every objective evaluation made by the solver is observed online and compared with the long-double model and its 6th-order differences; distinct = distinct results or targets")
HARNESSES["c21"] = dict(src="c21_lp.cpp", exe="c21", flavour="asan")
CHECKS["C21"] = dict(harnesses=["c21"], rule="random linear and mixed-integer programs of 1 to 5 variables and constraints with quarter-integer data, every mix of finite, one-sided, fixed and free bounds, feasible, infeasible and unbounded; all three backends, dense, sparse and generic creation, and histories of up to 8 changes and solves of one context; each answer is judged against an exact rational simplex (integer variables by enumeration); distinct = distinct problem data or (data, history)")
HARNESSES["c25"] = dict(src="c25_io.cpp", exe="c25", flavour="asan")
CHECKS["C25"] = dict(harnesses=["c25"], rule="random text: lines of lengths aimed at the exact free space of the region, numbers in every printf format with extreme magnitudes, blanks, comments, junk tails, missing final newlines; matrices with blank, comment and bad lines into caller buffers of hostile capacity; printed matrices of 0 to 6 rows and columns read back; streams arriving in random pieces; distinct = distinct texts, (length, free space) prefixes or shapes")
HARNESSES["c24"] = dict(src="c24_wf.cpp", exe="c24", flavour="asan")
CHECKS["C24"] = dict(heap=True, harnesses=["c24"], rule="generated OBJ and MTL files (up to 60 lines, numbers with up to 25 decimals and exponents, blanks, comments, repeated materials, several material files, subdirectories) whose contents are known; the same files truncated, with bytes changed, lines joined or split; and good files with one line outside the grammar; distinct = distinct file contents")
HARNESSES["c22"] = dict(src="c22_cl.cpp", exe="c22", flavour="asan", collision=True)
CHECKS["C22"] = dict(harnesses=["c22"], rule="random scenes of up to 9 frames carrying up to 2 scaled spheres, boxes, cylinders and triangle meshes away from their origin; allowed pairs given before and after creation, withdrawn, or taken from a configuration; explicit poses and joint configurations, several checks of one context; operation histories of three collision sets; distinct = distinct (history prefix) or (scene, poses)")
HARNESSES["c27"] = dict(src="c27_geom.cpp", exe="c27", flavour="asan")
CHECKS["C27"] = dict(heap=True, harnesses=["c27"], rule="histories of 5 to 80 operations on options, meshes, geometries of every shape and up to three graphs (create, copy, modify options, attach, copy and destroy graphs, remove frames, replace mesh data with and without copying), every object compared with a model after each step and every history run twice for leaks; random octrees of up to 80 voxels of mixed sizes, built or read from a file; distinct = distinct (operation prefix, population) states or octrees")
HARNESSES["c26"] = dict(src="c26_misc.cpp", exe="c26", flavour="asan")
CHECKS["C26"] = dict(harnesses=["c26"], rule="boundary-biased integers, magnitudes, angles, times, bit patterns at any alignment, samples with outliers, planar targets in every regime, validity intervals with NaN and infinities, sleeps interrupted by timer signals; distinct = distinct operand tuples")
CHECKS["C06"] = dict(harnesses=["c04", "c05", "c08", "c09", "c10", "c11", "c14", "c15", "c17", "c18", "c19", "c20", "c21", "c22", "c24", "c25", "c26", "c27", "c29"], region_only=True, rule="every monitored library call of the workloads of C04, C05, C08 to C11, C14, C15, C17 to C22, C24 to C27 and C29 (including failing calls and calls made from callbacks) runs between two observations of the thread's scratch region, which starts at a hostile size (16 bytes to 64 KiB) and holds a marked allocation of the caller; one case in ten is run again up to six times and the bytes on the heap must be the same after some repeat; distinct = distinct situations of those workloads")
HARNESSES["c03"] = dict(src="c03_threads.cpp", exe="c03", flavour="tsan", collision=True)
CHECKS["C03"] = dict(harnesses=["c03"], rule="2 to 7 threads released together with injected yields and sleeps: reference counters, shared geometries and graphs created, copied and destroyed, thread-local scratch regions, read-only queries of shared graphs, solvers and parsers on private data; distinct = distinct interleavings observed (sequence of counter values) or distinct data")
HARNESSES["c23"] = dict(src="c23_plan.cpp", exe="c23", flavour="asan", planning=True)
CHECKS["C23"] = dict(heap=True, harnesses=["c23"], rule="histories of requests on planning contexts (starts, joint and pose goals, allowed and forbidden pairs and configurations, planner, simplification and tracking changes, up to 4 plans) on random arms of 1 to 6 joints among spheres on moving and fixed frames; every path found is compared with a long-double model of the scene along its whole length; sequences of plans over several graphs; distinct = distinct paths")
HARNESSES["c12"] = dict(src="c12_cpp.cpp", exe="c12", flavour="asan", eigen=True)
CHECKS["C12"] = dict(heap=True, harnesses=["c12"], rule="vectors, matrices and poses of hostile stride, size and angle; every overload of every operator, constructor, view, slice and iterator evaluated on each; random histories of region-backed containers in nested scopes; distinct = distinct shapes, angles or histories")
CHECKS["C16"] = dict(harnesses=[], py=["c16_py.py"], rule="each of 8 (quick) or 32 (thorough) interpreters runs vectors, matrices, rotations, transforms, random scenes, geometry options, collision histories, chains, planning and lifetimes (objects dropped in any order with forced collections) through the real bindings; distinct = distinct shapes, scenes and drop orders")
HARNESSES["c28"] = dict(src="c28_plugin.cpp", exe="c28", flavour="asan", collision=True, plugins=[1, 2, 3, 9])
CHECKS["C28"] = dict(heap=True, harnesses=["c28"], rule="histories of 4 to 30 operations on three plugins written as the scene compiler emits them (scenes into new and existing graphs, meshes, copies, attached meshes, removed frames, failing loads, destruction in any order); after every operation the dynamic loader is asked which plugins are in memory and graphs are compared with a model; distinct = distinct (operation prefix, population)")
HARNESSES["c29"] = dict(src="c29_gl.cpp", exe="c29", flavour="asan", gl=True)
CHECKS["C29"] = dict(heap=True, harnesses=["c29"], rule="settings histories of 1 to 25 operations; one shape of any of 8 kinds with random dimensions per case; histories of 3 to 25 operations on up to 3 graphs sharing shapes (attach, copy, remove, render, destroy also in other threads, clean up); every rendering is compared triangle by triangle or vertex by vertex with the scene; distinct = distinct settings histories, shapes and (operation prefix, objects drawn)")
HARNESSES["c30"] = dict(src="c30_win.cpp", exe="c30", flavour="asan", gl=True)
HARNESSES["c30t"] = dict(src="c30_win.cpp", exe="c30t", flavour="tsan", gl=True)
CHECKS["C30"] = dict(harnesses=["c30", ("c30t", ["threads"])], rule="histories of 5 to 60 events (wheel, keys with modifiers, drags, 3D mouse, window, clipboard, quit), of display functions and handlers, of plans (1 to 3 segments, virtual time per frame), of workspace-control key presses; threads setting configurations, cameras and display functions while the loop runs, started before or after the window; every frame drawn is compared with the scene; distinct = distinct histories and orders of frames shown")
