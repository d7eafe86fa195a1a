TST = "the suite "
prop("M01", "Region memory stays intact and disjoint until popped",
 "For every sequence of region operations, each live block returned by a memory region keeps the bytes written to it, never overlaps another live block and is suitably aligned, until the region is popped at or below it, released or destroyed. Popping to a pointer releases exactly the blocks allocated from that pointer on, and everything older stays usable.",
 ["histories", "inputs"], "all interleavings of alloc, temporary alloc/realloc, dup, printf, pop and release, with block sizes around every chunk boundary",
 TST+"allocates a few fixed-size blocks in one order; chunk growth, full chunks, temporary reallocation and pops that cross chunks form an unbounded set of histories",
 ["src/mem.c", "include/amino/mem.h"], [("region chunk list and bump pointer", "src/mem.c: aa_mem_region_*")], ["bytes of every live block after each operation, block addresses"],
 "Exhaustive TLC model checking of the chunk-list algorithm over small chunk sizes; TLC-generated and random operation histories executed on the real code under ASAN, every live byte compared after every operation.", "Region.tla/RegionMC.tla")
prop("M02", "Pools, region lists, bit vectors and sort keep their contents",
 "For every sequence of operations, a pool never hands out a slot that is in use, a region list yields exactly the elements pushed and popped in the documented order, bit vectors read back exactly the bits set and combined, and the sort and search helpers permute, order and find elements correctly.",
 ["histories", "inputs"], "all operation histories and all contents up to the explored sizes",
 TST+"touches these containers with one short sequence each",
 ["src/mem.c", "include/amino/mem.h", "src/heap.c", "src/math.c"], [("free list, cons cells, word masks", "src/mem.c, include/amino/mem.h")], ["values returned by every operation"],
 "TLC model checking of the container specification; generated and random histories validated event by event.", "Containers.tla")
prop("S01", "Scene index is a parents-first bijection for every edit history",
 "After any history of adding, replacing, removing and reparenting frames, initialising the scene graph succeeds exactly when every frame reaches the root, and then frame ids, names, parents, types and configuration ids form consistent bijections with every parent id smaller than its child's. Unknown names and out-of-range ids yield the documented sentinels, and re-initialising an unedited scene changes nothing.",
 ["histories"], "all edit histories over arbitrary frame names, shared or private configuration names, cycles and missing parents included",
 TST+"builds two fixed scenes in one order and never edits them afterwards",
 ["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/sg_capi.c"], [("topological sort of the frame map", "src/rx/scenegraph.cpp: SceneGraph::index")], ["aa_rx_sg_init result and all index accessors"],
 "TLC proves the modelled index algorithm correct for all histories over small name sets; all histories of the generator bound plus long random ones run on the real code.", "Scene.tla/SceneMC.tla")
prop("S02", "Forward kinematics agrees in every representation, exactly",
 "For every frame tree, joint type, offset, axis and configuration, the absolute and relative poses computed as quaternion-translation, matrix and dual quaternion, incrementally or through the FK object, are the exact composition of the fixed transforms and joint motions along the tree. Storage outside the result columns is never written, and edits of the scene are reflected after re-initialisation.",
 ["inputs", "histories", "configurations"], "all trees, joint types, edits and configurations",
 TST+"compares one representation on one small tree at random points",
 ["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/scene_kin.c", "src/tf/tfmatrix.c", "src/tf/quat.c"], [("tf_rel/tfmat_rel/duqu_rel and the composition loops", "src/rx/scenegraph.cpp, src/rx/sg_api.cpp")], ["poses returned by aa_rx_sg_tf, tfmat, duqu, tf_update, aa_rx_fk_*, aa_rx_sg_rel_tf"],
 "Poses are compared by TLC with exact rational kinematics (integer quaternions), tolerance 3e-5.", "Scene.tla/SE3.tla")
prop("S03", "Limits and inertial parameters read back exactly what was last set",
 "After any history of setting limits, inertial parameters and editing frames, every position, velocity, acceleration and effort limit and every mass and inertia reads back as last set, and is reported absent when never set. Configuration centres and random configurations respect the position limits.",
 ["histories", "inputs"], "all set/edit/init/get histories",
 TST+"never reads limits or inertial parameters back",
 ["src/rx/sg_api.cpp", "src/rx/scenegraph.cpp", "src/rx/scene_kin.c"], [("limits map resolved at init", "src/rx/scenegraph.cpp")], ["aa_rx_sg_get_limit_*, aa_rx_sg_frame_get_mass/inertia, center_configs, rand_config"],
 "Random histories over several graphs validated against the specification's maps.", "Scene.tla")
prop("S04", "A copied scene equals its source and is independent of it",
 "A copy of a scene graph has the same frames, kinematics, limits and inertial parameters as its source at the time of copying. Afterwards no edit or destruction of either one affects the other.",
 ["histories"], "all interleavings of copies, edits, destructions and observations over several graphs",
 TST+"never copies a scene graph",
 ["src/rx/sg_api.cpp", "src/rx/scenegraph.cpp"], [("deep copy of frames, maps and limits", "src/rx/sg_api.cpp: aa_rx_sg_copy")], ["all accessors of both graphs after every edit"],
 "Random multi-graph histories under ASAN validated by TLC; each graph's full observable state is compared.", "Scene.tla")
prop("S05", "Sub-scenegraphs select exactly the chain and leave the rest untouched",
 "For every scene, root and tips, a sub-scenegraph contains exactly the frames between root and tips with their configurations in parent-first order. Scattering, gathering, path expansion and subset forward kinematics change exactly the entries and frames of the subset and nothing else.",
 ["inputs", "configurations"], "all trees, roots, tips, strides and configurations",
 TST+"builds one chain in an IK example and checks only the IK result",
 ["src/rx/scene_kin.c", "src/rx/scene_sub.cpp"], [("walk from tip to root", "src/rx/scene_kin.c: aa_rx_sg_chain_*")], ["aa_rx_sg_sub_* accessors, aa_rx_fk_sub"],
 "Random trees, all APIs, exact comparison.", "Scene.tla")
prop("S06", "Jacobians are the exact geometric derivative of forward kinematics",
 "For every chain and configuration, each column of the velocity and twist Jacobians equals the exact motion of the end-effector produced by that joint, for all equivalent interfaces and storage layouts.",
 ["inputs", "configurations"], "all chains, joint types and configurations",
 TST+"checks one robot at random configurations by finite differences of one interface",
 ["src/rx/scene_kin.c"], [("axis rotation and cross products per joint", "src/rx/scene_kin.c: aa_rx_sg_sub_jac*")], ["aa_rx_sg_sub_jacobian, get_jacobian, jac_vel_*, jac_twist_*"],
 "Exact rational Jacobian columns in TLA+, tolerance 3e-5.", "Scene.tla")
prop("A01", "Rigid-motion algebra agrees across all representations",
 "For every rotation and rigid motion, conversions between quaternions, rotation matrices, axis-angle, rotation vectors, quaternion-translations, transformation matrices and dual quaternions denote the same motion. Composition, relative composition, inversion, normalisation and point transformation give the exact group result in every representation, tiny turns, half turns and both quaternion signs included.",
 ["inputs"], "all motions, representations and compositions",
 TST+"compares representations at random motions with loose tolerances and never at half turns, tiny turns or negative quaternions on purpose",
 ["src/tf.c", "src/tf/conv.c", "src/tf/quat_ord.c", "src/tf/quat_qutr.c", "src/tf/quat_duqu.c", "src/tf/tfmatrix.c"], [("conversions and products", "src/tf.c, src/tf/*.c")], ["results of aa_tf_* conversions, products, inverses and point transforms"],
 "TLC checks the group laws of the exact algebra; every result of the real code is compared with the exact rational motion to 1.5e-7 (rotation) and 5e-6 (translation).", "TF.tla/SE3.tla/TFMC.tla")
prop("A02", "Motion constructors build exactly the documented motion",
 "Euler angles in every axis order, single-axis angles, Denavit-Hartenberg parameters of both conventions, look-at frames, frames from two axes and rotations between two vectors produce exactly the documented rotation or motion in every output representation. Euler angles extracted from any rotation, gimbal lock included, reproduce that rotation.",
 ["inputs"], "all angles, axes, lengths and directions",
 TST+"samples random generic angles; degenerate directions, gimbal lock and scaled vectors are never drawn",
 ["src/tf.c", "src/tf/conv.c", "src/tf/quat_ord.c", "src/tf/tfmatrix.c"], [("euler, DH, look and axis constructors", "src/tf/conv.c, src/tf.c")], ["results of aa_tf_euler*, aa_tf_dh*, aa_tf_*mzlook, aa_tf_rotmat_xy/yz/zx, aa_tf_vecs2quat"],
 "Grids over exact half-angle tangents compared with the exact composition.", "TF.tla/SE3.tla")
prop("A03", "Exponential, logarithm, velocity and interpolation maps are exact",
 "For every screw, the exponential in each representation is the exact screw motion, and the logarithm is its inverse. Integrating a constant velocity, derivative or twist for any time gives the exact motion, derivatives and velocities convert into each other without loss, and interpolation and averaging of rotations follow the shortest geodesic.",
 ["inputs"], "all screws, velocities, durations, start poses and interpolation parameters, below and above every series threshold",
 TST+"compares the representations with each other at random velocities, so a common error or one in a narrow small-angle branch passes",
 ["src/tf/quat_ord.c", "src/tf/quat_duqu.c", "src/tf/quat_qutr.c", "src/tf/quat_pde.c", "src/tf/tfmatrix.c", "src/tf.c"], [("exp/ln series and integration", "src/tf/quat_*.c, src/tf/tfmatrix.c")], ["results of aa_tf_*exp*, *ln*, *svel, *sdiff, *stwist, *vel2diff, *slerp*, davenport"],
 "Exact rational screw motions in TLA+; the derivative of the logarithm is compared with central differences of the (exactly checked) maps.", "TF.tla/SE3.tla")

prop("C01", "Collision sets and allowed pairs hold exactly what histories put there",
 "For every history of allowing and disallowing pairs by name or id, at the scene or checker level, editing and copying scenes and combining collision sets, a set contains exactly the pairs put into it, symmetrically in its two frames. A check never reports an allowed pair or a pair within one frame, reports every other colliding pair, and never drops what the set already held. Allowed pairs follow frame names through renumbering, removal and copies.",
 ["histories"], "all histories of set operations, allowances, edits, copies and checks",
 TST+"allows collisions of one configuration of one scene and never edits the scene afterwards",
 ["src/rx/collision_set.cpp", "src/rx/amino_fcl.cpp", "src/rx/sg_api.cpp"], [("triangular bit matrix, name pairs", "src/rx/collision_set.cpp, src/rx/sg_api.cpp: aa_rx_sg_allow_collision*")], ["aa_rx_cl_set_get over all pairs, aa_rx_cl_check results and sets"],
 "TLC proves the name-pair and bit-matrix design equal to the abstract set for all histories of six operations over four names; generated and random histories validated on the real code.", "Collision.tla/CollSetMC.tla")
prop("C02", "Collision and distance queries agree with the exact geometry",
 "For every scene of boxes, spheres, cylinders and meshes under any scale and configuration, a check reports a collision exactly when disallowed geometries of two different frames intersect, through every interface. Separation distances and their closest points equal the exact ones, the sign of the distance tells apart separation from penetration for solid shapes, and minimum distances are the minimum over all pairs.",
 ["inputs", "configurations"], "all shapes, scales, poses and configurations over the cube rotations and half-unit positions",
 TST+"only plans around one obstacle and never compares a distance with the geometry",
 ["src/rx/amino_fcl.cpp", "include/amino/rx/scene_fcl.h"], [("collision objects, transforms and callbacks", "src/rx/amino_fcl.cpp")], ["aa_rx_cl_check, aa_rx_cl_check_fk, aa_rx_cl_dist_*"],
 "Exact integer geometry in TLA+ decides every pair; exactly touching and crossing cylinders accepted either way; tolerance 0.004 units on distances.", "Collision.tla/SE3.tla")
prop("L01", "Matrix and vector views operate on exactly their elements",
 "For every matrix or vector view, with any offset, leading dimension or stride, every operation computes the exact documented result, reads only the elements of its operands and writes only the elements of its destination. Rows, columns, diagonals, slices and blocks of views denote the same memory, operands of mismatched sizes raise the error handler and change nothing, and inverses and (damped) pseudoinverses satisfy their defining equations.",
 ["inputs", "histories"], "all view shapes, strides, nestings, transposes and coefficients",
 TST+"multiplies a few contiguous random matrices and never strided views",
 ["src/mat.c", "src/mat_impl.c", "src/la_impl.c", "include/amino/mat.h"], [("view structs over shared memory, BLAS calls with leading dimensions", "src/mat.c, src/mat_impl.c")], ["the complete memory behind the views after every aa_dvec_*/aa_dmat_* call"],
 "TLC proves the view algebra for all small shapes; random nested views over three shared buffers are compared element by element.", "Mat.tla/MatMC.tla")
prop("L02", "Linear-algebra algorithms return exact solutions, factors and assignments",
 "For every input, in single and double precision and with any leading dimension or stride, linear and (damped) least-squares solutions, inverses, Riccati solutions, null-space projections, QR, singular value and eigenvalue decompositions satisfy their defining equations. Assignments terminate and have minimum total cost, for rectangular and negative costs too. Means, covariances, medians, deviations, plane fits, distances, interpolation and spline coefficients equal the exact values, and nothing outside the result is written.",
 ["inputs"], "all sizes, shapes, strides and values",
 TST+"runs a few contiguous random problems in double precision",
 ["src/la.c", "src/la_impl.c", "src/la_implf.F90", "src/are.c"], [("LAPACK wrappers with packed copies", "src/la_impl.c"), ("Hungarian algorithm", "src/la_impl.c: opt_hungarian"), ("splines", "src/la_implf.F90")], ["results of aa_la_* calls and the storage around them"],
 "TLC proves the assignment state machine optimal and terminating for all 3x3 costs over several values; every result of the real code is checked against exact integer arithmetic (Cramer, enumeration of assignments).", "LA.tla/Hungarian.tla")
prop("D01", "Integrators and numerical derivatives are exact up to their order",
 "For every system, step size and start, a step of each Runge-Kutta method is exact for solutions that are polynomials of its order, embedded pairs keep the order of both results, and step control never accepts a state that does not belong to its time. Each call of the completion check sees the advanced time, the state and the derivative there, its changes to the state are respected, its verdict is returned, and the recorded path holds exactly those states. Linear simulation steps, finite-difference derivatives of quadratics and the planar two-link inverse kinematics are exact.",
 ["inputs", "histories"], "all polynomial problems, methods, step sizes, stop conditions and regions",
 TST+"runs one linear system with one fixed-step method",
 ["src/sigsys.c", "src/diffeq.c", "src/kin.c"], [("Butcher tableaux and the adaptive loop", "src/sigsys.c")], ["results of aa_odestep_*, aa_ode_sol, aa_ode_path, aa_lsim_*, aa_de_*_fd, aa_kin_planar2_ik_theta2"],
 "Exact polynomial solutions evaluated in TLA+; tolerance about 0.01 for accumulated steps.", "ODE.tla")
prop("T01", "Trajectories pass their way-points within the limits at every time",
 "A way-point list is a deque that owns copies of its points and drops one equal to the neighbour it is added next to. For every list of distinct successive points and every limit, joint trajectories start and end at rest at the first and last point (linear ones: at the exact constant speed), linear and trapezoidal ones pass every point on straight lines, all are continuous, stay within the velocity and acceleration limits and report velocities that are the derivative of positions. Evaluation gives the same result in every order of times and through every interface, is in range exactly from zero to the duration, and SLERP trajectories follow the shortest geodesic with its exact twist. Continuity and state checks give the true verdict, and limits of a scene are reported exactly, infinite where absent.",
 ["inputs", "histories"], "all way-point lists, limits, evaluation orders and times",
 TST+"evaluates two kinds of trajectory at increasing times and generates neither trapezoids nor SLERP",
 ["src/ct/traj.cpp", "src/ct/state.c", "src/rx/rx_ct.c"], [("segment evaluation functions and the cached iterator", "src/ct/traj.cpp"), ("blend scaling loop", "src/ct/traj.cpp: aa_ct_tjq_pb_generate")], ["aa_ct_pt_list_dump, aa_ct_seg_list_eval*, aa_ct_seg_list_check*, aa_rx_ct_limits, aa_rx_ct_sg_limits"],
 "TLC proves cached evaluation equal to stateless evaluation for all orders and the shared ramp rule sound; exact linear and (non-overlapping) blend models, bounds for the others, tolerance about 0.002 (blends 0.05).", "Traj.tla/TrajMC.tla")
prop("O01", "Linear programs are solved exactly by every back end after every edit",
 "For every linear program, dense with any leading dimension or compressed, and every history of changes to its direction, objective, bounds, constraints and variable types, a back end returns success exactly when an optimum exists. The reported point is then feasible and optimal, and integer where asked. Every back end and storage format gives the same optimal value, infeasible and unbounded programs give an error, and unsupported variable types or quadratic objectives are refused.",
 ["inputs", "histories"], "all programs, back ends, storage formats and edit histories",
 TST+"solves two feasible programs once each",
 ["src/opt/opt_glpk.c", "src/opt/opt_clp.cpp", "src/opt/opt_lpsolve.c", "src/opt/opt.c"], [("translation of bounds, rows and matrices into each solver", "src/opt/opt_*.c*")], ["aa_opt_solve and aa_opt_lp_* results"],
 "The optimum is decided exactly in TLA+ by Fourier-Motzkin elimination, proved against enumeration by TLC; programs of up to three variables. CLP is not judged after a column without entries, nor the optimality of LP-Solve's integer points (third-party defects).", "LP.tla/LPMC.tla")
prop("K01", "Inverse kinematics only returns solutions that reach the target in limits",
 "For every scene, sub-scenegraph, start, seed and target, a configuration that an inverse-kinematics solver returns with success puts the frame within the translation and angular (quaternion angle) tolerances of the target and every joint within its position limits, with the joints outside the sub-scenegraph at the start configuration; the check function gives exactly this verdict for any configuration. From a seed that already reaches the target the solvers succeed, failing attempts with a restart time are retried from fresh seeds, and objective values and gradients are the exact pose error and its derivative. Calls neither change the context nor leave scratch memory behind, and arguments of the wrong size are refused.",
 ["inputs", "histories"], "all scenes, chains, starts, seeds, targets and tolerances",
 TST+"solves a handful of reachable targets for two fixed arms",
 ["src/rx/scene_ik.c", "src/rx/ik_nlopt.c", "src/rx/ik_jacobian.c", "src/rx/ik_opt.c"], [("cached forward kinematics per context; gradient-based solvers on a scratch copy", "src/rx/scene_ik.c")], ["aa_rx_ik_solve, aa_rx_ik_jac_solve, aa_rx_ik_check, aa_rx_ik_opt_* results and the thread-local region pointer"],
 "The scene model of Scene.tla supplies exact rational poses at configurations whose joint angles are multiples of 90 degrees; results are judged by exact forward kinematics evaluated independently in the driver.", "IK.tla")
prop("K02", "Workspace control commands the motion its Jacobian demands within the limits",
 "For every scene, chain, configuration and velocity, the joint velocity for a workspace velocity is the (damped) least-squares solution for the chain's Jacobian, null-space motion does not move the end effector, and a desired joint velocity that agrees with the workspace velocity is returned unchanged. Pose feedback points along the shorter screw motion from the actual to the reference pose, scaled by its gains; centering pulls towards the middle of the position limits and leaves unlimited or locked joints alone. The linearly constrained controller stays within the position, velocity and acceleration limits, returns the unconstrained command where that is allowed, finds a command whenever keeping the velocity is allowed and refuses non-positive time steps. Results of any stride write exactly their elements.",
 ["inputs"], "all scenes, chains, configurations, velocities, limits, strides and LP back ends",
 TST+"never calls the workspace control functions",
 ["src/rx/scene_wk.c", "src/rx/lc3.c"], [("damped pseudoinverse and null-space projection", "src/rx/scene_wk.c"), ("linear program over workspace and null-space gains", "src/rx/lc3.c")], ["aa_rx_wk_dx2dq, aa_rx_wk_dx2dq_np, aa_rx_wk_dx_pos, aa_rx_wk_dqcenter, aa_rx_wk_dx2dq_lc3"],
 "Exact rational Jacobians computed in TLA+ from Scene.tla judge the normal equations of each result.", "WK.tla")
prop("K03", "Solver options hold what they were given; steps and paths follow them",
 "For every history of setting, replacing, centering and destroying an IK option object, arrays given by copy keep their values, arrays taken over are released exactly once, and borrowed arrays show the caller's writes and are never released. Every Jacobian step then realises the feed-forward velocity plus the scaled pose error in the least-squares sense and moves along the null space towards the reference configuration at its per-joint gains, where joints without limits or with equal limits have no centering gain. Limits extracted from a scene are its own, infinite where it sets none. Joint paths along a workspace trajectory start at the start configuration, stay within the position limits, follow the trajectory, converge to it from elsewhere at the rate of the gain, and outlive the call in any region, the local one included.",
 ["inputs", "histories"], "all option histories, Jacobians, poses, velocities, limits and gantry trajectories",
 TST+"sets no option array, never takes a single step and never follows a workspace trajectory",
 ["src/rx/ik_opt.c", "src/rx/ik_jacobian.c", "src/rx/rx_ct.c", "src/sigsys.c"], [("ownership of option arrays", "src/rx/ik_opt.c"), ("null-space projection of the reference configuration", "src/rx/ik_jacobian.c"), ("temporaries and results in the same region", "src/rx/rx_ct.c")], ["aa_rx_ik_jac_x2dq, aa_rx_ct_limits, aa_rx_ct_sg_limits, aa_rx_ct_pt_list, aa_rx_ct_tjx_path results and allocated bytes"],
 "TLC proves the two-pointer bookkeeping of copied, stolen and borrowed arrays against values that follow the caller only where borrowed, and generates its histories; normal equations and null-space components are judged with integer Jacobians. Paths are judged for a gantry with a wrist on interpolated trajectories.", "IkParm.tla/IkParmMC.tla")
prop("P01", "Motion plans are valid paths from the start to the goal as they now stand",
 "For every scene, planned chain, start, goal and history of a planning context, a returned path starts at the last start configuration, ends at the last accepted joint goal or reaches the last workspace goal, keeps the other joints at the start configuration, stays within the position limits and does not pass through collisions other than allowed ones, with every planner, with and without simplification, up to the planner's motion-checking resolution. A goal outside the limits or in a collision not allowed is refused, and allowing and disallowing collisions takes effect for every later goal and plan, in either direction. Where there is a roomy way a plan is found, and a failed plan returns no path. Sampling goals in the background never races with planning. A sequence of paths keeps its own copies in order.",
 ["inputs", "histories", "schedules"], "all scenes, chains, starts, goals, histories of settings, planners and thread schedules",
 TST+"never creates a planning context",
 ["src/rx/mp/scene_ompl.cpp", "src/rx/mp/scene_state_space.cpp", "src/rx/mp/scene_state_validity_checker.cpp", "src/rx/mp/workspace_goal.cpp", "src/rx/mp_seq.cpp"], [("cached allowed pairs, solutions and search trees", "src/rx/mp/scene_ompl.cpp"), ("goal-sampling thread sharing the validity checker", "src/rx/mp/workspace_goal.cpp")], ["aa_rx_mp_plan, aa_rx_mp_set_goal, aa_rx_mp_get_allowed, aa_rx_mp_get_collisions, aa_rx_mp_seq_elt"],
 "The free space of a gantry among boxes is exact in TLA+; every path is judged against it and a grid search in the specification decides where a way must be found. TLC proves the context model answers the current problem and generates its histories; a ThreadSanitizer build is run on the same histories. Segments are checked with 0.4 units tolerance.", "Plan.tla/PlanMC.tla")
prop("W01", "Wavefront files mean what their statements say, whatever their layout",
 "For every object or material file, reading it gives exactly the vertices, normals, face indices, material of each face, material names, library names and material properties its statements state. White space, comments, number notation (signs, long fractions, exponents) and a missing last newline change nothing. A file with a statement that is malformed or incomplete on its line, or a library that cannot be read, is rejected with an error instead of being read as something else. Libraries are found relative to the object file, and reading and destroying releases all memory.",
 ["inputs"], "all sequences of statements, layouts, numbers and directories",
 TST+"parses no wavefront file at all",
 ["src/wavefront/wavefront.l", "src/wavefront/mtl.l", "src/wavefront/wf_obj.c", "src/wavefront/wf_mtl.c"], [("scanner start conditions", "src/wavefront/wavefront.l, mtl.l"), ("library lookup", "src/wavefront/wf_obj.c")], ["aa_rx_wf_parse, aa_rx_wf_parse_mtl results read through the aa_rx_wf_* getters, and allocated bytes"],
 "TLC compares the scanner's state machine with the line grammar for all short token sequences; rendered files of random statements are parsed by the real code and compared with the statements. Numbers are compared to one millionth.", "Wavefront.tla/WavefrontMC.tla")
prop("G01", "Geometry lives exactly as long as someone holds it, and keeps its shape",
 "For every history of creating, sharing, attaching, copying, replacing and destroying geometries, meshes, frames and scenes, a geometry or mesh exists, with the shape, options and data it was given, while the user or a frame still holds a reference, and it and everything it owns is released exactly once afterwards, also when references are taken and dropped by several threads. Mapping over a scene visits each frame's geometries in order of attachment, copying a frame's geometry or a scene adds the same ones. An octree added to a scene becomes disjoint boxes that cover exactly its occupied voxels.",
 ["histories", "schedules"], "all histories over handles, frames and scenes, all thread schedules of reference counting, all octrees",
 TST+"attaches a few shapes to one scene and never looks at reference counts, option getters or octrees",
 ["src/rx/scene_geom.c", "src/rx/geom_opt.c", "src/rx/scenegraph.cpp", "src/rx/octree_geom.cpp"], [("atomic reference counts", "src/rx/scene_geom.c"), ("frames own references to geometry", "src/rx/scenegraph_internal.hpp")], ["aa_rx_geom_*, aa_rx_mesh_*, aa_rx_geom_opt_get_* results, aa_rx_sg_map_geom, allocated bytes"],
 "TLC explores all ownership histories of a small scene model; these and random ones run on the real code under AddressSanitizer with an exact memory balance, the threaded ones under ThreadSanitizer too. Voxels are compared exactly.", "Geom.tla/GeomMC.tla")
prop("I01", "Text files of numbers read back as what they say, line by line",
 "For every text and every order of reading, a line is returned whole whatever its length and the chunks of the memory region, a vector or matrix reader returns exactly the numbers its lines state, and each call consumes exactly its lines. The growing matrix reader skips blank and comment lines, never writes outside the buffer, makes every other line a column, and reports the number of the first line that is too short. A matrix or vector that was written reads back as itself, by rows or by columns, with any leading dimension. Growing buffers receive a file completely, strings returned earlier stay intact, and readers give their scratch memory back.",
 ["inputs", "histories"], "all texts, line lengths, buffer and region sizes, strides, and sequences of reads on one file",
 TST+"reads no text file at all",
 ["src/io.c", "src/mem.c"], [("temporary region memory grown while a line is read", "src/io.c: aa_io_getline, aa_io_d_parse"), ("growing matrix buffer", "src/io.c: aa_io_fread_matrix_heap")], ["aa_io_getline, aa_io_d_parse, aa_io_parsevector, aa_io_getvector, aa_io_fread_matrix_fix, aa_io_fread_matrix_heap, aa_io_d_gemp, aa_read_realloc"],
 "TLC shows in a small model that the readers agree with reading line by line and that written matrices read back; generated histories, random texts and all line lengths around the chunk sizes are executed. Numbers are multiples of one thousandth.", "TextIO.tla/TextIOMC.tla")
prop("N01", "Times, angles, remainders, statistics and byte order obey their arithmetic",
 "For every input, times are seconds and nanoseconds in range that add, subtract, compare and convert as one counter of nanoseconds would, and waiting or asking for a future time never falls short. Modulo takes the sign of the divisor and remainders that of the dividend, normalised angles lie in their interval and equal the angle modulo a full turn, and clamps, dead zones and comparisons respect their bounds. Means, deviations, covariances and distances equal their defining sums, circular ones respect turns, and outlier exclusion keeps exactly the samples within the stated deviations. Byte-order conversions are exact reversals that write nothing else, planar two-link inverse kinematics returns both elbows exactly when the target is in reach, and HSV colours represent their RGB colours.",
 ["inputs"], "all inputs of the numeric helpers",
 TST+"evaluates each helper at one or two ordinary values, and some never",
 ["include/amino/time.h", "include/amino/math.h", "include/amino/endconv.h", "src/math.c", "src/kin.c", "src/cv.c", "src/time.c", "src/la_impl.c"], [("carry between seconds and nanoseconds", "include/amino/time.h: aa_tm_make_norm"), ("iterated exclusion", "src/math.c: aa_stat_excluded_mean_std")], ["aa_tm_*, aa_*modulo, aa_ang_*, aa_stat_*, aa_endconv_*, aa_kin_planar2_ik_theta2, aa_cv_rgb2hsv results"],
 "TLC shows that the two-component clock equals a counter and checks the laws of modulo, residues and variance; the helpers run on grids and on random values around every boundary and TLC judges each result in exact integer arithmetic. Angles are compared to a thousandth of a degree; values beyond 32 bits are split.", "Util.tla/UtilMC.tla")
prop("R01", "Every call gives back the memory, scratch space and files it takes",
 "For every sequence of calls into any part of the library, failing calls and early exits included, once the user has destroyed the objects he created, the amount of allocated memory is what it was before, the calling thread's scratch region stands where it stood, and no file is left open. No call touches memory it does not own.",
 ["histories", "inputs"], "all call histories of all modules, including the failing ones",
 TST+"exits without freeing and no test measures memory",
 ["src/mem.c", "src/la.c", "src/rx/scene_ik.c", "src/rx/scene_wk.c", "src/rx/lc3.c", "src/opt/opt.c", "src/ct/traj.cpp", "src/rx/mp_seq.cpp", "src/rx/scenegraph.cpp", "src/rx/amino_fcl.cpp", "src/rx/mp/scene_ompl.cpp", "src/wavefront/wf_obj.c"], [("thread-local region popped at each return", "src/mem.c: aa_mem_region_local_*"), ("owned heap objects freed by destructors", "src/rx, src/opt, src/ct")], ["allocated bytes, top of the thread-local region and open descriptors after each history"],
 "TLC explores the nested-call discipline (scratch marks, owned blocks, early exits). The scripts of every other check run under AddressSanitizer and end with a balance the specification judges; what a third-party library allocates once per process is told from a leak by running the history again.", "Life.tla/LifeMC.tla")
prop("U01", "What a call returns depends only on its arguments and objects",
 "Any sequence of calls into the library returns the same results each time it is executed, whatever fresh stack, heap or scratch memory happens to contain and whatever was executed before. Functions documented as random are excepted.",
 ["inputs", "histories"], "all call sequences of all modules, all contents of uninitialised memory",
 TST+"runs once, with whatever the fresh memory contains, usually zeros",
 ["src/la.c", "src/tf.c", "src/rx/sg_api.cpp", "src/rx/scene_ik.c", "src/rx/scene_wk.c", "src/opt/opt.c", "src/ct/traj.cpp", "src/rx/amino_fcl.cpp", "src/diffeq.c", "src/math.c"], [("scratch memory reused without clearing", "src/mem.c"), ("output parameters written on every path", "all modules")], ["every value any driver records"],
 "The scripts of the other checks run in several worlds (automatic variables zeroed or patterned, heap filled with different bytes, different order) and the specification demands equal observations; TLC shows in a small model that initialising before use and private scratch are what it takes.", "Pure.tla/PureMC.tla")
prop("U02", "Threads with their own objects do not disturb each other",
 "Threads that use the library at the same time, each with objects of its own, observe exactly what each would observe alone, in every interleaving, and never race on the library's internal state. The same holds when they share one finished scene graph, subscene, parameter or option object that nobody modifies and keep their kinematics, inverse kinematics, control and collision contexts to themselves. Process-wide settings such as the error handler, and time and random sources, are excepted.",
 ["schedules", "histories"], "all thread schedules, all call sequences per thread",
 TST+"is single threaded but for one render loop",
 ["src/mem.c", "src/la.c", "src/rx/scene_geom.c", "src/rx/amino_fcl.cpp", "src/rx/scene_ik.c", "src/rx/scene_kin.c", "src/opt/opt.c", "src/wavefront/wf_obj.c", "src/tf.c", "src/math.c"], [("thread-local scratch region", "src/mem.c: aa_mem_region_local_get"), ("collision geometry shared by contexts", "src/rx/amino_fcl.cpp"), ("reference counts of shared geometry", "src/rx/scene_geom.c")], ["every value any driver records, and ThreadSanitizer reports"],
 "TLC explores interleavings of calls over private or shared scratch memory. Copies of all drivers run the scripts of the other checks at once in threads of one ThreadSanitizer process, and a scene-sharing driver runs ten kinds of work on one scene; observations must equal those of each thread alone.", "Pure.tla/PureMC.tla")
