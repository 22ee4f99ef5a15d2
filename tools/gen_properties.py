#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
I="include/small_gicp/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Nearest-neighbour search is exact however the search tree was built",
 "A search tree built serially, with OpenMP or with TBB from any finite point cloud answers every k-nearest-neighbour query exactly as an exhaustive scan would: it reports min(k, number of points) distinct, in-range point indices with their true squared distances in ascending order, and no unreported point is closer than a reported one. This holds for every requested and delivered number of threads, every positive leaf-size setting, every projection type and every interleaving of the parallel construction, which itself is free of data races and out-of-bounds accesses. A tree over an empty cloud is legal and reports zero neighbours.",
 ["schedules","inputs","configurations"],
 "Every interleaving of the tree-construction tasks, every delivered team size, every cloud (duplicates, collinear, lattice, tiny, empty), leaf size, k and query.",
 "The tests build a handful of trees on one real scan (and small synthetic clouds) with whatever schedule the machine happens to give; parallel tasks only appear for clouds over 512 points, and an index or node-slot race needs a specific interleaving to show.",
 [I+"ann/kdtree.hpp",I+"ann/kdtree_omp.hpp",I+"ann/kdtree_tbb.hpp",I+"ann/knn_result.hpp",I+"ann/projection.hpp"],
 [("node slots handed out by an atomic counter; disjoint index sub-ranges per task","KdTreeBuilderOMP::create_node / KdTreeBuilderTBB::create_node"),("taskwait / parallel_invoke join before the parent returns","kdtree_omp.hpp, kdtree_tbb.hpp"),("branch pruning by distance to the splitting plane","UnsafeKdTree::knn_search")],
 ["knn_search / nearest_neighbor_search results"],None,[("nodes","tree nodes, written concurrently at distinct slots","UnsafeKdTree"),("indices","permutation of the point indices partitioned in place by tasks","UnsafeKdTree")])

p("C02","Voxel-grid downsampling conserves points on every schedule",
 "Voxel-grid downsampling (serial, OpenMP, TBB) lets every input point whose voxel coordinate is representable contribute to exactly one output point and nothing else contribute: each output point is the mean of input points of one single voxel, every occupied voxel is represented, and points outside the representable range are ignored even when whole stretches of the cloud, or all of it, are out of range. The serial version emits exactly one point per occupied voxel; the parallel versions may split a voxel only where a work block ends, so at most one extra point per work block (bounded by the documented 10 percent on clouds much larger than a block). The input cloud is not modified, and no data race occurs, for any number of threads, block-to-thread assignment or interleaving.",
 ["schedules","inputs","configurations"],
 "Every interleaving and block assignment, every delivered team size, cloud size around the block and sort-cutoff boundaries, leaf size and share of out-of-range points.",
 "Tests run two clouds and compare only the output count within 10 percent of the serial count; a lost, duplicated or cross-voxel contribution, a slot overwritten on a rare interleaving, or out-of-range points at a block start is not looked for.",
 [I+"util/downsampling.hpp",I+"util/downsampling_omp.hpp",I+"util/downsampling_tbb.hpp",I+"util/sort_omp.hpp",I+"util/fast_floor.hpp"],
 [("sort by packed voxel coordinate, then block-wise sums into thread-local storage","voxelgrid_sampling_omp / voxelgrid_sampling_tbb"),("output slots reserved by an atomic fetch_add","voxelgrid_sampling_omp / voxelgrid_sampling_tbb")],
 ["returned point cloud"])

p("C03","Parallel sorts return an ordered permutation on every schedule",
 "Each of the parallel sorts (OpenMP merge sort and quick sort, TBB radix sort with and without caller-supplied buffers) leaves the range in ascending key order and holding exactly the elements it held before, touching nothing outside the range. This holds for every length, key distribution, requested and delivered thread count, task execution order and interleaving, also when scratch buffers are reused between calls of different lengths; the radix sort in addition preserves the input order of equal keys. By the time the call returns all work on the range has finished.",
 ["schedules","inputs","histories"],
 "Every interleaving / deferral order of the sort tasks, lengths around the serial cut-off and tile boundaries, any key distribution, any sequence of calls sharing buffers.",
 "Tests sort random arrays once per length on whatever schedule occurs; a missing join, an early return or a mis-ordered tile only appears with particular task timing or key/length combinations.",
 [I+"util/sort_omp.hpp",I+"util/sort_tbb.hpp"],
 [("task recursion with taskwait before the merge; implicit barrier at region end","sort_omp.hpp"),("per-tile histograms and exclusive offsets, one tile per task","sort_tbb.hpp")],
 ["the sorted range after return"])

p("C04","Normals and covariances are the local PCA for every backend and schedule",
 "Estimating normals and/or covariances serially, with OpenMP or with TBB gives every point exactly the result determined by its own k nearest neighbours: the normal is the unit direction of least neighbourhood variance (either sign rule fixed by the documented orientation), the covariance is the documented regularised one, and a point with too few neighbours gets the documented invalid values. The result does not depend on number of threads, work partition, interleaving, or on values left in the cloud beforehand, every point is processed, and the coordinates are left unmodified.",
 ["schedules","inputs","configurations"],
 "Every interleaving, work partition, team size, neighbour count, cloud shape and size, and whichever of normals / covariances / both is requested.",
 "Tests compare backends on one scan with one schedule, tolerating a fraction of disagreement; a shared scratch buffer, skipped tail, or stale neighbour buffer between points shows only with specific partitions.",
 [I+"util/normal_estimation.hpp",I+"util/normal_estimation_omp.hpp",I+"util/normal_estimation_tbb.hpp"],
 [("one independent iteration per point writing only its own slot","normal_estimation*.hpp")],["normals and covariances of the cloud"])

p("C05","Parallel linearisation sums every point exactly once on every schedule",
 "Linearising or evaluating a registration problem with the serial, OpenMP or TBB reduction yields the sum over all source points of the single-point contribution - each inlier counted exactly once, rejected or unmatched points counted as zero - equal to an independent evaluation up to rounding of the summation order. This holds for every thread count requested or delivered, work split, interleaving and stalled worker, for every factor type, and repeated evaluation at the same pose gives the same sum up to rounding, with the per-point state (correspondence, inlier flag) the same as the serial reduction leaves.",
 ["schedules","inputs","configurations"],
 "Every interleaving, split / join order and delivered team size of the reduction; factors point-to-point, point-to-plane, distribution-to-distribution and robust variants; kd-tree and voxel-map targets.",
 "Tests only compare final poses with 2.5 degree / 0.2 m tolerance: a dropped chunk, doubly counted block or race on an accumulator moves the sum but is absorbed by later iterations.",
 [I+"registration/reduction.hpp",I+"registration/reduction_omp.hpp",I+"registration/reduction_tbb.hpp",I+"factors/icp_factor.hpp",I+"factors/plane_icp_factor.hpp",I+"factors/gicp_factor.hpp",I+"factors/robust_kernel.hpp"],
 [("per-thread accumulators indexed by thread number, summed after the region","ParallelReductionOMP"),("body split / join of parallel_reduce","LinearizeSum / ErrorSum in reduction_tbb.hpp")],
 ["returned H, b, e; factor inlier flags"])

p("C06","Registration result does not depend on threads or schedule",
 "Aligning a source cloud to a target converges to the same pose, up to rounding amplification well below registration accuracy, whatever the backend, thread count, delivered workers and interleaving, and that pose recovers the true motion within the tested tolerances on well-conditioned problems. The returned record is self-consistent: error, linear system and inlier count are those of one evaluation on the given inputs (a user's general factor included), iterations never exceed the configured maximum, and converged is true only if the step criteria were met. Every configured setting (iteration limits, step criteria, correspondence distance) takes effect with every method and through every interface. Inputs are left unmodified and the call returns within a bounded number of steps even when workers stall.",
 ["schedules","inputs","configurations"],
 "Every interleaving and delivered team size across a whole registration; ICP, plane ICP, GICP, VGICP; Gauss-Newton and Levenberg-Marquardt; identity, small and empty-overlap initial guesses.",
 "Tests register one scan pair per configuration on an uncontrolled schedule and compare with loose tolerances only; result-record consistency under different schedules is not checked.",
 [I+"registration/registration.hpp",I+"registration/optimizer.hpp",I+"registration/registration_result.hpp","src/small_gicp/registration/registration_helper.cpp"],
 [("optimizer accepts a step only on decreased error and re-evaluates inliers at the end","optimizer.hpp"),("reductions join before returning","reduction_omp.hpp, reduction_tbb.hpp")],
 ["RegistrationResult"])

p("C07","Incremental voxel maps equal a reference model over every history",
 "After any history of insertions (with poses, empty frames, varying search ranges and eviction settings) an incremental voxel map contains exactly the voxels and voxel contents that a simple reference model of the documented rules contains: points are assigned to the voxel of their transformed position, contents follow the voxel type's rule (running Gaussian, or capped and distance-thinned point lists), and voxels not touched within the eviction horizon disappear at the documented insertions and only then. Nearest and k-nearest queries return exactly the best distinct candidates among the voxels inside the configured search range, with indices that resolve to the stored point, covariance and normal, and concurrent readers between insertions see the same answers without data races.",
 ["histories","schedules","inputs"],
 "Every finite sequence of insert / query / reconfigure operations, with concurrent reader interleavings, frame dropouts and eviction settings.",
 "No test exercises eviction, reconfiguration mid-history or duplicate candidates; the only map test inserts one cloud and queries it.",
 [I+"ann/incremental_voxelmap.hpp",I+"ann/gaussian_voxelmap.hpp",I+"ann/flat_container.hpp",I+"util/vector3i_hash.hpp"],
 [("hash from voxel coordinate to flat voxel list, rebuilt on eviction","IncrementalVoxelMap::insert"),("LRU stamp per voxel and periodic sweep","IncrementalVoxelMap::insert"),("global index packs voxel and in-voxel ids","IncrementalVoxelMap::calc_index")],
 ["size, voxel points, knn results"],None,[("lru_counter","logical clock advanced once per insertion","IncrementalVoxelMap")])

p("C08","A failed insertion leaves an incremental voxel map usable",
 "If memory runs out at any allocation during an insertion into an incremental voxel map, the insertion fails with an exception and the map stays structurally sound: every query still returns only valid in-range results without touching invalid memory, every previously inserted point not concerned by the failed frame is still found, and later insertions and queries work. Retrying never makes the map refer to voxels that do not exist, and nothing is leaked.",
 ["fault_sequences","histories"],
 "Every single and repeated allocation failure point inside every insertion of a history.",
 "No test injects an allocation failure; the failing instant is a quantifier over every allocation of every insertion.",
 [I+"ann/incremental_voxelmap.hpp",I+"ann/flat_container.hpp",I+"ann/gaussian_voxelmap.hpp"],
 [("order of hash insertion and voxel creation","IncrementalVoxelMap::insert"),("parallel arrays of points / normals / covariances","FlatContainer::add")],
 ["queries and insertions after the failure"])

p("C09","Allocation failure surfaces as an exception, never as a wrong result",
 "When any allocation fails inside preprocessing, tree or map construction, downsampling, sorting, or alignment, the call either throws an out-of-memory exception or returns the correct result; it never returns a partial or corrupted result, crashes or hangs. The caller's input clouds and already-built structures are unchanged by the failed call, no memory stays allocated beyond what the caller still owns, and repeating the call once memory is available gives the normal result. For OpenMP-parallel regions the guarantee covers the parts outside the worker region.",
 ["fault_sequences","schedules"],
 "Every position of the failing allocation (and bursts of failures), on every schedule of the serial and TBB back ends.",
 "No test makes an allocation fail, and the property quantifies over each of the thousands of allocation instants in combination with task timing.",
 [I+"util/downsampling.hpp",I+"util/downsampling_tbb.hpp",I+"ann/kdtree.hpp",I+"ann/kdtree_tbb.hpp",I+"util/normal_estimation_tbb.hpp",I+"util/sort_tbb.hpp",I+"registration/reduction_tbb.hpp","src/small_gicp/registration/registration_helper.cpp"],
 [("RAII containers and shared ownership","all"),("task-group exception propagation","TBB algorithms")],["exception or return value; inputs afterwards; heap balance"])

p("C10","Concurrent callers sharing read-only data get independent, exact results",
 "Several caller threads may at the same time query the same search tree or map, preprocess different clouds, and register different sources against one shared target with separate registration objects; every call returns exactly what it returns when run alone. No data race occurs and no result of one caller depends on what the others are doing, for every interleaving of the callers and of their internal worker threads.",
 ["schedules","histories"],
 "Every interleaving of two to four concurrent callers issuing mixed operations on shared const structures.",
 "All tests use one caller thread; hidden shared mutable state (caches, statics, scratch buffers behind const) only shows under particular overlaps.",
 [I+"ann/kdtree.hpp",I+"ann/incremental_voxelmap.hpp",I+"registration/registration.hpp",I+"util/normal_estimation.hpp",I+"util/downsampling.hpp",I+"util/downsampling_omp.hpp","src/small_gicp/registration/registration_helper.cpp"],
 [("const query paths without mutable state; results on caller-provided buffers","ann/*.hpp"),("all scratch state local to the call","util/*.hpp")],["results of each caller"])

p("C11","Odometry engines give one pose per frame, in order, on every schedule",
 "Every odometry engine fed a sequence of frames returns exactly one pose per frame in frame order, the first being identity, each composed from the estimated motion between consecutive frames (or against the model map). The trajectory is the same, up to rounding amplification, for every schedule and number of workers - including the pipelined engine where preprocessing and alignment of different frames overlap - and tracks the true motion on well-conditioned sequences; the run finishes within bounded steps.",
 ["schedules","inputs","configurations"],
 "Every interleaving of pipeline stages, frame tasks and worker stalls, over short frame sequences, for each engine.",
 "The engines have no tests at all; the pipelined engine's ordering depends on sequencing nodes and task timing that ordinary runs seldom stress.",
 ["src/benchmark/odometry_benchmark_small_gicp.cpp","src/benchmark/odometry_benchmark_small_gicp_omp.cpp","src/benchmark/odometry_benchmark_small_gicp_tbb.cpp","src/benchmark/odometry_benchmark_small_vgicp_omp.cpp","src/benchmark/odometry_benchmark_small_vgicp_tbb.cpp","src/benchmark/odometry_benchmark_small_gicp_model_omp.cpp","src/benchmark/odometry_benchmark_small_gicp_model_tbb.cpp","src/benchmark/odometry_benchmark_small_vgicp_model_omp.cpp","src/benchmark/odometry_benchmark_small_vgicp_model_tbb.cpp","src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp",I+"benchmark/benchmark_odom.hpp","src/small_gicp/benchmark/benchmark_odom.cpp"],
 [("sequencer and serial pairing node before the parallel registration node; second sequencer before pose output","odometry_benchmark_small_gicp_tbb_flow.cpp"),("previous-frame state carried between estimate calls","OnlineOdometryEstimation subclasses")],["returned trajectory"])

p("C12","An odometry run is unaffected by earlier or neighbouring runs",
 "Running an odometry engine on a sequence gives the same trajectory whether it is the first run in the process, follows runs on other sequences (by the same or other engines, complete or failed), or is repeated. A fresh engine starts from no previous frame: its first pose is identity and no cloud, map or timing state of an earlier run influences it, even when the clock jumps backwards or forwards between frames.",
 ["histories","schedules","fault_sequences"],
 "Every history of engine runs in one process, with clock jumps and on every schedule.",
 "The benchmark program runs each engine once per process; no test runs an engine twice or sequences engines.",
 ["src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp","src/benchmark/odometry_benchmark_small_gicp_tbb.cpp","src/benchmark/odometry_benchmark_small_gicp_omp.cpp","src/benchmark/odometry_benchmark_small_gicp_model_tbb.cpp","src/small_gicp/benchmark/benchmark_odom.cpp"],
 [("engine state lives in the engine object created per run","benchmark_odom.hpp")],["trajectory of each run"])

p("C13","Point files read as a true prefix under any I/O fault",
 "Reading a point file returns only points that are in the file, bit for bit and in order, whatever the storage does: with a torn or truncated file, short reads, interrupted or failing reads, or a malformed header the reader returns a prefix of the true points (possibly none) or reports failure, never invented points, out-of-bounds access, a crash or unbounded memory use. A fault-free round trip through writing and reading returns exactly the points written, and a write that the disk could not complete leaves only a prefix of the data and is reported on the error stream.",
 ["fault_sequences","crash_points","inputs"],
 "Every byte position at which a file is torn or an I/O call fails, short transfer lengths, full disk, and crash instants during writing.",
 "Tests read two intact files from a healthy disk; the quantifier is over the fault position and kind.",
 [I+"benchmark/read_points.hpp"],
 [("size from stream position, bulk read, conversion to homogeneous points","read_points / read_ply / write_points")],["returned vectors, bytes on disk, stderr"])

p("C14","PCL-style registration depends only on its current inputs and settings",
 "After any history of setting sources, targets, covariances, resolution, method, threads, swapping and clearing, an alignment through the PCL-compatible interface gives the result a freshly created object with the same current inputs and settings gives; no cached tree, covariance or voxel map of earlier inputs is used. The fitness score, Hessian and aligned output refer to the same current clouds and final transformation, on every schedule and thread count.",
 ["histories","schedules","configurations"],
 "Every finite history of setter / swap / clear / align calls, with every team size and interleaving.",
 "Tests run a few fixed call orders; cache invalidation is a property of every order of setter calls.",
 [I+"pcl/pcl_registration.hpp",I+"pcl/pcl_registration_impl.hpp",I+"pcl/pcl_proxy.hpp"],
 [("lazily computed trees, covariances and voxel maps reset by the setters","RegistrationPCL::setInputSource / setInputTarget / swapSourceAndTarget / clear*")],["final transformation, fitness, Hessian, output cloud"])

p("C15","Python batch operations equal the single-item operations on every schedule",
 "Through the Python module, batch nearest-neighbour and k-nearest-neighbour searches return for every row exactly what the corresponding single search returns, for any number of threads, work distribution and interleaving, with unfilled result slots never holding values of another row. Preprocessing, downsampling and alignment called from Python with several threads give the same result as with one thread (up to documented block splitting), arrays passed in are not modified, and arrays returned stay valid and constant afterwards.",
 ["schedules","inputs","configurations"],
 "Every interleaving and chunk assignment of the batch loops, thread counts, batch sizes including zero and one, k larger than the cloud.",
 "The Python tests compare a few batch calls with brute force on one schedule; row/slot mix-ups on rare chunk boundaries or shared buffers are not sampled.",
 ["src/python/kdtree.cpp","src/python/preprocess.cpp","src/python/align.cpp","src/python/pointcloud.cpp","src/python/voxelmap.cpp"],
 [("parallel loop writing one row per iteration into preallocated arrays","KdTree.batch_knn_search / batch_nearest_neighbor_search")],["numpy arrays returned"])

p("C16","Random sampling yields a reproducible subset for every random source",
 "Random downsampling returns exactly min(requested, available) points, each an input point, no input point used more often than it occurs, whatever values the random source delivers. The outcome is a function of the input and the random source's values only - replaying the same values gives the same cloud, also when other callers sample concurrently - and the input is not modified.",
 ["schedules","inputs","fault_sequences"],
 "Every behaviour of the random source (constant, extreme, alternating, biased), any requested size, and concurrent samplers on separate sources.",
 "Tests use one seeded Mersenne Twister and check only sizes and membership.",
 [I+"util/downsampling.hpp"],
 [("selection sampling driven by the caller's random generator","random_sampling")],["returned cloud"])

p("C17","The thread limit is respected everywhere",
 "Every operation that takes a number of threads never asks for more threads than that number at any moment of the call, runs entirely in the calling thread when the number is one, and produces a complete result when fewer threads than requested are delivered, down to a single one. Once the call returns, no worker is still running work of that call.",
 ["schedules","configurations","fault_sequences"],
 "Every operation with a thread parameter, every requested number, and every delivered number between one and the request, on every schedule.",
 "Tests never observe how many threads are requested and always get all threads they ask for.",
 [I+"util/downsampling_omp.hpp",I+"util/normal_estimation_omp.hpp",I+"ann/kdtree_omp.hpp",I+"registration/reduction_omp.hpp","src/small_gicp/registration/registration_helper.cpp",I+"util/sort_omp.hpp",I+"pcl/pcl_registration_impl.hpp"],
 [("num_threads clause on each parallel region; per-thread buffers sized by the request","*_omp.hpp")],["team sizes requested from the threading runtime"])

p("C18","The odometry program turns a dataset directory into one pose per file",
 "Loading a dataset directory yields one frame per point file (.bin), in file-name order whatever order the file system lists the directory in, ignoring every other file, cut to the first frames when a maximum is given; each frame holds exactly the whole points of its file, and converting frames to point clouds keeps every point, in order, whether or not the raw points are released. The odometry program then writes one line of twelve numbers per frame, in frame order: the poses the selected engine computes for those frames with the options given. A directory that cannot be read in full is an error, never a smaller dataset; a point file that cannot be opened is reported and leaves the other frames in their places; an unknown option or engine is refused without touching the output; and a trajectory that could not be written in full is reported.",
 ["fault_sequences","inputs","schedules"],
 "Every listing order, file naming, mix of other files, maximum, engine, option set and schedule, and every failure of listing, opening, reading or writing.",
 "No test covers the loader or the program; listing order is whatever the file system of the machine gives, and no test makes a directory listing, an open or a write fail.",
 [I+"benchmark/benchmark.hpp","src/benchmark/odometry_benchmark.cpp",I+"benchmark/benchmark_odom.hpp","src/small_gicp/benchmark/benchmark_odom.cpp"],
 [("directory listing filtered by extension, then sorted","KittiDataset::KittiDataset"),("conversion with optional release of the raw points","KittiDataset::convert"),("option parsing, engine selection, trajectory output","main of odometry_benchmark.cpp")],["frames and clouds returned","lines of the output file, exit status, error stream"])

p("N01","Rigid-motion exponential maps are exact group maps",
 "The exponential maps for rotations and rigid motions return valid rotations / motions for every finite argument, agree with the matrix exponential and stay accurate for small angles.",
 ["inputs"],"Every finite 3- or 6-vector.","Tests sample a few random vectors.",
 [I+"util/lie.hpp"],[("closed form with small-angle series","so3_exp / se3_exp")],["returned quaternion / isometry"])
p("N02","Factor derivatives match the residual",
 "For every factor type the returned linear system is the Gauss-Newton system of the returned error: its gradient equals the derivative of the error with respect to the pose perturbation for every pose, point pair and covariance.",
 ["inputs"],"Every pose, source/target point, normal and positive definite covariance.","Tests never compare analytic derivatives with numerical ones.",
 [I+"factors/icp_factor.hpp",I+"factors/plane_icp_factor.hpp",I+"factors/gicp_factor.hpp"],[("closed-form Jacobians","factors/*.hpp")],["H, b, e of one factor"])
p("N03","Robust kernels weight monotonically",
 "Robust kernel weights lie in (0,1], equal one at zero residual (or inside the Huber band) and never increase with the residual magnitude.",
 ["inputs"],"Every non-negative error and positive kernel width.","Tests do not evaluate the kernels in isolation.",
 [I+"factors/robust_kernel.hpp"],[("closed form weights","Huber / Cauchy")],["weight()"])
p("N04","Projective search returns nearby candidates within its window",
 "Projective nearest-neighbour search returns only points projected inside the search window around the query's projection, sorted by true distance, and finds a point queried at its own position.",
 ["inputs"],"Every cloud, image size, window and query.","Tests cover one configuration.",
 [I+"ann/projective_search.hpp"],[("index map lookup with wrap-around","ProjectiveSearch")],["knn results"])
p("N05","Restricting degrees of freedom keeps masked directions fixed",
 "With a degree-of-freedom restriction of sufficient weight, registration leaves the masked pose components unchanged and does not alter the unmasked solution.",
 ["inputs"],"Every mask and well-conditioned problem.","Tests cover one mask.",
 [I+"factors/general_factor.hpp"],[("prior added to the linear system","RestrictDoFFactor")],["final pose"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P))
