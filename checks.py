"""Per-property configuration of the checks."""
RULE=("Every run is one seed: a seeded generator draws the workload (cloud family, size around the parallel thresholds, thread counts, operation history) and the fault schedule; "
 "a seeded scheduler decides every context switch, task pick, chunk size and stolen range. Counted as distinct when the hash of the run's full event sequence and observable results is new.")
STUB=["libgomp (OpenMP runtime): replaced by the simulated scheduler behind the GOMP_* ABI","oneTBB runtime library (libtbb): replaced behind its r1 ABI; TBB headers run real code","libtsan: replaced by the simulator's memory-access hooks","heap, thread creation, mutexes, condition variables and clocks: simulated"]
CHECKS={
 "C01":dict(harness=[("h_kdtree",0.85),("h_types",0.3)],rule="Non-trivial: non-empty cloud and a parallel or serial build followed by 4-24 queries. A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits.",
  real=["kdtree.hpp","kdtree_omp.hpp","kdtree_tbb.hpp","projection.hpp","knn_result.hpp","tbb/parallel_invoke.h (real oneTBB header)","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types"],stub=STUB,
  assumes=["sequentially consistent memory at the granularity of instrumented accesses; weaker orderings are covered only through the data-race detector","clouds of at most about 2600 points (one run in 500: 65 500 - 140 000), 1-8 requested threads (sometimes up to 20)","oracle is an exhaustive scan with a relative tolerance of 1e-9 on distances"]),
 "C02":dict(harness=[("h_down",0.85),("h_types",0.3)],rule="Non-trivial: more than one input point. Clouds up to 6000 points (several 1024-point work blocks; one run in 400 beyond 65 535 points or voxels), a share of them outside the representable range. A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits.",
  real=["downsampling.hpp","downsampling_omp.hpp","downsampling_tbb.hpp","sort_omp.hpp","fast_floor.hpp","vector3i_hash.hpp","tbb/parallel_for.h, parallel_sort.h","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types"],stub=STUB,
  assumes=["a merged voxel's mean is compared with 1e-9 relative tolerance","points are kept away from voxel faces or on exactly representable lattices, so that a rounding of the coordinate does not decide the voxel"]),
 "C03":dict(harness=[("h_sort",1)],rule="Non-trivial: ranges longer than one element. Lengths around the serial cut-off (1024) and tile boundaries (one run in 700 beyond 65 535), up to six calls sharing scratch buffers; one run in 100 uses keys decided while they are compared so that pivots are as bad as possible.",
  real=["sort_omp.hpp","sort_tbb.hpp","tbb/parallel_for.h"],stub=STUB,assumes=["keys are totally ordered"]),
 "C04":dict(harness=[("h_norm",0.85),("h_types",0.3)],rule="Non-trivial: at least five points and five requested neighbours (up to 130; one run in 700 beyond 65 535 points). A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits.",
  real=["normal_estimation.hpp","normal_estimation_omp.hpp","normal_estimation_tbb.hpp","kdtree.hpp","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types"],stub=STUB,
  assumes=["where the k-th neighbour is tied the neighbourhood is not unique and only the form (unit normal, orientation, regularised eigenvalues) is checked","variance along the normal may exceed the least one by 1e-6 of the largest"]),
 "C05":dict(harness=[("h_red",0.85),("h_types",0.3)],rule="Non-trivial: non-empty source and target. Histories of 2-6 linearisations / error evaluations at changing poses on the same factors; nine factor families including a user-defined one with integer (order-exact) contributions. A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits.",
  real=["reduction.hpp","reduction_omp.hpp","reduction_tbb.hpp","icp_factor.hpp","plane_icp_factor.hpp","gicp_factor.hpp","robust_kernel.hpp","rejector.hpp","kdtree.hpp","gaussian_voxelmap.hpp","tbb/parallel_reduce.h","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types"],stub=STUB,
  assumes=["sums compared to 1e-8 of the summed magnitudes; exact equality for the integer factor"]),
 "C06":dict(harness=[("h_reg",0.75),("h_types",0.25),("h_pcl",0.2),("h_py",0.2)],rule="Non-trivial: more than ten source points and at least one permitted iteration. ICP / plane ICP / GICP / VGICP x Levenberg-Marquardt / Gauss-Newton x serial / OpenMP / TBB, plain and robust (Huber / Cauchy) factors, with a user's general factor, iteration limits from 0, and the packaged interface; half the runs after earlier alignments on the same object or thread with other settings. The reported linear system is recomputed with fresh factors. A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits. A third and a fourth align through the PCL class and the Python module with drawn settings and compare with the library's serial parts.",
  real=["registration.hpp","optimizer.hpp","registration_result.hpp","termination_criteria.hpp","registration_helper.cpp","reduction*.hpp","factors/*.hpp","kdtree*.hpp","gaussian_voxelmap.hpp","normal_estimation*.hpp","downsampling*.hpp","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types","pcl_registration_impl.hpp, pcl_proxy.hpp","src/python/*.cpp through an embedded CPython 3.12"],stub=STUB,
  assumes=["poses are compared with the serial reference (1e-5) only where at least 12 inliers constrain the pose (condition number of H below 1e6)","the true motion is demanded (0.02 rad / 0.05 m) on noise-free problems with default settings"]),
 "C07":dict(harness=[("h_voxelmap",0.85),("h_types",0.3)],rule="Every run is a history of 4-24 operations (insert with pose, empty frame, search-range change, eviction / cell setting change, concurrent readers) on one of five voxel types; all are non-trivial. A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits.",
  real=["incremental_voxelmap.hpp","flat_container.hpp","gaussian_voxelmap.hpp","vector3i_hash.hpp","fast_floor.hpp","knn_result.hpp","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types"],stub=STUB,
  assumes=["points whose voxel or thinning decision hinges on a rounding error (relative 1e-9) are left out of the frames","frames of at most 1500 points (rarely: a map of more than 65 535 voxels, or hundreds of insertions)"]),
 "C08":dict(harness=[("h_voxelmap",1)],rule="Non-trivial: at least one injected allocation failure fired inside an insertion.",
  real=["incremental_voxelmap.hpp","flat_container.hpp","gaussian_voxelmap.hpp"],stub=STUB,
  assumes=["eviction horizon of at least one insertion (horizon 0 evicts what was just inserted)"]),
 "C09":dict(harness=[("h_oom",1)],rule="Non-trivial: at least one injected allocation failure surfaced as an exception. One to four rounds of twelve operations x serial / OpenMP / TBB, each with 1-3 failures (k-th allocation, bursts up to 40), then a retry.",
  real=["kdtree*.hpp","gaussian_voxelmap.hpp","incremental_voxelmap.hpp","flat_container.hpp","normal_estimation*.hpp","downsampling*.hpp","sort_tbb.hpp","reduction*.hpp","registration.hpp","registration_helper.cpp","factors/*.hpp"],stub=STUB,
  assumes=["allocations inside OpenMP worker regions and the TBB runtime's own task objects are not failed (an exception cannot leave an OpenMP region; oneTBB itself leaks a task there)"]),
 "C10":dict(harness=[("h_conc",1.1)],rule="Every run has 2-4 callers, each executing 1-3 of fifteen operations on shared read-only data while the others run; each operation is then repeated alone and the answers compared. All runs are non-trivial.",
  real=["kdtree*.hpp","gaussian_voxelmap.hpp","incremental_voxelmap.hpp","flat_container.hpp","normal_estimation*.hpp","downsampling*.hpp","sort_omp.hpp","sort_tbb.hpp","reduction*.hpp","registration.hpp","registration_helper.cpp","factors/*.hpp","pcl_registration.hpp","pcl_registration_impl.hpp","projective_search.hpp"],stub=STUB,
  assumes=["results of parallel sums, voxel means and iterated poses are compared to a tolerance (1e-8, 1e-6, 1e-5); everything else bit for bit","clouds of at most 1024 points so that parallel voxelgrid uses one work block and its output order is defined"]),
 "C11":dict(harness=[("h_odom",1)],rule="Non-trivial: two or more frames. Eleven engines (serial, OpenMP, TBB, pipelined TBB, PCL) on sequences of 0-6 frames of a room, a sparse scene or with a frame without points, and of 258 tiny frames; a quarter of the runs with a wall clock that jumps during the run.",
  real=["src/benchmark/odometry_benchmark_small_*.cpp (eleven engines)","src/small_gicp/benchmark/benchmark_odom.cpp","benchmark_odom.hpp","the library headers they use","oneTBB flow graph headers (broadcast, function, sequencer nodes)"],stub=STUB,
  assumes=["the serial reference of each engine family is written with the library's serial parts in the harness","poses are compared (1e-4 rad / 5e-4 m per frame; PCL engine 2e-2 / 5e-2, single precision) up to the first ill-conditioned registration","the true motion is demanded of the frame-to-frame GICP engines on rooms of at least 180 points (0.05 rad / 0.2 m)","frames of at most 1800 points; the viewer is not built"]),
 "C12":dict(harness=[("h_odom",1)],rule="Non-trivial: an earlier run, a neighbouring run or clock jumps. Up to three earlier runs of any engine (other sequences, the same sequence, or failed by an allocation failure), then the run that is judged, a third of them beside another engine on a second caller thread.",
  real=["src/benchmark/odometry_benchmark_small_*.cpp (eleven engines)","src/small_gicp/benchmark/benchmark_odom.cpp","benchmark_odom.hpp","the library headers they use","oneTBB flow graph headers"],stub=STUB,
  assumes=["as for C11","the pipelined and the PCL engine (FLANN crashes) are not made to fail by an allocation failure, the pipelined one is not run twice at the same time (its static state is the listed finding)"]),
 "C13":dict(harness=[("h_io",1)],rule="Non-trivial: at least one file is not empty. One to three concurrent callers of read_points / write_points / read_ply on a virtual disk; raw files of up to 3000 points with torn tails, PLY files with 3-8 properties and fourteen kinds of malformed, torn or inconsistent header; up to two I/O faults per run.",
  real=["benchmark/read_points.hpp","libstdc++ iostreams (real, uninstrumented)"],stub=STUB+["files under /simdisk/ behind fopen/open/read/write/writev/lseek/close/stat/ioctl"],
  assumes=["crash model: bytes handed to the kernel before the crash instant are durable, nothing later is","PLY files announce little-endian binary and float x, y, z as the first three properties, as the reader's comment demands","signalling NaN payloads are not generated"]),
 "C14":dict(harness=[("h_pcl",1)],rule="Non-trivial: at least one alignment after three or more calls. Histories of 4-16 calls over sixteen kinds of setter / swap / clear / align on four overlapping clouds and an empty one, some with an allocation failure followed by a retry; after each alignment a fresh object with the same current inputs is aligned and compared.",
  real=["pcl_registration.hpp","pcl_registration_impl.hpp","pcl_proxy.hpp","pcl_point_traits.hpp","kdtree_omp.hpp","normal_estimation_omp.hpp","gaussian_voxelmap.hpp","registration.hpp","reduction_omp.hpp","gicp_factor.hpp","PCL 1.14 registration base class and kd-tree (real, uninstrumented library)"],stub=STUB,
  assumes=["poses compared with those of a fresh object (2e-3) only where at least 12 inliers constrain them; the first linear system of one-iteration alignments is compared to 1e-7","a cloud is not edited in place behind the object's back and then set again","allocation failures are injected in small_gicp's own code only (setInput*, computeTransformation), outside OpenMP regions"]),
 "C15":dict(harness=[("h_py",1)],rule="Non-trivial: non-empty cloud. Batch searches (0-80 rows, k up to beyond the cloud size), downsampling / attribute estimation / preprocessing, and alignment through the embedded Python module, numpy arrays in C, Fortran and strided layouts; every batch row, array and result is compared with the single-item or one-thread answer.",
  real=["src/python/*.cpp through pybind11 in an embedded CPython 3.12 with numpy","kdtree_omp.hpp","normal_estimation_omp.hpp","downsampling_omp.hpp","registration_helper.cpp","reduction_omp.hpp"],stub=STUB,
  assumes=["the interpreter itself and the serial parts of each call run unsimulated; every OpenMP region a call opens is simulated","alignments with several threads are compared with one thread: first linear system to 1e-8, pose to 1e-4 where well conditioned"]),
 "C16":dict(harness=[("h_down",0.85),("h_types",0.3)],rule="Non-trivial: non-empty cloud. One to four concurrent callers, each with its own random source (well-behaved, constant, extreme, alternating, biased). A second search feeds the same operations with PCL clouds and with a user-defined container that is reachable only through the traits.",
  real=["downsampling.hpp (random_sampling)","pcl_point.hpp, pcl_point_traits.hpp, PCL 1.14 point types"],stub=STUB,assumes=["the random source delivers values within its advertised range"]),
 "C17":dict(harness=[("h_threads",0.65),("h_odom",0.3),("h_pcl",0.2),("h_py",0.2)],rule="Non-trivial: more than one point. Fourteen operations that take a number of threads, from 1 to 9 requested and 1 to all delivered, and the odometry engines, the PCL class and the Python module.",
  real=["kdtree_omp.hpp","normal_estimation_omp.hpp","downsampling_omp.hpp","sort_omp.hpp","reduction_omp.hpp","registration_helper.cpp","src/benchmark/odometry_benchmark_small_*.cpp","pcl_registration_impl.hpp","src/python/*.cpp through an embedded CPython 3.12"],stub=STUB,
  assumes=["the number of threads alive in one call is counted from what is requested of the OpenMP runtime plus threads started directly"]),
 "C18":dict(harness=[("h_data",1)],rule="Non-trivial: a directory of more than one file, or a program run over more than one frame. Directories of up to 12 point files under four naming styles with up to five other files, listed in seeded order, loaded by one to three callers; the odometry program with drawn options and four engines; at most one kind of fault per run (directory open or read, file open, short read, interrupted call, disk full, short write).",
  real=["benchmark/benchmark.hpp (KittiDataset)","src/benchmark/odometry_benchmark.cpp (the whole program)","four odometry engines","src/small_gicp/benchmark/benchmark_odom.cpp","libstdc++ std::filesystem and iostreams (real, uninstrumented)"],stub=STUB+["files and the directory under /simdisk/ behind open/openat/fdopendir/readdir/closedir/read/write/lseek/close/stat"],
  assumes=["file contents come back whole when they can be opened (partial reads of a failing disk are C13)","poses of the parallel engines are compared with the serial engine to 2e-3 per frame, those of the serial engine to the digits written"]),
}
PURE="a pure function of its arguments: no schedule, clock, fault or interleaving can influence it, so deterministic simulation would only be input generation under another name"
NA={
 "N01":PURE+" (lie.hpp is straight-line arithmetic). Its effects on results are covered through C05-C07.",
 "N02":PURE+" (each factor is straight-line arithmetic on one point pair). The schedule-dependent part, summing every factor exactly once, is C05.",
 "N03":PURE+".",
 "N04":PURE+": ProjectiveSearch is built and queried serially and keeps no shared or faultable state; its concurrent read-only use is one of the operations of C10.",
 "N05":PURE+": RestrictDoFFactor only adds a constant to the 6x6 system after the parallel reduction.",
}
