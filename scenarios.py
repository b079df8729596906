"""What each property's check builds and runs."""
K = "curves/src/KeyGenerator.cpp"
T = "curves/src/polynomial_splines_traits.cpp"
H = "curves/src/CubicHermiteE3Curve.cpp"
HP = "curves/src/helpers.cpp"
# the pose curve; dropped (-DNO_POSE) if it does not compile against the kindr stand-in
P = ["curves/src/CubicHermiteSE3Curve.cpp", "curves/src/SE3Curve.cpp", "curves/src/SlerpSE3Curve.cpp"]
RJ, RT, RP = ["curves_ros/src/Ros%sInterface.cpp" % n for n in ("JointTrajectory", "MultiDOFJointTrajectoryTranslation", "MultiDOFJointTrajectory")]
NOPOSE = dict(drop=P + [RP], defs=["-DNO_POSE"])
KINDR = "kindr (stand-in for the types the pose curve uses, sim/stubs/kindr)"
CSV_REAL = ["curves::loadCSV, writeCSV, loadTimeVectorCSV, writeTimeVectorCSV, loadTimeTimeVectorCSV", "libstdc++ file streams", "glog CHECK"]
DISK_STUB = ["disk and file system calls (in-memory, fault injecting)"]
DISK_ASSUME = ["fields contain no commas and line breaks"]
TRAJ_REAL = ["curves::PolynomialSplineContainer<1..5>", "curves::PolynomialSpline<1..5>", "Eigen"]
CURVE_REAL = ["curves::PolynomialSplineScalarCurve", "curves::PolynomialSplineVectorSpaceCurve"]
STORE_REAL = ["curves::LocalSupport2CoefficientManager", "curves::KeyGenerator", "std::map, boost::unordered_map, boost::mutex (instrumented headers)"]
SIM_STUB = ["operating-system scheduler (baton scheduler over real threads)", "heap (checked arena allocator)", "clock, sleep and randomness"]
CORE_ASSUME = ["code is observed at source-level memory accesses and library calls compiled with -fsanitize=thread hooks (-O1 without the passes that forward memory values, x86-64); interleavings finer than one access and weak-memory reorderings are not simulated",
               "seeded search: absence of a violation covers the runs counted here, not all inputs"]

SCENARIOS = {
    "C01": dict(
        src=["C01.cpp"], repo_src=[K, H, HP] + P, fallback=NOPOSE, stubs=["kindr"], quick_runs=160000, thorough_runs=4000000,
        rule="Runs use 2 to 6 threads requesting keys and inserting, overwriting, appending and removing in their own stores, and fitting and streaming into their own curves; schedules are random, conflict-directed or PCT.",
        states="assignment of keys to threads in allocation order",
        real=STORE_REAL + ["curves::CubicHermiteE3Curve, CubicHermiteSE3Curve, SlerpSE3Curve"], stub=SIM_STUB + [KINDR], assumptions=CORE_ASSUME, must_reach=["lock_contended"]),
    "C06": dict(
        src=["C06.cpp"], repo_src=[K], quick_runs=120000, thorough_runs=4000000,
        rule="A run is a measurement stream delivered with loss, duplication, delay and reordering, mixed with updates, re-timings, removals, clears and copies; the whole store is compared with the reference map after every operation.",
        time_note="one second per delivered operation", states="content (times and values) of the store after an operation",
        real=STORE_REAL, stub=SIM_STUB + ["the measurement source (lossy, duplicating, reordering, delaying channel)"], assumptions=CORE_ASSUME),
    "C07": dict(
        src=["C06.cpp"], defs=["-DWITH_ALLOC_FAULTS"], repo_src=[K], quick_runs=100000, thorough_runs=3000000,
        rule="As C06, with allocation failures armed before operations (nth allocation of the operation, single, repeated or persistent) and each failed operation repeated.",
        time_note="one second per delivered operation", states="content (times and values) of the store after an operation",
        real=STORE_REAL, stub=SIM_STUB + ["the measurement source", "allocation failures"], assumptions=CORE_ASSUME, must_reach=["alloc_failure", "retry"]),
    "C04": dict(
        src=["C04.cpp"], repo_src=[K, T], quick_runs=100000, thorough_runs=3000000,
        rule="A run is a playback history of one trajectory (order 1 to 5): segments appended, fits, ticks (regular, jittered, zero, stalled, bursts), seeks, rewinds and resets; the reported state is compared with an independent polynomial reference after every operation.",
        time_note="sum of the tick lengths", states="playback position, active segment and reported state after an operation",
        real=TRAJ_REAL, stub=SIM_STUB + ["the control loop's clock (jitter, stalls, jumps)"], assumptions=CORE_ASSUME),
    "C05": dict(
        src=["C04.cpp"], defs=["-DLIVENESS"], repo_src=[K, T], quick_runs=100000, thorough_runs=3000000,
        rule="As C04, and each history is followed by playing to the end with positive ticks: the end must be reported within the bound (elapsed step time covers the rest, plus one tick), not before, and held.",
        time_note="sum of the tick lengths", states="playback position, active segment and reported state after an operation",
        real=TRAJ_REAL, stub=SIM_STUB + ["the control loop's clock (jitter, stalls, jumps)"], assumptions=CORE_ASSUME),
    "C12": dict(
        src=["C12.cpp"], repo_src=[K, T, H, HP] + P, fallback=NOPOSE, stubs=["kindr"], quick_runs=80000, thorough_runs=3000000,
        rule="A run is a history of accepted and rejected fits, extensions, clears, seeks and ticks on one object (trajectory of order 1 to 5, scalar, vector or Hermite curve); after every operation it is compared with a fresh object given only the last accepted fit, and with the given points.",
        time_note="sum of the tick lengths", states="observed values of the object after an operation",
        real=TRAJ_REAL + CURVE_REAL + ["curves::CubicHermiteE3Curve", "curves::CubicHermiteSE3Curve"], stub=SIM_STUB + [KINDR], assumptions=CORE_ASSUME),
    "C08": dict(
        src=["C12.cpp"], defs=["-DWITH_ALLOC_FAULTS"], repo_src=[K, T, H, HP] + P, fallback=NOPOSE, stubs=["kindr"], quick_runs=80000, thorough_runs=3000000,
        rule="As C12 without rejected fits, with allocation failures armed before fits and extensions (nth allocation, single, repeated or persistent); after a failure the object must be a complete old, complete new or empty one, and the repeated call must equal a fresh object.",
        time_note="sum of the tick lengths", states="observed values of the object after an operation",
        real=TRAJ_REAL + CURVE_REAL + ["curves::CubicHermiteE3Curve", "curves::CubicHermiteSE3Curve"], stub=SIM_STUB + ["allocation failures", KINDR], assumptions=CORE_ASSUME, must_reach=["alloc_failure", "retry"]),
    "C09": dict(
        src=["C09.cpp"], repo_src=[HP], quick_runs=60000, thorough_runs=1500000,
        rule="A run is a sequence of exports of generated tables to the simulated disk, each in its own process life, with open, write and close errors, full disks, short, fragmented and interrupted writes, stalls and allocation failures; a normal return obliges the file to parse back to the given table.",
        time_note="injected I/O stalls", states="content of the simulated disk and outcome after an export",
        real=CSV_REAL, stub=SIM_STUB + DISK_STUB, assumptions=CORE_ASSUME + DISK_ASSUME, must_reach=["open_error", "write_error", "close_error", "disk_full", "alloc_failure", "failed_loudly"]),
    "C10": dict(
        src=["C10.cpp"], repo_src=[HP], quick_runs=60000, thorough_runs=1500000,
        rule="A run is a sequence of imports of generated files (own exports, files by other programs, rows cut short, missing files) with read and open errors, short, fragmented and interrupted reads, stalls and allocation failures; a normal return obliges the result to equal an independent parse of the file.",
        time_note="injected I/O stalls", states="content of the simulated disk, loader and outcome",
        real=CSV_REAL, stub=SIM_STUB + DISK_STUB, assumptions=CORE_ASSUME + DISK_ASSUME, must_reach=["read_error", "fragmented_reads", "alloc_failure", "failed_loudly"]),
    "C11": dict(
        src=["C09.cpp"], defs=["-DCRASH"], repo_src=[HP], quick_runs=40000, thorough_runs=1000000,
        rule="A run is a sequence of process lives of one to three exports each; the process dies before the nth system call or within a torn write, the disk survives; then the target, the other files and the exports that had returned are checked, and the export is repeated.",
        time_note="injected I/O stalls", states="content of the simulated disk after a process life",
        real=CSV_REAL, stub=SIM_STUB + DISK_STUB + ["process crash (the incarnation exits, its memory is lost)"],
        assumptions=CORE_ASSUME + DISK_ASSUME + ["crashes are of the process, not of the machine: bytes accepted by write() survive"], must_reach=["crash_at_call", "crash_torn_write", "crash_prefix", "re_export"]),
    "C02": dict(
        src=["C02.cpp"], repo_src=[K, T, H, HP] + P, fallback=NOPOSE, stubs=["kindr"], quick_runs=80000, thorough_runs=3000000,
        rule="A run builds one object (segment, trajectory of order 1 to 5, scalar, vector or Hermite curve, coefficient store), then 2 to 5 threads query it through its const interface at shared and neighbouring times under a random, conflict-directed or PCT schedule; every answer is compared bit for bit with the answer of an identically built object queried by one thread in another process life.",
        states="content of the object and answers after a run",
        real=TRAJ_REAL + CURVE_REAL + STORE_REAL + ["curves::CubicHermiteE3Curve", "curves::CubicHermiteSE3Curve"], stub=SIM_STUB + [KINDR], assumptions=CORE_ASSUME),
    "C03": dict(
        src=["C03.cpp"], repo_src=[K, T, H, HP] + P + [RJ, RT, RP], fallback=NOPOSE, stubs=["kindr", "ros"], quick_runs=50000, thorough_runs=2000000,
        rule="A run gives 2 to 4 threads their own objects and files (fits, refits, playback, store histories, trajectory messages, exports, imports and curve dumps; file names alike up to number, extension or directory) under a random, conflict-directed or PCT schedule; the result of every operation is compared bit for bit with that of the same work done sequentially in another process life.",
        states="(none: results are compared, not collected)",
        real=TRAJ_REAL + CURVE_REAL + STORE_REAL + CSV_REAL + ["curves::CubicHermiteE3Curve", "curves::CubicHermiteSE3Curve", "curves_ros interfaces"], stub=SIM_STUB + DISK_STUB + [KINDR, "ROS message types (stand-ins, sim/stubs/ros)"], assumptions=CORE_ASSUME, must_reach=["work_compared", "lock_contended"]),
    "C13": dict(
        src=["C13.cpp"], repo_src=[K, T, H, HP] + P, fallback=NOPOSE, stubs=["kindr"], quick_runs=50000, thorough_runs=1500000,
        rule="A run is a sequence of dumps of a fitted Hermite position or pose curve to the simulated disk, each in its own process life, with open, write and close errors, full disks, short, fragmented and interrupted writes, stalls and allocation failures; a reported success obliges the file to hold the header and every sample, compared with the curve.",
        time_note="injected I/O stalls", states="content of the simulated disk and outcome after a dump",
        real=["curves::CubicHermiteE3Curve, CubicHermiteSE3Curve", "C library stdio"] + STORE_REAL, stub=SIM_STUB + DISK_STUB + [KINDR], assumptions=CORE_ASSUME, must_reach=["open_error", "write_error", "close_error", "disk_full", "failed_loudly"]),
    "C14": dict(
        src=["C14.cpp"], repo_src=[K, T, HP] + P + [RJ, RT, RP], fallback=NOPOSE, stubs=["kindr", "ros"], quick_runs=80000, thorough_runs=3000000,
        rule="A run delivers a stream of trajectory messages to a joint, translation or pose interface through a channel that loses, duplicates, delays, reorders and corrupts them; after every delivery the curve is compared with the message's waypoints, with a fresh interface given only that message, or (refused) with itself before.",
        time_note="one second per delivered message", states="observed curve after a delivery",
        real=["curves::RosJointTrajectoryInterface, RosMultiDOFJointTrajectoryTranslationInterface, RosMultiDOFJointTrajectoryInterface", "curves::CubicHermiteSE3Curve"] + TRAJ_REAL + CURVE_REAL, stub=SIM_STUB + [KINDR, "ROS message types (stand-ins, sim/stubs/ros)", "the message channel (loss, duplication, delay, reordering, corruption)"], assumptions=CORE_ASSUME, must_reach=["accepted", "refused", "message_duplicated", "message_out_of_order", "message_malformed"]),
    "C15": dict(
        src=["C15.cpp"], repo_src=[K, T, H, HP] + P, fallback=NOPOSE, stubs=["kindr"], quick_runs=24000, thorough_runs=2000000,
        rule="A run is a history of four objects of one kind (trajectory of order 1 to 5, scalar, vector, Hermite position or pose curve): fits, extensions, playback, clears, copies and assignments among them, with allocations failing while copying, then threads that each work on their own object and copy one unchanging original; every object is compared with a fresh one that its own (inherited) history was applied to.",
        time_note="sum of the tick lengths", states="observed values of an object after an operation",
        real=TRAJ_REAL + CURVE_REAL + ["curves::CubicHermiteE3Curve", "curves::CubicHermiteSE3Curve"], stub=SIM_STUB + ["allocation failures", KINDR], assumptions=CORE_ASSUME, must_reach=["alloc_failure", "retry", "copy", "assign", "threads_compared"]),
    "C16": dict(
        src=["C16.cpp"], repo_src=[K, T, H, HP] + P + [RJ, RT, RP], fallback=NOPOSE, stubs=["kindr", "ros"], quick_runs=40000, thorough_runs=2000000,
        rule="A run does the same work six times in one process: objects are built, fitted, extended, copied, filled, given messages, dumped, exported or imported, with allocations or the disk failing on the way, and destroyed; blocks, bytes and open files that grow with every repetition are a violation.",
        states="kind of work with the sequence of outcomes and blocks in use after every operation",
        real=TRAJ_REAL + CURVE_REAL + STORE_REAL + CSV_REAL + ["curves::CubicHermiteE3Curve", "curves::CubicHermiteSE3Curve", "curves_ros interfaces"], stub=SIM_STUB + DISK_STUB + ["allocation failures", KINDR, "ROS message types (stand-ins, sim/stubs/ros)"], assumptions=CORE_ASSUME, must_reach=["alloc_failure", "operation_failed", "repetitions"]),
    "C17": dict(
        src=["C17.cpp"], repo_src=[K, HP] + P, stubs=["kindr"], quick_runs=60000, thorough_runs=3000000,
        rule="A run is a stream of pose measurements (lost, duplicated, late, bursts) into a Slerp or Hermite pose curve with a sampling ratio and period, mixed with ratio changes, batches, refits, clears and copies, with allocations failing; after every delivery the coefficients are compared with a reference list that follows the sampling rule.",
        time_note="0.1 s per delivered measurement", states="coefficient times relative to the first, ratio and position in the group",
        real=["curves::SlerpSE3Curve", "curves::CubicHermiteSE3Curve", "curves::SamplingPolicy"] + STORE_REAL, stub=SIM_STUB + ["allocation failures", KINDR, "the measurement source (lossy, duplicating, late)"], assumptions=CORE_ASSUME, must_reach=["alloc_failure", "retry", "late_refused", "coefficient_moved", "copy", "fit", "batch"]),
}
