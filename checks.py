# Registry of checks: programs to build (flavour, harness files, sources of /repo), and how evidence describes them.
CHECKS = {}
NOTES = {}
TRUST = "Holds on every execution observed (counts in the evidence), no further. Trusts the compiler, the sanitizer runtimes, the stand-in headers in /verif/shims and the reference in the harness."
def c(id, programs, rule, technique, note="", level="exploration", **kw):
    CHECKS[id] = dict(programs=programs, rule=rule, level=level, **kw)
    NOTES[id] = (technique, (note + " " if note else "") + TRUST)
def prog(src, repo=(), flavour="asan", **kw):
    return dict(flavour=flavour, src=[src] if isinstance(src, str) else list(src), repo=list(repo), **kw)
c("C01", [prog("c01_cmdline_accept.cpp")],
  "a case is one set of declarations and one argv; non-trivial when the line is admissible, non-empty and was parsed by a child process, distinct by declarations and words",
  "runtime monitor under ASan+UBSan: real parser in child processes against an independent reference parser, generated declarations and command lines")
c("C02", [prog("c02_cmdline_refuse.cpp")],
  "a case is one set of declarations and one argv (or one sequence of declarations); non-trivial when the reference refuses it and the real parser's status and message were compared, distinct by declarations and words",
  "runtime monitor under ASan+UBSan: mutated and random command lines against an independent reference parser, in child processes")
c("C03", [prog("c03_cmdline_usage.cpp")],
  "a case is one set of declarations with texts and one request for help, version or a failure; non-trivial when a complete output was compared, distinct by declarations and texts",
  "runtime monitor under ASan+UBSan: real usage, version and docbook output of child processes against text composed independently from the declarations, plus a line layout oracle")
c("C04", [prog("c04_flags.cpp")],
  "a case is one history of operations on five flag sets (or one pair of small sets); non-trivial when every operation was compared with an integer bit set and all memberships audited, distinct by the sequence of results",
  "runtime monitor: random operation histories on real flag sets, every operand and membership audited after every step against a bit set model; ASan+UBSan")
c("C05", [prog("c05_references.cpp"), prog("c05_singleton.cpp", flavour="tsan")],
  "a case is one history of assignments and copies of parameters or reference wrappers, or one singleton type first used by several threads at once; non-trivial when identities, values and construction counts were compared, distinct by history",
  "runtime monitor: identity, value and copy accounting of real parameters and references (ASan+UBSan); racing first uses of 240 singleton types under ThreadSanitizer")
c("C06", [prog("c06_function_objects.cpp")],
  "a case calls every kind of function object with drawn arguments, instances and results; non-trivial when the call log was compared entry by entry, distinct by drawn values",
  "runtime monitor: call log (callee, instance, arguments, order, result) recorded by instrumented callables behind real function objects; ASan+UBSan")
c("C07", [prog(["c07_math.cpp", "c07_nompi.cpp"], repo=["ecl_type_traits/src/lib/*.cpp"])],
  "a case applies the functions to drawn arguments over the whole finite range of each type; non-trivial when results were compared with long double references, distinct by arguments",
  "runtime monitor: real functions against long double references with rounding-sized tolerances over exponent-stratified arguments; ASan+UBSan")
c("C08", [prog("c08_traits.cpp", repo=["ecl_type_traits/src/lib/*.cpp"], flags=['-DVERIF_REPO_DIR="@REPO@"', '-DVERIF_HARNESS_DIR="@HERE@/harness"'])],
  "a case audits every fundamental type, or compiles one generated candidate type against one real concept check; non-trivial when a verdict was compared, distinct by candidate",
  "runtime monitor: trait values observed at run time against the compiler's own; the compiler itself run and observed on the real concept checks with generated models and one-fault impostors")
c("C17", [prog("c17_buffers.cpp", repo=["ecl_devices/src/lib/detail/character_buffer.cpp", "ecl_devices/src/lib/string.cpp"])],
  "a case is one history of appends, writes, reads, clears and copies; non-trivial when every step was compared with a byte string model, distinct by history",
  "runtime monitor: operation histories on real buffers and string devices, counts, room and contents audited after every step against a byte string model; heap bounds by ASan")
c("C28", [prog("c28_geometry.cpp", repo=["ecl_geometry/src/lib/angle.cpp", "ecl_geometry/src/lib/linear_segment.cpp", "ecl_exceptions/src/lib/*.cpp"])],
  "a case is a pair of angles, a segment with points around it, or a set of points; non-trivial when every result was compared with a long double reference, distinct by coordinates",
  "runtime monitor: real angle, point and segment operations against long double references with rounding-sized tolerances, plus metamorphic relations (reversal, inverse units, idempotence); ASan+UBSan")
EXC = "ecl_exceptions/src/lib/*.cpp"
c("C09", [prog("c09_arrays.cpp", repo=[EXC], flags=["-O0"]), prog("c09_arrays.cpp", repo=[EXC], flags=["-O0", "-DECL_MEM_CHECK_ARRAYS"])],
  "a case is one history of operations on three arrays of one element type; non-trivial when after every step every way of reading every array was compared with a model, distinct by history",
  "runtime monitor: operation histories on real arrays (plain and guarded), all accessors, iterators, refusals and element lifetimes audited after every step against a vector model; heap bounds by ASan, leak accounting by allocator hooks")
c("C10", [prog("c10_stencils.cpp", repo=[EXC], flags=["-O0"]), prog("c10_stencils.cpp", repo=[EXC], flags=["-O0", "-DECL_MEM_CHECK_ARRAYS"])],
  "a case is one history of operations on a stencil over one container; non-trivial when after every step the window and the whole storage were compared with a model, distinct by history",
  "runtime monitor: operation histories on real stencils over arrays, vectors, strings and byte buffers; window addresses, refusals and all of the storage audited after every step; heap bounds by ASan")
c("C11", [prog("c11_sliding.cpp", repo=[EXC], flags=["-O0"])],
  "a case is one history of pushes, pops, fills, copies and resizes of one buffer; non-trivial when after every step the visible values were compared with a deque, distinct by history",
  "runtime monitor: operation histories on real sliding buffers over many wrap-arounds, every visible element audited after every step against a deque; heap bounds by ASan, element lifetimes by tracked elements")
c("C13", [prog("c13_bytes.cpp", repo=[EXC], flags=["-O0"]), prog("c13_bytes.cpp", repo=[EXC], flavour="rel", flags=["-O0"])],
  "a case converts drawn values and byte sequences through every kind of byte container; non-trivial when bytes, surroundings, values and refusals were compared, distinct by values and sizes",
  "runtime monitor: real conversions against bytes computed by 128 bit arithmetic, storage and surroundings compared byte for byte, refusals by exception (debug) and error state (release); ASan+UBSan")
c("C14", [prog("c14_text.cpp", repo=[EXC], flags=["-O0"]), prog("c14_text.cpp", repo=[EXC], flavour="rel", flags=["-O0"])],
  "a case converts drawn values (or texts, well formed or not) through converters with their own, given and too small buffers; non-trivial when texts, values and refusals were compared, distinct by values",
  "runtime monitor: real conversions against the C library's notation and 128 bit parsing, refusals by exception (debug) and error state (release), given buffers at the end of heap blocks; ASan+UBSan")
c("C15", [prog("c15_formatters.cpp", repo=[EXC, "ecl_formatters/src/lib/*.cpp"], flags=["-O0"])],
  "a case is one history of permanent and one-off settings, copies and outputs of formatters of one type; non-trivial when every output was compared with a reference text, distinct by history",
  "runtime monitor: histories on real formatters, every output compared with text composed from a settings model and the C library's notation, refusals checked; ASan+UBSan")
c("C12", [prog("c12_container_formatters.cpp", repo=[EXC], flags=["-O0"])],
  "a case is one history of settings, copies and outputs of the formatters of one container type, or drawn bytes through every byte formatter; non-trivial when every output was compared, distinct by history",
  "runtime monitor: histories on real container formatters, every output compared with text composed from the elements and a settings model (with automatic widths: read back and checked for alignment); ASan+UBSan")
DEV = ["ecl_devices/src/lib/string.cpp", "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/detail/*.cpp"]
TIME = ["ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_time/src/lib/time_data.cpp"]
c("C16", [prog("c16_streams.cpp", repo=[EXC, "ecl_streams/src/lib/*.cpp", "ecl_threads/src/lib/mutex_pos.cpp"] + DEV + TIME, flags=["-O0"])],
  "a case is one sequence of insertions and extractions on one stream, or one text read as every type; non-trivial when device contents, values, failures and read positions were compared, distinct by text",
  "runtime monitor: real streams over string, file and instrumented devices; device text against the C library's notation, values, failure flags and consumed characters audited per extraction; device faults injected; ASan+UBSan")
c("C18", [prog("c18_files.cpp", repo=[EXC, "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/console.cpp", "ecl_devices/src/lib/detail/*.cpp"], flags=["-O0"]), prog("c18_files.cpp", repo=[EXC, "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/console.cpp", "ecl_devices/src/lib/detail/*.cpp"], flavour="rel", flags=["-O0"])],
  "a case is one history of opens, writes, flushes and closes of two files, one path that cannot be opened, one device that takes nothing, or one transfer through the standard streams; non-trivial when file contents and refusals were compared, distinct by history",
  "runtime monitor: histories on real file devices, the file read back through the kernel after every step and compared with a byte string model, descriptors counted, full devices and unopenable paths as faults; ASan+UBSan")
c("C19", [prog("c19_shared.cpp", repo=[EXC, "ecl_threads/src/lib/mutex_pos.cpp"] + DEV + TIME, flags=["-O0"]), prog("c19_shared.cpp", repo=[EXC, "ecl_threads/src/lib/mutex_pos.cpp"] + DEV + TIME, flavour="tsan", flags=["-O0"])],
  "a case is a set of writers sharing files; non-trivial when the file was read back and every writer's bytes accounted for, distinct by order of the records",
  "runtime monitor: racing writers on real shared files, every record of the file attributed to its writer and checked for loss, duplication, order and tearing; ThreadSanitizer, ASan+UBSan")
THREADS = [EXC, "ecl_threads/src/lib/*_pos.cpp"] + TIME
c("C22", [prog("c22_mutex.cpp", repo=THREADS, flavour=f) for f in ("tsan", "asan", "rel")],
  "a case is a crowd of threads entering a guarded section, a dozen pairs of a holder and one that tries, a queue of threads, or a history of use and misuse; non-trivial when entries, waits and counts were compared, distinct by outcome",
  "runtime monitor: entries and exits of guarded sections, update conservation, measured waits and lock counts of real mutexes under racing threads; ThreadSanitizer, ASan+UBSan, release build")
c("C23", [prog("c23_threads.cpp", repo=THREADS, flavour=f) for f in ("tsan", "asan", "rel")],
  "a case is the life of one thread object (start, refusals, join, cancel, let go), a crowd of them, a worker started by several threads, or one priority; non-trivial when runs, completion, visibility and leftovers were compared, distinct by history",
  "runtime monitor: run, copy and completion counters in the started functions, kernel thread and mapping counts, niceness and policy read back from the kernel; ThreadSanitizer, ASan+UBSan, release build")
c("C24", [prog("c24_sigslots.cpp", repo=THREADS, flavour="asan"), prog("c24_sigslots.cpp", repo=THREADS, flavour="tsan")],
  "a case is one history of creating, connecting, copying, disconnecting, destroying and emitting; non-trivial when every emission's calls were compared with a model of the connections, distinct by history",
  "runtime monitor: call log of real slots against a model of topics, relays and handles after every emission; topic statistics compared; callbacks that change connections; racing threads; ASan+UBSan, ThreadSanitizer")
c("C26", [prog("c26_timestamps.cpp", repo=[EXC] + TIME, flavour=f) for f in ("asan", "rel")],
  "a case is a pair of times, a history of arithmetic on four stamps, a decimal number of seconds, a contradicting pair of parts, or a reading of the clocks; non-trivial when every result was compared, distinct by the times",
  "runtime monitor: real time stamps against 128 bit integer nanoseconds after every operation (value, normal form, parts, comparisons, text), constant operands included; ASan+UBSan and release build")
c("C27", [prog("c27_timing.cpp", repo=[EXC, "ecl_time/src/lib/*_pos.cpp", "ecl_time/src/lib/cpuwatch_rt.cpp", "ecl_time/src/lib/frequency.cpp", "ecl_time/src/lib/stopwatch.cpp", "ecl_time/src/lib/time_data.cpp", "ecl_time/src/lib/timestamp_base.cpp"], flavour=f) for f in ("asan", "rel")],
  "a case is the life of a sleeper, snoozer, watch, rate monitor, set of timings or random source; non-trivial when every time, rate and number was compared, distinct by the times drawn",
  "runtime monitor: real sleepers, snoozers, watches and rate monitors on a virtual clock (sleeping calls intercepted, interruptions injected) against exact schedules, lower bounds by the real clock; ASan+UBSan and release build")
IPC = [EXC, "ecl_ipc/src/lib/*_pos.cpp"] + TIME
c("C25", [prog("c25_ipc.cpp", repo=IPC, flavour="asan"), prog("c25_ipc.cpp", repo=IPC, flavour="tsan"), prog("c25_ipc.cpp", repo=IPC, flavour="rel")],
  "a case is a crowd of threads or processes at one semaphore, a history of opens, writes, locks and closes over up to three processes, or one process's memories with refusals and faults; non-trivial when entries, contents and leftovers were compared, distinct by history",
  "runtime monitor: histories carried out by servant processes on real semaphores and shared memory against a model of names, holders and contents; entry counters in memory of the monitor's own; signals, denied permission and failing system calls injected; ASan+UBSan, ThreadSanitizer, release build")

SOCK = [EXC, "ecl_devices/src/lib/socket_client_pos.cpp", "ecl_devices/src/lib/socket_server_pos.cpp", "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"]
c("C20", [prog("c20_sockets.cpp", repo=SOCK, flavour=f) for f in ("asan", "tsan", "rel")],
  "a case is one exchange of large messages, one history of a server and a client, one lifetime, or one failing system call; non-trivial when bytes, counts, states and descriptors were compared, distinct by history",
  "runtime monitor: histories of real servers and clients over the loopback network against a model of what is under way, hung up and open; interruptions by signals, hang ups at any point and failing system calls injected; descriptors audited; ASan+UBSan, ThreadSanitizer, release build")
c("C21", [prog("c21_serial.cpp", repo=[EXC, "ecl_devices/src/lib/serial_pos.cpp", "ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp", "ecl_time/src/lib/*_pos.cpp", "ecl_time/src/lib/timestamp_base.cpp"], flavour=f) for f in ("asan", "rel")],
  "a case is one history of opening, reading, writing and switching modes, one timeout, one long transfer, or a port held by another process; non-trivial when settings, bytes, counts, waits and descriptors were compared, distinct by history",
  "runtime monitor: real serial ports on pseudo terminals; settings taken from the calls and the terminal, bytes compared at the other end, waits measured and sleeping calls recorded, vanished devices, other holders and failing calls injected, descriptors audited; ASan+UBSan and release build")
GEO = [EXC, "ecl_type_traits/src/lib/*.cpp", "ecl_geometry/src/lib/polynomial.cpp", "ecl_geometry/src/lib/polynomial_blueprints.cpp", "ecl_geometry/src/lib/pascals_triangle.cpp"]
c("C29", [prog("c29_polynomials.cpp", repo=GEO, flags=["-O0"])],
  "a case is one polynomial with arguments, shifts and copies, one division, one set of roots, one interval, a few pairs of lines, or one set of end conditions; non-trivial when every result was compared, distinct by coefficients",
  "runtime monitor: real polynomials against long double evaluation with rounding-sized tolerances; roots, divisions, intersections, extrema and blueprints substituted into their defining equations; ASan+UBSan")
SPLINES = GEO + ["ecl_geometry/src/lib/cubic_spline*.cpp", "ecl_geometry/src/lib/tension_*.cpp", "ecl_geometry/src/lib/smooth_linear_spline.cpp"]
c("C30", [prog("c30_splines.cpp", repo=SPLINES, flavour=f, flags=["-O0"]) for f in ("asan", "rel")],
  "a case is one spline of one kind through drawn points, or one set of data no spline can be built from; non-trivial when knots, joins, ends, samples and refusals were compared, distinct by points",
  "runtime monitor: real splines against reference splines solved in long double (values, slopes and curvature at knots, joins and random arguments), acceleration bound by sampling, refusals; heap bounds by ASan, UBSan, release build")
c("C31", [prog("c31_poses.cpp", repo=GEO + ["ecl_geometry/src/lib/angle.cpp", "ecl_geometry/src/lib/linear_segment.cpp", "ecl_geometry/src/lib/odometry_helper.cpp", "ecl_geometry/src/lib/pose2d.cpp"], flags=["-O0"])],
  "a case is one set of poses of one storage form, precision and construction with their products, inverses and relatives, one chain of motions, one history of a trajectory, or one distance; non-trivial when every result was compared, distinct by values",
  "runtime monitor: real poses against homogeneous matrices in long double with rounding-sized tolerances, every storage form and construction; histories of trajectories against a list of entries; ASan+UBSan")
c("C32", [prog("c32_statistics.cpp", repo=["ecl_statistics/src/lib/*.cpp"], flags=["-O0"])],
  "a case is one history of values and clears, or one symmetric positive definite matrix of moderate condition in the plane or in space; non-trivial when every figure was compared, distinct by values",
  "runtime monitor: running statistics against two-pass sums in long double after every value; ellipsoids substituted into the eigenvector equation, orthogonality, handedness and the ellipse equation; ASan+UBSan")
c("C33", [prog("c33_trajectories.cpp", repo=SPLINES + ["ecl_manipulators/src/lib/*.cpp"], flavour=f, flags=["-O0"]) for f in ("asan",)],
  "a case is one trajectory through drawn way points, one history of an object reused for several, one inadmissible request or one history of a way point; non-trivial when ends, way points, samples, joins and limits were compared, distinct by way points",
  "runtime monitor: real trajectories sampled for ends, way points, straight segments, limits and, by halving towards the worst mismatch between a value and the integral of its derivative, for jumps; way points against a record; refusals and memory; ASan+UBSan")
c("C34", [prog("c34_differential_drive.cpp", repo=GEO + ["ecl_geometry/src/lib/angle.cpp", "ecl_geometry/src/lib/pose2d.cpp", "ecl_mobile_robot/src/lib/*.cpp"], flavour=f, flags=["-O0"]) for f in ("asan", "rel")],
  "a case is a handful of motions of one drive, one path of many small steps, or a handful of pairs of poses; non-trivial when every figure was compared, distinct by values",
  "runtime monitor: real kinematics against long double geometry with rounding-sized tolerances, inverse and additive relations, fine steps against the exact circular arc with its error bound; ASan+UBSan, release build")
c("C35", [prog("c35_transforms.cpp", repo=["ecl_exceptions/src/lib/*.cpp", "ecl_linear_algebra/src/lib/*.cpp"], flavour="asan", flags=["-O0"])],
  "a case is one pair of rigid transforms of one kind of interpolation, a handful of planar poses, or one formatter used for several matrices or transforms; non-trivial when ends, points between, round trips or printed entries were compared, distinct by values",
  "runtime monitor: real interpolators against the laws of a steady motion (ends, additivity of motions, even turning, plane kept, straight sliding) in double; conversions against rotation matrices; printed text against printf, settings before and after; ASan+UBSan")
c("C36", [prog("c36_realpath.cpp", repo=[EXC, "ecl_filesystem/src/lib/*.cpp"])],
  "a case is one tree of directories, files, links, chains, loops and forbidden parts with 120 paths through it, one directory nested to the longest possible path, or one failure of the resolution; non-trivial when every result or failure was compared, distinct by paths",
  "runtime monitor: every result against the name the kernel has for a descriptor opened on the same path, every failure against the kernel's error, memory balance and untouched result on failure, injected failures with filled buffers; ASan+UBSan")
c("C37", [prog("c37_exceptions.cpp", repo=[EXC], flavour=f) for f in ("asan", "rel")] +
  [prog("c37_translations.cpp", repo=[EXC, "ecl_threads/src/lib/*_pos.cpp", "ecl_ipc/src/lib/*_pos.cpp", "ecl_time/src/lib/*_pos.cpp", "ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/time_data.cpp", "ecl_devices/src/lib/*_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/string.cpp", "ecl_devices/src/lib/detail/*.cpp"], flavour="plain", flags=f) for f in ([], ["-DNDEBUG"])],
  "a case is a batch of chains of raising, copying, storing, passing between threads and rethrowing, or of macro uses, or of failures of one system call behind the interface; non-trivial when flag, message, data and every location were compared, distinct by history",
  "runtime monitor: random exception histories against a record of what was put in; system calls made to fail with every error number behind the public interface, flags against the documented table, locations compared between failures; ASan+UBSan, release build")
c("C38", [prog("c38_light.cpp", repo=[EXC, "ecl_threads/src/lib/*_pos.cpp", "ecl_ipc/src/lib/*_pos.cpp", "ecl_time/src/lib/*_pos.cpp", "ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/time_data.cpp", "ecl_devices/src/lib/*_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/string.cpp", "ecl_devices/src/lib/detail/*.cpp", "ecl_formatters/src/lib/*.cpp", "ecl_filesystem/src/lib/*.cpp", "ecl_streams/src/lib/*.cpp", "ecl_time/src/lib/frequency.cpp", "ecl_time/src/lib/stopwatch.cpp", "ecl_type_traits/src/lib/*.cpp"], flavour="tsan", flags=["-O0"]),
  prog("c38_heavy.cpp", repo=SPLINES + ["ecl_geometry/src/lib/angle.cpp", "ecl_geometry/src/lib/linear_segment.cpp", "ecl_geometry/src/lib/odometry_helper.cpp", "ecl_geometry/src/lib/pose2d.cpp", "ecl_manipulators/src/lib/*.cpp", "ecl_mobile_robot/src/lib/*.cpp", "ecl_statistics/src/lib/*.cpp", "ecl_linear_algebra/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"], flavour="tsan", flags=["-O0"])],
  "a case is a crowd of two to six threads, each doing jobs of one kind or of mixed kinds on objects of its own; non-trivial when every job told the same in the crowd as alone, distinct by kind and seed",
  "runtime monitor: what each of 24 kinds of jobs on private objects tells in a crowd against what it tells alone; the thread sanitizer watches for state shared behind the interface")
LIVE = SOCK + ["ecl_threads/src/lib/mutex_pos.cpp", "ecl_streams/src/lib/*.cpp", "ecl_devices/src/lib/string.cpp", "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/console.cpp", "ecl_devices/src/lib/serial_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/detail/character_buffer.cpp", "ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp", "ecl_time/src/lib/*_pos.cpp", "ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/time_data.cpp"]
c("C39", [prog("c39_live_streams.cpp", repo=LIVE, flavour=f, flags=["-O0", '-DVERIF_REPO_DIR="@REPO@"', '-DVERIF_HARNESS_DIR="@HERE@/harness"']) for f in ("asan", "rel")],
  "a case is one connection (socket, serial line or the standard streams of a child) with several exchanges of values, or one round of opens that have to be refused; non-trivial when every value, text and refusal was compared, distinct by values",
  "runtime monitor: real streams over loopback sockets, pseudo terminals and pipes against the values and texts drawn, arrival in pieces, peers that leave, settings taken from the calls, refusals and descriptors audited; ASan+UBSan, release build")
