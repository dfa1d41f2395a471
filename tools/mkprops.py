#!/usr/bin/env python3
# Source of properties.jsonl (python3 tools/mkprops.py rewrites it).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CL = "ecl_command_line/include/ecl/command_line/"
p("C01", "Accepted command lines yield exactly the declared and supplied values",
  "Every command line that the declared arguments admit is accepted, and afterwards each argument holds exactly what was written for it: values arrive once, in order and in the argument they were addressed to (by flag, by name, by position, or as trailing text after the ignore-rest marker), and switches reflect how often they were given, alone or combined behind one dash. "
  "An argument that was not given reports so and still has its default. The name/value delimiter, the flag and name prefixes and values that merely look like flags are honoured as documented.",
  ["inputs", "configurations"], "all argument declarations (kinds, flags, names, required, xor groups, delimiters) and all argv vectors they admit",
  "The single test parses one fixed argv of four argument kinds; combinations of kinds, order, delimiter, combined switches and odd-looking values are unbounded.",
  [CL+x for x in ("cmd_line.hpp","arg.hpp","value_arg.hpp","multi_arg.hpp","switch_arg.hpp","multi_switch_arg.hpp","unlabeled_value_arg.hpp","unlabeled_multi_arg.hpp","xor_handler.hpp","ignore_rest_visitor.hpp")],
  "CmdLine::parse walks argv, offering each word to each Arg::processArg in list order; the args match flag/name, extract values and set their own state.",
  "Arg::isSet, getValue, getName, CmdLine::getProgramName after CmdLine::parse",
  [("_alreadySet","whether an argument was given"),("_value/_values","what it was given"),("_ignoreRest","whether labels are still honoured")])
p("C02", "Inadmissible command lines and declarations are refused, never half accepted",
  "A command line that the declared arguments do not admit - a required argument or exclusive choice missing, two of an exclusive group, a single-valued argument repeated, a value missing, not convertible to its type or outside its constraint, or a word nothing accepts - is refused with a message on standard error, naming the argument at fault where there is one, and a failing exit status. "
  "Contradictory declarations (clashing flags or names, malformed flags or names) are refused when made. Whatever the words are, parsing ends without touching memory it does not own.",
  ["inputs", "configurations"], "all argument declarations and all argv vectors they do not admit, including arbitrary bytes",
  "The tests contain no rejected command line at all.",
  [CL+x for x in ("cmd_line.hpp","arg.hpp","value_arg.hpp","multi_arg.hpp","xor_handler.hpp","std_output.hpp","arg_exception.hpp","values_constraint.hpp","optional_unlabeled_tracker.hpp")],
  "Parse failures raise ArgException subclasses; CmdLine::parse hands them to CmdLineOutput::failure, which reports and exits.",
  "exit status, standard error and isSet/getValue of a child process running parse")
p("C03", "Help, version and usage text tell the whole truth about the declarations",
  "Asking for help or the version stops with success and prints it: the text names the program, its message and version, shows every declared argument with its flag, name, type or constraint and complete description, groups exclusive alternatives, and wraps to the line width without losing, adding or reordering a word. "
  "Identifiers, usage lines and generated documentation agree with the declarations (required arguments bare, optional ones bracketed, repeatable ones marked). Layout of arbitrarily long texts stays within bounds.",
  ["inputs", "configurations"], "all sets of declared arguments and all texts (any length, embedded newlines, long words)",
  "No test looks at any output text.",
  [CL+x for x in ("std_output.hpp","docbook_output.hpp","help_visitor.hpp","version_visitor.hpp","xor_handler.hpp","arg.hpp","value_arg.hpp","values_constraint.hpp")],
  "StdOutput::usage/version/_shortUsage/_longUsage/spacePrint; Arg::shortID/longID; DocBookOutput.",
  "standard output and exit status of a child process; Arg::shortID/longID/toString")
p("C04", "Flag sets behave as sets of their enumerators",
  "A flag container holds exactly the enumerators put into it: construction, union, intersection, difference by complement, symmetric difference, their in-place forms, negation, membership tests (of one enumerator, or of a combination, which is a member when it shares one) and comparison agree with the corresponding set operations for every combination, and no operation changes an operand it only reads.",
  ["inputs", "histories"], "all enumerators and all sequences of operations on flag containers",
  "The tests evaluate a handful of fixed two-flag expressions.",
  ["ecl_utilities/include/ecl/utilities/flags.hpp"],
  "ecl::Flags<Enum> stores the bits in an int; every operator builds on it; DECLARE_FLAGS/DECLARE_FLAG_OPERATORS generate the enum operators.",
  "values of operators and testFlag on ecl::Flags")
p("C05", "Parameters, references and singletons denote exactly one object",
  "A parameter always yields the value last assigned to it, however it is read, assigned or copied. A reference wrapper denotes the very object it was made from - reads and writes through it and its copies reach that object, constness preserved - and the reference traits classify wrapped and plain types correctly. "
  "A singleton accessor yields one and the same instance, constructed once, from every thread and from the first use on.",
  ["histories", "schedules", "inputs"], "all sequences of assignments and copies; all concurrent first uses of a singleton",
  "The tests read each object once from one thread.",
  ["ecl_utilities/include/ecl/utilities/parameter.hpp","ecl_utilities/include/ecl/utilities/references.hpp","ecl_utilities/include/ecl/utilities/singleton.hpp","ecl_utilities/include/ecl/utilities/blueprints.hpp","ecl_utilities/include/ecl/utilities/void.hpp"],
  "Parameter<T> holds one value; ReferenceWrapper<T> holds a pointer; Singleton<T>::instance returns a function-local static.",
  "values and addresses seen by the user; construction counts; race detector")
p("C06", "Function objects call exactly what was bound, once, with exactly those arguments",
  "Invoking a function object, partially bound or fully bound, calls the wrapped free function, member function or functor exactly once, on the bound instance, with the bound and supplied arguments in their declared order, and hands back its result. "
  "Copies behave as the original does, and functors wrapped by reference act on the original object. The generator functions create equivalent function objects, and blueprint factories hand back objects that behave as the blueprint says.",
  ["inputs", "histories"], "all kinds of wrapped callables, argument values and copies",
  "The function object tests cannot be built here and only check that some calls return the expected constant.",
  ["ecl_utilities/include/ecl/utilities/function_objects.hpp"],
  "NullaryFreeFunction, UnaryFreeFunction, BoundUnaryFreeFunction, NullaryMemberFunction, UnaryMemberFunction, Partially/Bound*MemberFunction, functor wrappers, generateFunctionObject overloads.",
  "recorded call log (callee, instance, arguments, order) and return values")
p("C07", "Elementary mathematics agrees with its definition on all finite inputs",
  "Signs, cube roots, Euclidean norms and the fuzzy comparisons return what their mathematical definitions say for every finite argument, of either sign and any size, up to rounding (norms where the squares can be represented); zero takes the documented side. The published constants equal the mathematical ones to the precision of their type. Fuzzy equality is reflexive and symmetric, scales with its arguments and is exact for integers.",
  ["inputs"], "all finite arguments of the supported scalar types and all vector lengths offered",
  "The tests sample two or three points for each function.",
  ["ecl_math/include/ecl/math/simple.hpp","ecl_math/include/ecl/math/norms.hpp","ecl_math/include/ecl/math/constants.hpp","ecl_math/include/ecl/math/fuzzy.hpp"],
  "Header-only templates: sign, psign, nsign, cube_root, euclidean_norm, isApprox, isApproxOrLessThan.",
  "returned values against long double reference computations")
p("C08", "Type traits and metaprogramming tools state the truth about every type",
  "For every fundamental type the limits (size in bits and bytes, minimum, maximum) and the classifications (integral, signed, float, byte) agree with the language's own, conditional selection and enabling pick the branch their condition says, and the boolean types compose as booleans. Concept checks accept exactly the types that model the concept.",
  ["programs"], "all fundamental types and the derived conditions and models",
  "The tests check a few types and never a combination.",
  ["ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp","ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp","ecl_type_traits/src/lib/numeric_limits.cpp","ecl_mpl/include/ecl/mpl/bool.hpp","ecl_mpl/include/ecl/mpl/enable_if.hpp","ecl_mpl/include/ecl/mpl/if.hpp","ecl_mpl/include/ecl/mpl/converters.hpp","ecl_concepts/include/ecl/concepts/macros.hpp"],
  "Template specialisations per type.",
  "values the instantiated templates report in a monitored program, compared with std::numeric_limits and std type traits")
p("C09", "Arrays hold what was put in them and never reach outside their storage",
  "Fixed and resizable arrays of every variant behave as a sequence of their size: construction, comma and bracket initialisation, element writes, copies, assignment (also to themselves), constants, clearing and resizing leave exactly the contents those operations define, and iteration forward and backward visits each element once. "
  "Checked access to any index outside is refused; no operation reads, writes or frees memory the array does not own; initialising with more elements than fit is refused. A guarded array reports a write across its edges, and nothing else.",
  ["inputs", "histories"], "all element types, sizes and sequences of operations",
  "The tests build a few three-element arrays.",
  ["ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp","ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp","ecl_containers/include/ecl/containers/array/array_mem_check.hpp","ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp","ecl_containers/include/ecl/containers/initialiser.hpp"],
  "Array<T,N> and Array<T,DynamicStorage>; operator<< chains a BoundedListInitialiser over iterators; the mem check variants frame the storage with signature words.",
  "accessors, iterators, exceptions and AddressSanitizer")
p("C10", "Stencils view exactly their window of the underlying container",
  "A stencil reads and writes precisely the elements of the window it was opened on, through indices, iterators and comma initialisation, and its length is that of the window; a stencil opened on or moved to a window outside the underlying storage (that of the container, also for a stencil of a stencil) is refused, and so is checked access to an index outside the window. Nothing outside the window changes.",
  ["inputs", "histories"], "all windows over arrays, vectors and raw character buffers, and all operations on them",
  "The tests open three stencils.",
  ["ecl_containers/include/ecl/containers/stencil/stencil.hpp","ecl_containers/include/ecl/containers/stencil/specialisations.hpp"],
  "Stencil<T> keeps begin/end iterators and a reference to the container; specialisations for (const) unsigned char pointers.",
  "accessors, iterators, exceptions, the whole underlying container, AddressSanitizer")
p("C11", "Sliding buffers keep the most recent values in order",
  "A push-and-pop buffer always shows the values most recently pushed, oldest first, as many as it has room for, and popping or filling changes just that; a fixed-length ring always shows the last values written, in order of writing. This holds across every wrap-around, copy, assignment and resize; elements are reached by index and, in fixed-size buffers, by iterators, and indexing outside the buffer never reaches foreign memory.",
  ["histories", "inputs"], "all capacities and all operation sequences, over any number of wrap-arounds",
  "The tests push fewer values than two wrap-arounds into one buffer size.",
  ["ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp","ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp","ecl_containers/include/ecl/containers/fifo.hpp"],
  "PushAndPop keeps leader/follower indices modulo capacity+1; FiFo keeps a running index modulo its size.",
  "operator[], size, pop results against a reference deque; AddressSanitizer")
p("C12", "Container formatters print every element, faithfully and in order",
  "Formatting an array, stencil or sliding buffer prints every element once, in order, each readable back as the element it stands for to the precision asked for, at the width asked for, separated by a space and inside brackets; one-off settings affect one output only and permanent ones all later outputs. A formatter that was never given a container refuses to print.",
  ["inputs", "histories"], "all contents, lengths, widths, precisions and sequences of formatter calls",
  "Formatter output is not tested anywhere.",
  ["ecl_containers/include/ecl/containers/common/formatters.hpp","ecl_containers/include/ecl/containers/array/formatters.hpp","ecl_containers/include/ecl/containers/stencil/formatters.hpp","ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp"],
  "IntContainerFormatter, FloatContainerFormatter, ByteArrayFormatter hold a pointer to the container and per-call overrides.",
  "parsed text output")
p("C13", "Byte array conversions are exact inverses in the documented byte order",
  "Every integral value converted to a byte sequence and back is the value it was, for every supported width and container, with the least significant byte first and nothing beyond the value's bytes touched. A shorter byte sequence denotes the value of its bytes; a container of another size than needed is reported as a conversion error, left alone, and not read or written past its end. Bytes written as hexadecimal text are those bytes.",
  ["inputs"], "all values of all integral types, all byte sequences, all container kinds and sizes",
  "The tests convert four sample numbers.",
  ["ecl_converters/include/ecl/converters/to_byte_array.hpp","ecl_converters/include/ecl/converters/from_byte_array.hpp","ecl_containers/include/ecl/containers/array/converters.hpp","ecl_containers/include/ecl/containers/stencil/converters.hpp","ecl_converters/include/ecl/converters/converter.hpp"],
  "Converter<ByteArray,Integral> and Converter<Integral,ByteArray> shift bytes in and out.",
  "returned values and bytes, error(), UBSan/ASan")
p("C14", "Numbers and text convert into each other without loss or silent error",
  "Converting a number to text gives its conventional notation and converting that text back gives the number: exactly for every value of every integral, character and boolean type including the extremes, and to the stated precision for floating types. Text that does not fully denote a value of the target type, and buffers too small for an integral result, are reported as conversion errors; floating results are cut at the end of the buffer, as documented. No conversion writes past the buffer it was given.",
  ["inputs"], "all values of the supported types, all texts and all buffer sizes",
  "The tests convert a dozen literals; none is extreme or malformed.",
  ["ecl_converters/include/ecl/converters/char_strings.hpp","ecl_converters/include/ecl/converters/string.hpp","ecl_converters/include/ecl/converters/integers.hpp"],
  "Converter<char*,T>, Converter<std::string,T>, Converter<int,std::string> etc. convert digit by digit into an internal or external buffer.",
  "returned text/values, errors and exceptions, ASan/UBSan")
p("C15", "Formatters render the value at the width, alignment and precision asked for",
  "A formatted number or string shows exactly its value in the base or precision asked for, padded to at least the width asked for on the side the alignment says, never truncated into a different value. Settings given with a value last for that output only; settings given alone stay until changed. Each formatter object renders its own value, and refuses to when it has none.",
  ["inputs", "histories"], "all values, widths, alignments, bases, precisions and sequences of calls",
  "Formatters have no tests.",
  ["ecl_formatters/include/ecl/formatters/number.hpp","ecl_formatters/include/ecl/formatters/floats.hpp","ecl_formatters/include/ecl/formatters/strings.hpp","ecl_formatters/src/lib/strings.cpp","ecl_formatters/include/ecl/formatters/common.hpp"],
  "Format<T> functors keep width/precision/base/alignment plus one-shot overrides and stream through friend operator<<.",
  "text written to a stream")
p("C16", "Text streams read back what they wrote",
  "Whatever sequence of numbers, characters, words and manipulators is written to an output text stream appears on its device in order as conventional text, and an input text stream reading that text returns the same values, for every value of every supported type (floating ones to the six decimals written). Text that does not denote a value of the type read is flagged and leaves the variable alone, and a stream reads no further than the value and the one character that ends it.",
  ["inputs", "histories"], "all values and sequences of insertions and extractions; all texts",
  "The stream tests print a few numbers and compare one string.",
  ["ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp","ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp","ecl_streams/include/ecl/streams/log_stream.hpp","ecl_streams/src/lib/manipulators.cpp"],
  "BaseTextStream<Device,...> converts with Converter<char*,T> on output and character-wise parsing on input.",
  "device contents, extracted values, fail()/error state")
p("C17", "Staging buffers and string devices conserve bytes in order, up to capacity",
  "A staging buffer accepts bytes until it is full and not one more, reports exactly how many it took, what room remains and whether it is full, and holds precisely the accepted bytes in order until cleared; its text form is those bytes followed by a terminator. A string device grows with what is written, returns what was written in order and counts what remains, over any mix of single, block and interleaved operations and clears.",
  ["histories", "inputs"], "all sequences of appends (single and block, of any length), reads and clears, up to and beyond capacity",
  "The staging buffers have no tests; the string device test writes one short string.",
  ["ecl_devices/include/ecl/devices/detail/character_buffer.hpp","ecl_devices/src/lib/detail/character_buffer.cpp","ecl_devices/include/ecl/devices/string.hpp","ecl_devices/src/lib/string.cpp"],
  "CharBuffer/CharStringBuffer keep a fill point in a fixed array; String keeps a growing heap buffer with input and output points.",
  "return values, remaining/size/full, contents, AddressSanitizer")
p("C18", "Files contain exactly what was written to them",
  "Bytes written to an output file reach the file exactly once and in order, however they are split into writes, buffered and flushed, once flushed or closed; opening anew starts an empty file and appending continues the old content. Text written to the consoles reaches the standard streams once flushed. Operations on a device that is not open or could not be opened fail and say so, and bytes a full target does not take are reported by the flush or close at the latest.",
  ["histories", "inputs", "fault_sequences"], "all sequences of opens, writes, flushes, reads and closes in every mode, and unopenable or full targets",
  "The tests write one short string to one file.",
  ["ecl_devices/include/ecl/devices/ofile_pos.hpp","ecl_devices/src/lib/ofile_pos.cpp","ecl_devices/src/lib/detail/error_handler.cpp","ecl_devices/include/ecl/devices/console.hpp"],
  "OFile stages into CharBuffer and hands full buffers to fwrite; IFile wraps fread.",
  "file contents, return values, exceptions and error flags")
p("C19", "Shared log files lose, mix or duplicate no writer's data",
  "All handles opened on the same name share one file: every byte handed to any of them appears in the file exactly once after the last handle is gone, each writer's bytes in its order, and each writer's buffered block contiguous, whatever the interleaving of threads; a handle's unflushed bytes go out when it is destroyed or reopened. The file stays open while any handle needs it and a failed open leaves later opens usable.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of opens, writes, flushes and closes from any number of threads, and failing opens",
  "The test writes from two threads once and checks nothing.",
  ["ecl_devices/include/ecl/devices/shared_file.hpp","ecl_devices/src/lib/shared_file.cpp"],
  "SharedFileManager maps names to reference counted SharedFileCommon under a mutex; each SharedFile stages into its own buffer.",
  "file contents parsed per writer, ThreadSanitizer, AddressSanitizer")
p("C20", "Sockets carry bytes faithfully and report the state of the connection",
  "Between a connected client and server every byte sent is received once and in order, in both directions and whatever the sizes and timing of writes and reads; counts returned say what was transferred, waiting data is counted correctly, a peer that hung up is reported as such once its bytes are read, and closing or destroying either end hangs up, releases everything held and lets the same place be opened again. Use of an unconnected device is refused, failing calls are reported with their kind and lose no byte, and descriptors of others are never touched.",
  ["histories", "schedules", "fault_sequences"], "all exchanges over a loopback connection, peers that hang up at any point, failing and interrupted system calls",
  "Sockets have no tests.",
  ["ecl_devices/include/ecl/devices/socket_client_pos.hpp","ecl_devices/src/lib/socket_client_pos.cpp","ecl_devices/include/ecl/devices/socket_server_pos.hpp","ecl_devices/src/lib/socket_server_pos.cpp","ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp","ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp"],
  "Thin wrappers over socket/bind/listen/accept/connect/send/recv/ioctl.",
  "event log of bytes sent and received at the client boundary, open descriptors")
p("C21", "Serial ports transfer bytes faithfully with the settings and timeouts asked for",
  "A serial port opened with given settings configures exactly those settings on the terminal, transfers every byte unaltered and in order, reports how many bytes are waiting, gives up reading after the timeout asked for and not before (from a tenth of a second on to the terminal's tenths, at most 25.5 s), switches between ways of reading without losing what arrived, and refuses reading and writing when it is not open. Opening an absent, locked or unsuitable device is refused and leaves nothing open, and a device that vanishes is noticed.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all combinations of baud rate, data bits, stop bits and parity; all byte sequences; absent, locked and vanishing devices; failing calls",
  "Serial ports have no tests.",
  ["ecl_devices/include/ecl/devices/serial_pos.hpp","ecl_devices/src/lib/serial_pos.cpp"],
  "Serial sets a termios and uses read/write/select.",
  "termios of a pseudo terminal, bytes at its other end")
p("C22", "Mutexes exclude, and trying respects the wait asked for",
  "At most one thread is inside a section guarded by a mutex at any time and what one holder wrote the next one sees; a try succeeds exactly when the lock is free, does not block, and with a time limit waits about that long for it and takes it if it comes free. Locks are released by unlocking, every blocked thread eventually gets in, the count of locks is exact at rest, misuse (locking twice, unlocking what another holds) is refused in debug builds, and using mutexes is itself free of data races.",
  ["schedules"], "all interleavings of lock, trylock, timed trylock and unlock from any number of threads",
  "The test locks and unlocks in two threads once.",
  ["ecl_threads/include/ecl/threads/mutex_pos.hpp","ecl_threads/src/lib/mutex_pos.cpp"],
  "Mutex wraps a pthread mutex and counts locks.",
  "monitor of section entries and exits, shared counter, ThreadSanitizer")
p("C23", "Threads run their function exactly once and joining waits for it",
  "A started thread runs the function, member function or functor it was given exactly once, with its own copy or the original as asked; joining returns after the function has finished and makes its effects visible; starting a thread object a second time is refused and changes nothing. Destroying, cancelling or repeatedly joining a thread object in any state neither crashes, leaks nor runs anything twice; stack sizes asked for are applied, and priorities where the system permits them, refusals being reported.",
  ["schedules", "histories"], "all orders of construction, start, join, cancel and destruction, and all interleavings with the running function",
  "The tests start a few threads and join each once.",
  ["ecl_threads/include/ecl/threads/thread_pos.hpp","ecl_threads/src/lib/thread_pos.cpp","ecl_threads/include/ecl/threads/threadable.hpp","ecl_threads/include/ecl/threads/priority_pos.hpp","ecl_threads/src/lib/priority_pos.cpp"],
  "Thread creates a pthread running a heap allocated ThreadTask; Threadable runs runnable() in its own Thread.",
  "run counters, ordering, ThreadSanitizer, LeakSanitizer")
p("C24", "Signals reach exactly the slots connected to them",
  "Emitting on a topic calls every slot connected to that topic, once each, with the emitted data, and no other, whatever the order in which signals, slots and sigslots were created, connected, copied, disconnected or destroyed; a disconnected or destroyed party is never called again, connections made or cut inside a callback take effect without disturbing the emission (new ones at the latest with the next), connection counts are right, and other topics are unaffected.",
  ["histories", "inputs"], "all histories of creation, connection (without cycles), copying, disconnection, destruction (not of a party inside its own callback) and emission over any number of topics, from one or several threads",
  "The tests connect a few signals and slots in one fixed order and mostly print.",
  ["ecl_sigslots/include/ecl/sigslots/sigslot.hpp","ecl_sigslots/include/ecl/sigslots/signal.hpp","ecl_sigslots/include/ecl/sigslots/slot.hpp","ecl_sigslots/include/ecl/sigslots/topic.hpp","ecl_sigslots/include/ecl/sigslots/manager.hpp"],
  "SigSlotsManager<Data> keeps a static map of topics with subscriber and publisher sets; handles reference count a SigSlot.",
  "call log of the slots against a model of the connections, AddressSanitizer")
p("C25", "Semaphores and shared memory coordinate processes",
  "A named semaphore admits one holder at a time across threads and processes, tries succeed exactly when it is free and timed tries wait about as long as asked. Shared memory opened under one name is the same memory in every process: what one writes all see, it has the size of its type and its initial contents once its creator is constructed, its creator alone removes it, and opening what cannot exist is refused and leaves nothing behind.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of processes opening, locking, writing and closing under one name",
  "The tests run one fixed exchange and only print.",
  ["ecl_ipc/include/ecl/ipc/semaphore_pos.hpp","ecl_ipc/src/lib/semaphore_pos.cpp","ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp","ecl_ipc/src/lib/shared_memory_pos.cpp"],
  "sem_open/sem_wait/sem_post and shm_open/mmap wrappers.",
  "events logged by cooperating processes in memory of the monitor's own")
p("C26", "Time stamps compute exactly with seconds and nanoseconds",
  "Time stamps are exact to the nanosecond: sums, differences, comparisons, scaling to milli-, micro- and nanoseconds and conversion to and from decimal seconds (to a nanosecond or double precision) agree with exact arithmetic for positive and negative times wherever the result can be represented, results are normalised with both parts of one sign, parts of contradicting signs are refused in debug builds, and text output denotes the value with nine decimals.",
  ["inputs", "histories"], "all pairs of time stamps over the supported range and all operation sequences",
  "The tests compute a dozen fixed sums.",
  ["ecl_time/include/ecl/time/timestamp_base.hpp","ecl_time/src/lib/timestamp_base.cpp","ecl_time/include/ecl/time/timestamp_pos.hpp","ecl_time/src/lib/timestamp_pos.cpp"],
  "TimeStampBase keeps a timespec and normalises by hand after each operation.",
  "sec(), nsec(), comparisons and text against 128-bit integer arithmetic")
p("C27", "Sleepers, snoozers, stopwatches and rate monitors keep time",
  "A sleep lasts at least the time asked for, also for waits of a second or more in any unit, unless a signal cuts it short, which is reported in debug builds. A snooze releases its caller at successive multiples of the period from its start, without drift, whatever the caller does in between; a caller that is late is released at once, or a period after now where validation was asked for. Stopwatches and cpu watches never run backwards, splits add up to the elapsed time, and a rate monitor's frequency matches the event times it was fed; pseudo random sources stay within their bounds, centre and spread, and repeat for a repeated seed.",
  ["histories", "inputs"], "all durations, periods and work patterns between calls",
  "The tests run fixed periods and print the outcome.",
  ["ecl_time/src/lib/sleep_pos.cpp","ecl_time/src/lib/snooze_pos.cpp","ecl_time/src/lib/stopwatch.cpp","ecl_time/src/lib/cpuwatch_rt.cpp","ecl_time/src/lib/frequency.cpp","ecl_time/src/lib/time_data.cpp","ecl_time/include/ecl/time/random_number_generator.hpp"],
  "clock_nanosleep/nanosleep wrappers, add_period, differences of time stamps.",
  "a virtual clock for periods and rates; the real clock for lower bounds")
p("C28", "Angles, points and line segments obey Euclidean geometry",
  "Wrapping brings any angle into the turn around zero, congruent to it, unit conversions are inverse, and angle arithmetic is arithmetic of the wrapped values. A line segment's coefficients vanish on its two end points and its squared distance to any point is the least over all its points, ends included, for every segment including vertical ones. Points add, subtract, scale, compare and stream as vectors do, and homogeneous points transform correctly.",
  ["inputs"], "all finite angles, points and segments",
  "The tests check a handful of constants.",
  ["ecl_geometry/include/ecl/geometry/angle.hpp","ecl_geometry/src/lib/angle.cpp","ecl_geometry/include/ecl/geometry/linear_segment.hpp","ecl_geometry/src/lib/linear_segment.cpp","ecl_geometry/include/ecl/geometry/cartesian_point.hpp","ecl_geometry/include/ecl/geometry/homogeneous_point.hpp"],
  "wrap_angle by fmod, LinearSegment's A,B,C, element-wise point operators.",
  "returned values against long double references")
p("C29", "Polynomials evaluate, differentiate, shift and interpolate exactly",
  "A polynomial's value and derivatives at any argument are those of its coefficients up to rounding; shifting translates its graph, differentiation lowers its degree, division, roots, intersections and extrema satisfy their defining equations, and the blueprint constructors meet every end condition they are given.",
  ["inputs"], "all degrees offered, coefficients, arguments and end conditions of moderate size",
  "The tests evaluate a few literal polynomials.",
  ["ecl_geometry/include/ecl/geometry/polynomial.hpp","ecl_geometry/src/lib/polynomial.cpp","ecl_geometry/src/lib/polynomial_blueprints.cpp","ecl_geometry/include/ecl/geometry/pascals_triangle.hpp","ecl_geometry/src/lib/pascals_triangle.cpp","ecl_geometry/include/ecl/geometry/function_math.hpp"],
  "Polynomial<N> stores coefficients in an Array; blueprint factories solve for coefficients.",
  "values against long double Horner evaluation and the defining equations")
p("C30", "Splines pass through their knots and join smoothly",
  "Every cubic and tension spline built from increasing abscissae passes through the points it was built from, is continuous with the smoothness its kind promises at every knot and meets the end conditions asked for; evaluated derivatives are the derivatives of its values. The smooth linear spline starts and ends at its end points, joins smoothly, stays within its acceleration bound, follows the straight segments between corners and is refused only when its bound cannot be met. Evaluation outside the domain is refused (in builds with debug checks), so are fewer than two points and unmatched numbers of them, and no size of data set reaches outside memory. A printed spline lists the formula of every piece in order, with two digits behind the point.",
  ["inputs"], "all data sets of two or more points with increasing abscissae, all boundary conditions and tensions of moderate size",
  "The tests build one spline of each kind and print it.",
  ["ecl_geometry/include/ecl/geometry/cubic_spline.hpp","ecl_geometry/src/lib/cubic_spline.cpp","ecl_geometry/src/lib/cubic_spline_blueprints.cpp","ecl_geometry/include/ecl/geometry/tension_spline.hpp","ecl_geometry/src/lib/tension_spline.cpp","ecl_geometry/src/lib/tension_spline_blueprints.cpp","ecl_geometry/src/lib/tension_function.cpp","ecl_geometry/include/ecl/geometry/smooth_linear_spline.hpp","ecl_geometry/src/lib/smooth_linear_spline.cpp","ecl_geometry/include/ecl/geometry/spline_function.hpp"],
  "Blueprints solve the tridiagonal systems and fill Array<Polynomial/TensionFunction>.",
  "values and derivatives at and around knots, exceptions, AddressSanitizer")
p("C31", "Poses compose as rigid motions and odometry keeps its bookkeeping",
  "Planar and spatial poses form a group under composition: composing, inverting, relative poses and transforming points agree with the corresponding homogeneous matrices in every storage form and construction, and headings stay wrapped. The odometry helpers put poses, twists and trajectories together and take them apart without losing, reordering or altering an entry, and their distances meet their definitions.",
  ["inputs", "histories"], "all poses, mixes of storage forms, and trajectories of any length",
  "The tests compose a few poses and check one trajectory of three entries.",
  ["ecl_geometry/include/ecl/geometry/pose2d.hpp","ecl_geometry/src/lib/pose2d.cpp","ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp","ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp","ecl_geometry/include/ecl/geometry/odometry_helper.hpp","ecl_geometry/src/lib/odometry_helper.cpp"],
  "LegacyPose2D/LegacyPose3D/Pose2D wrap Eigen; odometry types are Eigen matrices with one column per entry.",
  "values against homogeneous matrix arithmetic in long double")
p("C32", "Statistics agree with the data they were fed",
  "Running statistics report the count, mean and sample variance of exactly the values fed in since the last clear, for any number, order and magnitude of them. The covariance ellipsoid's axes are the unit eigenvectors and its lengths the square roots of the eigenvalues of the given matrix, its rotation is the orientation of its major axis and its intercepts lie on the ellipse, in the plane and in space.",
  ["inputs", "histories"], "all finite data sequences and all symmetric positive definite matrices of moderate condition",
  "The tests feed five numbers and a few fixed matrices.",
  ["ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp","ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp","ecl_statistics/src/lib/covariance_ellipsoid.cpp"],
  "Welford recurrences; closed form or Eigen eigen decomposition.",
  "reported values against long double two-pass and residual computations")
p("C33", "Manipulator trajectories honour their way points and limits",
  "A trajectory built from any admissible way points starts and ends at the first and last of them, at rest unless rates were given for its ends; tension splines pass every way point between in order and at its time, linear splines follow the straight segments and round the corners close to the way points. Every joint is continuous in position and velocity, keeps within the acceleration limit it was given, and takes for each segment at least the time asked and at least the time its nominal rate needs; the reported duration matches the segments. Way points return the angles, rates and durations stored in them, and inadmissible requests are refused without touching foreign memory; a trajectory can be emptied and interpolated again without keeping memory.",
  ["inputs"], "all numbers of joints and way points, rates, durations and limits of moderate size",
  "The tests build one trajectory and print it.",
  ["ecl_manipulators/include/ecl/manipulators/trajectory.hpp","ecl_manipulators/src/lib/trajectory.cpp","ecl_manipulators/include/ecl/manipulators/waypoint.hpp","ecl_manipulators/src/lib/waypoint.cpp"],
  "Trajectory<JointAngles> lays quintic ends and splines through the way points.",
  "operator(), derivative, dderivative sampled over the trajectory")
p("C34", "Differential drive kinematics agree with the rolling wheel geometry",
  "Wheel rates and body velocities convert into each other as the wheel radius and axle length dictate and the two conversions are inverse; the pose increment for any wheel or body motion is the distance travelled straight ahead and the change of heading wrapped to one turn, for straight motion, turning on the spot and driving backwards alike, so that increments add up and, taken finely enough, compose to the exact circular arc. The difference of two poses gives back the distance between them, signed by whether it lies ahead or behind, and the wrapped turn.",
  ["inputs", "histories"], "all wheel geometries, wheel increments and their sequences",
  "One test checks one pair of poses.",
  ["ecl_mobile_robot/include/ecl/mobile_robot/kinematics/differential_drive.hpp","ecl_mobile_robot/src/lib/differential_drive.cpp"],
  "DifferentialDriveKinematics::forward/inverse/Base* functions.",
  "returned poses and velocities against long double arc geometry")
p("C35", "Interpolated rigid transforms and matrix output are faithful",
  "Interpolating between two rigid transforms returns the first at zero, the second at one, and in between a rigid transform on the path its kind promises: a steady screw motion, a steady motion within their common plane, or a straight slide of the position while the orientation turns evenly; transforms without a common plane are refused by the planar kind. Planar poses survive the trip through spatial transforms. A spatial transform is streamed as its position and orientation, a planar one as the steady motion that leads to it. Matrix and transform formatters print every entry with the width and precision asked, settings given for one use last for one use, and a formatter with nothing to print is refused.",
  ["inputs"], "all pairs of rigid transforms, parameters in between, and matrices",
  "The tests print one interpolation.",
  ["ecl_linear_algebra/include/ecl/linear_algebra/sophus/interpolators.hpp","ecl_linear_algebra/src/lib/sophus_interpolators.cpp","ecl_linear_algebra/include/ecl/linear_algebra/sophus/helpers.hpp","ecl_linear_algebra/src/lib/sophus_helpers.cpp","ecl_linear_algebra/include/ecl/linear_algebra/eigen/formatters.hpp","ecl_linear_algebra/include/ecl/linear_algebra/eigen/plugin.hpp","ecl_linear_algebra/include/ecl/linear_algebra/sophus/formatters.hpp"],
  "Exponential/logarithm interpolation; an Eigen plugin; Format specialisations.",
  "returned transforms and printed text")
p("C36", "Path resolution returns the real path or a failure, never garbage",
  "Resolving a path yields the absolute canonical path of the existing file it leads to, through any links, dots and repeated separators; a path that leads nowhere or cannot be followed is reported as an error and leaves nothing of undefined content. No resolution leaks or touches memory it does not own.",
  ["inputs", "fault_sequences"], "all path texts over all directory layouts, including loops, dangling links, missing and forbidden parts",
  "The test resolves one path and only prints it.",
  ["ecl_filesystem/include/ecl/filesystem/realpath.hpp","ecl_filesystem/src/lib/realpath.cpp"],
  "Wraps realpath(3) around a heap buffer.",
  "result and error against realpath(3), AddressSanitizer/LeakSanitizer")
p("C37", "Exceptions carry their cause to whoever catches them",
  "An exception caught anywhere, by value or base, after any number of copies and rethrows, still tells the flag, message and data it was raised with and every location it passed, in order; its text contains all of them. A failing system call behind files, serial lines, sockets, semaphores, shared memory, threads, mutexes, priorities, sleeps and time stamps is told with the flag that belongs to its error number (unknown numbers as UnknownError, or PosixError for locking a mutex), the same whether it is thrown or, in a release build, reported by error(); every failure of the same call of the library is told with the same location, the place in the library where it was noticed, and names the file or port where one was given. The macros throw exactly what they are given: ecl_throw always, ecl_debug_throw and ecl_assert_throw (when its condition does not hold) only in debug builds. Nothing is left behind: no memory, no descriptors.",
  ["inputs", "histories"], "all flags, messages, data and rethrow chains",
  "Exceptions have no tests.",
  ["ecl_exceptions/include/ecl/exceptions/standard_exception.hpp","ecl_exceptions/src/lib/standard_exception.cpp","ecl_exceptions/include/ecl/exceptions/data_exception.hpp","ecl_exceptions/include/ecl/exceptions/posix_error_handler.hpp","ecl_devices/src/lib/detail/exception_handler_pos.cpp"],
  "StandardException/DataException compose a text at construction.",
  "flag(), message(), data(), what()")
p("C38", "Unrelated objects used by different threads do not disturb each other",
  "Threads that share no object may use the library at the same time without affecting each other's results and without data races: containers, converters, streams, formatters, devices, time tools, geometry and statistics objects, each private to its thread, give every thread the results it would get alone.",
  ["schedules"], "all mixes of library operations on thread-private objects, from any number of threads",
  "No test uses two threads on anything but mutexes and threads themselves.",
  ["ecl_formatters/include/ecl/formatters/number.hpp","ecl_formatters/include/ecl/formatters/floats.hpp","ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp","ecl_converters/include/ecl/converters/char_strings.hpp","ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp","ecl_sigslots/include/ecl/sigslots/manager.hpp"],
  "Function-local and class static variables are the only shared state.",
  "per-thread results against single-threaded results; ThreadSanitizer")
p("C39", "Text streams on live connections open what is named and carry values across",
  "A stream made for a socket, a serial port, a file, a shared file or a log opens, when it is constructed with a name, exactly that device with the settings given (or the documented defaults), and a stream made without one is closed until its device is opened. A device that cannot be opened is told by the constructor, by exception or by the failed state, and holds nothing back; a stream whose device is closed refuses to be used in debug builds. Whatever values of the supported types one end writes, separated by blanks or line ends, the other end reads as the same values in the same order, also over the standard streams and also when the text arrives in pieces; text written reaches a peer in the conventional notation. When the peer is gone and nothing is left, reading fails and leaves the variable alone.",
  ["inputs", "schedules", "histories"], "all sequences of values, all timings of arrival, all serial settings, refusals of every stream class",
  "No test opens a socket or serial stream; arrival in pieces depends on timing.",
  ["ecl_streams/include/ecl/streams/socket_streams.hpp","ecl_streams/include/ecl/streams/serial_stream.hpp","ecl_streams/include/ecl/streams/console_streams.hpp","ecl_streams/include/ecl/streams/file_streams.hpp","ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp"],
  "Stream classes open their device in the constructor and record its error; input operators read their device byte by byte.",
  "fail(), errorStatus(), device(), values and text at the other end")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    assert len(q["title"]) <= 80, q["id"]
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing", q["id"], f)
with open(here + "/properties.jsonl", "w") as o:
    for q in P: o.write(json.dumps(q) + "\n")
print(len(P), "properties")
