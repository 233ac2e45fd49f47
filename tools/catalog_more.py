prop("P06", "Persistent collectives can be reused, mixed and freed in any order",
     "A persistent collective can be started and completed any number of times, each time on the data then in its buffers, and any number of them, on the "
     "same or on different communicators, can exist and be outstanding at once without affecting each other. Freeing one leaves all others, and those "
     "created later, fully working.",
     ["histories", "inputs", "schedules"],
     "All histories of create, start, complete and free over any number of collectives and communicators, created, started and freed in an order common to all ranks and completed in any order.",
     T1 + "It holds one request at a time; overlapping, interleaved and freed requests, and more than a handful of them, are never exercised.",
     ["src/mpi/ext_mpi_interface.c", "src/mpi/hash_table.c", "src/mpi/ext_mpi_native.c", "src/mpi/shmem.c"],
     [IFACE, {"name": "table of handles, which grows", "where": "src/mpi/ext_mpi_native.c get_handle"}, {"name": "request table", "where": "src/mpi/hash_table.c"},
      {"name": "barrier counters and shared segments shared between collectives", "where": "src/mpi/shmem.c"}],
     ["receive buffers after every completion of the history"], state="handle table, request table, barrier counters, alternating code of a handle",
     technique="model-based (stateful) property-based testing (Hypothesis) of whole-library histories on a deterministic MPI simulator",
     note=SIMNOTE % "up to 6 ranks, 4 requests and 12 steps per history, or 48 to 140 simultaneous requests")
prop("P07", "Completion calls treat persistent collectives as MPI requests",
     "Wait, Test and their all, any and some forms, applied to any mixture of persistent collectives, ordinary requests, inactive and null requests, report a "
     "collective complete exactly once per start and only when its result is in place, and keep its handle. They pass over inactive ones, return the "
     "statuses and handles of ordinary requests as plain MPI does, and the polling forms eventually report completion.",
     ["histories", "schedules", "inputs"],
     "All arrays of requests, completion calls, polling orders and interleavings of ranks.",
     T1 + "It completes every start by one wait on one request; no test polls, or mixes collectives with other requests.",
     ["src/mpi/ext_mpi_interface.c", "src/mpi/hash_table.c", "src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi_native_exec.c"],
     [IFACE, {"name": "resumable execution when polled", "where": "src/mpi/ext_mpi_native_exec.c"}],
     ["flags, indices, statuses, handles and buffers returned by every completion call"], state="active and inactive requests",
     technique="model-based (stateful) property-based testing (Hypothesis) of whole-library histories on a deterministic MPI simulator",
     note=SIMNOTE % "up to 6 ranks, 5 requests and 12 steps per history, every completion call")
prop("P10", "Schedules are free of data races and always terminate",
     "While persistent collectives run, two ranks never access the same byte of node-shared memory, one of them writing, without one access being ordered "
     "after the other by a barrier or a message, also across repeated starts. Every started collective completes under every fair interleaving of the ranks "
     "and every delivery order of messages that MPI allows.",
     ["schedules", "configurations", "histories"],
     "All interleavings of ranks, message delays and buffering choices, machine layouts, collectives and sequences of starts.",
     T1 + "A missing barrier only shows under timings that a quiet test machine rarely produces.",
     ["src/core/no_first_barrier.c", "src/core/no_socket_barriers.c", "src/core/optimise_buffers2.c", "src/mpi/ext_mpi_native_exec.c", "src/mpi/shmem.c"],
     [EXEC, {"name": "insertion and removal of barriers", "where": "src/core/no_first_barrier.c, src/core/no_socket_barriers.c, src/core/reduce_copyin.c"},
      {"name": "two shared segments used in turn", "where": "src/mpi/ext_mpi_native.c"}],
     ["accesses to shared memory with their happens-before order", "completion of every start"], state="shared segments, barrier counters, messages in flight",
     technique="property-based testing (Hypothesis) of schedules with a vector-clock race monitor on a deterministic MPI simulator",
     note=SIMNOTE % "up to 9 to 13 ranks, up to 6 consecutive starts, sequentially consistent interleavings at instruction granularity")
prop("P09", "User memory is touched only as MPI allows",
     "Creating a persistent collective writes no byte of the caller's buffers; running it changes nothing but the receive buffer's result, and neither reads nor writes beyond "
     "the extents given. Between completion and the next start, and after the release, no user byte is touched, argument arrays may be changed once creation returns, and "
     "arguments that are significant at the root only are ignored elsewhere.",
     ["inputs", "configurations", "histories"],
     "All collectives, roots, counts including zero, alignments of the buffers, with and without the built-in check at creation.",
     T1 + "It compares results only; bytes around them and the buffers' contents before the first start are not looked at.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_debug.c", "src/mpi/ext_mpi_native.c", "src/core/use_sendbuf_recvbuf.c", "src/mpi/cost_copyin_measurement.c"],
     [INIT, EXEC, {"name": "built-in check and measurement at creation", "where": "src/mpi/ext_mpi_debug.c, src/mpi/cost_copyin_measurement.c"},
      {"name": "direct use of the user's buffers", "where": "src/core/use_sendbuf_recvbuf.c, src/core/use_recvbuf.c"}],
     ["every byte of guarded user buffers"], state="user buffers before creation, while active, idle and after release", technique=SIMTECH,
     note=SIMNOTE % "up to 10 (quick) or 14 (thorough) ranks, up to two collectives, buffers against unmapped pages")
prop("P11", "Tuning parameters never change results",
     "Every valid setting of the documented parameters, given by environment variable or info object, alone or combined, leaves the results of all collectives exactly as "
     "specified. Collectives with different info settings can coexist.",
     ["configurations", "inputs", "schedules"],
     "All combinations of sockets per node, tasks per socket, port lists, copy-in factors, alternating, recursive and verbose settings, minimum computation, on all layouts.",
     T1 + "All parameters keep their defaults in it, and the stage tests use one parameter block each.",
     ["src/mpi/ext_mpi.c", "src/mpi/num_ports_factors.c", "src/core/ports_groups.c", "src/mpi/messages_shared_memory.c", "src/core/recursive_factors.c"],
     [PARAM, {"name": "port lists and copy-in factors from text", "where": "src/core/ports_groups.c, src/mpi/num_ports_factors.c"},
      {"name": "exchange between sockets of a node through shared memory", "where": "src/mpi/messages_shared_memory.c"}],
     ["receive buffers after completion"], technique=SIMTECH,
     note=SIMNOTE % "up to 20 ranks, parameter values the library itself could choose")
prop("P12", "Floating-point results are reproducible",
     "Starting a persistent reduction again on the same data gives the same bits, whatever the timing of ranks, messages and completion calls. When the in-node method is "
     "prescribed, this also holds between collectives with the same arguments and between runs; when bit-identical results are requested, all ranks of an allreduce get the same bits.",
     ["schedules", "histories", "inputs"],
     "All timings, sequences of starts, layouts, port lists and prescribed copy-in methods, for float and double data whose sums are inexact.",
     T1 + "Its data sum exactly in every order, so the order of additions is never visible.",
     ["src/core/reduce_copyin.c", "src/mpi/ext_mpi_native_exec.c", "src/core/waitany.c", "src/mpi/cost_copyin_measurement.c", "src/core/raw_code.c"],
     [EXEC, COPY, {"name": "choice of the in-node reduction order", "where": "src/mpi/cost_copyin_measurement.c"}],
     ["bits of the results of repeated starts"], state="persistent schedule", 
     technique="metamorphic property-based testing (Hypothesis) of repeated starts and repeated runs on a deterministic MPI simulator",
     note=SIMNOTE % "up to 36 ranks, two to five starts, two runs; bit-identical results across ranks are searched where the library provides them (one node, or every element reduced at one place), the rest is a known finding")
prop("P08", "Blocking collectives give the standard results",
     "With blocking mode switched on, blocking allreduce, allgather and reduce_scatter_block calls return with exactly the standard results in the receive buffers, whatever "
     "the count, including zero, the type, the alignment and in-place use. This holds for every call of any sequence, on the world and on communicators duplicated, split or "
     "created since, together with persistent collectives and with releases of communicators.",
     ["histories", "inputs", "configurations", "schedules"],
     "All sequences of blocking calls, communicator creations and releases and persistent collectives, all counts, types, layouts and interleavings.",
     T1 + "No test switches blocking mode on.",
     ["src/mpi/ext_mpi_interface.c", "src/mpi/ext_mpi_native_blocking.c", "src/mpi/ext_mpi_blocking.c", "src/mpi/hash_table_blocking.c", "src/mpi/shmem_blocking.c",
      "src/core/padding_factors.c", "src/mpi/ext_mpi_native_exec.c"],
     [{"name": "tables of prepared schedules per communicator, chosen by message size", "where": "src/mpi/ext_mpi_native_blocking.c, src/mpi/ext_mpi_blocking.c"},
      {"name": "padded counts and in-place adjustment of a schedule to a message size", "where": "src/core/padding_factors.c, src/mpi/ext_mpi_native_exec.c"},
      {"name": "interception of communicator creation and release", "where": "src/mpi/ext_mpi_interface.c"}],
     ["receive buffers when the call returns"], state="prepared schedules, shared segments and barrier counters of each communicator",
     technique="model-based (stateful) property-based testing (Hypothesis) of whole-library histories on a deterministic MPI simulator",
     note=SIMNOTE % "up to 6 (quick) or 8 (thorough) ranks, up to two further communicators and 16 steps, counts up to 40000")
prop("P13", "Releasing returns everything that was taken",
     "Creating, using and freeing collectives and communicators any number of times keeps no more memory, communicators, requests, shared segments or pending messages than doing it once. "
     "After the program has freed its objects and called MPI_Finalize nothing of it is left.",
     ["histories", "configurations"],
     "All histories of create, run and free, repeated any number of times, with all kinds and parameters.",
     T1 + "It ends after a few collectives and looks at no resource.",
     ["src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi.c", "src/mpi/ext_mpi_interface.c", "src/mpi/hash_table.c", "src/mpi/shmem.c", "src/core/read_write.c"],
     [{"name": "release of a handle", "where": "src/mpi/ext_mpi_native.c ext_mpi_done_native"}, IFACE, {"name": "shared segments and their communicators", "where": "src/mpi/shmem.c"}],
     ["live heap blocks, communicators, requests, shared segments and unmatched messages per rank"], state="everything the library allocates",
     technique="metamorphic property-based testing (Hypothesis): resources after n rounds of a history against those after one, on a deterministic MPI simulator",
     note=SIMNOTE % "up to 6 ranks, up to 30 rounds; in blocking mode heap blocks and shared segments are compared between rounds only, because its tables live until the process ends")
prop("P14", "The handle interface works like the request interface",
     "Collectives created through the library's own integer handles can be started, tested, advanced all together, waited for and released in any order common to all ranks, also "
     "next to persistent requests of the standard interface, and give the same results. Advancing everything that is outstanding completes it without any further call, never "
     "disturbs what is idle, and a test reports completion exactly when the result is in place.",
     ["histories", "schedules", "inputs"],
     "All histories of create, start, test, advance, wait and release over handles and requests, all kinds of collectives and interleavings of ranks.",
     T1 + "It uses one handle or request at a time and never advances or tests.",
     ["src/mpi/ext_mpi.c", "src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi_native_exec.c", "include/mpi/ext_mpi_native.h"],
     [{"name": "handles and their table", "where": "src/mpi/ext_mpi_native.c get_handle, EXT_MPI_Progress_native"}, {"name": "creation by handle", "where": "src/mpi/ext_mpi.c"}],
     ["return values of test and advance, receive buffers"], state="handle table, position of every outstanding schedule",
     technique="model-based (stateful) property-based testing (Hypothesis) of whole-library histories on a deterministic MPI simulator",
     note=SIMNOTE % "up to 8 ranks, 3 handles or requests and 12 steps per history")
prop("P15", "The Fortran entry points behave like the C ones",
     "Start-up, allreduce, persistent allreduce, wait, request release and the creation and release of communicators through the Fortran entry points have the effect and the error code of the C calls, "
     "with every Fortran type of the supported sizes and with in-place buffers. They can be mixed freely with C calls.",
     ["histories", "inputs", "configurations"],
     "All histories mixing Fortran and C calls, all supported Fortran types, counts, layouts, in blocking and non-blocking mode.",
     T1 + "No test calls a Fortran entry point.",
     ["src/fortran/ext_mpi_f.c"],
     [{"name": "translation of arguments and types", "where": "src/fortran/ext_mpi_f.c"}],
     ["receive buffers, error codes, handles given back"], state="requests and communicators made through either language",
     technique="model-based (stateful) property-based testing (Hypothesis) of whole-library histories on a deterministic MPI simulator",
     note=SIMNOTE % "up to 8 ranks, 3 requests, 2 communicators and 12 steps per history; the entry points are called with handles by address, as the Fortran 2008 bindings of MPICH do")
prop("P18", "The built-in check accepts right schedules and stops wrong ones",
     "With the check enabled, which is the default, creating a collective of any kind, type, size, root and parameter setting succeeds without complaint. If what arrives at a rank differs from "
     "what the reference operation gives, because a message between nodes was damaged, the program is stopped at creation and not allowed to run with that schedule.",
     ["fault_sequences", "inputs", "configurations"],
     "All collectives, layouts and parameters; every single-bit damage of any message of at least eight bytes exchanged while a collective is created.",
     T1 + "It never sees a wrong schedule, so a check that accepts everything passes it.",
     ["src/mpi/debug_persistent.c", "src/mpi/ext_mpi.c", "src/mpi/ext_mpi_debug.c"],
     [{"name": "comparison with the plain MPI collective at creation", "where": "src/mpi/debug_persistent.c"}],
     ["termination of the program at creation, results of the collectives that were accepted"],
     technique="property-based testing (Hypothesis) with injected message faults on a deterministic MPI simulator",
     note=SIMNOTE % "up to 14 ranks, one flipped bit per run, between nodes only")
prop("P19", "The program's own messages and the library's never meet",
     "Messages the program exchanges itself are received unchanged by the receives it posted for them, also with wildcard source and tag, on any communicator, wherever these lie relative to creating, "
     "starting, completing and freeing collectives. The collectives in turn complete with the right results while such messages are pending.",
     ["histories", "schedules", "configurations"],
     "All placements of posting, sending and completing own messages, with every tag and wildcard, in histories of collectives on any communicator.",
     T1 + "It sends no message of its own.",
     ["src/mpi/forward_interpreter.c", "src/mpi/backward_interpreter.c", "src/mpi/messages_shared_memory.c", "src/mpi/ext_mpi_native.c", "src/mpi/ext_mpi_native_exec.c"],
     [{"name": "private communicator and tags of the data messages", "where": "src/mpi/ext_mpi_native.c"},
      {"name": "messages exchanged while a schedule is made", "where": "src/mpi/forward_interpreter.c, src/mpi/backward_interpreter.c, src/mpi/messages_shared_memory.c"}],
     ["content, source, tag and length of own messages; completion and results of collectives"], state="messages in flight, posted receives",
     technique="model-based (stateful) property-based testing (Hypothesis) of whole-library histories on a deterministic MPI simulator",
     note=SIMNOTE % "up to 9 ranks, three own messages pending per rank")
prop("P90", "Collectives on GPU memory give the standard results",
     "Persistent collectives whose buffers lie in the memory of a GPU give exactly the results of the same collectives on host memory. This holds for every mixture of devices per node.",
     ["inputs", "configurations"], "All collectives on device buffers.",
     "No test of the suite is built with GPU support.",
     ["src/gpu/cuda_core.cu", "src/gpu/hip_core.cpp", "src/gpu/cuda_shmem.c"], [{"name": "device memory and kernels", "where": "src/gpu"}], ["receive buffers"],
     na="The GPU sources need the CUDA or HIP compiler and runtime, or NCCL, none of which is installed, and there is no device to run on: the code cannot be compiled here, so no generated input can reach it.")
