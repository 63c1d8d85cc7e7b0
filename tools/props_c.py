prop("C12", "The small vector is a sequence, in its inline buffer and beyond",
     "After any series of insertions, removals, resizes, assignments, copies, moves and swaps, a small vector holds exactly the sequence of values those operations define, whether its elements sit in the inline buffer or on the heap and whatever the element type. Every element is constructed once and destroyed once. (Arguments are not elements of the vector being changed.)",
     ["histories", "inputs"], "every history of operations on several vectors, every element type and inline capacity",
     "all particle data lives in it, but the tests only ever fill it once and read it",
     ["src/small-vector.hpp", "src/IO.hpp"], [("modifiers", "SmallVectorImpl::insert, erase, append, assign, resize, swap, operator="), ("growth", "grow, grow_pod")],
     TLC + "histories of the real vector, with tracked and plain elements, validated against the sequence spec",
     "random histories of 15-40 operations on three vectors; element lifetimes tracked; address sanitizer on")
prop("C15", "Parallel loops do every piece of work exactly once",
     "A parallel loop over a range hands out every index exactly once, for every range length and thread number; a parallel call runs the job once per thread, with every index when indexed. Each run sees its own intact copy of the job and its arguments. The call returns only when all runs have finished.",
     ["schedules", "inputs"], "every range length, thread number, kind of job and arguments, and interleaving",
     "no test calls them; a remainder is only lost for some lengths, moved-from arguments only show in the second thread",
     ["src/multi-thread/multi-thread.hpp"], [("loops", "multi_threads_loop, multi_thread, indexed_multi_thread, auto_multi_thread, auto_indexed_multi_thread")],
     TLC + "runs of the real loops under enumerated thread schedules validated against the spec",
     "a controlled scheduler enumerates interleavings with up to 3 preemptions, then samples")
prop("C16", "Files and pipes shared by threads transfer whole records, once, in order",
     "Records written by several threads to a shared file or through an asynchronous stream all end up in the file by the time it is closed, each once and unbroken, in an order that respects writes that did not overlap. Records read by several threads are handed out once each, in order, and the end is reported exactly when none is left. No schedule makes an operation or the closing of a stream hang.",
     ["schedules", "histories"], "every interleaving of writers, readers, the stream's own thread and its construction and destruction",
     "no test uses them; the failures need a particular interleaving, e.g. the stream's thread running before its construction ends",
     ["src/multi-thread/multi-thread.hpp", "src/multi-thread/ciostream.hpp"], [("shared file", "ConcurrentFile, operator<<, operator>>, execute"), ("pipes", "Opip, Ipip, Costream, Cistream")],
     TLC + "the waiting discipline model checked; runs of the real code under enumerated schedules validated against an atomic queue spec",
     "a controlled scheduler enumerates interleavings with up to 2 or 3 preemptions, then samples; fresh memory is filled with garbage")
prop("C17", "The thread pool runs every task once; the concurrent deque is a deque",
     "A committed task runs exactly once, on one of the pool's workers, in the order of commits, and its result or exception reaches the committer; a full queue refuses and works again later; the program's end stops the pool, without running anything afterwards and without hanging. Every operation on the concurrent deque takes effect at one moment between call and return; a pop waits while the deque is empty and gives up once it is stopped.",
     ["schedules", "histories"], "every interleaving of committers, workers, and the end of the program",
     "no test uses them; a lost wakeup needs one particular interleaving at exit",
     ["src/multi-thread/thread_pool.h", "src/multi-thread/concurrent-queue.h"], [("pool", "ThreadPool::commit, ThreadPool(), ~ThreadPool"), ("deque", "ConcurrentDeque::emplace_back, emplace_front, try_pop_front, try_pop_back, stop")],
     TLC + "the waiting discipline model checked; runs of the real code under enumerated schedules validated against the pool spec and by linearisation",
     "a controlled scheduler enumerates interleavings with up to 2 or 3 preemptions, then samples; two workers")
prop("C27", "Error estimates and the step controller compute the ratios they define",
     "The error estimators return the largest weighted difference, the largest difference over the largest weight, or the root mean square of weighted differences, where a weight is the absolute tolerance plus the relative tolerance times the size of the values. The step controller turns an error into the step factor S1 (S2/error)^(1/order), with the proportional and integral exponents for a pair of errors, returns its upper limit for no error, and clamps to the limits it was given.",
     ["inputs"], "all values, tolerances, orders, safety factors and limits",
     "every adaptive method depends on them, but a wrong weight or exponent only changes how many steps a regression run takes",
     ["src/ode-iterator/error-checker/worst-offender.hpp", "src/ode-iterator/error-checker/RMS.hpp", "src/ode-iterator/error-checker/max-ratio-error.hpp", "src/ode-iterator/step-controller/PID-controller.hpp"],
     [("estimators", "WorstOffender::error, RMS::error, MaxRatioError::error"), ("controller", "PIDController::next, next_with_limiter, limiter, set_limiter, set_safe_guards, set_PID_coefficients")],
     TLC + "results of the real estimators and controller on exactly representable inputs validated against the definitions in the spec",
     "exact rational comparison; laws of the definitions checked over small domains")
