from prophelp import prop
P = prop("C03", "The prefetcher hands on every source once, in order, with its properties",
 "Whatever the schedule of producer, worker threads and output thread, the prefetcher passes every received source exactly once to the next stage, in the order received and with all requested properties computed, every process signal exactly once and after all the sources received before it; it never holds more sources than its queue limit, synchronize returns only when everything received was passed on, a failing worker is reported by synchronize, and nothing blocks forever.",
 ["schedules", "histories"], "All interleavings of producer, workers and output thread; all sequences of sources, signals and synchronisations",
 "Order and completeness depend on the interleaving of three kinds of threads and on memory addresses being reused; a test sees one schedule and cannot force the window.",
 ["SEImplementation/SEImplementation/Prefetcher/Prefetcher.h", "SEImplementation/src/lib/Prefetcher/Prefetcher.cpp"],
 [("output loop", "Prefetcher::outputLoop"), ("queue semaphore", "Prefetcher::receiveSource")],
 ["PipelineReceiver::receiveSource of the next stage", "Prefetcher::synchronize", "Prefetcher::wait"])
TECHNIQUE = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler with virtual time, with race, use-after-free and deadlock detection"
NOTE = "Up to 4 events, 1-2 workers, 1-2 preemptions (thorough: one more); thread pool and semaphore are stand-ins with the documented behaviour. One known finding: a full queue after a worker failure blocks the producer."
