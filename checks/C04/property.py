from prophelp import prop
P = prop("C04", "Multithreaded measurement outputs every group exactly once, fully measured",
 "Whatever the schedule of worker and output threads, every source group given to the multithreaded measurement is passed to the next stage exactly once, after each of its sources was measured exactly once; source identifiers are requested in the order of reception; when synchronizeThreads or stopThreads returns all groups received so far have been output; a failing measurement is reported by them, a failing output asks for termination once; nothing blocks forever or leaks.",
 ["schedules", "histories"], "All interleavings of the main thread, workers and output thread; all sequences of groups, signals and synchronisations",
 "A group is lost or output early only in particular interleavings of the end of input with the last measurement; no test runs the threads.",
 ["SEImplementation/SEImplementation/Measurement/MultithreadedMeasurement.h", "SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp"],
 [("output loop and its end", "MultithreadedMeasurement::outputThreadLoop"), ("stop and synchronize", "MultithreadedMeasurement::stopThreads")],
 ["PipelineReceiver::receiveSource of the next stage", "MultithreadedMeasurement::stopThreads", "MultithreadedMeasurement::synchronizeThreads"])
TECHNIQUE = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler with virtual time, with race, use-after-free and deadlock detection"
NOTE = "Up to 3 groups, 1-2 workers, 1-2 preemptions (thorough: one more); the thread pool is a stand-in with the documented behaviour."
