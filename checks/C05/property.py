from prophelp import prop
P = prop("C05", "Services shared by the measurement threads are safe under any schedule",
 "For every schedule of up to three threads: the transform planner is never entered by two threads, each plan is made once and everyone gets the plan of the size, direction and precision asked for; convolutions with one kernel do not disturb one another; each property has one task, made once; source, catalogue and group identifiers are never given twice; nothing is accessed by two threads without order, and nothing deadlocks.",
 ["schedules"], "All schedules up to the preemption bound",
 "Two sources must reach a service for the first time within a few instructions of each other.",
 ["SEFramework/src/lib/FFT/FFT.cpp", "SEFramework/SEFramework/Convolution/DFT.h", "SEFramework/src/lib/Task/TaskProvider.cpp", "SEImplementation/SEImplementation/Property/SourceId.h", "SEImplementation/SEImplementation/Plugin/SourceIDs/SourceIDTask.h", "SEImplementation/src/lib/Plugin/GroupInfo/GroupInfoTask.cpp"],
 [("FFT plan cache", "FFT.cpp"), ("TaskProvider::getTask", "TaskProvider.cpp"), ("getNewId", "SourceId.h")],
 ["plans, convolved pixels, tasks and identifiers obtained"])
TECHNIQUE = "stateless model checking of the real code under a controlled scheduler, preemption bounded, with race detection"
NOTE = "2-4 preemptions, 2-3 threads; the planner of FFTW is a stand-in that records how it is called."
