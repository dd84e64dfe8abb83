from prophelp import prop
P = prop('C07', 'The catalogue of the whole pipeline does not depend on threads or schedule',
 'With the stages put together as the program does (labelling, partition, prefetching, grouping, deblending, measurement, sorting, buffered output, progress), for every number of worker threads, every order in which they run, every queue and flush size, the catalogue has exactly the rows that one thread gives, in the same order when sorted, with the same identifiers and values. Every frame ends with its rows in its own part, the progress counters end at the exact totals, and the program ends.',
 ['schedules', 'programs'],
 'Composes the real stages like the main program, executes every schedule up to the preemption bound with 1 and 2 workers on small frames, and every frame of up to 4 entries without threads, against a direct computation of the catalogue.',
 'The tests never build the pipeline, and a defect in the way two stages are synchronised shows only in a few of the schedules.',
 ['SEMain/src/program/SourceXtractor.cpp', 'SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp', 'SEImplementation/src/lib/Prefetcher/Prefetcher.cpp', 'SEFramework/src/lib/Pipeline/SourceGrouping.cpp', 'SEMain/src/lib/Sorter.cpp', 'SEImplementation/SEImplementation/Output/FlushableOutput.h'],
 [('MultithreadedMeasurement', 'SEImplementation/SEImplementation/Measurement/MultithreadedMeasurement.h'), ('Prefetcher', 'SEImplementation/SEImplementation/Prefetcher/Prefetcher.h'), ('SourceGrouping', 'SEFramework/SEFramework/Pipeline/SourceGrouping.h'), ('FlushableOutput', 'SEImplementation/SEImplementation/Output/FlushableOutput.h')],
 ['rows of the catalogue', 'parts', 'progress', 'deadlocks, races and crashes'], None)
TECHNIQUE = 'stateless model checking of the composed real pipeline: all schedules up to a preemption bound under a controlled scheduler, all short frames, against a direct computation'
NOTE = 'The thread pool is a stand-in for the Alexandria one; small frames, at most 2 workers.'
