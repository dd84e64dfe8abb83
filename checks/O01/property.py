from prophelp import prop
P = prop('O01', 'Pipeline stages pass everything on once, in order; progress is exact',
 'For every way sources form groups and every order in which groups finish, the sorted output receives each source exactly once in the order of the segmentation, as soon as all earlier ones are there, and process signals pass at once; labelling, partition and deblending stages pass on every source they are given (unless a step removes it), with its detection frame, to the observers and the next stage in order, and signals in their place. Progress counters reported by any threads never go backwards, lose or tear an event, and end at the exact totals.',
 ['histories', 'schedules'],
 'Runs the real stages on every cut of sources into groups and every permutation of their arrival, every labelling script, every history of observers, and the progress counters under every schedule within the preemption bound.',
 'No unit test covers the sorter or the progress counters; the number of arrival orders and interleavings is factorial.',
 ['SEMain/src/lib/Sorter.cpp', 'SEFramework/SEFramework/Pipeline/PipelineStage.h', 'SEFramework/SEFramework/Pipeline/Segmentation.h', 'SEFramework/src/lib/Pipeline/Partition.cpp', 'SEFramework/src/lib/Pipeline/Deblending.cpp', 'SEUtils/SEUtils/Observable.h', 'SEMain/src/lib/ProgressMediator.cpp'],
 [('Sorter', 'SEMain/SEMain/Sorter.h'), ('PipelineEmitter', 'SEFramework/SEFramework/Pipeline/PipelineStage.h'), ('Observable', 'SEUtils/SEUtils/Observable.h'), ('ProgressMediator', 'SEMain/SEMain/ProgressMediator.h')],
 ['order of rows of the catalogue', 'progress reports'], None)
TECHNIQUE = 'exhaustive bounded exploration of the real implementation: arrival orders, scripts and observer histories; all interleavings of the progress counters within the preemption bound (controlled scheduler)'
NOTE = 'Identifiers of a group are consecutive.'
