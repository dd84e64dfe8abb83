LEVEL = 'model_checking'
RULE = ('every symmetric relation among up to n sources x every hard limit x every moment and selection of one early processing signal, arrivals in order; every assignment of identifiers; '
        'every pair of rectangles; non-trivial: some group has two sources')
BOUNDS = {'quick': 'n = 6 (all 32768 relations; early processing with a hard limit: n = 4), identifiers of 5 sources out of 3 values, rectangles in 4x4', 'thorough': 'early processing with every hard limit for n = 6, 6 sources, rectangles in 5x5'}
ASSUMPTIONS = ['the grouping criterion is symmetric and does not change', 'Moffat grouping: the range covers all sources (the range query itself: G01)']
PROGRAMS = [dict(name='S03', harness=['S03/grouping.cpp'], opt='-O1', hopt='-O1',  flags='-D_GLIBCXX_ASSERTIONS', ldflags='-lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Property/PropertyHolder.cpp', 'SEFramework/src/lib/Property/PropertyId.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Task/*.cpp',
                          'SEFramework/src/lib/Pipeline/SourceGrouping.cpp', 'SEImplementation/src/lib/Grouping/AssocCriteria.cpp', 'SEImplementation/src/lib/Grouping/AssocGrouping.cpp',
                          'SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp', 'SEImplementation/src/lib/Grouping/MoffatGrouping.cpp', 'SEImplementation/src/lib/Grouping/OverlappingBoundariesCriteria.cpp',
                          'SEImplementation/src/lib/Grouping/SplitSourcesCriteria.cpp', 'SEImplementation/src/lib/Grouping/SplitSourcesGrouping.cpp'])]
