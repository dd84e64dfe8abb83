LEVEL = 'model_checking'
RULE = ('every cut of up to 7 (8) sources into groups and every order in which the groups finish; every history of 6 (7) additions, removals and notifications of three observers; every labelling script of up to 5 (6) '
        'sources, signals and progress reports through every pair of partition steps; every schedule of threads that report progress; non-trivial: groups finish out of order, something is delivered')
BOUNDS = {'quick': '7 sources, 6 operations, scripts of 5, 2 preemptions', 'thorough': '8 sources, 7 operations, scripts of 6, 3 preemptions'}
ASSUMPTIONS = ['the identifiers of a group are consecutive, as they are given when the group is received']
PROGRAMS = [dict(name='O01', harness=['O01/order.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEMain/src/lib/Sorter.cpp', 'SEFramework/src/lib/Pipeline/*.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Property/*.cpp', 'SEFramework/src/lib/Frame/*.cpp', 'SEFramework/src/lib/Image/*.cpp', 'SEFramework/src/lib/Task/*.cpp']),
            dict(name='O01t', harness=['O01/progress.cpp'], kit=['vkmain.cpp', 'mc.cpp'], flags='-fsanitize=thread', kflags='-DVK_NO_RLIMIT', opt='-O1', hopt='-O1',
                 ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lboost_thread -lboost_system -ldl',
                 sources=['SEMain/src/lib/ProgressMediator.cpp', 'SEFramework/src/lib/Property/*.cpp', 'SEFramework/src/lib/Source/*.cpp'])]
