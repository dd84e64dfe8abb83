_P = 'SEImplementation/src/lib/Plugin/'
LEVEL = 'exploration'
RULE = ('every combination of six flag values over footprints of up to l pixels in two places and two frames x five ways to combine them; flag images of nine sizes; every catalogue of up to three entries at seven positions around the source (inside, on the edge, outside) with three weights x eight association modes; catalogues of 99 to 400 entries in four orders and three layouts x queries x radii; '
        'non-trivial: flags differ, or an entry is inside of the radius')
BOUNDS = {'quick': 'l = 4, nine queries', 'thorough': 'l = 5, 25 queries, two columns for the catalogues of three'}
ASSUMPTIONS = ['an entry exactly on the radius does not match', 'among equally frequent flags, equally near entries or equal weights any may be taken']
PROGRAMS = [dict(name='M05', harness=['M05/assoc.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Property/PropertyHolder.cpp', 'SEFramework/src/lib/Property/PropertyId.cpp', 'SEFramework/src/lib/Source/SimpleSource.cpp', 'SEFramework/src/lib/Image/*.cpp',
                          _P + 'AssocMode/AssocModeTask.cpp', _P + 'AssocMode/AssocModePartitionStep.cpp', _P + 'ExternalFlag/ExternalFlagTask.cpp'])]
