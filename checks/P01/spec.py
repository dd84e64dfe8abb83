LEVEL = 'model_checking'
RULE = ('every history of the stated length over the operations of a property holder, a source, a group with computed properties and a plain group, against a model of what each object answers and how often each task runs; '
        'every pair and triple of 12 property identifiers; non-trivial: something was set or computed')
BOUNDS = {'quick': 'holder: 6 operations of 7; source: 5 of 11; group: 6 of 13 (the first adds a source); plain group: 6 of 6', 'thorough': 'one operation more each (plain group: 8)'}
ASSUMPTIONS = ['one thread uses a source or group at a time', 'tasks only read properties and set their own']
def program(name, **k): return dict(name=name, harness=['P01/props.cpp'], **k,
                 sources=['SEFramework/src/lib/Property/PropertyHolder.cpp', 'SEFramework/src/lib/Property/PropertyId.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Task/*.cpp'])
PROGRAMS = [program('P01', opt='-O1', hopt='-O1', ldflags='-lboost_thread -lboost_system'),
            program('P01a', opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS -DSHORTER=1', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system')]
