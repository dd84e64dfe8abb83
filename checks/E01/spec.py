LEVEL = 'model_checking'
RULE = 'every sequence of up to d operations out of 21 (set, read, observe or stop observing each node, create or destroy each optional node), re-executed from the start, checked at its end; every converter with limits from a set on grids'
BOUNDS = {'quick': 'd = 5', 'thorough': 'd = 6'}
ASSUMPTIONS = ['observers do not add or remove observers of the parameter that notifies them', 'calculators are pure functions']
PROGRAMS = [dict(name='E01', harness=['E01/params.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address', kflags='-DVK_NO_RLIMIT', ldflags='-fsanitize=address', sources=['ModelFitting/src/lib/Parameters/*.cpp'], env={'ASAN_OPTIONS': 'detect_leaks=0'})]
