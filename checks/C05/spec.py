LEVEL = 'model_checking'
RULE = ('every schedule up to the preemption bound of 2 or 3 threads running the real code under the controlled scheduler; each execution checked for wrong results, overlapping planner calls, data races, use after free and deadlock; '
        'non-trivial: a distinct order of creation or of identifiers')
BOUNDS = {'quick': '3 preemptions for plans and tasks; 2 with three threads, for convolutions and for identifiers', 'thorough': 'one more'}
ASSUMPTIONS = ['sequentially consistent memory between synchronisation operations', 'FFTW itself: only the planner is not thread safe (its documentation)']
PROGRAMS = [dict(name='C05', harness=['C05/shared.cpp'], kit=['vkmain.cpp', 'mc.cpp'], flags='-fsanitize=thread', kflags='-DVK_NO_RLIMIT',
                 opt='-O1', hopt='-O1', ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lboost_thread -lboost_system -lfftw3 -lfftw3f -ldl',
                 sources=['SEFramework/src/lib/FFT/FFT.cpp', 'SEFramework/src/lib/Image/*.cpp', 'SEFramework/src/lib/Property/*.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Task/*.cpp',
                          'SEImplementation/src/lib/Plugin/GroupInfo/GroupInfoTask.cpp'])]
