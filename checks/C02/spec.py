LEVEL = 'model_checking'
RULE = ('every schedule, up to the preemption bound, of 2 or 3 threads running the real TileManager/BufferedImage under the controlled scheduler (every mutex, shared-mutex, condition '
        'and thread operation and every step of the image source is a choice point); each execution is checked for right pixels, overlapping loads of one source, repeated loads, data '
        'races, use after free and deadlock; non-trivial: a distinct order of loads')
BOUNDS = {'quick': '2 preemptions (3 threads, evictions by memory limit: 1; same tile: 3), tiles of 2x2 and 256x256 pixels, up to 3 images',
          'thorough': 'one preemption more'}
ASSUMPTIONS = ['setOptions is called before the threads start (documented)', 'sequentially consistent memory between synchronisation operations']
PROGRAMS = [dict(name='C02', harness=['C02/writers.cpp'], kit=['vkmain.cpp', 'mc.cpp'], flags='-fsanitize=thread', kflags='-DVK_NO_RLIMIT',
                 opt='-O1', hopt='-O1', ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lboost_thread -lboost_system -ldl',
                 sources=['SEFramework/src/lib/Image/*.cpp'])]
