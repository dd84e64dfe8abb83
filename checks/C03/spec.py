LEVEL = 'model_checking'
RULE = ('every schedule, up to the preemption bound, of producer, worker threads and output thread running the real Prefetcher, for scripts of sources, process signals, synchronisations '
        'and failing sources, with addresses reused at once or never; each execution is checked for order and completeness of delivery, prefetched properties, the queue limit, what '
        'synchronize and wait promise, data races, use after free and deadlock; non-trivial: a distinct outcome')
BOUNDS = {'quick': 'scripts of up to 4 events, 1-2 workers, queue limits 1-3, 1-2 preemptions', 'thorough': 'one preemption more'}
ASSUMPTIONS = ['a thread pool with the documented behaviour of Alexandria (stand-in)', 'a timed wait may end at any time', 'sequentially consistent memory between synchronisation operations']
PROGRAMS = [dict(name='C03', harness=['C03/prefetch.cpp'], kit=['vkmain.cpp', 'mc.cpp'], flags='-fsanitize=thread', kflags='-DVK_NO_RLIMIT',
                 opt='-O1', hopt='-O1', ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lboost_thread -lboost_system -ldl',
                 sources=['SEImplementation/src/lib/Prefetcher/Prefetcher.cpp', 'SEFramework/src/lib/Property/*.cpp'])]
