LEVEL = 'model_checking'
RULE = ('every schedule, up to the preemption bound, of the whole pipeline put together as in the program (labelling, partition, prefetcher, grouping, deblending, measurement threads, sorter, buffered output, progress) '
        'for frames of up to 4 sources; without threads every frame of up to 4 (5) entries; the catalogue, its parts and the progress are those of one thread; non-trivial: a distinct outcome')
BOUNDS = {'quick': '2 frames, up to 4 sources, 1-2 workers, 1 preemption', 'thorough': '2 preemptions'}
ASSUMPTIONS = ['a thread pool with the documented behaviour of Alexandria (stand-in)', 'a timed wait may end at any time', 'sequentially consistent memory between synchronisation operations']
PROGRAMS = [dict(name='C07', harness=['C07/pipeline.cpp'], kit=['vkmain.cpp', 'mc.cpp'], flags='-fsanitize=thread', kflags='-DVK_NO_RLIMIT', opt='-O1', hopt='-O1',
                 ldflags='-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset -lboost_thread -lboost_system -ldl',
                 sources=['SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp', 'SEImplementation/src/lib/Prefetcher/Prefetcher.cpp', 'SEMain/src/lib/Sorter.cpp', 'SEMain/src/lib/ProgressMediator.cpp',
                          'SEFramework/src/lib/Pipeline/*.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Property/*.cpp', 'SEFramework/src/lib/Frame/*.cpp', 'SEFramework/src/lib/Image/*.cpp', 'SEFramework/src/lib/Task/*.cpp'])]
