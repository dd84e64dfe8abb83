LEVEL = 'model_checking'
RULE = ('every image size, tile size, pixel type and region up to the bounds; every history of reads, flushes and option changes up to the stated length; '
        'every tile access history under a memory limit; non-trivial: more than one pixel was read or a tile was loaded')
BOUNDS = {'quick': 'images up to 6x5, tiles 1..4 x 1..4, 5 pixel types, histories of 5 operations out of 12, access histories of 6 over 6 tiles and 4 size sets',
          'thorough': 'images up to 8x6, histories of 6, access histories of 7'}
ASSUMPTIONS = ['a tile larger than the whole limit is dropped at once', 'single thread (schedules: C01)']
PROGRAMS = [dict(name='I02', harness=['I02/tiles.cpp'], opt='-O1', hopt='-O2', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Image/*.cpp'])]
