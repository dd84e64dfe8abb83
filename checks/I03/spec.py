LEVEL = 'model_checking'
RULE = ('every history of the stated length over 10 operations (write one of three pixels, read one of them, read a region over all tiles, read another image so that '
        'tiles are evicted, save all, flush) in three memory regimes; non-trivial: something was saved to the source')
BOUNDS = {'quick': 'histories of 5 (nothing evicted / everything evicted at once), 4 (other pixel types, locked handles), 3 (evicted by another image)',
          'thorough': 'histories of 6, 4, 4'}
ASSUMPTIONS = ['one writable image per source', 'single thread (schedules: C02)']
PROGRAMS = [dict(name='I03', harness=['I03/writes.cpp'], opt='-O1', hopt='-O2', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Image/*.cpp'])]
