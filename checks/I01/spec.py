LEVEL = 'exploration'
RULE = ('every base image kind and size up to the bound x every derived image and parameter x every rectangle; accessors: every hint, '
        'read-ahead size and sequence of reads; non-trivial: the image has more than one pixel')
BOUNDS = {'quick': 'images up to 5x5, views of views on 1x1..4x3, read sequences of length 2', 'thorough': 'images up to 6x6, views of views up to 5x5, read sequences of length 3'}
ASSUMPTIONS = ['recentring offsets are not negative, padding does not shrink the image', 'pixel values compared within 1e-6']
PROGRAMS = [dict(name='I01', harness=['I01/views.cpp'], opt='-O1', hopt='-O2', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Image/*.cpp'])]
