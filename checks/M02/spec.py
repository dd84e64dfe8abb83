LEVEL = 'exploration'
RULE = ('every bad-pixel mask of every small image x every aperture of the list x every centre of a grid in and around the image x with and without symmetry; every threshold mask x own-pixel mask x rectangle; '
        'non-trivial: the aperture covers pixels and is cut by the border or meets bad pixels; a neighbour pixel exists')
BOUNDS = {'quick': 'images 1x1 to 3x3 with all masks, 12x11 with 26 patterns; neighbour masks up to 3x2; all 512 masks for the flags', 'thorough': 'images up to 2x5 and 4x3, neighbour masks up to 3x3'}
ASSUMPTIONS = ['pixel variance never equals the threshold', 'mirror positions closer than 2e-3 to a pixel edge may be rounded either way']
PROGRAMS = [dict(name='M02', harness=['M02/flux.cpp'], opt='-O2', hopt='-O2', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Aperture/*.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
