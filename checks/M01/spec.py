LEVEL = 'exploration'
RULE = ('every aperture of the lists (circles, ellipses, circles and ellipses under linear transforms) x every centre on a sub-pixel grid, positive and negative x every pixel of a window larger than '
        'the aperture; non-trivial: some pixel is covered (circles: partly covered)')
BOUNDS = {'quick': '16 radii, 54 ellipses x 4 radii, 12 shapes x 15 transforms, 23x23 centres, windows of 17x17 to 29x29 pixels; drawing on images up to 4x4',
          'thorough': '39x39 centres for circles, 108 ellipses, 27 transforms'}
ASSUMPTIONS = ['positive definite ellipses, invertible transforms', 'points within 2e-4 of an edge may fall on either side',
               'under transforms that magnify by 2 or more only pixels whose centre is in the aperture are required to be in its box (the box of the wrapped aperture is all it knows)']
PROGRAMS = [dict(name='M01', harness=['M01/apertures.cpp'], opt='-O2', hopt='-O2', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Aperture/*.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
