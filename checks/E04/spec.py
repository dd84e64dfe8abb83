LEVEL = 'exploration'
RULE = 'every stack of up to l components (three scalings, three rotations, three linear transforms, a third of them moved after construction) x parameter updates x grid of points; every combination of profile, pixel scale, radius and sampling parameters'
BOUNDS = {'quick': 'l = 4', 'thorough': 'l = 5'}
ASSUMPTIONS = ['the pixel is larger than twice the first ring of the sharp region']
PROGRAMS = [dict(name='E04', harness=['E04/components.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address', kflags='-DVK_NO_RLIMIT', ldflags='-fsanitize=address', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 sources=['ModelFitting/src/lib/Parameters/*.cpp', 'ModelFitting/src/lib/Models/*.cpp'])]
