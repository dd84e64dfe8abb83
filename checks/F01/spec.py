LEVEL = 'exploration'
RULE = 'every image size x kernel size x pair of basis images, and dense images; every size x basis image for the transforms, in four orders of plan creation; every padding of the work area; non-trivial: more than one pixel'
BOUNDS = {'quick': 'transforms up to 11x11; convolutions: images up to 5x5, kernels up to 7x7; rounding up to 20000', 'thorough': 'transforms up to 16x16; images up to 6x6; rounding up to 200000'}
ASSUMPTIONS = ['kernels have odd sides (the PSF readers refuse others)', 'results compared up to rounding errors of the precision used']
PROGRAMS = [dict(name='F01', harness=['F01/fft.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system -lfftw3 -lfftw3f', sources=['SEFramework/src/lib/FFT/FFT.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
