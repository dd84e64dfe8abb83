LEVEL = 'exploration'
RULE = 'every bad pixel map of small images x interpolation gap x every tile; every kernel size and image size x masks x every tile; both convolution algorithms through the tile cache with every tile size'
BOUNDS = {'quick': 'maps of up to 9 pixels, gaps 0..3 (20 on larger images), kernels up to 9x7, images up to 9x8', 'thorough': 'maps of 12 pixels, all kernel kinds'}
ASSUMPTIONS = ['kernels have odd sizes and positive weights']
PROGRAMS = [dict(name='B02', harness=['B02/filters.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', ldflags='-fsanitize=address -lboost_thread -lboost_system -lfftw3 -lfftw3f', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 sources=['SEImplementation/src/lib/Segmentation/Bg*ConvolutionImageSource.cpp', 'SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp', 'SEFramework/src/lib/FFT/FFT.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
