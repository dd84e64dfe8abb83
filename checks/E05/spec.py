LEVEL = 'exploration'
RULE = 'every combination of source size, pattern, scale and position; every interpolation type; every list of components x scales x rotations x raster sizes x transforms; every list of up to l models x PSF x parameter changes'
BOUNDS = {'quick': 'l = 3; half of the resampling positions', 'thorough': 'l = 4; all'}
ASSUMPTIONS = ['raster sizes passed to models are odd (checked: others are refused)', 'the borders of an image added at another scale are not interpolated (documented)']
PROGRAMS = [dict(name='E05', harness=['E05/raster.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address', kflags='-DVK_NO_RLIMIT', ldflags='-fsanitize=address -lboost_thread -lboost_system -lfftw3 -lfftw3f', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 sources=['ModelFitting/src/lib/Parameters/*.cpp', 'ModelFitting/src/lib/Models/*.cpp', 'SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp', 'SEImplementation/src/lib/Image/DownSampledImagePsf.cpp', 'SEFramework/src/lib/FFT/FFT.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
