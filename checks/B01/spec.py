LEVEL = 'exploration'
RULE = 'every stage of the estimation on every image of a bounded family (sizes, cell and box sizes, pixel values, masks), then the whole analyzer'
BOUNDS = {'quick': 'cells of up to 7 pixels over {invalid, 0, 1, 3}; maps up to 9 cells over {undefined, a, b}; filters up to 9x9 on up to 5x5 maps; images up to 10x8 for the whole analyzer',
          'thorough': 'cells of 8 pixels, maps of 12 cells, four times as many populations'}
ASSUMPTIONS = ['the histogram statistics and the spline are those of the stand-ins for Alexandria, which the definitions repeat']
PROGRAMS = [dict(name='B01', harness=['B01/background.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', ldflags='-fsanitize=address -lboost_thread -lboost_system', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 sources=['SEImplementation/src/lib/Background/SE/*.cpp', 'SEImplementation/src/lib/Background/SimpleBackgroundAnalyzer.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
