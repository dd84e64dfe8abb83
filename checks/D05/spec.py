LEVEL = 'exploration'
RULE = 'every history of up to l setter calls (13 operations, one of which reads everything) x constructor x interpolation gap; after it all ten layers are compared with their definition'
BOUNDS = {'quick': 'l = 4', 'thorough': 'l = 5'}
ASSUMPTIONS = ['signal to noise is only compared where the variance is positive']
PROGRAMS = [dict(name='D05', harness=['D05/frame.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'}, ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Frame/Frame.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
