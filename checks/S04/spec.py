import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from common.plugins import SOURCES
LEVEL = 'model_checking'
RULE = ('every combination of eight kinds of sources (model strength, pixels, values) x spacing x minimum area in a group through the real step; every chain of four kinds of deblending steps; '
        'non-trivial: some source is cleaned and some remain')
BOUNDS = {'quick': 'groups of up to 4, chains of 4', 'thorough': 'groups of up to 5 (six kinds), chains of 5'}
ASSUMPTIONS = ['pixel values equal to the summed influence to within 1e-9 are not judged', 'between equally influential sources either may be chosen']
PROGRAMS = [dict(name='S04', harness=['S04/cleaning.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=SOURCES + ['SEFramework/src/lib/Pipeline/Deblending.cpp', 'SEImplementation/src/lib/Deblending/Cleaning.cpp', 'SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp',
                          'ModelFitting/src/lib/Models/*.cpp', 'ModelFitting/src/lib/Parameters/*.cpp', 'SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp'])]
