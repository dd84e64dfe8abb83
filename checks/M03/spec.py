import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from common.plugins import SOURCES, plugin
LEVEL = 'model_checking'
RULE = 'every shape of a 3x3 box x eight value patterns x four places; every assignment of four levels to six pixels; lines of every length and direction; pairs of boxes; each measurement against its definition in double precision; non-trivial: more than one pixel'
BOUNDS = {'quick': '511 shapes, 4^6 values, lines up to 30, 768 pairs', 'thorough': 'all places for all shapes, 4^8 values, lines up to 60'}
ASSUMPTIONS = ['moments are judged for positive pixels and totals that are not cancelled out; tolerance of single precision']
PROGRAMS = [dict(name='M03', harness=['M03/measure.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=SOURCES + plugin('ErrorEllipse', 'HduNumber', 'WorldCentroid', 'DetectionFrameGroupStamp') + ['SEImplementation/src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp'])]
