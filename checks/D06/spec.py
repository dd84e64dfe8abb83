import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from common.plugins import SOURCES, plugin
LEVEL = 'model_checking'
RULE = 'six linear maps x two detection frames x shifts that move the source across and out of the frame x sizes x saturation levels x failing projections; every combination of flags; non-trivial: the source is in the frame'
BOUNDS = {'quick': 'shifts of 7 pixels', 'thorough': 'shifts of 3 pixels, all combinations'}
ASSUMPTIONS = ['affine coordinate systems']
PROGRAMS = [dict(name='D06', harness=['D06/flags.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=SOURCES + plugin('MeasurementFrameCoordinates', 'MeasurementFrameImages', 'MeasurementFrameInfo', 'MeasurementFramePixelCentroid', 'WorldCentroid', 'Jacobian') +
                         ['SEImplementation/src/lib/Plugin/%s.cpp' % f for f in ('MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask', 'MeasurementFrameRectangle/MeasurementFrameRectangleTask', 'ReferenceCoordinates/ReferenceCoordinatesTask', 'SourceFlags/SourceFlagsSourceTask')])]
