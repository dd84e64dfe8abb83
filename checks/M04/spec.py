import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from common.plugins import SOURCES, plugin
LEVEL = 'exploration'
RULE = 'sources of four shapes at three places (two on the border) with three value patterns x four masks of bad pixels x three arrangements of neighbours x six maps to the measurement frame x use of symmetry x gain; every growth curve of up to 5 (6) steps of five values; non-trivial: the flux is not zero'
BOUNDS = {'quick': 'the whole product (apertures, automatic), half of it (growth curves, vignets); curves of up to 5 steps', 'thorough': 'the whole product, curves of up to 6 steps'}
ASSUMPTIONS = ['linear coordinate systems', 'cases where a pixel is on the limit of an ellipse are left out, samples of a circle on its edge may fall on either side', 'areas and boxes of single apertures, fluxes and flags of one aperture are those of M01 and M02']
PROGRAMS = [dict(name='M04', harness=['M04/photometry.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-fsanitize=address -lboost_thread -lboost_system',
                 sources=SOURCES + plugin('MeasurementFrameCoordinates', 'MeasurementFrameImages', 'MeasurementFrameInfo', 'MeasurementFramePixelCentroid', 'WorldCentroid', 'Jacobian', 'ReferenceCoordinates') +
                         ['SEFramework/src/lib/Aperture/*.cpp'] +
                         ['SEImplementation/src/lib/Plugin/%s.cpp' % f for f in ('AutoPhotometry/AutoPhotometryTask', 'AutoPhotometry/AutoPhotometryFlagTask', 'AutoPhotometry/AutoPhotometryArrayTask', 'AperturePhotometry/AperturePhotometryTask', 'AperturePhotometry/AperturePhotometryArrayTask',
                          'AperturePhotometry/ApertureFlagTask', 'FluxRadius/FluxRadiusTask', 'GrowthCurve/GrowthCurveTask', 'GrowthCurve/GrowthCurveResampledTask', 'KronRadius/KronRadiusTask', 'Vignet/VignetSourceTask', 'Vignet/VignetArraySourceTask')])]
