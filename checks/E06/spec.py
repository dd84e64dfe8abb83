import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e2e.program import program
LEVEL = 'model_checking'
RULE = ('the real main program fits every kind of model, classic and iterative, to images rendered from known parameters by independent code, for every frame geometry, window and scene in the bounds; '
        'the fitted parameters, their uncertainties and flags, the dependent parameters and the residual maps are compared with the truth; non-trivial: a fit was compared')
BOUNDS = {'quick': '7 models x 2 engines x 4 scenes x 6 frames, a quarter of the pairs of frames and a sixth of the windows, 64 special cases (uncovered and masked sources, priors, noise, downsampling)', 'thorough': 'all pairs of frames with the reference frame, all windows'}
ASSUMPTIONS = ['levmar is not installed: only the GSL engine is run', 'astropy is replaced by the few formulas the configuration uses']
PROGRAMS = [program('E06', 'E06/fit.cpp')]
