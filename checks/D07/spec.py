import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e2e.program import program
LEVEL = 'model_checking'
RULE = ('the real option and Python configuration code is given every combination of image layouts, keywords, options and Python settings in the bounds, each in a process of its own; every pixel, '
        'threshold, keyword, coordinate and setting of the frames it produces is compared with a direct reading of the files by independent code, and meaningless combinations must be refused; '
        'non-trivial: the frames of an accepted configuration were compared')
BOUNDS = {'quick': 'images, multi-extension files, cubes and lists x weight types, scales, thresholds, symmetries, backgrounds, gains, saturations, flux scales and PSFs pairwise; every filter type and size up to 7; every set of partition steps; '
                   'every column layout of association catalogues; every type of flag image', 'thorough': 'the products instead of the pairs'}
ASSUMPTIONS = ['astropy is replaced by the few formulas the configuration uses', 'images are small (up to 24 pixels a side) and hold distinct values']
PROGRAMS = [program('D07', 'D07/frames.cpp')]
