import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e2e.program import program
LEVEL = 'model_checking'
RULE = ('the real main program on one frame or three frames of different size and coordinates, for every combination of threads, tile size, segmentation algorithm, filter, background, multi-thresholding and measurement images in the bounds; '
        'every pixel of fourteen maps is compared with the input, the other maps and the catalogue; non-trivial: a catalogue with sources was compared')
BOUNDS = {'quick': 'half of 192 combinations on one frame (every pair of values), the same on three frames without measurement images', 'thorough': 'all 288 combinations'}
ASSUMPTIONS = ['outlines drawn where two apertures overlap may carry the label of either source', 'the filtered map is compared away from the border']
PROGRAMS = [program('X02', 'X02/maps.cpp')]
