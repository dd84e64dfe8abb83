import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e2e.program import program
LEVEL = 'model_checking'
RULE = ('the real main program on four fields (isolated, blended, border and corner sources; several frames, one of them empty; a field larger than the tile memory), with photometry, moffat and flexible model fitting on two measurement images, '
        'for every combination of thread count and queue size, tile size, tile memory, flush size, format and ordering in the bounds; non-trivial: a catalogue was compared row by row with the reference')
BOUNDS = {'quick': '4 thread settings, 2 tile sizes, 3 flush sizes, 3 formats, both orders (half of the products, every pair of values), 12 memory settings on the large field',
          'thorough': '6 thread settings, 5 tile sizes, 6 flush sizes, 3 formats, both orders, 36 memory settings'}
ASSUMPTIONS = ['the interleavings of threads inside one run are those the machine gives (all of them, for the parts, in C01-C07)', 'fmf_duration is a time and group_id a label: neither is compared by value', 'the catalogue is taken as the writers of Alexandria receive it']
PROGRAMS = [program('X01', 'X01/resources.cpp')]
