import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e2e.program import program
LEVEL = 'model_checking'
RULE = ('registry: every sequence of 15 operations, each with 12 lists of outputs, against a table of columns; columns: every ordered pair of the properties of all plugins; parts: every history of sources, flushes and parts x 3 formats x 4 buffer sizes; '
        'header cards: every value and comment, and every pair of values; every combination of the output options; every pair of columns named in Python, in the real program')
BOUNDS = {'quick': 'sequences of up to 4 operations, histories of up to 8 steps', 'thorough': 'up to 5 operations, 10 steps, triples of properties, all names'}
ASSUMPTIONS = ['Alexandria table writers: stand-ins that record what they are given', 'a flush precedes every new part, as in the main program']
PROGRAMS = [program('D03', 'D03/catalogue.cpp')]
