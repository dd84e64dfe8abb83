import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e2e.program import program
LEVEL = 'model_checking'
RULE = ('Python configurations are enumerated and executed by the real configuration package, interpreter and option code, each in a process of its own; groups are explored through every sequence of operations up to a depth '
        'against a plain tree, and arguments, apertures, columns, parameters, ranges, priors, models, frames and settings that come out on the C++ side are compared with values computed apart from the code; '
        'non-trivial: something that came out was compared')
BOUNDS = {'quick': 'groups: 0 to 3 images of 4 kinds, every sequence of 15 operations to depth 4 (3 for 3 images); every pair of arguments; two calls for apertures and pairs of columns; 16 expressions x 7 ranges x 48 kinds of source; '
                   'up to 4 additions of models to 5 groups; every setting alone and in pairs',
          'thorough': 'groups to depth 5; the products of models, groups and apertures'}
ASSUMPTIONS = ['Pyston compiles nothing: the functions of the configuration are called as Python functions', 'astropy is replaced by the few formulas the configuration uses']
PROGRAMS = [program('D09', 'D09/python.cpp')]
PROGRAMS[0]['env'] = dict(PROGRAMS[0]['env'], D09_DIR=os.path.dirname(os.path.abspath(__file__)))
