import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from common.plugins import SOURCES
LEVEL = 'model_checking'
RULE = ('every image of the stated sizes and levels x place in the frame x settings through each real partition step with properties computed by the real tasks, against an independent definition; every chain of four kinds of steps; '
        'non-trivial: the source is split (or dropped)')
BOUNDS = {'quick': 'attractors: all images of 6 pixels with 4 levels, 9 pixels with 3 levels, all masks of 3x3; thresholds: up to 9 pixels with 3 levels, 3 x 3 x 2 settings; chains of 4', 'thorough': '10 and 12 pixels; all masks of 4x3; chains of 5'}
ASSUMPTIONS = ['decisions within rounding distance of a threshold are not judged', 'which of several likely cores gets an in-between pixel is random by design']
PROGRAMS = [dict(name='S02', harness=['S02/partition.cpp'], opt='-O1', hopt='-O1', flags='-D_GLIBCXX_ASSERTIONS', ldflags='-lboost_thread -lboost_system -lboost_random',
                 sources=SOURCES + ['SEImplementation/src/lib/Partition/*.cpp', 'SEFramework/src/lib/Pipeline/Partition.cpp', 'SEImplementation/src/lib/Segmentation/Lutz.cpp',
                          'SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp'])]
