LEVEL = 'model_checking'
RULE = ('every binary image of each size x chunk height; every image x window or maximal extent x tile size through the whole stage with observers; families of five lines of seven; every curve size; '
        'non-trivial: the image has a component')
BOUNDS = {'quick': 'Lutz: all images up to 20 or 21 pixels; stages: all images up to 12 pixels; curves up to 64', 'thorough': 'Lutz: all images up to 27 pixels (5x5, 6x4, 9x3); stages: up to 16 pixels; curves up to 256'}
ASSUMPTIONS = ['no NaN pixels']
PROGRAMS = [dict(name='S01', harness=['S01/segm.cpp'], opt='-O1', hopt='-O1', flags='-D_GLIBCXX_ASSERTIONS', ldflags='-lboost_thread -lboost_system',
                 sources=['SEFramework/src/lib/Property/PropertyHolder.cpp', 'SEFramework/src/lib/Property/PropertyId.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Image/*.cpp',
                          'SEFramework/src/lib/Frame/*.cpp', 'SEFramework/src/lib/Pipeline/Segmentation.cpp', 'SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp',
                          'SEImplementation/src/lib/Segmentation/Lutz.cpp', 'SEImplementation/src/lib/Segmentation/LutzSegmentation.cpp', 'SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp'])]
