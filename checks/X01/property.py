from prophelp import prop
P = prop('X01', 'The catalogue does not depend on threads, tiles, memory or output buffering',
 'For the same images and measurement settings the program writes the same sources with exactly the same values for every thread count, queue size, tile size, tile memory limit, output flush size and catalogue format. With sorted output (the default) the rows also come in the same order; unsorted, the sources of one group stay together and only the order of groups may change.',
 ['configurations'],
 'Runs the real main program from the command line to the table writers on every combination of these settings and compares complete catalogues (photometry, shapes, flags, model fits) with a single-threaded, untiled, unbuffered run.',
 'Resource settings are advertised as free of effect on results; no unit test runs the assembled program.',
 ['SEMain/src/program/SourceXtractor.cpp', 'SEMain/src/lib/Sorter.cpp', 'SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp', 'SEImplementation/src/lib/Prefetcher/Prefetcher.cpp', 'SEFramework/src/lib/Image/TileManager.cpp', 'SEFramework/src/lib/Output/*', 'SEImplementation/src/lib/Configuration/OutputConfig.cpp'],
 [('SEMain::mainMethod', 'SEMain/src/program/SourceXtractor.cpp'), ('MultithreadedMeasurement', 'SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp'), ('TileManager', 'SEFramework/src/lib/Image/TileManager.cpp')],
 ['rows of the catalogue'], None)
TECHNIQUE = 'exhaustive enumeration of resource and output configurations of the real main program, differential against a reference configuration'
NOTE = 'Values of group_id are labels; fmf_duration is a time.'
