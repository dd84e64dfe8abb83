from prophelp import prop
P = prop('D03', 'The catalogue has the columns, rows and headers that were asked for',
 'A row has exactly the columns of the properties that were asked for (in the order asked, once each), with the name, type, unit and value of their own property and instance, also when other properties use the same column names or the user names them in Python; unknown properties and ambiguous names are refused. Every source gives one row, in order, whatever the flush size and the flushes and parts in between; every part gets its own HDU, the file is replaced once and nothing written is lost. The LDAC header repeats every keyword of the detection image, with its type, its exact value and as much of its comment as fits in a card.',
 ['inputs', 'histories'],
 'Enumerates sequences of registrations against a table of columns, pairs of the properties of all plugins, histories of sources, flushes and parts for each format and buffer size, header cards, options, and (in the real program) pairs of user-named columns.',
 'The unit tests write no catalogue; name clashes, flush boundaries and parts are combinations and histories.',
 ['SEFramework/SEFramework/Output/*.h', 'SEFramework/src/lib/Output/OutputRegistry.cpp', 'SEImplementation/SEImplementation/Output/*.h', 'SEImplementation/src/lib/Output/*.cpp', 'SEImplementation/src/lib/Configuration/OutputConfig.cpp', 'SEImplementation/SEImplementation/Plugin/*/*Plugin.h', 'SEImplementation/src/lib/Plugin/*/*Plugin.cpp'],
 [('OutputRegistry', 'SEFramework/SEFramework/Output/OutputRegistry.h'), ('FlushableOutput', 'SEImplementation/SEImplementation/Output/FlushableOutput.h'), ('FitsOutput', 'SEImplementation/SEImplementation/Output/FitsOutput.h'),
  ('LdacOutput', 'SEImplementation/src/lib/Output/LdacOutput.cpp'), ('OutputFactory', 'SEImplementation/src/lib/Output/OutputFactory.cpp'), ('AperturePhotometryArray', 'SEImplementation/SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h')],
 ['rows handed to the table writers', 'OutputRegistry::getSourceToRowConverter', 'Output::outputSource, flush, nextPart'], None)
TECHNIQUE = 'exhaustive bounded exploration of the real implementation: all registration sequences, property pairs, source/flush/part histories, header cards and option combinations within the bounds, against a table model'
NOTE = 'The table writers of Alexandria are stand-ins that record rows, column infos, HDU names and file replacement.'
