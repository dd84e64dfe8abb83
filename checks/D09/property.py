from prophelp import prop
P = prop('D09', 'The Python configuration means what it says',
 'For every sequence of grouping operations (split, merge, filter, subgroups, measurement groups) an image group holds exactly the images and subgroups which the operations describe, and a refused operation changes nothing. Arguments, apertures, output columns, parameters, ranges, priors, models and settings of a script come out in the program as written: the value, start, range, dependence and error of each parameter for each source, the models of each frame, the diameters of each image, the columns in order and by name. What has no meaning (unequal lists, unknown arguments, mixed or duplicate columns, apertures on groups, a script with an error) is refused.',
 ['configurations', 'histories'],
 'Runs the real Python package through the real interpreter and option code: groups through every sequence of operations to a depth against a plain tree, and every combination of arguments, apertures, parameters, ranges, sources and models, with what reaches the fit recomputed.',
 'The configuration is the interface of the user: a parameter, aperture or image that ends in the wrong place is fitted without any error. No test runs the Python package.',
 ['SEImplementation/python/sourcextractor/config/*', 'SEImplementation/src/lib/PythonConfig/*', 'SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp', 'SEImplementation/src/lib/Configuration/PythonConfig.cpp',
  'SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingParameter.cpp', 'SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingModel.cpp',
  'SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingPrior.cpp', 'SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingConverterFactory.cpp',
  'SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryConfig.cpp'],
 [('ImageGroup, MeasurementGroup', 'SEImplementation/python/sourcextractor/config/measurement_images.py'), ('ModelFittingConfig::initializeInner', 'SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp'),
  ('ModelFitting', 'SEImplementation/python/sourcextractor/config/model_fitting.py'), ('PythonInterpreter', 'SEImplementation/src/lib/PythonConfig/PythonInterpreter.cpp')],
 ['images and subgroups of groups after each operation', 'values, ranges, errors and priors of parameters per source, models per frame, diameters, columns, settings', 'refusals'], None)
TECHNIQUE = 'explicit-state exploration of operation sequences on the real groups against a model, and exhaustive enumeration of scripts run by the real interpreter'
NOTE = ('Found and repaired: aperture photometry on a list of images, a FileList for load_fits_images, groups of empty subgroups or of keys which are no strings, the description of compute graph models, '
        'output columns of mixed types, and the fit read the association catalogue before it was configured.')
