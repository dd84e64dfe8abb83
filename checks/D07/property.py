from prophelp import prop
P = prop('D07', 'Frames and settings are what the images, keywords and options say',
 'For every combination of input files and options, each detection and measurement frame has the pixels, scaled by the flux scale, the variance, background, threshold, gain, saturation, PSF, coordinates, identity and keywords which the chosen HDU or layer, its weight map and the options define, an option taking precedence over a keyword. Filters, partition and cleaning steps, association catalogues and flag images are the ones asked for, with the values in the files. Combinations which have no meaning are refused with an error instead of being run with something else.',
 ['configurations'],
 'Runs the real configuration code, from options and Python configuration to detection and measurement frames, on every combination of layouts, weights and settings in the bounds, and recomputes what each frame must hold from the files.',
 'A wrong weight, gain or threshold changes every measurement silently; unit tests never build a frame from options.',
 ['SEImplementation/src/lib/Configuration/*', 'SEImplementation/src/lib/PythonConfig/*', 'SEImplementation/python/sourcextractor/config/*', 'SEImplementation/src/lib/Segmentation/SegmentationFactory.cpp',
  'SEImplementation/src/lib/Partition/*', 'SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp', 'SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagConfig.cpp',
  'SEFramework/src/lib/FITS/*', 'SEFramework/SEFramework/Frame/Frame.h', 'SEImplementation/src/lib/Deblending/*'],
 [('DetectionImageConfig', 'SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp'), ('WeightImageConfig', 'SEImplementation/src/lib/Configuration/WeightImageConfig.cpp'),
  ('MeasurementImageConfig', 'SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp'), ('DetectionFrameConfig', 'SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp')],
 ['pixels and properties of frames, settings, association entries, flag images, refusals'], None)
TECHNIQUE = 'exhaustive enumeration of configurations through the real configuration code, every frame against an independent reading of the files'
NOTE = 'Found and repaired: weight thresholds ignored the flux scale, cubes of weights of another depth were accepted, psf_renormalize was refused for cubes, layers of cubes were not checked, association files without column numbers were read from the second column.'
