from prophelp import prop
P = prop('X02', 'The maps the program writes agree with its catalogue and its input images',
 'Every check image has the size and the coordinate system of the image it describes, and says the same as the catalogue: the labels of the segmentation, partition and group maps are exactly the pixels, fluxes, centroids, boundaries and groups of the catalogue rows, and every region above the threshold is labelled. The filtered, thresholded and signal-to-noise maps follow from the input, background and variance maps, the residual is the image minus background minus model, and aperture maps draw the apertures of the sources they are labelled with.',
 ['configurations'],
 'Runs the real main program on one or several detection frames with every combination of threads, tiles, segmentation settings and measurement images, and recomputes the catalogue from the maps pixel by pixel.',
 'Check images are the means by which users judge a run; no unit test writes one.',
 ['SEImplementation/src/lib/CheckImages/*', 'SEImplementation/src/lib/Segmentation/*', 'SEImplementation/src/lib/Plugin/*', 'SEFramework/src/lib/FITS/FitsWriter.cpp', 'SEMain/src/program/SourceXtractor.cpp'],
 [('CheckImages', 'SEImplementation/src/lib/CheckImages/CheckImages.cpp'), ('SourceIdCheckImage, DetectionIdCheckImage, GroupIdCheckImage', 'SEImplementation/src/lib/CheckImages')],
 ['pixels of the check images, rows of the catalogue'], None)
TECHNIQUE = 'exhaustive enumeration of configurations of the real main program, every pixel of every map against the catalogue and the inputs'
NOTE = 'Found and repaired: maps of detection frames after the first were created with the size and WCS of the first frame.'
