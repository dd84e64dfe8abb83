from prophelp import prop
P = prop("B01", "The background maps follow the mesh estimator at every pixel",
 "For every image, mask, weight map, mesh and smoothing box: each mesh cell is estimated (kappa-sigma clipped histogram mode and rms) from its own unmasked pixels only, cells with fewer than half of their pixels are filled with the average of the nearest good cells, the mesh is median filtered inside its borders, and level, variance, median rms and weight scaling given for the image are exactly what these cells define, whatever tiles are read.",
 ["inputs"], "All small cells and meshes, grids of image, cell, box and tile sizes, with and without masks and weights",
 "Edge cells, invalid cells, even counts and boxes larger than the mesh only matter for particular shapes; a wrong background moves every threshold and flux.",
 ["SEImplementation/SEImplementation/Background/SE/*.h", "SEImplementation/src/lib/Background/SE/*.cpp", "SEImplementation/src/lib/Background/SimpleBackgroundAnalyzer.cpp", "SEFramework/SEFramework/Image/ScaledImageSource.h", "SEFramework/SEFramework/Background/BackgroundAnalyzer.h"],
 [("ImageMode::processCell", "ImageMode.cpp"), ("ReplaceUndef", "ReplaceUndefImage.cpp"), ("MedianFilter", "MedianFilter.h"), ("computeScaling", "SEBackgroundLevelAnalyzer.cpp"), ("ScaledImageSource::getImageTile", "ScaledImageSource.h")],
 ["level and variance map pixels, median rms, scaling factor"])
TECHNIQUE = "bounded exhaustive enumeration of cells, meshes and images on the real code against an independent definition"
NOTE = "Histogram and spline come from the Alexandria stand-ins, so only SourceXtractor++'s own part of these is decided."
