from prophelp import prop
P = prop("M03", "Isophotal measurements follow their definitions",
 "For every source, whatever its shape, values, place in the frame and order of pixels, the boundaries, half-maximum boundaries, source and group stamps (with their clipped margins), pixel values, peak and its position, number of pixels, flux with its error, magnitude and signal to noise, centroid in pixels and world, second moments, ellipse, orientation, isophotal correction, and error ellipse equal their definitions on the right layer of the frame; a magnitude is undefined for negative flux.",
 ["inputs"], "All shapes in a 3x3 box with eight value patterns at four places; all values of four levels for six pixels; lines up to 30 pixels; all pairs of boxes",
 "The cases that matter (clipped margins, degenerate ellipses, non-positive pixels, equal moments) need particular shapes; nothing tests these tasks.",
 ["SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp", "SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp", "SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp", "SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h", "SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp", "SEImplementation/src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp", "SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp"],
 [("computeProperties of the tasks", "SEImplementation/src/lib/Plugin")],
 ["the properties of the source"])
TECHNIQUE = "exhaustive enumeration of small sources on the real tasks against double precision definitions"
NOTE = ""
