from prophelp import prop
G = 'SEImplementation/src/lib/Segmentation/'
P = prop("S01", "Segmentation publishes exactly the 8-connected components",
 "For every thresholded image and every tile size: the sources that Lutz and BFS segmentation publish are exactly the 8-connected components of the pixels above the threshold, each pixel in one source, with the pixel positions of the image (plus the offset asked for); BFS leaves out exactly the components larger than its limit; each source has its own identifier and the detection frame; progress counts every line; requests to process lines follow the window and never ask for lines of a source, not taller than the window, that has not been published; after the last source everything is asked for. The tiles are visited along a Hilbert curve, each once.",
 ["inputs"], "All binary images up to the stated sizes, all chunk heights, windows and limits in the bounds",
 "Lutz works with markers and stacks whose rare combinations (nested rings, spirals, merges of three segments) appear in few images; tests use two or three.",
 [G + "Lutz.cpp", G + "LutzSegmentation.cpp", G + "BFSSegmentation.cpp", "SEFramework/src/lib/Pipeline/Segmentation.cpp", "SEUtils/SEUtils/HilbertCurve.h"],
 [("Lutz::labelImage", "Lutz.cpp"), ("BFSSegmentation::labelSource", "BFSSegmentation.cpp"), ("Segmentation::processFrame", "Segmentation.cpp")],
 ["sources and messages received by the next stage and the observers"])
TECHNIQUE = "exhaustive enumeration of binary images, tile sizes and windows on the real labelling code, against connected components by flood fill"
NOTE = "All binary images up to 20 pixels (4x5, 5x4, 7x3, 3x7, 8x2 ...)."
