from prophelp import prop
P = prop("B02", "Bad pixel interpolation and smoothing do not depend on tiles",
 "For every image, variance map, threshold, gap and kernel, and for every tile that is read: a pixel above the variance threshold takes the value of the nearest good pixel to its left or above within the gap (left first) or stays as it is, a smoothed pixel is the mirrored-kernel weighted mean of the good pixels inside the image (0 for bad ones), with the direct and the Fourier algorithm alike, and no value depends on how the image is cut in tiles.",
 ["inputs"], "All bad-pixel maps of small images, all kernel sizes up to 9x7, all tile rectangles",
 "A margin one pixel short shows as seams at tile borders only, and only next to bad pixels.",
 ["SEFramework/SEFramework/Image/InterpolatedImageSource.h", "SEFramework/SEFramework/Image/ProcessingImageSource.h", "SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp", "SEImplementation/src/lib/Segmentation/BgDFTConvolutionImageSource.cpp", "SEImplementation/src/lib/Segmentation/BackgroundConvolution.cpp"],
 [("InterpolatedImageSource::generateTile", "InterpolatedImageSource.h"), ("applyKernel", "BgConvolutionImageSource.cpp"), ("BackgroundConvolution::processImage", "BackgroundConvolution.cpp")],
 ["pixels of every tile"])
TECHNIQUE = "bounded exhaustive enumeration of masks, kernels and tiles on the real code against a direct definition"
NOTE = "Even-sized kernels are outside of the assumption."
