from prophelp import prop
P = prop("E05", "A model is rendered where and as bright as its parameters say",
 "For every model, scale, position and list of models: adding an image at a position resamples it with the normalised Lanczos-4 kernel, keeps its flux, centres it there and touches nothing outside; the raster of a model is, pixel by pixel, the sharp samples that fall in it or the central value times its area; compact models follow their profile and hold exactly their flux; a frame is the sum of its models, each convolved with the PSF, on top of what was there, and follows every parameter change.",
 ["inputs", "histories"], "Grids of sizes, scales, positions, profiles, rotations and linear transforms; all lists of up to three models with four PSFs, with every model changed in turn",
 "Half-pixel shifts, transposed axes and stale per-model convolution contexts only show for particular sizes, scales and sequences.",
 ["SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp", "SEImplementation/SEImplementation/Image/WriteableImageInterfaceTraits.h", "SEImplementation/src/lib/Image/DownSampledImagePsf.cpp", "ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp", "ModelFitting/ModelFitting/Models/_impl/FrameModel.icpp", "ModelFitting/ModelFitting/Models/_impl/Compact*.icpp"],
 [("addImageToImage, interpolate_pix", "ImageInterfaceTraits.cpp"), ("getRasterizedImage", "ExtendedModel.icpp"), ("rasterToImage", "FrameModel.icpp")],
 ["pixels of rendered images"])
TECHNIQUE = "bounded exhaustive enumeration of rendering configurations and parameter histories on the real code, against double precision definitions"
NOTE = "Pixels of sub-sampled profile centres are compared within 12%, everything else within float rounding."
