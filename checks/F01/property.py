from prophelp import prop
P = prop("F01", "Transforms and convolutions equal the sums they stand for",
 "For every image and kernel size (kernels with odd sides), both precisions and whatever plans were made before: the forward transform is the discrete Fourier transform, the inverse gives the image back, copies to and from work areas put every pixel where it belongs for every padding; direct and transform convolution equal the convolution sum with the stated edge rule, also when one prepared context is used for several images; rounded sizes are never smaller than asked for.",
 ["inputs", "histories"], "All basis images and kernels (the maps are linear) of all sizes in the bounds, all orders of plan creation",
 "Plans are cached by size, padding is split by parity of several sizes: errors appear for particular combinations of odd and even sizes.",
 ["SEFramework/src/lib/FFT/FFT.cpp", "SEFramework/SEFramework/FFT/FFTHelper.h", "SEFramework/SEFramework/Convolution/DFT.h", "SEFramework/SEFramework/Convolution/DirectConvolution.h", "SEFramework/SEFramework/Image/PaddedImage.h", "SEFramework/SEFramework/Image/RecenterImage.h", "SEFramework/SEFramework/Image/MirrorImage.h"],
 [("FFT::createForwardPlan/createInversePlan", "FFT.cpp"), ("DFTConvolution::convolve", "DFT.h"), ("DirectConvolution::convolve", "DirectConvolution.h")],
 ["transforms and convolved images"])
TECHNIQUE = "exhaustive enumeration of sizes and of the basis of the (linear) input space on the real code, against sums written out"
NOTE = "Bilinearity makes the basis pairs decide all inputs of a size, up to rounding."
