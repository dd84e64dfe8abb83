from prophelp import prop
A = 'SEFramework/SEFramework/Aperture/'
L = 'SEFramework/src/lib/Aperture/'
P = prop("M02", "Aperture flux and flags count every pixel once, whatever is bad or cut off",
 "For every aperture position, bad-pixel mask and image border, the measured flux, variance and areas are the sums over the image's pixels of value times covered fraction, a bad pixel contributing nothing or, with symmetry on, the value of the pixel mirrored at the centre if that one is on the image and good; an aperture that reaches over the border is flagged BOUNDARY (OUTSIDE if it misses the image), more than 10% bad pixels BIASED, more than 10% pixels of other objects NEIGHBORS, and no other flag is set.",
 ["inputs"], "All masks of small images, all centres of a grid in and around them, all apertures of the list",
 "Which pixel replaces which, and which flag is due, depends on mask, centre and border together; tests use one image.",
 [L + "FluxMeasurement.cpp", L + "Flagging.cpp", L + "NeighbourInfo.cpp", A + "FluxMeasurement.h", A + "NeighbourInfo.h", "SEUtils/SEUtils/PixelCoordinate.h", "SEFramework/SEFramework/Source/SourceFlags.h"],
 [("measureFlux, getMirrorPixel", "FluxMeasurement.cpp"), ("computeFlags", "Flagging.cpp"), ("NeighbourInfo", "NeighbourInfo.cpp")],
 ["FluxMeasurement", "Flags", "NeighbourInfo::isNeighbourObjectPixel"])
TECHNIQUE = "bounded exhaustive enumeration of masks, centres and apertures on the real functions against sums over all pixels"
NOTE = "All bad-pixel masks of images up to 3x3 and all centres of a grid around them."
