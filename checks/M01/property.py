from prophelp import prop
A = 'SEFramework/SEFramework/Aperture/'
L = 'SEFramework/src/lib/Aperture/'
P = prop("M01", "Apertures cover what their geometry says, inside their bounding box",
 "For every radius, shape, linear transform and sub-pixel centre, an aperture assigns to each pixel the fraction of it that lies inside (circle: sampled 10x10, adding up to the circle's area; ellipse: centre inside or not; transformed: the wrapped aperture at the inverse-mapped position), and every covered pixel lies within the bounding box the aperture reports, so nothing that walks the box loses flux; drawing marks exactly the covered pixels of the image.",
 ["inputs"], "All centres on a sub-pixel grid, radii, ellipses and transforms of the lists; all pixels around",
 "Losing an edge pixel depends on the fractional part of centre and radius together; tests use a few round numbers.",
 [A + "CircularAperture.h", A + "EllipticalAperture.h", A + "TransformedAperture.h", A + "FluxMeasurement.h", L + "CircularAperture.cpp", L + "EllipticalAperture.cpp", L + "TransformedAperture.cpp"],
 [("CircularAperture::getArea/getMinPixel/getMaxPixel", "CircularAperture.cpp"), ("EllipticalAperture", "EllipticalAperture.cpp"), ("TransformedAperture", "TransformedAperture.cpp"), ("fillAperture, drawAperture", "FluxMeasurement.h")],
 ["Aperture::getArea, drawArea, getRadiusSquared, getMinPixel, getMaxPixel"])
TECHNIQUE = "bounded exhaustive enumeration of apertures, centres and pixels on the real classes against the geometric definition"
NOTE = "All circles, ellipses and transforms of the lists at all sub-pixel centres of a grid."
