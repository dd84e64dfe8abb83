from prophelp import prop
P = prop('M04', 'Automatic, aperture and growth-curve photometry follow their definitions',
 'For every source, frame pair, mask and neighbourhood: the Kron radius is the flux-weighted mean radius within six ellipse units over good pixels that belong to no neighbour; automatic, aperture and growth-curve fluxes are the sums over the aperture carried to the measurement frame of pixel times covered area, with masked pixels taken from their mirror image or left out; errors (with gain), magnitudes, flags, flux radii, resampled curves and array columns follow from these. Vignets hold the pixels around the source without masked pixels and without pixels of other detections, and nothing is read outside of an image.',
 ['inputs'],
 'Runs the real photometry tasks through the real task provider for sources of several shapes, places, values, masks, neighbours and frame maps and recomputes each measurement from plain pixels; flux radii for every growth curve of a small alphabet.',
 'Unit tests check two of the tasks on one clean source; masks, neighbours, frame borders, rotated frames and growth curves that are not monotonic are combinations no test has.',
 ['SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp'],
 [('KronRadiusTask', 'SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp'), ('AperturePhotometryTask', 'SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp'),
  ('GrowthCurveTask', 'SEImplementation/src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp'), ('FluxRadiusTask', 'SEImplementation/src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp'),
  ('VignetSourceTask', 'SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp'), ('computeFlags', 'SEFramework/src/lib/Aperture/Flagging.cpp')],
 ['catalogue columns of the photometry plugins', 'aperture check images'], None)
TECHNIQUE = 'exhaustive bounded exploration of the real implementation: shapes x places x values x masks x neighbours x frame maps, all small growth curves'
NOTE = 'Affine coordinate systems; a pixel exactly on the limit of an ellipse is left out.'
