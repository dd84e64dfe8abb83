from prophelp import prop
P = prop('D06', 'Sources are projected into measurement frames and flagged correctly',
 'For every detection frame, measurement frame and source: the rectangle (and group rectangle) of the source in a measurement frame is the bounding box of the four projected corners of the detection box, clipped to the frame, empty when it lies outside, and marked as a bad projection when any corner cannot be projected; the centroid in the frame is the projection of the detection centroid through the world (-1,-1 when it has none); the Jacobian is that of the reference-to-measurement mapping; the reference system is the detection frame, else the given one, else the first measurement frame. The flags of a source are exactly: BLENDED when it comes from a source that was split, BOUNDARY when the rectangle touches the edge of that frame, SATURATED when a pixel of the rectangle is at or above a positive saturation level, BAD_PROJECTION when the projection failed, joined over the frames of each named group. Flag sets print, convert and combine bit by bit.',
 ['inputs'],
 'Runs the real measurement-frame, flag and Jacobian tasks through the real task provider for every map, shift, size, saturation level and projection limit in the bounds and compares every property to a direct computation.',
 'Unit tests use one frame and no projection that fails; positions where a box leaves the frame, a source touches the edge, or a corner cannot be projected happen only for particular shifts.',
 ['SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.cpp'],
 [('MeasurementFrameRectangle', 'SEImplementation/SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangle.h'),
  ('Flags', 'SEFramework/SEFramework/Source/SourceFlags.h'),
  ('SourceFlagsSourceTask::computeProperties', 'SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp')],
 ['getSourceFlags()', 'rectangle of the source in the frame'], None)
TECHNIQUE = 'exhaustive bounded exploration of the real implementation: linear maps x shifts x sizes x saturation levels x projection limits, and all flag combinations'
NOTE = 'Affine coordinate systems.'
