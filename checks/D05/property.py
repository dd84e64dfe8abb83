from prophelp import prop
P = prop("D05", "Every layer of a frame follows the last settings",
 "After any sequence of settings (weight map, variance threshold, background, filter, detection threshold, label) a frame shows in every layer exactly what its definition gives for the current settings: interpolated, subtracted, filtered, thresholded, signal-to-noise, the three variance maps and the threshold map; filtered variance is never negative; a copy does not influence the original; and no layer keeps a stale image.",
 ["histories"], "All histories of up to four setter calls out of thirteen, for all constructors and gaps",
 "Caches are invalidated setter by setter; forgetting one only shows for one order of calls.",
 ["SEFramework/src/lib/Frame/Frame.cpp", "SEFramework/SEFramework/Frame/Frame.h", "SEFramework/SEFramework/Image/ThresholdedImage.h"],
 [("applyFilter, applyInterpolation, set*", "Frame.cpp"), ("getImage", "Frame.cpp")],
 ["all pixels of all layers"])
TECHNIQUE = "exhaustive enumeration of operation histories on the real code against a reference model of the frame"
NOTE = "Concurrent reads of the images behind a frame are covered by C01."
