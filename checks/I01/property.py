P = {
 "id": "I01", "title": "Derived images equal their definition, pixel by pixel, on any region",
 "statement": "Every derived image (sub-image, mirrored, recentred, padded in each mode, masked, thresholded, signal-to-noise, pixel-wise arithmetic or function) has, at each pixel of any requested region and for any nesting of derivations, exactly the value its definition gives from the pixels of the images it is made of. Reading it, directly or through an accessor with any access pattern, never changes those images, and writing a copy or an in-memory image changes only the written pixels.",
 "quantifier": {"over": ["inputs", "programs", "histories"], "text": "All image sizes, parameters, regions, nestings of derivations, sequences of reads and writes"},
 "why_tests_cant": "The tests read a few pixels of one or two images per class; errors of offset, stride, edge or aliasing appear only for particular region/size/nesting combinations.",
 "anchors": {"files": ["SEFramework/SEFramework/Image/SubImage.h", "SEFramework/SEFramework/Image/PaddedImage.h", "SEFramework/SEFramework/Image/MirrorImage.h", "SEFramework/SEFramework/Image/RecenterImage.h", "SEFramework/SEFramework/Image/MaskedImage.h", "SEFramework/SEFramework/Image/ThresholdedImage.h", "SEFramework/SEFramework/Image/ProcessedImage.h", "SEFramework/SEFramework/Image/FunctionalImage.h", "SEFramework/SEFramework/Image/ImageChunk.h", "SEFramework/SEFramework/Image/ImageAccessor.h", "SEFramework/SEFramework/Image/VectorImage.h"],
   "mechanism": [{"name": "getChunk of each image class", "where": "SEFramework/SEFramework/Image"}, {"name": "chunk stride and offset arithmetic", "where": "ImageChunk.h"}],
   "observe_at": ["Image::getChunk", "ImageChunk::getValue", "ImageAccessor::getValue"], "hook_needed": None}}
TECHNIQUE = "bounded exhaustive enumeration of derivation programs, regions and access sequences on the real classes against written-out definitions"
NOTE = "Every region of every derived image up to the stated sizes, two levels of nesting; not larger images."
