from prophelp import prop
SI = 'SEFramework/SEFramework/Image/'
P = prop("C02", "Concurrent writes to a tiled image are never lost",
 "When several threads update pixels of a writable tiled image, each holding its write lock, while other threads read other images, save or flush the cache, then in every schedule each update is based on the last value written, is visible to later reads, and is in the source after the final flush; no thread blocks forever and no cache state is accessed unsynchronised.",
 ["schedules", "histories"], "All interleavings of writers, evicting readers, savers and flushes",
 "An update is lost only if an eviction or save falls between particular steps of a write; no test runs writers concurrently.",
 [SI + "WriteableBufferedImage.h", SI + "ImageTile.h", "SEFramework/src/lib/Image/ImageTile.cpp", "SEFramework/src/lib/Image/TileManager.cpp", SI + "WriteableImage.h", "SEImplementation/SEImplementation/Image/LockedWriteableImage.h"],
 [("write lock held for the life of the handle", "LockedWriteableImage.h"), ("modified flag", "ImageTile"), ("eviction and save", "TileManager.cpp")],
 ["LockedWriteableImage::setValue", "ImageSource::saveTile calls"])
TECHNIQUE = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler, with race, use-after-free and deadlock detection"
NOTE = "2-3 threads, 1-2 updates each; preemption bound 1-2 (thorough: one more); reads of an image by one thread while another writes that image are outside (not done in the program)."
