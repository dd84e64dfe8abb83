from prophelp import prop
SI = 'SEFramework/SEFramework/Image/'
P = prop("C01", "Concurrent readers of tiled images get right pixels, no deadlock or race",
 "Whatever the schedule of the threads reading regions of any images (also images computed from others through the same cache) while tiles are loaded, evicted, saved and flushed, each region has exactly the pixels of its source, no thread blocks forever, memory is never accessed unsynchronised or after being freed, an image source is never asked for two tiles at the same time, and a tile that is in the cache is not loaded again.",
 ["schedules", "histories"], "All interleavings of the reading threads, evictions, saves and flushes",
 "A test run executes one schedule; double loads, races on the cache maps and lock-order deadlocks appear only in particular interleavings.",
 ["SEFramework/src/lib/Image/TileManager.cpp", SI + "TileManager.h", SI + "BufferedImage.h", SI + "ImageTile.h", SI + "ProcessingImageSource.h", SI + "ImageChunk.h"],
 [("cache lock and per-source mutex", "TileManager::getTileForPixel"), ("eviction", "TileManager::removeExtraTiles")],
 ["BufferedImage::getChunk", "ImageSource::getImageTile calls"])
TECHNIQUE = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler, with race, use-after-free and deadlock detection"
NOTE = "2-3 threads with a few reads each; preemption bound 1-3 (thorough: one more); sequential consistency."
