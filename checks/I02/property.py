from prophelp import prop
SI = 'SEFramework/SEFramework/Image/'
P = prop("I02", "Tiled images show exactly the pixels of their source",
 "Reading any region of an image through the tile cache gives exactly the pixels its source holds, converted to the image's type, for every image size, tile size, pixel type and region, and after any sequence of reads, flushes, saves and option changes. A tile is loaded only when it is not in the cache, memory held by cached tiles never exceeds the limit, least recently loaded tiles go first, and reading never writes to the source.",
 ["inputs", "histories"], "All image sizes, tile sizes, regions, pixel types and sequences of cache operations",
 "The cache is only exercised by one test with one tile size; offsets at partial edge tiles, regions over several tiles and evictions in the middle of a region need combinations of sizes and histories.",
 [SI + "TileManager.h", "SEFramework/src/lib/Image/TileManager.cpp", SI + "BufferedImage.h", SI + "ImageTile.h", "SEFramework/src/lib/Image/ImageTile.cpp", SI + "ImageSource.h", SI + "ProcessingImageSource.h"],
 [("tile lookup and eviction", "TileManager.cpp"), ("region assembly from tiles", "BufferedImage.icpp")],
 ["BufferedImage::getChunk", "ImageSource::getImageTile calls", "ImageSource::saveTile calls"])
TECHNIQUE = "bounded exhaustive enumeration of sizes, regions and cache histories on the real classes against a plain array"
NOTE = "All sizes up to the bounds and all histories to the stated depth; single thread."
