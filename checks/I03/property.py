from prophelp import prop
SI = 'SEFramework/SEFramework/Image/'
P = prop("I03", "Writes to a tiled image are read back and saved, whatever is evicted",
 "After any sequence of writes, reads, cache evictions, saves and flushes, reading a pixel of a writable tiled image gives the last value written to it (or the source's own value), and once the cache is flushed the source holds exactly those values; no other pixel changes.",
 ["histories", "inputs"], "All sequences of operations, in every memory regime of the tile cache, for every pixel type",
 "Whether a write survives depends on when its tile is evicted or saved relative to the other operations; tests write an image once and read it back.",
 [SI + "WriteableBufferedImage.h", SI + "WriteableImage.h", SI + "ImageTile.h", "SEFramework/src/lib/Image/ImageTile.cpp", "SEFramework/src/lib/Image/TileManager.cpp", "SEImplementation/SEImplementation/Image/LockedWriteableImage.h"],
 [("WriteableBufferedImage::setValue", "WriteableBufferedImage.h"), ("ImageTile::saveIfModified", "ImageTile.cpp"), ("eviction", "TileManager.cpp")],
 ["WriteableBufferedImage::getChunk", "ImageSource::saveTile calls"])
TECHNIQUE = "bounded exhaustive enumeration of operation histories on the real classes against a plain array"
NOTE = "All histories of up to 5 (6) operations out of 10, in three memory regimes."
