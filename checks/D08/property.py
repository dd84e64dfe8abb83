from prophelp import prop
P = prop('D08', 'FITS images: pixels, keywords and coordinates are read and written exactly',
 'Every region of every layer and HDU of a FITS file is read as its bytes say, whatever the pixel type, the scaling, the other HDUs and what other users of the file did before; regions that do not fit the type and HDUs that are no image are refused. Keywords have the value, type and comment of their card, or of the .head file, and what is handed to the coordinate system, and any image, keyword or coordinate system written, is read back the same. Pixel and sky coordinates follow the FITS definitions of projection, matrix, distortion and axis order, both ways.',
 ['inputs', 'histories'],
 'Builds files byte by byte (HDU lists, cards, .head lines, projections all enumerated), runs the real FITS classes on them with the real cfitsio and wcslib, and compares with the bytes and with the coordinate formulas computed directly; files written are parsed byte by byte.',
 'The unit tests read one file; the HDU layouts, card forms, orders of use of a shared file handle and header conventions are combinatorial.',
 ['SEFramework/src/lib/FITS/*.cpp', 'SEFramework/SEFramework/FITS/*.h', 'SEFramework/src/lib/CoordinateSystem/WCS.cpp', 'SEFramework/SEFramework/CoordinateSystem/WCS.h'],
 [('FitsImageSource', 'SEFramework/SEFramework/FITS/FitsImageSource.h'), ('FitsFile', 'SEFramework/SEFramework/FITS/FitsFile.h'), ('WCS', 'SEFramework/SEFramework/CoordinateSystem/WCS.h'),
  ('FitsWriter', 'SEFramework/SEFramework/FITS/FitsWriter.h'), ('TemporaryFitsImageSource', 'SEFramework/SEFramework/FITS/TemporaryFitsImageSource.h')],
 ['ImageSource::getImageTile, saveTile, getMetadata', 'WCS::imageToWorld, worldToImage', 'bytes of the files'], None)
TECHNIQUE = 'exhaustive bounded exploration of the real implementation: all HDU layouts, card combinations, .head line sequences, operation sequences on shared files and header variants within the bounds'
NOTE = 'The expected values come from the bytes and from the formulas of the FITS standard; the access to arrays by wcslib is checked at the call.'
