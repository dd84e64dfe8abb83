LEVEL = 'model_checking'
RULE = ('pixels: every list of up to 3 HDUs out of 13 kinds x every HDU number x pixel type x layer x rectangle; headers: every pair of 23 cards in each of 3 positions; .head files: every sequence of lines out of 10 x 4 layouts; '
        'two users of a file: every pair of HDUs x every sequence of 7 operations; written files: every sequence of 15 operations; round trips: 5 types x sizes up to 4 x 4 x tile sizes; coordinates: 8 projections x 5 matrix forms x 6 reference positions x 3 reference pixels x axis order x cube, each at 25 pixels')
BOUNDS = {'quick': '3 HDUs of 6 kinds, 3 .head lines, 4 operations on a shared file, 3 operations on a written one', 'thorough': '3 HDUs of 9 kinds, 4 .head lines, 5 and 4 operations'}
ASSUMPTIONS = ['Alexandria FilePool: a stand-in that keeps a file open and reopens it for writing', 'HDU 0 stands for the first HDU that is an image with data (or the one named in the path)',
               'not covered: TPV or SIP distortions of data cubes (wcslib 8.2.2 fails on its own), TPV with CDELT or swapped axes, SIP with swapped axes written to a file (records that share one keyword)']
PROGRAMS = [dict(name='D08', harness=['D08/fits.cpp', 'D08/wcs.cpp'], opt='-O1', hopt='-O1', flags='-fsanitize=address -D_GLIBCXX_ASSERTIONS', kflags='-DVK_NO_RLIMIT', env={'ASAN_OPTIONS': 'detect_leaks=0'},
                 ldflags='-Wl,--wrap=wcsp2s,--wrap=wcss2p -fsanitize=address -lcfitsio -lwcs -lboost_thread -lboost_system -lboost_filesystem -lboost_regex',
                 sources=['SEFramework/src/lib/FITS/*.cpp', 'SEFramework/src/lib/CoordinateSystem/*.cpp', 'SEFramework/src/lib/Image/*.cpp'])]
