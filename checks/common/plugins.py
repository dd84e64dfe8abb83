_P = 'SEImplementation/src/lib/Plugin/'
SOURCES = ['SEFramework/src/lib/Property/PropertyHolder.cpp', 'SEFramework/src/lib/Property/PropertyId.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Task/*.cpp',
           'SEFramework/src/lib/Image/*.cpp', 'SEFramework/src/lib/Frame/*.cpp'] + \
          [_P + p + '/' + p + 'Task*.cpp' for p in ('DetectionFrameCoordinates', 'DetectionFrameImages', 'DetectionFrameInfo', 'DetectionFramePixelValues', 'DetectionFrameSourceStamp', 'PixelBoundaries', 'PixelCentroid', 'ShapeParameters')]
def plugin(*names):
    return [_P + p + '/' + p + 'Task*.cpp' for p in names]
