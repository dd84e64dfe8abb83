// Sources whose properties come from the task factories of the detection plugins.
#ifndef VERIF_COMMON_PLUGINS_H
#define VERIF_COMMON_PLUGINS_H
#include <algorithm>
#include <memory>
#include "vkit.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SourceFactory.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinates.h"
#include "SEImplementation/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinatesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImages.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfoTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValues.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PeakValue/PeakValueTaskFactory.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroidTaskFactory.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParametersTaskFactory.h"
namespace plugins {
using namespace SourceXtractor;
inline std::shared_ptr<TaskFactoryRegistry> registry() {
  auto reg = std::make_shared<TaskFactoryRegistry>();
  reg->registerTaskFactory<DetectionFrameCoordinatesTaskFactory, DetectionFrameCoordinates>();
  reg->registerTaskFactory<DetectionFrameImagesTaskFactory, DetectionFrameImages>();
  reg->registerTaskFactory<DetectionFrameInfoTaskFactory, DetectionFrameInfo>();
  reg->registerTaskFactory<DetectionFramePixelValuesTaskFactory, DetectionFramePixelValues>();
  reg->registerTaskFactory<DetectionFrameSourceStampTaskFactory, DetectionFrameSourceStamp>();
  reg->registerTaskFactory<PeakValueTaskFactory, PeakValue>();
  reg->registerTaskFactory<PixelBoundariesTaskFactory, PixelBoundaries>();
  reg->registerTaskFactory<PixelBoundariesTaskFactory, PixelBoundariesHalfMaximum>();
  reg->registerTaskFactory<PixelCentroidTaskFactory, PixelCentroid>();
  reg->registerTaskFactory<ShapeParametersTaskFactory, ShapeParameters>();
  return reg;
}
struct Factory : SourceFactory {
  std::shared_ptr<TaskProvider> provider;
  int made = 0;
  std::unique_ptr<SourceInterface> createSource() const override { ++const_cast<Factory*>(this)->made; return std::unique_ptr<SourceInterface>(new SourceWithOnDemandProperties(provider)); }
  explicit Factory(std::shared_ptr<TaskFactoryRegistry> r = registry()) : provider(std::make_shared<TaskProvider>(r)) {}
};
// A coordinate system which is a shift
struct Shift : CoordinateSystem {
  double dx, dy;
  explicit Shift(double x = 0, double y = 0) : dx(x), dy(y) {}
  WorldCoordinate imageToWorld(ImageCoordinate i) const override { return WorldCoordinate(i.m_x + dx, i.m_y + dy); }
  ImageCoordinate worldToImage(WorldCoordinate w) const override { return ImageCoordinate(w.m_alpha - dx, w.m_delta - dy); }
};
template <typename Img_> std::shared_ptr<DetectionImageFrame> frame(const Img_& image, const Img_& variance, float gain = 0, float sat = 0) {
  return std::make_shared<DetectionImageFrame>(image.img(), variance.img(), 1e30f, std::make_shared<Shift>(), gain, sat, 0);
}
inline std::vector<PixelCoordinate> sorted(std::vector<PixelCoordinate> v) {
  std::sort(v.begin(), v.end(), [](const PixelCoordinate& a, const PixelCoordinate& b) { return a.m_y != b.m_y ? a.m_y < b.m_y : a.m_x < b.m_x; });
  return v;
}
inline std::string show(const std::vector<PixelCoordinate>& v) { std::string s; for (auto& p : v) s += "(" + vk::str(p.m_x) + "," + vk::str(p.m_y) + ")"; return s; }
inline const std::vector<PixelCoordinate>& pixelsOf(const SourceInterface& s) { return s.getProperty<PixelCoordinateList>().getCoordinateList(); }
}
#endif
