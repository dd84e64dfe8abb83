// Linear coordinate systems, and measurement frames given by number.
#ifndef VERIF_COMMON_AFFINE_H
#define VERIF_COMMON_AFFINE_H
#include "SEFramework/CoordinateSystem/CoordinateSystem.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Source/SourceInterface.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactory.h"
#include "SEImplementation/Plugin/MeasurementFrame/MeasurementFrame.h"
using namespace SourceXtractor;
// pixel = M * world + t; nothing projects beyond a limit in alpha
struct Affine : CoordinateSystem {
  double a, b, c, d, tx, ty, limit;
  Affine(double a_, double b_, double c_, double d_, double x, double y, double l = 1e9) : a(a_), b(b_), c(c_), d(d_), tx(x), ty(y), limit(l) {}
  ImageCoordinate worldToImage(WorldCoordinate w) const override {
    if (w.m_alpha > limit) throw InvalidCoordinatesException();
    return ImageCoordinate(a * w.m_alpha + b * w.m_delta + tx, c * w.m_alpha + d * w.m_delta + ty);
  }
  WorldCoordinate imageToWorld(ImageCoordinate i) const override {
    double x = i.m_x - tx, y = i.m_y - ty, q = a * d - b * c;
    return WorldCoordinate((d * x - b * y) / q, (-c * x + a * y) / q);
  }
};
struct Frames : SourceTask {   // gives the measurement frames by number
  static std::vector<std::shared_ptr<MeasurementImageFrame>> frames;
  int i; explicit Frames(int i_) : i(i_) {}
  void computeProperties(SourceInterface& s) const override { s.setIndexedProperty<MeasurementFrame>(i, frames.at(i)); }
};
std::vector<std::shared_ptr<MeasurementImageFrame>> Frames::frames;
struct FramesFactory : TaskFactory { std::shared_ptr<Task> createTask(const PropertyId& p) const override { return p.getTypeId() == typeid(MeasurementFrame) && p.getIndex() < Frames::frames.size() ? std::make_shared<Frames>(p.getIndex()) : nullptr; } };
#endif
