// Stand-in for the check images: an image for each kind and number that was asked for. Include in one file only.
#ifndef VERIF_COMMON_CHECKIMAGES_H
#define VERIF_COMMON_CHECKIMAGES_H
#include <map>
#include "SEFramework/Image/VectorImage.h"
#include "SEImplementation/CheckImages/CheckImages.h"
#include "SEImplementation/Image/LockedWriteableImage.h"
namespace checkimages {
template <typename T> using Map = std::map<unsigned, std::shared_ptr<SourceXtractor::VectorImage<T>>>;
static Map<int> auto_aperture, aperture, window;
static Map<SourceXtractor::MeasurementImage::PixelType> psf, model;
template <typename T> static std::shared_ptr<SourceXtractor::WriteableImage<T>> get(const Map<T>& m, unsigned i) {
  auto f = m.find(i);
  return f == m.end() ? nullptr : SourceXtractor::LockedWriteableImage<T>::create(f->second);
}
static inline void clear() { auto_aperture.clear(); aperture.clear(); window.clear(); psf.clear(); model.clear(); }
}
namespace SourceXtractor {
std::unique_ptr<CheckImages> CheckImages::m_instance;
CheckImages::CheckImages() {}
void CheckImages::reportConfigDependencies(Euclid::Configuration::ConfigManager&) const {}
void CheckImages::configure(Euclid::Configuration::ConfigManager&) {}
std::shared_ptr<WriteableImage<MeasurementImage::PixelType>> CheckImages::getPsfImage(unsigned f) { return checkimages::get(checkimages::psf, f); }
std::shared_ptr<WriteableImage<MeasurementImage::PixelType>> CheckImages::getModelFittingImage(unsigned f) { return checkimages::get(checkimages::model, f); }
std::shared_ptr<WriteableImage<int>> CheckImages::getMeasurementAutoApertureImage(unsigned f) { return checkimages::get(checkimages::auto_aperture, f); }
std::shared_ptr<WriteableImage<int>> CheckImages::getMeasurementApertureImage(unsigned f) { return checkimages::get(checkimages::aperture, f); }
std::shared_ptr<WriteableImage<int>> CheckImages::getFittingWindowImage(unsigned f) { return checkimages::get(checkimages::window, f); }
}
#endif
