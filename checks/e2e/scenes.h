// Small skies for the end-to-end checks.
#ifndef VERIF_E2E_SCENES_H
#define VERIF_E2E_SCENES_H
#include "e2e/e2e.h"
namespace e2e {
inline Hdu sky(int w, int h, double level = 10, double noise = 1, unsigned seed = 0) {
  Hdu u(w, h, level);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) u.at(x, y) = (float)(level + noise * ripple(x, y, seed));
  return u;
}
inline Hdu scene(int w, int h, const std::vector<Star>& stars, double level = 10, double noise = 1, unsigned seed = 0) {
  Hdu u = sky(w, h, level, noise, seed);
  for (auto& s : stars) add(u, s);
  for (auto& v : u.d) v = (float)v;
  return u;
}
// A field with isolated stars, a close pair, one on the border and one in a corner.
inline std::vector<Star> field() { return {{12, 10, 500, 1.5}, {30, 30, 800, 2}, {35.3, 31, 600, 1.5}, {50, 12.4, 300, 1.2}, {0.4, 25, 400, 1.6}, {62, 46.5, 350, 1.4}, {48, 38, 260, 1.3}}; }
inline const char* allProps() {
  return "SourceIDs,PixelCentroid,AutoPhotometry,IsophotalFlux,KronRadius,ShapeParameters,GroupInfo,GroupStamp,FluxRadius,SNRRatio,PeakValue,PixelBoundaries,SourceFlags,NDetectedPixels,NCorePixel,"
         "WorldCentroid,ErrorEllipse,Vignet,GrowthCurve,HduNumber";
}
}
#endif
