From 99274bd35c55ffdc94a487b2bc15bad7612de36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 01/67] fix: QuadTree range query misses the points of a
 quadrant that surrounds the query position

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index dccdba2..d7ee976 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -84,11 +84,11 @@ std::vector<T> QuadTree<T>::getPointsWithinRange(Coord c, double range) const {
     std::vector<T> points;
     for (int i=0; i<4; i++) {
       if (m_sub_trees[i] != nullptr) {
-        // compare range with distance to closest corner of subtree
-        auto dx_sq = std::min((c.x - m_sub_trees[i]->m_min.x) * (c.x - m_sub_trees[i]->m_min.x),
-            (c.x - m_sub_trees[i]->m_max.x) * (c.x - m_sub_trees[i]->m_max.x));
-        auto dy_sq = std::min((c.y - m_sub_trees[i]->m_min.y) * (c.y - m_sub_trees[i]->m_min.y),
-            (c.y - m_sub_trees[i]->m_max.y) * (c.y - m_sub_trees[i]->m_max.y));
+        // compare range with distance to the closest point of the subtree's area (0 if we are inside of it)
+        auto dx = std::max({m_sub_trees[i]->m_min.x - c.x, c.x - m_sub_trees[i]->m_max.x, 0.0});
+        auto dy = std::max({m_sub_trees[i]->m_min.y - c.y, c.y - m_sub_trees[i]->m_max.y, 0.0});
+        auto dx_sq = dx * dx;
+        auto dy_sq = dy * dy;
         if (dx_sq + dy_sq <= range_sq) {
           auto subtree_points = m_sub_trees[i]->getPointsWithinRange(c, range);
           points.insert(points.end(), subtree_points.begin(), subtree_points.end());
-- 
2.43.0


From 431ed674791eab23cab826f2e7bf783c2ee398e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 02/67] fix: QuadTree recurses forever when more points than
 its capacity share one position

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index d7ee976..0b600bb 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -130,11 +130,17 @@ template<typename T>
 void QuadTree<T>::split() {
   assert(!m_is_divided);
 
-  m_is_divided = true;
   // expands to a square
   m_max.x = std::max(m_max.x, m_min.x + (m_max.y - m_min.y));
   m_max.y = std::max(m_max.y, m_min.y + (m_max.x - m_min.x));
 
+  // if all points share the same position, dividing would never separate them
+  if (getQuadrant(m_min) == getQuadrant(m_max)) {
+    return;
+  }
+
+  m_is_divided = true;
+
   for (auto& d : m_data) {
     add(d);
   }
-- 
2.43.0


From 48ac43e96f9fb7cdede6a1094d8e792154c046dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 03/67] fix: Reflect101 padding divides by zero on images one
 pixel wide or high

---
 SEFramework/SEFramework/Image/PaddedImage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEFramework/SEFramework/Image/PaddedImage.h b/SEFramework/SEFramework/Image/PaddedImage.h
index 85bd572..75a380f 100644
--- a/SEFramework/SEFramework/Image/PaddedImage.h
+++ b/SEFramework/SEFramework/Image/PaddedImage.h
@@ -58,6 +58,10 @@ inline int Reflect101Coordinates(int N, int v) {
   }
 
   int max = N - 1;
+  if (max == 0) {
+    // There is nothing else to reflect
+    return 0;
+  }
   v = std::abs(v);
   int offset = v % max;
   int ntimes = v / max;
-- 
2.43.0


From 6b4cc51e74c60c785211711af1eb7b6f7e6eb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 04/67] fix: WriteableBufferedImage keeps writing into an
 evicted tile

The tile kept from the previous setValue could have been evicted or flushed
from the tile manager in the meantime: what was written into it was invisible
to the readers, and lost if the tile was loaded and modified again.
---
 .../SEFramework/Image/WriteableBufferedImage.h      | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/SEFramework/SEFramework/Image/WriteableBufferedImage.h b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
index d5acb8b..578ff4e 100644
--- a/SEFramework/SEFramework/Image/WriteableBufferedImage.h
+++ b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
@@ -49,18 +49,15 @@ public:
   void setValue(int x, int y, T value) override {
     assert(x >= 0 && y >=0 && x < BufferedImage<T>::m_source->getWidth() && y < BufferedImage<T>::m_source->getHeight());
 
-    if (m_current_tile == nullptr || !m_current_tile->isPixelInTile(x, y)) {
-      m_current_tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
-    }
+    // Always ask the tile manager: a tile kept from a previous call may have been evicted in the meantime,
+    // in which case it is not the one seen by the readers, and what is written into it can be lost
+    auto tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
 
-    m_current_tile->setModified(true);
-    m_current_tile->setValue(x, y, value);
+    tile->setValue(x, y, value);
+    tile->setModified(true);
   }
 
   using BufferedImage<T>::getRepr;
-
-private:
-  mutable std::shared_ptr<ImageTile> m_current_tile;
 };
 
 }
-- 
2.43.0


From 739b953a78af340dc65f4f8c6ea98693d79bc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 05/67] fix: writes into a tile being saved by another thread
 can be lost

ImageTile::saveIfModified tested the flag, saved the tile, then cleared the
flag: a write done in between was marked as saved. The flag was also accessed
by several threads without synchronization.
---
 SEFramework/SEFramework/Image/ImageTile.h | 3 ++-
 SEFramework/src/lib/Image/ImageTile.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/SEFramework/SEFramework/Image/ImageTile.h b/SEFramework/SEFramework/Image/ImageTile.h
index 779725e..45823c7 100644
--- a/SEFramework/SEFramework/Image/ImageTile.h
+++ b/SEFramework/SEFramework/Image/ImageTile.h
@@ -23,6 +23,7 @@
 
 #ifndef _SEFRAMEWORK_IMAGE_IMAGETILE_H_
 #define _SEFRAMEWORK_IMAGE_IMAGETILE_H_
+#include <atomic>
 #include <iostream>
 #include "SEFramework/Image/Image.h"
 #include "SEFramework/Image/VectorImage.h"
@@ -147,7 +148,7 @@ protected:
   ImageTile& operator=(const ImageTile&) = delete;
   ImageTile& operator=(ImageTile&&) = delete;
 
-  bool m_modified;
+  std::atomic<bool> m_modified;
   ImageType m_image_type;
   std::shared_ptr<ImageSource> m_source;
   int m_x, m_y;
diff --git a/SEFramework/src/lib/Image/ImageTile.cpp b/SEFramework/src/lib/Image/ImageTile.cpp
index 7a74a9a..d44a6d9 100644
--- a/SEFramework/src/lib/Image/ImageTile.cpp
+++ b/SEFramework/src/lib/Image/ImageTile.cpp
@@ -38,9 +38,9 @@ std::shared_ptr<ImageTile> ImageTile::create(ImageType image_type, int x, int y,
 }
 
 void ImageTile::saveIfModified() {
-  if (isModified()) {
+  // The flag is reset before saving: what another thread writes while the tile is being saved marks it again
+  if (m_modified.exchange(false)) {
     m_source->saveTile(*this);
-    setModified(false);
   }
 }
 
-- 
2.43.0


From cad396406dc14f221e85685b8d77ab9762a28a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 06/67] fix: Prefetcher loses a source allocated at the address
 of one being sent downstream

The entry of a finished source was erased only after the next stage had
destroyed it: a source received meanwhile at the same address could not be
registered, was dropped, and the pipeline waited for it forever.
---
 SEImplementation/src/lib/Prefetcher/Prefetcher.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
index 42f6325..4afc684 100644
--- a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
+++ b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
@@ -117,11 +117,13 @@ void Prefetcher::outputLoop() {
       }
       // If it is, send it downstream
       logger.debug() << "Source " << next.m_source_addr << " sent downstream";
+      // Forget it first: as soon as it is destroyed downstream, a new source can be received at the same address
+      auto source = std::move(processed->second);
+      m_finished_sources.erase(processed);
       {
         ReverseLock<decltype(output_lock)> release_lock(output_lock);
-        sendSource(std::move(processed->second));
+        sendSource(std::move(source));
       }
-      m_finished_sources.erase(processed);
       m_received.pop_front();
       m_semaphore.release();
     }
-- 
2.43.0


From f2ea926343a06578cbb7f6e661c3d8e4d71be6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 07/67] fix: MultithreadedMeasurement::stopThreads can lose the
 last groups

The output thread was told that the input is over while groups were still
being measured. It asks the pool for the running and for the queued tasks
separately: a task taken by a worker in between is in neither number, so the
output thread could end before that group was measured.
---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index b29fdec..3f93b52 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -44,8 +44,9 @@ void MultithreadedMeasurement::startThreads() {
 }
 
 void MultithreadedMeasurement::stopThreads() {
-  m_input_done = true;
+  // Wait until all the groups are in the output queue before telling the output thread that nothing else will come
   m_thread_pool->block();
+  m_input_done = true;
   m_output_thread->join();
   logger.debug() << "All worker threads done!";
 }
-- 
2.43.0


From bcc74ea353784e9a4d06ec90e8c512ea17aa9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 08/67] fix: destroying a MultithreadedMeasurement that was
 never started dereferences a null pointer

---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index 3f93b52..f344b2c 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -34,7 +34,7 @@ static Elements::Logging logger = Elements::Logging::getLogger("Multithreading")
 
 
 MultithreadedMeasurement::~MultithreadedMeasurement() {
-  if (m_output_thread->joinable()) {
+  if (m_output_thread && m_output_thread->joinable()) {
     m_output_thread->join();
   }
 }
-- 
2.43.0


From 35f9c11330f6b39d5d5c6dba86b2a3ef7ed030e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 09/67] fix: aperture bounding boxes miss covered pixels

The minimum was truncated towards zero instead of rounded down, which loses
pixels for negative coordinates; a TransformedAperture always uses those, as it
asks for the box of the wrapped aperture around (0, 0). Its maximum was truncated
too, while the wrapped aperture rounds it up.
---
 SEFramework/src/lib/Aperture/CircularAperture.cpp    | 2 +-
 SEFramework/src/lib/Aperture/EllipticalAperture.cpp  | 2 +-
 SEFramework/src/lib/Aperture/TransformedAperture.cpp | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/CircularAperture.cpp b/SEFramework/src/lib/Aperture/CircularAperture.cpp
index ab5878b..610176b 100644
--- a/SEFramework/src/lib/Aperture/CircularAperture.cpp
+++ b/SEFramework/src/lib/Aperture/CircularAperture.cpp
@@ -77,7 +77,7 @@ SeFloat CircularAperture::getRadiusSquared(SeFloat center_x, SeFloat center_y, S
 }
 
 PixelCoordinate CircularAperture::getMinPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-  return PixelCoordinate(centroid_x - m_radius, centroid_y - m_radius);
+  return PixelCoordinate(std::floor(centroid_x - m_radius), std::floor(centroid_y - m_radius));
 }
 
 PixelCoordinate CircularAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
index 22928bb..dbe43ef 100644
--- a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
+++ b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
@@ -78,7 +78,7 @@ PixelCoordinate EllipticalAperture::getMinPixel(SeFloat centroid_x, SeFloat cent
   dy = m_rad_max * std::sqrt(1.0 / (m_cyy - m_cxy * m_cxy / (4.0 * m_cxx)));
 
   // return the absolute values
-  return PixelCoordinate(centroid_x - dx, centroid_y - dy);
+  return PixelCoordinate(std::floor(centroid_x - dx), std::floor(centroid_y - dy));
 }
 
 PixelCoordinate EllipticalAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/TransformedAperture.cpp b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
index d88f5b8..0a47962 100644
--- a/SEFramework/src/lib/Aperture/TransformedAperture.cpp
+++ b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
@@ -23,6 +23,7 @@
 
 #include "SEFramework/Aperture/TransformedAperture.h"
 #include <algorithm>
+#include <cmath>
 
 namespace SourceXtractor {
 
@@ -62,7 +63,7 @@ PixelCoordinate TransformedAperture::getMinPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::min({a.first, b.first, c.first, d.first});
   auto min_y = std::min({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::floor(x + min_x), std::floor(y + min_y));
 }
 
 PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
@@ -77,7 +78,7 @@ PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::max({a.first, b.first, c.first, d.first});
   auto min_y = std::max({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::ceil(x + min_x), std::ceil(y + min_y));
 }
 
 SeFloat TransformedAperture::getArea(SeFloat center_x, SeFloat center_y, SeFloat pixel_x, SeFloat pixel_y) const {
-- 
2.43.0


From 85d66835692435c193a0bd05a84e33bb87690f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 10/67] fix: a bad pixel mirrored just off the frame took the
 value of the edge pixel

---
 SEFramework/src/lib/Aperture/FluxMeasurement.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
index e64fef6..9909d46 100644
--- a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
+++ b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
@@ -21,6 +21,7 @@
  *      Author: Alejandro Alvarez
  */
 
+#include <cmath>
 #include "SEFramework/Aperture/FluxMeasurement.h"
 #include "SEFramework/Image/ImageChunk.h"
 
@@ -36,8 +37,9 @@ getMirrorPixel(SeFloat centroid_x, SeFloat centroid_y,
                SeFloat variance_threshold) {
   centroid_x -= min_pixel.m_x;
   centroid_y -= min_pixel.m_y;
-  auto mirror_x = 2 * centroid_x - pixel_x + 0.49999;
-  auto mirror_y = 2 * centroid_y - pixel_y + 0.49999;
+  // round down: truncation would take a position just off the frame for the pixel at its edge
+  int mirror_x = std::floor(2 * centroid_x - pixel_x + 0.49999);
+  int mirror_y = std::floor(2 * centroid_y - pixel_y + 0.49999);
   if (img.isInside(mirror_x, mirror_y)) {
     auto variance_tmp = variance_map.getValue(mirror_x, mirror_y);
     if (variance_tmp < variance_threshold) {
-- 
2.43.0


From 80ba4cf07f0f322f0300dc80fa98dcc906bdca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 11/67] fix: AssocGrouping put all the sources without a group
 id in one group

AssocCriteria, which it replaces, never groups them.
---
 SEImplementation/src/lib/Grouping/AssocGrouping.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEImplementation/src/lib/Grouping/AssocGrouping.cpp b/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
index ce80b81..66c6e4a 100644
--- a/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
+++ b/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
@@ -33,6 +33,14 @@ std::set<PropertyId> AssocGrouping::requiredProperties() const {
 void AssocGrouping::receiveSource(std::unique_ptr<SourceInterface> source) {
   auto source_id = source->getProperty<AssocMode>().getGroupId();
 
+  // Sources without a group id are not grouped (see AssocCriteria)
+  if (source_id == 0) {
+    auto new_group = m_group_factory->createSourceGroup();
+    new_group->addSource(std::move(source));
+    sendSource(std::move(new_group));
+    return;
+  }
+
   if (m_source_groups.find(source_id) == m_source_groups.end()) {
     auto new_group = m_group_factory->createSourceGroup();
     m_source_groups[source_id] = std::move(new_group);
-- 
2.43.0


From f2b153f6b51c7da97fd34744115eb7413c42809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 12/67] fix: BFS segmentation published the rest of an
 oversized source as other sources

---
 .../src/lib/Segmentation/BFSSegmentation.cpp          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
index 8ca5a4b..2ac5997 100644
--- a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
+++ b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
@@ -85,11 +85,6 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     maxPixel.m_x = std::max(maxPixel.m_x, pixel.m_x);
     maxPixel.m_y = std::max(maxPixel.m_y, pixel.m_y);
 
-    if (maxPixel.m_x - minPixel.m_x > m_max_delta || maxPixel.m_y - minPixel.m_y > m_max_delta) {
-      // The source extends over a too large area, ignore it
-      return;
-    }
-
     for (auto& offset : offsets) {
       auto new_pixel = pixel + offset;
 
@@ -100,6 +95,12 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     }
   }
 
+  if (maxPixel.m_x - minPixel.m_x > m_max_delta || maxPixel.m_y - minPixel.m_y > m_max_delta) {
+    // The source extends over a too large area, ignore it. It had to be followed to its end, otherwise what is left
+    // of it would be found again and published as if it were other sources
+    return;
+  }
+
   auto source = m_source_factory->createSource();
   source->setProperty<PixelCoordinateList>(source_pixels);
   source->setProperty<SourceId>();
-- 
2.43.0


From bab7f85148b9734e11dc6f9c14c4f9f83788d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 13/67] fix: observers of an EngineParameter saw the previous
 engine value when its world value was set

---
 ModelFitting/src/lib/Parameters/EngineParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/EngineParameter.cpp b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
index d3d8bed..3fc1928 100644
--- a/ModelFitting/src/lib/Parameters/EngineParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
@@ -37,8 +37,8 @@ double EngineParameter::getEngineToWorldDerivative() const {
 }
 
 void EngineParameter::setValue(const double value) {
-  BasicParameter::setValue(value);
   m_engine_value = m_converter->worldToEngine(value);
+  BasicParameter::setValue(value);
 }
 
 
-- 
2.43.0


From 2240d135d71b2fb5d90eb07e4e81a8f8e533568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 14/67] fix: a dependent parameter kept an outdated value after
 its first observer was added

---
 ModelFitting/src/lib/Parameters/BasicParameter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ModelFitting/src/lib/Parameters/BasicParameter.cpp b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
index 48bd97e..299ac1b 100644
--- a/ModelFitting/src/lib/Parameters/BasicParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
@@ -37,6 +37,11 @@ void BasicParameter::setValue(const double new_value) {
 }
 
 std::size_t BasicParameter::addObserver(ParameterObserver observer) {
+  if (!isObserved()) {
+    // A parameter without observers may compute its value only when it is asked for: make sure it is up to date,
+    // as from now on it is only updated when its inputs change
+    getValue();
+  }
   m_last_obs_id += 1;
   m_observer_map.emplace(m_last_obs_id, std::move(observer));
   return m_last_obs_id;
-- 
2.43.0


From e91e82eaade3f6df51d08d820b7766f1bc222878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 15/67] fix: a destroyed dependent parameter was still called
 when its inputs changed

---
 .../ModelFitting/Parameters/DependentParameter.h   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index c759a11..c5e1650 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -65,7 +65,12 @@ public:
     //m_get_value_hook = std::bind(&DependentParameter::getValueHook, this);
   }
 
-  virtual ~DependentParameter() = default;
+  virtual ~DependentParameter() {
+    // The input parameters may live longer, they must not call back
+    for (int i = 0; i < PARAM_NO; ++i) {
+      (*m_params)[i]->removeObserver(m_observer_ids[i]);
+    }
+  }
 
   double getValue() const override {
     if (!this->isObserved()) {
@@ -82,6 +87,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // Identifiers of the observers added to the input parameters
+  std::array<std::size_t, PARAM_NO> m_observer_ids;
+
   /* The two following methods represent the mechanism to loop over
    * the arbitrary number of variadic elements, the first one is called
    * as long as there is more than one elements in the list and the
@@ -117,8 +125,8 @@ private:
   }
 
   template<typename Param>
-  void addParameterObserver(int, Param& param) {
-    param->addObserver([this](double){
+  void addParameterObserver(int i, Param& param) {
+    m_observer_ids[i] = param->addObserver([this](double){
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
-- 
2.43.0


From 2110926a23d35e2ca4a4e1f4aff368376864474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 16/67] fix: registering an engine under a name differing in
 case only silently replaced the first one

---
 ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp b/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp
index c57dc69..59517a0 100644
--- a/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp
+++ b/ModelFitting/src/lib/Engine/LeastSquareEngineManager.cpp
@@ -35,10 +35,12 @@ static std::map<std::string, LeastSquareEngineManager::FactoryMethod>& getEngine
 
 
 void LeastSquareEngineManager::registerEngine(const std::string& name, FactoryMethod factory_method) {
-  if (getEngineFactories().find(name) != getEngineFactories().end()) {
+  // Engine names are case insensitive, see create
+  auto key = boost::algorithm::to_lower_copy(name);
+  if (getEngineFactories().find(key) != getEngineFactories().end()) {
     throw Elements::Exception() << "A LeastSquareEngine named " << name << " has already been registered";
   }
-  getEngineFactories()[boost::algorithm::to_lower_copy(name)] = factory_method;
+  getEngineFactories()[key] = factory_method;
 }
 
 std::vector<std::string> LeastSquareEngineManager::getImplementations() {
-- 
2.43.0


From fa6c5a1da1cef16797633e862604c2435bbf3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 17/67] fix: a moved RotatedModelComponent did not follow its
 angle, and the destructor of the other one crashed

---
 ModelFitting/src/lib/Models/RotatedModelComponent.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
index 5714cf9..7b8c80a 100644
--- a/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/RotatedModelComponent.cpp
@@ -40,9 +40,13 @@ RotatedModelComponent::RotatedModelComponent(std::unique_ptr<ModelComponent> com
 
 RotatedModelComponent::RotatedModelComponent(RotatedModelComponent&& other)
         : m_component {std::move(other.m_component)},
-          m_rotation_angle{std::move(other.m_rotation_angle)},
-          m_cos{other.m_cos}, m_sin{other.m_sin},
-          m_observer_id (other.m_observer_id) {
+          m_rotation_angle{other.m_rotation_angle},
+          m_cos{other.m_cos}, m_sin{other.m_sin} {
+  // The observer of the other component updates the other one, and is removed by its destructor
+  m_observer_id = m_rotation_angle->addObserver([this](double v){
+    m_cos = std::cos(v);
+    m_sin = std::sin(v);
+  });
 }
 
 RotatedModelComponent::~RotatedModelComponent() {
-- 
2.43.0


From e9c6524d19f295c9be1c1a8ddf97e6b4b41cbd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 18/67] fix: a moved TransformModelComponent lost its component

---
 ModelFitting/src/lib/Models/TransformModelComponent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Models/TransformModelComponent.cpp b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
index fa87b81..3eecc14 100644
--- a/ModelFitting/src/lib/Models/TransformModelComponent.cpp
+++ b/ModelFitting/src/lib/Models/TransformModelComponent.cpp
@@ -46,7 +46,8 @@ TransformModelComponent::TransformModelComponent(
   assert(m_transform[2] * m_inv_transform[1] + m_transform[3] * m_inv_transform[3] >= 1 - 1e-8);
 }
 
-TransformModelComponent::TransformModelComponent(TransformModelComponent&& other) {
+TransformModelComponent::TransformModelComponent(TransformModelComponent&& other)
+    : m_component(std::move(other.m_component)) {
   for (int i = 0; i < 4; i++) {
     m_transform[i] = other.m_transform[i];
     m_inv_transform[i] = other.m_inv_transform[i];
-- 
2.43.0


From f7d37816a75437bda52135b10f6fcfec54bb9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 19/67] fix: sharp samples just left of or above a model raster
 were added to its first column or row

---
 ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp b/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp
index 2543beb..7494832 100644
--- a/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp
+++ b/ModelFitting/ModelFitting/Models/_impl/ExtendedModel.icpp
@@ -41,8 +41,8 @@ namespace _impl {
     ssize_t size_x = Traits::width(image);
     ssize_t size_y = Traits::height(image);
     for (auto& sample : component.getSharpSampling()) {
-      ssize_t image_x = std::get<0>(sample) / pixel_scale + size_x / 2.;
-      ssize_t image_y = std::get<1>(sample) / pixel_scale + size_y / 2.;
+      ssize_t image_x = std::floor(std::get<0>(sample) / pixel_scale + size_x / 2.);
+      ssize_t image_y = std::floor(std::get<1>(sample) / pixel_scale + size_y / 2.);
       if (image_x >= 0 && image_x < size_x && image_y >= 0 && image_y < size_y) {
         Traits::at(image, image_x, image_y) += std::get<2>(sample);
       }
-- 
2.43.0


From b336ebc44a0c2c774ba9809914a1c3da8bf7988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 20/67] fix: do not read outside of the image when the median
 filter box is clipped on both sides

---
 .../SEImplementation/Background/SE/MedianFilter.h         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
index 28b463d..be05d1b 100644
--- a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
+++ b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
@@ -20,6 +20,7 @@
 
 #include "SEFramework/Image/VectorImage.h"
 #include "SEFramework/Image/WriteableImage.h"
+#include <algorithm>
 #include <array>
 
 namespace SourceXtractor {
@@ -125,12 +126,7 @@ private:
    *    As many pixels as could be read safely from the image, up to box_size
    */
   static int clip(int position, int box_size, int image_size) {
-    box_size /= 2;
-    if (box_size > position)
-      return position;
-    if (box_size > image_size - position - 1)
-      return image_size - position - 1;
-    return box_size;
+    return std::min(box_size / 2, std::min(position, image_size - position - 1));
   }
 
   /**
-- 
2.43.0


From 6089e4a94979697f9726cf49d0e2ec9cebdf038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 21/67] fix: do not read before the list of ratios when no cell
 can be used for the scaling

---
 .../src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
index 3c5edac..51613c2 100644
--- a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
+++ b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
@@ -59,6 +59,11 @@ static float computeScaling(const std::shared_ptr<VectorImage<DetectionImage::Pi
     }
   }
 
+  // Without a single usable cell there is nothing to compare the weights to
+  if (ratios.empty()) {
+    return 1.f;
+  }
+
   std::sort(ratios.begin(), ratios.end());
   if (ratios.size() % 2 == 1) {
     return ratios[ratios.size() / 2];
-- 
2.43.0


From 78adff2129eb224a026f4a8d767967a31d6627e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 22/67] fix: the attractors partition read the pixel values at
 a displaced position, as the stamp is larger than the bounding box

---
 .../src/lib/Partition/AttractorsPartitionStep.cpp         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index f5eb987..6979785 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -34,18 +34,20 @@ namespace SourceXtractor {
 
 std::vector<std::unique_ptr<SourceInterface>> AttractorsPartitionStep::partition(std::unique_ptr<SourceInterface> source) const {
   using Accessor = ImageAccessor<DetectionImage::PixelType>;
-  Accessor stamp(source->getProperty<DetectionFrameSourceStamp>().getStamp());
+  auto& source_stamp = source->getProperty<DetectionFrameSourceStamp>();
+  Accessor stamp(source_stamp.getStamp());
+  auto stamp_offset = source_stamp.getTopLeft(); // the stamp is larger than the bounding box
   auto& detection_frame = source->getProperty<DetectionFrame>();
   auto& bounds = source->getProperty<PixelBoundaries>();
 
   auto bbox_min = bounds.getMin();
   auto bbox_max = bounds.getMax();
 
-  auto value_function = [bbox_min, bbox_max, &stamp](PixelCoordinate coord) {
+  auto value_function = [bbox_min, bbox_max, stamp_offset, &stamp](PixelCoordinate coord) {
     if (coord.m_x < bbox_min.m_x || coord.m_x > bbox_max.m_x || coord.m_y < bbox_min.m_y || coord.m_y > bbox_max.m_y) {
       return std::numeric_limits<DetectionImage::PixelType>::lowest();
     }
-    auto offset_coord = coord - bbox_min;
+    auto offset_coord = coord - stamp_offset;
     return stamp.getValue(offset_coord.m_x, offset_coord.m_y);
   };
 
-- 
2.43.0


From 3a5070e1e7b7ffc28806c6beb795fedb70cab5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 23/67] fix: no peak was found among pixels that are all zero
 or negative

---
 .../SEImplementation/Plugin/PeakValue/PeakValueTask.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
index 1dc7342..f270200 100644
--- a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
+++ b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
@@ -43,7 +43,7 @@ public:
 
     auto& coordinates = source.getProperty<PixelCoordinateList>().getCoordinateList();
 
-    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::min();
+    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::lowest();
     DetectionImage::PixelType min_value = std::numeric_limits<DetectionImage::PixelType>::max();
 
     unsigned int index=0;
-- 
2.43.0


From 577cb5352e187e3c6cc6287d60cb91673d4da232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 24/67] fix: a source into which others are merged by the
 cleaning lost its detection identifier

---
 SEImplementation/src/lib/Deblending/Cleaning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Deblending/Cleaning.cpp b/SEImplementation/src/lib/Deblending/Cleaning.cpp
index 94d8456..5d83b3f 100644
--- a/SEImplementation/src/lib/Deblending/Cleaning.cpp
+++ b/SEImplementation/src/lib/Deblending/Cleaning.cpp
@@ -160,7 +160,7 @@ std::unique_ptr<SourceInterface> Cleaning::mergeSources(SourceInterface& parent,
   auto new_source = m_source_factory->createSource();
   new_source->setProperty<PixelCoordinateList>(pixel_list);
   new_source->setProperty<DetectionFrame>(parent.getProperty<DetectionFrame>().getEncapsulatedFrame());
-  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getSourceId());
+  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getDetectionId());
 
   return new_source;
 }
-- 
2.43.0


From eb904ac4bb1c375cf11988c5e4d807a4f9ade0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:07 +0000
Subject: [PATCH 25/67] fix: sources elongated along the falling diagonal with
 equal moments were reported along the rising one

---
 .../src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
index 2ba368d..77c35ea 100644
--- a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
@@ -76,7 +76,7 @@ void ShapeParametersTask::computeProperties(SourceInterface& source) const {
   if (fabs(x_2 - y_2) > 0.0) {
     theta = atan2(2.0 * x_y, x_2 - y_2) / 2.0;
   } else {
-    theta = M_PI/4.0;
+    theta = x_y < 0.0 ? -M_PI/4.0 : M_PI/4.0;
   }
 
   float temp = x_2 - y_2;
-- 
2.43.0


From a3015d553be2aea6fe3a09bc44aa195837b1a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:07 +0000
Subject: [PATCH 26/67] fix: flags that include SATURATED could not be printed

---
 SEFramework/SEFramework/Source/SourceFlags.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Source/SourceFlags.h b/SEFramework/SEFramework/Source/SourceFlags.h
index 31870cc..c0467e3 100644
--- a/SEFramework/SEFramework/Source/SourceFlags.h
+++ b/SEFramework/SEFramework/Source/SourceFlags.h
@@ -56,6 +56,7 @@ const std::map<Flags, std::string> FlagsStr = {
   {Flags::NONE, "NONE"},
   {Flags::BIASED, "BIASED"},
   {Flags::BLENDED, "BLENDED"},
+  {Flags::SATURATED, "SATURATED"},
   {Flags::BOUNDARY, "BOUNDARY"},
   {Flags::NEIGHBORS, "NEIGHBORS"},
   {Flags::OUTSIDE, "OUTSIDE"},
-- 
2.43.0


From 534edb6457303be72f58eaccf2b16ef93172ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 27/67] fix: VariablePsf refuses negative component groups and
 numbers the polynomial terms correctly when the first group has degree 0

---
 SEFramework/src/lib/Psf/VariablePsf.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/SEFramework/src/lib/Psf/VariablePsf.cpp b/SEFramework/src/lib/Psf/VariablePsf.cpp
index c8367c3..df86997 100644
--- a/SEFramework/src/lib/Psf/VariablePsf.cpp
+++ b/SEFramework/src/lib/Psf/VariablePsf.cpp
@@ -98,7 +98,7 @@ void VariablePsf::selfTest() {
   // Pre-condition: There is a degree value per unique group
   std::vector<int> n_component_per_group(m_group_degrees.size());
   for (auto& component : m_components) {
-    if (component.group_id >= (int) m_group_degrees.size()) {
+    if (component.group_id < 0 || component.group_id >= (int) m_group_degrees.size()) {
       throw Elements::Exception() << "Component group out of range for " << component.name;
     }
     ++n_component_per_group[component.group_id];
@@ -157,13 +157,9 @@ void VariablePsf::calculateExponents() {
 
   // Constant
   m_exponents[0].resize(m_components.size());
-  --group_exponents[m_components[0].group_id];
 
   // Polynomial
-  exp[0] = 1;
   for (auto e = m_exponents.begin() + 1; e != m_exponents.end(); ++e) {
-    *e = exp;
-
     size_t ei = 0;
     for (auto component : m_components) {
       if (group_exponents[component.group_id] > 0) {
@@ -176,6 +172,7 @@ void VariablePsf::calculateExponents() {
         exp[ei++] = 0;
       }
     }
+    *e = exp;
   }
 }
 
-- 
2.43.0


From 74a158e1f70fda7baccf39d7cb683764d552f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 28/67] fix: refuse a PSFEx file whose PSF data are shorter
 than its header announces

---
 SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
index 462835f..f5df739 100644
--- a/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp
@@ -103,6 +103,10 @@ static std::shared_ptr<VariablePsf> readPsfEx(std::unique_ptr<CCfits::FITS> &pFi
 
     std::vector<std::valarray<SeFloat>> all_data;
     psf_data.column("PSF_MASK").readArrays(all_data, 0, 0);
+    if (n_coeffs < 0 || all_data.empty() || all_data[0].size() < static_cast<std::size_t>(n_coeffs) * n_pixels) {
+      throw Elements::Exception() << "The PSFEX file has less data than " << n_coeffs << " coefficients of "
+                                  << width << 'X' << height;
+    }
     auto& raw_coeff_data = all_data[0];
 
     std::vector<std::shared_ptr<VectorImage<SeFloat>>> coefficients(n_coeffs);
-- 
2.43.0


From 60ae1bcde21b4c030b27ea55b8c73b6c9c37c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 29/67] fix: the vignet read the detection image outside of its
 bounds

---
 SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
index 15ab07c..ff621a7 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
@@ -86,7 +86,8 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
       int detection_y = static_cast<int>(detection_coord.m_y + 0.5);
 
       bool is_masked = measurement_var_image->getValue(ix, iy) > measurement_var_threshold;
-      bool is_detection_pixel = detection_thresh_image->getValue(detection_x, detection_y) > 0;
+      bool is_detection_pixel = detection_thresh_image->isInside(detection_x, detection_y) &&
+                                detection_thresh_image->getValue(detection_x, detection_y) > 0;
 
       if (!is_masked && (!is_detection_pixel || pixel_coords.contains({detection_x, detection_y}))) {
         vignet_vector[index] = measurement_sub_image->getValue(ix, iy);
-- 
2.43.0


From 9c966ec580db82a2406926957eff2fe939a6ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 30/67] fix: check images of the other detection frames had the
 size and coordinates of the first

---
 SEImplementation/src/lib/CheckImages/CheckImages.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/CheckImages/CheckImages.cpp b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
index e047002..9271f29 100644
--- a/SEImplementation/src/lib/CheckImages/CheckImages.cpp
+++ b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
@@ -109,8 +109,8 @@ void CheckImages::configure(Euclid::Configuration::ConfigManager& manager) {
   m_check_image_ml_detection.resize(detection_images_nb);
 
   for (size_t i = 0; i < detection_images_nb; i++) {
-    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage();
-    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem();
+    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage(i);
+    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem(i);
 
     m_detection_images.emplace_back(detection_image);
     m_coordinate_systems.emplace_back(coordinate_system);
-- 
2.43.0


From e6d67e8d37d648a677e6babc036c8b18e2dcdbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 31/67] fix: the parameter of a constant model was never
 registered

---
 .../python/sourcextractor/config/model_fitting.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 8b8a304..01db25a 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -530,9 +530,9 @@ class ConstantModel(ModelBase):
             return 'ConstantModel[value={}]'.format(self.value)
         else:
             return 'ConstantModel[value={}]'.format(self.value.id)
-        
-        def get_params(self):
-            return [self.value]
+
+    def get_params(self):
+        return [self.value]
 
 
 class SersicModelBase(CoordinateModelBase):
-- 
2.43.0


From 9e53f3193f74cf0af6451cb30000db7e1c3e75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 32/67] fix: the minor axis of the world parameters was not
 perpendicular to the major axis

---
 .../python/sourcextractor/config/model_fitting.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 01db25a..bd03607 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -996,14 +996,14 @@ def get_world_parameters(x, y, radius, angle, ratio):
             x2 = x + math.cos(angle) * radius
             y2 = y + math.sin(angle) * radius
         else:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
 
         return x2, y2
 
     def get_minor_axis(x, y, radius, angle, ratio):
         if ratio <= 1:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
         else:
             x2 = x + math.cos(angle) * radius
-- 
2.43.0


From 1a318b46542232008baefb8b909dd180cad816a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 33/67] fix: only the first parameter of an output column was
 registered

---
 .../python/sourcextractor/config/measurement_config.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index c275634..5c35d7c 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -416,7 +416,8 @@ class MeasurementConfig:
                 self._column_map[base].append((name, params))
                 known_subclass = True
         if issubclass(param_type, ParameterBase):
-            self.model_fitting._register_parameter(params[0])
+            for param in params:
+                self.model_fitting._register_parameter(param)
 
         if not known_subclass:
             raise TypeError('{} is not a known column type'.format(str(param_type)))
-- 
2.43.0


From e72d1bc39dd479314425b881bb7ecdec20a969eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 34/67] fix: iterative model fitting lost the flags of sources
 it could not fit

---
 .../FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 1e99d9e..6b6ddce 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -730,6 +730,7 @@ void FlexibleModelFittingIterativeTask::fitSource(SourceGroupInterface& group, S
 
   // Do not run the model fitting for the flags above
   if (flags != Flags::NONE) {
+    state.source_states[index].flags = flags;
     return;
   }
 
-- 
2.43.0


From 871010f8061a334c5b442cbb1aa3533c4ba1ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 35/67] fix: parameters were left at the last evaluation of the
 GSL engine instead of at its solution

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index 4d31f10..85341ae 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -197,6 +197,9 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   auto end     = std::chrono::steady_clock::now();
   std::chrono::duration<float> elapsed = end - start;
 
+  // The last evaluation may have been a trial step or a finite difference
+  parameter_manager.updateEngineValues(GslVectorConstIterator{gsl_multifit_nlinear_position(workspace)});
+
   // Final cost
   double chisq;
   gsl_blas_ddot(residual, residual, &chisq);
-- 
2.43.0


From f17d53133307d5e1b5cffd39a9870a71cefe51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 36/67] fix: parameters starting within rounding noise of the
 middle of their range were never fitted

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index 85341ae..4ce9f57 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -25,6 +25,7 @@
 #include <ElementsKernel/Exception.h>
 #include <array>
 #include <chrono>
+#include <cmath>
 #include <gsl/gsl_blas.h>
 #include <gsl/gsl_multifit_nlinear.h>
 #include <iostream>
@@ -154,6 +155,13 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   // Allocate space for the parameters and initialize with the guesses
   std::vector<double> param_values(parameter_manager.numberOfParameters());
   parameter_manager.getEngineValues(param_values.begin());
+  // The step of the finite differences is proportional to the value of the parameter unless it is exactly zero:
+  // rounding noise around zero (i.e. in the middle of a range) would make the step, and the derivative, vanish
+  for (auto& value : param_values) {
+    if (std::abs(value) < 1e-10) {
+      value = 0.;
+    }
+  }
   gsl_vector_view gsl_param_view = gsl_vector_view_array(param_values.data(), param_values.size());
 
   // Function to be minimized
-- 
2.43.0


From 1929f11825f6b08cd577dfe0649281c0f5d2dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 37/67] fix: derivatives of the GSL engine vanished for
 parameters close to the middle of their range

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp | 40 +++++++++++++++--------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index 4ce9f57..f982509 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -23,6 +23,7 @@
 #include "ModelFitting/Engine/GSLEngine.h"
 #include "ModelFitting/Engine/LeastSquareEngineManager.h"
 #include <ElementsKernel/Exception.h>
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <cmath>
@@ -120,7 +121,7 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
                                            ModelFitting::ResidualEstimator& residual_estimator) {
   // Create a tuple which keeps the references to the given manager and estimator
   // If we capture, we can not use the lambda for the function pointer
-  auto adata = std::tie(parameter_manager, residual_estimator);
+  auto adata = std::tie(parameter_manager, residual_estimator, m_delta);
 
   // Only type supported by GSL
   const gsl_multifit_nlinear_type *type = gsl_multifit_nlinear_trust;
@@ -138,10 +139,6 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   params.scale = gsl_multifit_nlinear_scale_levenberg;
   // Others work too, but this one is faster
   params.solver = gsl_multifit_nlinear_solver_cholesky;
-  // This is the default, and requires half the operations than GSL_MULTIFIT_NLINEAR_CTRDIFF
-  params.fdtype = GSL_MULTIFIT_NLINEAR_FWDIFF;
-  // Passed via constructor
-  params.h_df = m_delta;
 
   // Allocate the workspace for the resolver. It may return null if there is no memory.
   gsl_multifit_nlinear_workspace *workspace = gsl_multifit_nlinear_alloc(
@@ -155,13 +152,6 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   // Allocate space for the parameters and initialize with the guesses
   std::vector<double> param_values(parameter_manager.numberOfParameters());
   parameter_manager.getEngineValues(param_values.begin());
-  // The step of the finite differences is proportional to the value of the parameter unless it is exactly zero:
-  // rounding noise around zero (i.e. in the middle of a range) would make the step, and the derivative, vanish
-  for (auto& value : param_values) {
-    if (std::abs(value) < 1e-10) {
-      value = 0.;
-    }
-  }
   gsl_vector_view gsl_param_view = gsl_vector_view_array(param_values.data(), param_values.size());
 
   // Function to be minimized
@@ -173,9 +163,33 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
     re.populateResiduals(GslVectorIterator{f});
     return GSL_SUCCESS;
   };
+  // Jacobian, by forward differences. The steps GSL would use are proportional to the values of the parameters, so they
+  // vanish for any parameter close to the middle of its range. These are the steps Levmar uses.
+  auto jacobian = [](const gsl_vector *x, void *extra, gsl_matrix *J) -> int {
+    auto *extra_ptr = (decltype(adata) *) extra;
+    EngineParameterManager& pm = std::get<0>(*extra_ptr);
+    ResidualEstimator& re = std::get<1>(*extra_ptr);
+    std::vector<double> values(J->size2), residuals(J->size1), shifted_residuals(J->size1);
+    for (size_t j = 0; j < J->size2; ++j) {
+      values[j] = gsl_vector_get(x, j);
+    }
+    pm.updateEngineValues(values.begin());
+    re.populateResiduals(residuals.begin());
+    for (size_t j = 0; j < J->size2; ++j) {
+      double step = std::get<2>(*extra_ptr) * std::max(std::abs(values[j]), 1.);
+      values[j] += step;
+      pm.updateEngineValues(values.begin());
+      re.populateResiduals(shifted_residuals.begin());
+      for (size_t i = 0; i < J->size1; ++i) {
+        gsl_matrix_set(J, i, j, (shifted_residuals[i] - residuals[i]) / step);
+      }
+      values[j] = gsl_vector_get(x, j);
+    }
+    return GSL_SUCCESS;
+  };
   gsl_multifit_nlinear_fdf fdf;
   fdf.f = function;
-  fdf.df = nullptr;
+  fdf.df = jacobian;
   fdf.fvv = nullptr;
   fdf.n = residual_estimator.numberOfResiduals();
   fdf.p = parameter_manager.numberOfParameters();
-- 
2.43.0


From e81564ecf38cb9a6c68ea00eb4308d3e1ca7f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 38/67] fix: model fitting counted masked pixels as good pixels

---
 .../FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp | 3 ++-
 .../Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 6b6ddce..28c2ac9 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -301,6 +301,7 @@ std::shared_ptr<VectorImage<SeFloat>> FlexibleModelFittingIterativeTask::createW
   const auto& frame_info = source.getProperty<MeasurementFrameInfo>(frame_index);
   SeFloat gain = frame_info.getGain();
   SeFloat saturation = frame_info.getSaturation();
+  SeFloat variance_threshold = frame_info.getVarianceThreshold();
 
   auto unclipped_rect = getUnclippedFittingRect(source, frame_index);
   auto rect = clipFittingRect(unclipped_rect, source, frame_index);
@@ -343,7 +344,7 @@ std::shared_ptr<VectorImage<SeFloat>> FlexibleModelFittingIterativeTask::createW
       auto dx = x + rect.getTopLeft().m_x - ellipse.m_x;
       auto dy = y + rect.getTopLeft().m_y - ellipse.m_y;
 
-      if (saturation > 0 && pixel_val > saturation) {
+      if (!(back_var < variance_threshold) || (saturation > 0 && pixel_val > saturation)) {
         weight->at(x, y) = 0;
       } else if (gain > 0.0 && pixel_val > 0.0) {
         weight->at(x, y) = sqrt(1.0 / (back_var + pixel_val / gain));
diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp
index 4c6555c..0a27d79 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp
@@ -101,6 +101,7 @@ std::shared_ptr<VectorImage<SeFloat>> FlexibleModelFittingTask::createWeightImag
   const auto& frame_info = group.begin()->getProperty<MeasurementFrameInfo>(frame_index);
   SeFloat gain = frame_info.getGain();
   SeFloat saturation = frame_info.getSaturation();
+  SeFloat variance_threshold = frame_info.getVarianceThreshold();
 
   auto rect = group.getProperty<MeasurementFrameGroupRectangle>(frame_index);
   auto weight = VectorImage<SeFloat>::create(rect.getWidth(), rect.getHeight());
@@ -109,7 +110,7 @@ std::shared_ptr<VectorImage<SeFloat>> FlexibleModelFittingTask::createWeightImag
     for (int x = 0; x < rect.getWidth(); x++) {
       auto back_var = variance_map->getValue(rect.getTopLeft().m_x + x, rect.getTopLeft().m_y + y);
       auto pixel_val = frame_image->getValue(rect.getTopLeft().m_x + x, rect.getTopLeft().m_y + y);
-      if (saturation > 0 && pixel_val > saturation) {
+      if (!(back_var < variance_threshold) || (saturation > 0 && pixel_val > saturation)) {
         weight->at(x, y) = 0;
       }
       else if (gain > 0.0 && pixel_val > 0.0) {
-- 
2.43.0


From f6ff75953b47b6234db04a4cf59ac96a9a222120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 39/67] fix: iterative model fitting asserted on sources
 outside of a measurement frame

---
 .../FlexibleModelFittingIterativeTask.cpp                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 28c2ac9..29aad52 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -131,6 +131,10 @@ PixelRectangle FlexibleModelFittingIterativeTask::getUnclippedFittingRect(Source
 
 PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle fitting_rect,
     SourceInterface& source, int frame_index) const {
+  if (fitting_rect.getWidth() <= 0 || fitting_rect.getHeight() <= 0) {
+    return PixelRectangle();
+  }
+
   const auto& frame_info = source.getProperty<MeasurementFrameInfo>(frame_index);
 
   auto min = fitting_rect.getTopLeft();
@@ -142,6 +146,10 @@ PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle
   max.m_x = std::min(max.m_x, frame_info.getWidth() - 1);
   max.m_y = std::min(max.m_y, frame_info.getHeight() - 1);
 
+  if (min.m_x > max.m_x || min.m_y > max.m_y) {
+    return PixelRectangle();
+  }
+
   return PixelRectangle(min, max);
 }
 
-- 
2.43.0


From 6c4c748bd7f8faadf0e482da6948f50eb89f34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 40/67] fix: check images of iterative model fitting drew the
 models of sources that were not fitted

---
 .../FlexibleModelFittingIterativeTask.cpp                  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 29aad52..818d2c3 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -805,7 +805,14 @@ void FlexibleModelFittingIterativeTask::updateCheckImages(SourceGroupInterface&
     index++;
   }
 
+  index = 0;
   for (auto& src : group) {
+    // There is no model to draw for the sources that could not be fitted
+    auto& source_state = state.source_states[index++];
+    if ((source_state.flags & (Flags::OUTSIDE | Flags::INSUFFICIENT_DATA)) != Flags::NONE) {
+      continue;
+    }
+
     for (auto frame : m_frames) {
       int frame_index = frame->getFrameNb();
 
-- 
2.43.0


From c61b6def589149ec6a925a06af63a2e9f57c0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 41/67] fix: external flag type MOST counted pixels without
 flags

---
 .../src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp b/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
index 1fd004c..62bde30 100644
--- a/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp
@@ -138,7 +138,9 @@ struct Most {
   static std::pair<std::int64_t, int> combine(const std::vector<FlagImage::PixelType> &pixel_flags) {
     std::map<FlagImage::PixelType, int> counters;
     for (auto pix_flag : pixel_flags) {
-      counters[pix_flag] += 1;
+      if (pix_flag != 0) {
+        counters[pix_flag] += 1;
+      }
     }
     std::int64_t flag = 0;
     int count = 0;
-- 
2.43.0


From f26754b64a590df93cd7fd8f34882a75201224e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 42/67] fix: unmatched sources had no association values,
 matched ones one per column

---
 .../SEImplementation/Plugin/AssocMode/AssocModeTask.h      | 1 +
 .../src/lib/Plugin/AssocMode/AssocModeTask.cpp             | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
index d6cef7d..612ac5a 100644
--- a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
+++ b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
@@ -45,6 +45,7 @@ private:
   std::vector<KdTree<AssocModeConfig::CatalogEntry>> m_catalogs;
   AssocModeConfig::AssocMode m_assoc_mode;
   double m_radius;
+  size_t m_columns_nb = 0;
 };
 
 }
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 2be8afb..123cb44 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -149,6 +149,9 @@ AssocModeTask::AssocModeTask(const std::vector<std::vector<AssocModeConfig::Cata
                              AssocModeConfig::AssocMode assoc_mode, double radius) :
                              m_assoc_mode(assoc_mode), m_radius(radius) {
   for (auto& catalog : catalogs) {
+    if (!catalog.empty()) {
+      m_columns_nb = catalog.front().assoc_columns.size();
+    }
     m_catalogs.emplace_back(catalog);
   }
 }
@@ -167,8 +170,8 @@ void AssocModeTask::computeProperties(SourceInterface &source) const {
   auto nearby_catalog_entries = catalog.findPointsWithinRadius(Tree::Coord { x, y }, m_radius);
 
   if (nearby_catalog_entries.size() == 0) {
-    // No match
-    source.setProperty<AssocMode>(false, std::vector<double>());
+    // No match: as many values as for a match, the output column has a fixed size
+    source.setProperty<AssocMode>(false, std::vector<double>(m_columns_nb, 0.));
   } else {
     const std::map<AssocModeConfig::AssocMode, AssocModeTask::GetAssocResult> assoc_mode_implementation_table {
       std::make_pair(AssocModeConfig::AssocMode::UNKNOWN, getAssocEntryUnknownImpl),
-- 
2.43.0


From 4d2362551ebdb048fb52278007a16af6656f1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 43/67] fix: association mode FIRST did not take the first
 entry of large catalogs

---
 .../Plugin/AssocMode/AssocModeConfig.h               |  1 +
 .../src/lib/Plugin/AssocMode/AssocModeTask.cpp       | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
index 9cb2469..84a4870 100644
--- a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
+++ b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeConfig.h
@@ -65,6 +65,7 @@ public:
     double source_pixel_height;
 
     unsigned int group_id;
+    size_t catalog_index = 0; // position in the catalog
   };
 
   explicit AssocModeConfig(long manager_id);
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 123cb44..ccba1bc 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -50,7 +50,11 @@ AssocModeConfig::CatalogEntry getAssocEntryUnknownImpl(const std::vector<AssocMo
 }
 
 AssocModeConfig::CatalogEntry getAssocEntryFirstImpl(const std::vector<AssocModeConfig::CatalogEntry>& entries) {
-  return entries.front();
+  // The KdTree does not keep the order of the catalog
+  return *std::min_element(entries.begin(), entries.end(),
+      [](const AssocModeConfig::CatalogEntry &a, const AssocModeConfig::CatalogEntry &b) -> bool {
+          return a.catalog_index < b.catalog_index;
+      });
 }
 
 AssocModeConfig::CatalogEntry getAssocEntryNearestImpl(const std::vector<AssocModeConfig::CatalogEntry>& entries,
@@ -152,7 +156,11 @@ AssocModeTask::AssocModeTask(const std::vector<std::vector<AssocModeConfig::Cata
     if (!catalog.empty()) {
       m_columns_nb = catalog.front().assoc_columns.size();
     }
-    m_catalogs.emplace_back(catalog);
+    auto indexed_catalog = catalog;
+    for (size_t i = 0; i < indexed_catalog.size(); i++) {
+      indexed_catalog[i].catalog_index = i;
+    }
+    m_catalogs.emplace_back(indexed_catalog);
   }
 }
 
-- 
2.43.0


From 6fe37e874086143bf91b70d1be3193fb83eb307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 44/67] fix: assoc config file columns without a number started
 at the second column

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index e0d259d..a77d4c3 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -449,7 +449,7 @@ std::map<std::string, unsigned int>  AssocModeConfig::parseConfigFile(const std:
     }
 
     std::string line;
-    int current_column_nb = 1; // column indices start at 1
+    int current_column_nb = 0; // first column if no number is given
     while (std::getline(config_file, line)) {
       boost::trim(line);
       // Skip lines starting with '#'
-- 
2.43.0


From 94f9dc853ab5bd2cbdbf62cbfd4d1616721fb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 45/67] fix: weight threshold of measurement images ignored the
 flux scale of absolute weights

---
 .../src/lib/Configuration/MeasurementImageConfig.cpp           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index ba81408..c935990 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -210,6 +210,9 @@ void MeasurementImageConfig::initialize(const UserValues&) {
       if (weight_map != nullptr && flux_scale != 1. && py_image.weight_absolute) {
         info.m_weight_image = MultiplyImage<WeightImage::PixelType>::create(
             weight_map, py_image.flux_scale * py_image.flux_scale);
+        if (info.m_weight_threshold < std::numeric_limits<WeightImage::PixelType>::max()) {
+          info.m_weight_threshold *= flux_scale * flux_scale;
+        }
       } else {
         info.m_weight_image = weight_map;
       }
-- 
2.43.0


From 4a6bd3244edd90651b41072bba435a8e7eb9fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 46/67] fix: data cube of weights with another number of layers
 was accepted

---
 .../python/sourcextractor/config/measurement_config.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 5c35d7c..b1ed367 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -246,7 +246,7 @@ class MeasurementConfig:
             weight_dims = weight_fits_file.get_dimensions(weight_hdu)
             if len(weight_dims) == 3:
                 # handle weight as data cube
-                if dims[2] != cube_size:
+                if weight_dims[2] != cube_size:
                     raise ValueError("The weight map cube doesn't match the image cube")
 
                 weight_file_list = [weight_fits_file] * cube_size
-- 
2.43.0


From 10af4aceb4b2edf05ef99e92449c2f0c1a550165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 47/67] fix: psf_renormalize was refused for data cubes

---
 .../python/sourcextractor/config/measurement_images.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_images.py b/SEImplementation/python/sourcextractor/config/measurement_images.py
index a5fbbac..e4a2a47 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_images.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_images.py
@@ -226,13 +226,13 @@ class DataCubeSlice(MeasurementImage):
                  weight_type='none', weight_absolute=False, weight_scaling=1.,
                  weight_threshold=None, constant_background=None,
                  image_hdu=0, psf_hdu=None, weight_hdu=None,
-                 image_layer=0, weight_layer=0):
+                 image_layer=0, weight_layer=0, psf_renormalize=True):
         super(DataCubeSlice, self).__init__(fits_file, psf_file, weight_file, gain,
                                             gain_keyword, saturation, saturation_keyword,
                                             flux_scale, flux_scale_keyword,
                                             weight_type, weight_absolute, weight_scaling,
                                             weight_threshold, constant_background,
-                                            image_hdu, psf_hdu, weight_hdu)
+                                            image_hdu, psf_hdu, weight_hdu, psf_renormalize)
 
         self.is_data_cube = True
         self.image_layer = image_layer
-- 
2.43.0


From 32898eafdb239694e90d14aeec2372f7c9fb2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 48/67] fix: the layer of a data cube was not initialised and
 not checked

---
 SEFramework/SEFramework/FITS/FitsImageSource.h | 2 +-
 SEFramework/src/lib/FITS/FitsImageSource.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsImageSource.h b/SEFramework/SEFramework/FITS/FitsImageSource.h
index 5686df9..506f917 100644
--- a/SEFramework/SEFramework/FITS/FitsImageSource.h
+++ b/SEFramework/SEFramework/FITS/FitsImageSource.h
@@ -136,7 +136,7 @@ private:
   int m_depth;
   ImageTile::ImageType m_image_type;
 
-  int m_current_layer;
+  int m_current_layer = 0;
 };
 
 }
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index f68b062..48a8e2e 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -94,7 +94,7 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
     switchHdu(fptr, m_hdu_number);
   }
 
-  fits_get_img_param(fptr, 2, &bitpix, &naxis, naxes, &status);
+  fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
     char error_message[32];
     fits_get_errstatus(status, error_message);
@@ -273,7 +273,7 @@ void FitsImageSource::switchHdu(fitsfile *fptr, int hdu_number) const {
 }
 
 void FitsImageSource::setLayer(int layer) {
-  if (layer < 0 && layer >= m_depth) {
+  if (layer < 0 || layer >= m_depth) {
     throw Elements::Exception() << "Trying to access an inexistent data cube layer (" << layer << ") in " << m_filename;
   }
   m_current_layer = layer;
-- 
2.43.0


From f23f78873529e03eb556152531401cb0c6f3e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 49/67] fix: an empty string in a FITS header was read as a
 quote

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 449ced8..1dd759d 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -76,7 +76,8 @@ static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
   bool escape = false;
 
   unquoted.reserve(value.size());
-  for (auto i = value.begin(); i != value.end(); ++i) {
+  // The quote the string starts with is not an escape code, or an empty string would become a quote
+  for (auto i = value.begin() + (value.front() == '\''); i != value.end(); ++i) {
     if (*i == '\'' && !escape) {
       escape = true;
       // skip this char
-- 
2.43.0


From 89458946cbb5a7962c64750875894396ca2859ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 50/67] fix: numbers with a D exponent in FITS headers were
 taken for strings

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 1dd759d..5f1f92e 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -30,6 +30,7 @@
 #include <string>
 
 #include <boost/algorithm/string/case_conv.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
@@ -52,7 +53,7 @@ static Elements::Logging logger = Elements::Logging::getLogger("FitsFile");
  * - anything else will be casted to std::string, removing simple quotes if necessary
  */
 static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
-  boost::regex float_regex("^[-+]?(\\d*\\.?\\d+|\\d+\\.?\\d*)([eE][-+]?\\d+)?$");
+  boost::regex float_regex("^[-+]?(\\d*\\.?\\d+|\\d+\\.?\\d*)([eEdD][-+]?\\d+)?$");
   boost::regex int_regex("^[-+]?\\d+$");
 
   try {
@@ -61,7 +62,8 @@ static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
     } else if (boost::regex_match(value, int_regex)) {
       return static_cast<int64_t>(std::stoll(value));
     } else if (boost::regex_match(value, float_regex)) {
-      return std::stod(value);
+      // FITS allows D as the exponent of double precision numbers, the standard library does not
+      return std::stod(boost::replace_all_copy(boost::to_upper_copy(value), "D", "E"));
     } else if (value.size() == 1) {
       return value.at(0);
     }
-- 
2.43.0


From db59529d69db7a99c346383986a7132d9dbd6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 51/67] fix: strings with a slash in FITS headers were cut or
 ignored

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 5f1f92e..526f7b8 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -226,7 +226,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
 
   fits_read_record(fptr, keynum, record, &status);
   while (status == 0 && strncmp(record, "END", 3) != 0) {
-    static boost::regex regex("([^=]{8})=([^\\/]*)(\\/(.*))?");
+    static boost::regex regex("([^=]{8})=(\\s*'(?:[^']|'')*'[^\\/]*|[^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
     boost::smatch sub_matches;
@@ -302,7 +302,7 @@ void FitsFile::loadHeadFile() {
       current_hdu = *(++hdu_iter);
       is_new_hdu = true;
     } else {
-      static boost::regex regex("([^=]{1,8})=([^\\/]*)(\\/ (.*))?");
+      static boost::regex regex("([^=]{1,8})=(\\s*'(?:[^']|'')*'[^\\/]*|[^\\/]*)(\\/ (.*))?");
       boost::smatch       sub_matches;
       if (boost::regex_match(line, sub_matches, regex) && sub_matches.size() >= 3) {
         auto keyword = boost::to_upper_copy(sub_matches[1].str());
-- 
2.43.0


From 65bba4c97130ebfe474436bf3a1c16a510e8556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 52/67] fix: quotes inside of strings were not escaped in the
 header handed to the WCS library

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 48a8e2e..17b463e 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -28,6 +28,7 @@
 #include <AlexandriaKernel/memory_tools.h>
 #include <ElementsKernel/Exception.h>
 #include <boost/algorithm/string/case_conv.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
@@ -296,7 +297,7 @@ std::unique_ptr<std::vector<char>> FitsImageSource::getFitsHeaders(int& number_o
     }
 
     if (headers.at(key).m_value.type() == typeid(std::string)) {
-      record_string += "= '" + VariantCast<std::string>(headers.at(key).m_value) + "'";
+      record_string += "= '" + boost::replace_all_copy(VariantCast<std::string>(headers.at(key).m_value), "'", "''") + "'";
     }
     else {
       record_string += "= " + VariantCast<std::string>(headers.at(key).m_value);
-- 
2.43.0


From 5a1e53ea659609d9da186e2abc41e2782e9140fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 53/67] fix: a FITS image without HDU number was taken from the
 HDU last used in that file

---
 SEFramework/SEFramework/FITS/FitsFile.h      | 4 ++++
 SEFramework/src/lib/FITS/FitsFile.cpp        | 5 +++++
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 9 +++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsFile.h b/SEFramework/SEFramework/FITS/FitsFile.h
index 9fbfc00..64c4c58 100644
--- a/SEFramework/SEFramework/FITS/FitsFile.h
+++ b/SEFramework/SEFramework/FITS/FitsFile.h
@@ -52,6 +52,9 @@ public:
 
   const std::vector<int>& getImageHdus() const;
 
+  /// The HDU that was active when the file was opened: the one named in the path, or the first image
+  int getDefaultHdu() const;
+
   std::map<std::string, MetadataEntry>& getHDUHeaders(int hdu);
   std::vector<int> getDimensions(int hdu) const;
 
@@ -62,6 +65,7 @@ private:
   bool m_is_writeable;
   std::unique_ptr<fitsfile, void (*)(fitsfile*)> m_fits_ptr;
   std::vector<int> m_image_hdus;
+  int m_default_hdu = 0;
   std::vector<std::map<std::string, MetadataEntry>> m_headers;
 
   void open();
diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 526f7b8..ec67320 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -115,6 +115,10 @@ const std::vector<int>& FitsFile::getImageHdus() const {
   return m_image_hdus;
 }
 
+int FitsFile::getDefaultHdu() const {
+  return m_default_hdu;
+}
+
 std::map<std::string, MetadataEntry>& FitsFile::getHDUHeaders(int hdu) {
   return m_headers.at(hdu - 1);
 }
@@ -174,6 +178,7 @@ void FitsFile::loadInfo() {
   // save current HDU (if the file is opened with advanced cfitsio syntax it might be set already
   int original_hdu = 0;
   fits_get_hdu_num(ptr, &original_hdu);
+  m_default_hdu = original_hdu;
 
   // Number of HDU
   m_image_hdus.clear();
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 17b463e..4885b22 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -87,13 +87,10 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
   auto fptr = acc->m_fd.getFitsFilePtr();
 
   if (m_hdu_number <= 0) {
-    if (fits_get_hdu_num(fptr, &m_hdu_number) < 0) {
-      throw Elements::Exception() << "Can't get the active HDU from the FITS file: " << filename;
-    }
-  }
-  else {
-    switchHdu(fptr, m_hdu_number);
+    // another source may have moved to another HDU of the same file
+    m_hdu_number = acc->m_fd.getDefaultHdu();
   }
+  switchHdu(fptr, m_hdu_number);
 
   fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
-- 
2.43.0


From 2e525c4ab744d177ce82d85cb824e4d6cb4d5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 54/67] fix: strings were written into FITS headers without
 quotes

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 4885b22..25a60dd 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -335,8 +335,11 @@ void FitsImageSource::setMetadata(const std::string& key, const MetadataEntry& v
   std::ostringstream padded_key, serializer;
   padded_key << std::setw(8) << std::left << key;
 
-  serializer << padded_key.str() << "= " << std::left << std::setw(70)
-             << VariantCast<std::string>(value.m_value);
+  auto value_str = VariantCast<std::string>(value.m_value);
+  if (value.m_value.type() == typeid(std::string)) {
+    value_str = "'" + boost::replace_all_copy(value_str, "'", "''") + "'";
+  }
+  serializer << padded_key.str() << "= " << std::left << std::setw(70) << value_str;
   auto str = serializer.str();
 
   int status = 0;
-- 
2.43.0


From f09af5e325fd060755633f3e8f68d9f6a64e2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 55/67] fix: the coordinates of data cubes were computed
 outside of the arrays

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 24 ++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index ac14c06..bb3e222 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -25,8 +25,10 @@
 #include "SEFramework/CoordinateSystem/WCS.h"
 
 #include <boost/algorithm/string/trim.hpp>
+#include <algorithm>
 #include <fitsio.h>
 #include <mutex>
+#include <vector>
 #include <wcslib/dis.h>
 #include <wcslib/wcs.h>
 #include <wcslib/wcsfix.h>
@@ -226,14 +228,15 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
 
   // +1 as fits standard coordinates start at 1
-  double pc_array[2] {image_coordinate.m_x + 1, image_coordinate.m_y + 1};
-
-  double ic_array[2] {0, 0};
-  double wc_array[2] {0, 0};
+  // The image may have more than two axes (data cubes)
+  const int naxis = std::max(wcs_copy.naxis, 2);
+  std::vector<double> pc_array(naxis, 1.), ic_array(naxis, 0.), wc_array(naxis, 0.);
+  pc_array[0] = image_coordinate.m_x + 1;
+  pc_array[1] = image_coordinate.m_y + 1;
   double phi, theta;
 
   int status = 0;
-  int ret_val = wcsp2s(&wcs_copy, 1, 1, pc_array, ic_array, &phi, &theta, wc_array, &status);
+  int ret_val = wcsp2s(&wcs_copy, 1, naxis, pc_array.data(), ic_array.data(), &phi, &theta, wc_array.data(), &status);
   wcsRaiseOnTransformError(&wcs_copy, ret_val);
   wcsfree(&wcs_copy);
 
@@ -246,13 +249,16 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   wcs_copy.flag = -1;
   safe_wcssub(true, m_wcs.get(), nullptr, nullptr, &wcs_copy);
 
-  double pc_array[2] {0, 0};
-  double ic_array[2] {0, 0};
-  double wc_array[2] {world_coordinate.m_alpha, world_coordinate.m_delta};
+  // The image may have more than two axes (data cubes)
+  const int naxis = std::max(wcs_copy.naxis, 2);
+  std::vector<double> pc_array(naxis, 0.), ic_array(naxis, 0.), wc_array(wcs_copy.crval, wcs_copy.crval + wcs_copy.naxis);
+  wc_array.resize(naxis);
+  wc_array[0] = world_coordinate.m_alpha;
+  wc_array[1] = world_coordinate.m_delta;
   double phi, theta;
 
   int status = 0;
-  int ret_val = wcss2p(&wcs_copy, 1, 1, wc_array, &phi, &theta, ic_array, pc_array, &status);
+  int ret_val = wcss2p(&wcs_copy, 1, naxis, wc_array.data(), &phi, &theta, ic_array.data(), pc_array.data(), &status);
   if (ret_val != WCSERR_SUCCESS) {
     logger.warn() << "Bad worldToImage from RA/Dec: " << wc_array[0] << "/" << wc_array[1];
     pc_array[0] = -std::numeric_limits<double>::infinity();
-- 
2.43.0


From c936aa73df8c666dc890c8abb010e42789368908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 56/67] fix: right ascension and declination were mixed up when
 the declination is the first axis

---
 SEFramework/src/lib/CoordinateSystem/WCS.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/SEFramework/src/lib/CoordinateSystem/WCS.cpp b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
index bb3e222..9d6ac6f 100644
--- a/SEFramework/src/lib/CoordinateSystem/WCS.cpp
+++ b/SEFramework/src/lib/CoordinateSystem/WCS.cpp
@@ -28,6 +28,7 @@
 #include <algorithm>
 #include <fitsio.h>
 #include <mutex>
+#include <utility>
 #include <vector>
 #include <wcslib/dis.h>
 #include <wcslib/wcs.h>
@@ -154,6 +155,16 @@ static int wrapped_wcssub(int alloc, const struct wcsprm* wcssrc, int* nsub, int
   return wcssub(alloc, wcssrc, nsub, axes, wcsdst);
 }
 
+/**
+ * Indices of the longitude and the latitude among the world axes: FITS allows them in any order
+ */
+static std::pair<int, int> wcsWorldAxes(const wcsprm* wcs) {
+  if (wcs->lng >= 0 && wcs->lat >= 0) {
+    return {wcs->lng, wcs->lat};
+  }
+  return {0, 1};
+}
+
 WCS::WCS(const FitsImageSource& fits_image_source) : m_wcs(nullptr, nullptr) {
   int number_of_records = 0;
   auto fits_headers = fits_image_source.getFitsHeaders(number_of_records);
@@ -240,7 +251,8 @@ WorldCoordinate WCS::imageToWorld(ImageCoordinate image_coordinate) const {
   wcsRaiseOnTransformError(&wcs_copy, ret_val);
   wcsfree(&wcs_copy);
 
-  return WorldCoordinate(wc_array[0], wc_array[1]);
+  auto axes = wcsWorldAxes(m_wcs.get());
+  return WorldCoordinate(wc_array[axes.first], wc_array[axes.second]);
 }
 
 ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
@@ -253,8 +265,9 @@ ImageCoordinate WCS::worldToImage(WorldCoordinate world_coordinate) const {
   const int naxis = std::max(wcs_copy.naxis, 2);
   std::vector<double> pc_array(naxis, 0.), ic_array(naxis, 0.), wc_array(wcs_copy.crval, wcs_copy.crval + wcs_copy.naxis);
   wc_array.resize(naxis);
-  wc_array[0] = world_coordinate.m_alpha;
-  wc_array[1] = world_coordinate.m_delta;
+  auto axes = wcsWorldAxes(m_wcs.get());
+  wc_array[axes.first] = world_coordinate.m_alpha;
+  wc_array[axes.second] = world_coordinate.m_delta;
   double phi, theta;
 
   int status = 0;
-- 
2.43.0


From edaed138d26d856205f90bce40c8290d85ad9a95 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 57/67] fix: columns with the same name in two properties got
 the data of one of them

---
 .../SEFramework/Output/OutputRegistry.h       | 37 ++++++++++---------
 SEFramework/src/lib/Output/OutputRegistry.cpp |  8 ++--
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/SEFramework/SEFramework/Output/OutputRegistry.h b/SEFramework/SEFramework/Output/OutputRegistry.h
index 83c5b0a..0334d4b 100644
--- a/SEFramework/SEFramework/Output/OutputRegistry.h
+++ b/SEFramework/SEFramework/Output/OutputRegistry.h
@@ -49,9 +49,9 @@ public:
     m_property_to_names_map[typeid(PropertyType)].emplace_back(column_name);
     std::type_index conv_out_type = typeid(OutType);
     ColumnFromSource conv_func {converter};
-    m_name_to_converter_map.emplace(column_name,
-                                    std::pair<std::type_index, ColumnFromSource>(conv_out_type, conv_func));
-    m_name_to_col_info_map.emplace(column_name, ColInfo{column_unit, column_description});
+    ColumnKey key {typeid(PropertyType), column_name};
+    m_name_to_converter_map.emplace(key, std::pair<std::type_index, ColumnFromSource>(conv_out_type, conv_func));
+    m_name_to_col_info_map.emplace(key, ColInfo{column_unit, column_description});
   }
 
   /**
@@ -65,12 +65,12 @@ public:
     std::vector<std::string> new_names {};
     for (auto& current_name : m_property_to_names_map[typeid(PropertyType)]) {
       // Get the current converter
-      auto converter = m_name_to_converter_map.at(current_name);
-      auto col_info = m_name_to_col_info_map.at(current_name);
+      auto converter = m_name_to_converter_map.at(ColumnKey {typeid(PropertyType), current_name});
+      auto col_info = m_name_to_col_info_map.at(ColumnKey {typeid(PropertyType), current_name});
       // Remove the old converter
       // Do it *before*, because the new name may be the same!
-      m_name_to_converter_map.erase(current_name);
-      m_name_to_col_info_map.erase(current_name);
+      m_name_to_converter_map.erase(ColumnKey {typeid(PropertyType), current_name});
+      m_name_to_col_info_map.erase(ColumnKey {typeid(PropertyType), current_name});
 
       // Add the new ones
       for (auto instance : instance_names) {
@@ -80,8 +80,8 @@ public:
         // Register the new converter with the new name
         auto& postfix = instance.first;
         auto new_name = current_name + "_" + postfix;
-        m_name_to_converter_map.emplace(new_name, new_converter);
-        m_name_to_col_info_map.emplace(new_name, col_info);
+        m_name_to_converter_map.emplace(ColumnKey {typeid(PropertyType), new_name}, new_converter);
+        m_name_to_col_info_map.emplace(ColumnKey {typeid(PropertyType), new_name}, col_info);
         new_names.push_back(new_name);
       }
     }
@@ -100,12 +100,12 @@ public:
   void registerPropertyInstances(const std::string &current_name, const std::vector<std::pair<std::string, unsigned int>>& instance_names) {
     std::vector<std::string> new_names {};
     // Get the current converter
-    auto converter = m_name_to_converter_map.at(current_name);
-    auto col_info = m_name_to_col_info_map.at(current_name);
+    auto converter = m_name_to_converter_map.at(ColumnKey {typeid(PropertyType), current_name});
+    auto col_info = m_name_to_col_info_map.at(ColumnKey {typeid(PropertyType), current_name});
     // Remove the old converter
     // Do it *before*, because the new name may be the same!
-    m_name_to_converter_map.erase(current_name);
-    m_name_to_col_info_map.erase(current_name);
+    m_name_to_converter_map.erase(ColumnKey {typeid(PropertyType), current_name});
+    m_name_to_col_info_map.erase(ColumnKey {typeid(PropertyType), current_name});
 
     // Add the new ones
     for (auto instance : instance_names) {
@@ -114,8 +114,8 @@ public:
       new_converter.second.index = instance.second;
       // Register the new converter with the new name
       auto& new_name = instance.first;
-      m_name_to_converter_map.emplace(new_name, new_converter);
-      m_name_to_col_info_map.emplace(new_name, col_info);
+      m_name_to_converter_map.emplace(ColumnKey {typeid(PropertyType), new_name}, new_converter);
+      m_name_to_col_info_map.emplace(ColumnKey {typeid(PropertyType), new_name}, col_info);
       new_names.push_back(new_name);
     }
 
@@ -182,9 +182,12 @@ private:
     std::string description;
   };
 
+  // Two properties may use the same column name, as long as they are not written together
+  using ColumnKey = std::pair<std::type_index, std::string>;
+
   std::map<std::type_index, std::vector<std::string>> m_property_to_names_map {};
-  std::map<std::string, std::pair<std::type_index, ColumnFromSource>> m_name_to_converter_map {};
-  std::map<std::string, ColInfo> m_name_to_col_info_map {};
+  std::map<ColumnKey, std::pair<std::type_index, ColumnFromSource>> m_name_to_converter_map {};
+  std::map<ColumnKey, ColInfo> m_name_to_col_info_map {};
   std::multimap<std::string, std::type_index> m_output_properties {};
 
 };
diff --git a/SEFramework/src/lib/Output/OutputRegistry.cpp b/SEFramework/src/lib/Output/OutputRegistry.cpp
index 6cef389..ace6117 100644
--- a/SEFramework/src/lib/Output/OutputRegistry.cpp
+++ b/SEFramework/src/lib/Output/OutputRegistry.cpp
@@ -54,10 +54,10 @@ auto OutputRegistry::getSourceToRowConverter(const std::vector<std::string>& ena
         throw Elements::Exception() << "Missing column generator for " << property.name();
       }
       for (const auto& name : m_property_to_names_map.at(property)) {
-        auto& col_info = m_name_to_col_info_map.at(name);
-        info_list.emplace_back(name, m_name_to_converter_map.at(name).first,
+        auto& col_info = m_name_to_col_info_map.at({property, name});
+        info_list.emplace_back(name, m_name_to_converter_map.at({property, name}).first,
                                col_info.unit, col_info.description);
-        cell_values.emplace_back(m_name_to_converter_map.at(name).second(source));
+        cell_values.emplace_back(m_name_to_converter_map.at({property, name}).second(source));
       }
     }
     if (info_list.empty()) {
@@ -76,7 +76,7 @@ void OutputRegistry::printPropertyColumnMap(const std::vector<std::string>& prop
     std::cout << prop.first << ":\n";
     for (auto& col : m_property_to_names_map.at(prop.second)) {
       std::cout << "  - " << col;
-      auto& info = m_name_to_col_info_map.at(col);
+      auto& info = m_name_to_col_info_map.at({prop.second, col});
       if (info.description != "") {
         std::cout << " : " << info.description;
       }
-- 
2.43.0


From 756840f44d8d5769e03663c65ea4e055ab1cce7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 58/67] fix: images with another number of apertures in a
 column were read out of bounds

---
 .../AperturePhotometryArray.h                   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h b/SEImplementation/SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h
index a1af723..79390c0 100644
--- a/SEImplementation/SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h
+++ b/SEImplementation/SEImplementation/Plugin/AperturePhotometry/AperturePhotometryArray.h
@@ -28,7 +28,9 @@
 #include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometry.h"
 #include "NdArray/NdArray.h"
 #include <memory>
+#include <algorithm>
 #include <cassert>
+#include <limits>
 
 
 namespace SourceXtractor {
@@ -52,7 +54,10 @@ public:
 
     assert(measurements.size() > 0);
     size_t nentries = measurements.size();
-    size_t napertures = measurements.front().getFlags().size();
+    size_t napertures = 0;
+    for (const auto& entry : measurements) {
+      napertures = std::max(napertures, entry.getFlags().size());
+    }
     std::vector<size_t> shape{nentries, napertures};
 
     m_fluxes = Euclid::make_unique<NdArray<SeFloat>>(shape);
@@ -63,7 +68,15 @@ public:
 
     for (size_t entry_idx = 0; entry_idx < nentries; ++entry_idx) {
       const auto& entry = measurements[entry_idx];
-      for (size_t ap_idx = 0; ap_idx < napertures; ++ap_idx) {
+      // The images may have a different number of apertures
+      for (size_t ap_idx = entry.getFlags().size(); ap_idx < napertures; ++ap_idx) {
+        m_fluxes->at(entry_idx, ap_idx) = std::numeric_limits<SeFloat>::quiet_NaN();
+        m_flux_errors->at(entry_idx, ap_idx) = std::numeric_limits<SeFloat>::quiet_NaN();
+        m_mags->at(entry_idx, ap_idx) = std::numeric_limits<SeFloat>::quiet_NaN();
+        m_mag_errors->at(entry_idx, ap_idx) = std::numeric_limits<SeFloat>::quiet_NaN();
+        m_flags->at(entry_idx, ap_idx) = flags2long(Flags::NONE);
+      }
+      for (size_t ap_idx = 0; ap_idx < entry.getFlags().size(); ++ap_idx) {
         m_fluxes->at(entry_idx, ap_idx) = entry.getFluxes()[ap_idx];
         m_flux_errors->at(entry_idx, ap_idx) = entry.getFluxErrors()[ap_idx];
         m_mags->at(entry_idx, ap_idx) = entry.getMags()[ap_idx];
-- 
2.43.0


From 0df020bb67c0a9c582b88a939c94391c82a9f264 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 59/67] fix: first part of a FITS catalogue without sources
 left a file to which no part could be added

---
 SEImplementation/SEImplementation/Output/FitsOutput.h | 5 ++++-
 SEImplementation/SEImplementation/Output/LdacOutput.h | 1 +
 SEImplementation/src/lib/Output/LdacOutput.cpp        | 4 +++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/SEImplementation/Output/FitsOutput.h b/SEImplementation/SEImplementation/Output/FitsOutput.h
index fe8d5d3..18a32cf 100644
--- a/SEImplementation/SEImplementation/Output/FitsOutput.h
+++ b/SEImplementation/SEImplementation/Output/FitsOutput.h
@@ -28,7 +28,8 @@ public:
     std::stringstream hdu_name;
     hdu_name << "CATALOG_" << m_part_nb;
 
-    m_fits_writer = std::make_shared<Euclid::Table::FitsWriter>(m_filename);
+    // The first part which is written replaces the file
+    m_fits_writer = std::make_shared<Euclid::Table::FitsWriter>(m_filename, !m_file_written);
     m_fits_writer->setHduName(hdu_name.str());
   }
 
@@ -36,11 +37,13 @@ protected:
   void writeRows(const std::vector<Euclid::Table::Row>& rows) override {
     Euclid::Table::Table table {rows};
     m_fits_writer->addData(table);
+    m_file_written = true;
   }
 
 private:
   std::string m_filename;
   int m_part_nb;
+  bool m_file_written = false;
 
   std::shared_ptr<Euclid::Table::FitsWriter> m_fits_writer;
 };
diff --git a/SEImplementation/SEImplementation/Output/LdacOutput.h b/SEImplementation/SEImplementation/Output/LdacOutput.h
index 481ee35..24dc7e5 100644
--- a/SEImplementation/SEImplementation/Output/LdacOutput.h
+++ b/SEImplementation/SEImplementation/Output/LdacOutput.h
@@ -36,6 +36,7 @@ private:
 
   std::string m_filename;
   int m_part_nb;
+  bool m_file_written = false;
 
   std::shared_ptr<Euclid::Table::FitsWriter> m_fits_writer;
 
diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 41a7f17..9b4851b 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -140,7 +140,8 @@ void LdacOutput::outputSource(const SourceInterface& source) {
 }
 
 void LdacOutput::writeHeaders() {
-  auto imhead_writer = Euclid::make_unique<FitsWriter>(m_filename, m_part_nb == 0);
+  // The first part with sources replaces the file
+  auto imhead_writer = Euclid::make_unique<FitsWriter>(m_filename, !m_file_written);
   if (m_part_nb >= 1) {
     std::stringstream hdu_name;
     hdu_name << "LDAC_IMHEAD_" << m_part_nb;
@@ -180,6 +181,7 @@ void LdacOutput::writeHeaders() {
   auto column_info = std::make_shared<ColumnInfo>(std::vector<ColumnInfo::info_type>{{"Field Header Card", typeid(std::string)}});
   std::vector<Row> rows{{std::vector<Row::cell_type>{header}, column_info}};
   imhead_writer->addData(Table{std::move(rows)});
+  m_file_written = true;
 }
 
 void LdacOutput::nextPart() {
-- 
2.43.0


From 6f29c5a4a61ec3b5177afa5417c250d8476e16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 60/67] fix: keywords with strings of 66 to 68 characters made
 the output of LDAC catalogues fail

---
 .../src/lib/Output/LdacOutput.cpp             | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 9b4851b..1043434 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -70,22 +70,20 @@ std::string generateHeader<std::string>(const std::string& name, std::string val
   quoted_value << boost::io::quoted(value, '\'', '\'');
 
   str << std::setw(8) << std::left << name << "= "
-      << std::setw(20) << std::left << quoted_value.str()
-      << " / ";
+      << std::setw(20) << std::left << quoted_value.str();
 
-  if (str.str().size() > 80) {
-    throw Elements::Exception() << "Header cannot exceed 80 characters: \"" << str.str() << "\"";
+  std::string header = str.str();
+  if (header.size() > 80) {
+    throw Elements::Exception() << "Header cannot exceed 80 characters: \"" << header << "\"";
   }
 
-  size_t remaining = 80 - str.str().size();
-  if (comment.size() < remaining) {
-    str << comment << std::string(remaining - comment.size(), ' ');
-  } else {
-    // truncate comment if too long
-    str << comment.substr(0, remaining);
+  // There may be no space left for the comment, which is truncated if too long
+  if (header.size() <= 77) {
+    header += " / " + comment;
   }
+  header.resize(80, ' ');
 
-  return str.str();
+  return header;
 }
 
 static void generateHistory(std::vector<std::string>& headers) {
-- 
2.43.0


From 183422707336e978532f34035c05b1d2775b7014 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 61/67] fix: keywords of LDAC catalogues lost the precision of
 numbers and the type of logicals

---
 SEImplementation/src/lib/Output/LdacOutput.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 1043434..575947c 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -15,6 +15,7 @@
  * 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
  */
 
+#include <limits>
 #include <sstream>
 
 #include <AlexandriaKernel/memory_tools.h>
@@ -45,7 +46,8 @@ std::string generateHeader(const std::string& name, T value, const std::string&
   std::stringstream str;
 
   str << std::setw(8) << std::left << name << "= "
-      << std::scientific << std::setw(20) << std::right << value
+      << std::scientific << std::uppercase << std::setprecision(std::numeric_limits<double>::max_digits10 - 1)
+      << std::setw(20) << std::right << value
       << " / ";
 
   if (str.str().size() > 80) {
@@ -157,6 +159,8 @@ void LdacOutput::writeHeaders() {
     }
     if (p.second.m_value.type() == typeid(std::string)) {
       ldac_imhead.emplace_back(generateHeader(p.first, boost::get<std::string>(p.second.m_value), comment));
+    } else if (p.second.m_value.type() == typeid(bool)) {
+      ldac_imhead.emplace_back(generateHeader(p.first, boost::get<bool>(p.second.m_value) ? 'T' : 'F', comment));
     } else {
       ldac_imhead.emplace_back(generateHeader(p.first, p.second.m_value, comment));
     }
-- 
2.43.0


From a2b66b73f166349ba8980b25d24b8e6ec0f5533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 62/67] fix: aperture photometry on a list of targets failed

---
 SEImplementation/python/sourcextractor/config/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/compat.py b/SEImplementation/python/sourcextractor/config/compat.py
index 292731d..b3ec1d7 100644
--- a/SEImplementation/python/sourcextractor/config/compat.py
+++ b/SEImplementation/python/sourcextractor/config/compat.py
@@ -39,7 +39,8 @@ def _compat_doc_helper(copy_doc_from):
 
 @_compat_doc_helper(copy_doc_from=MeasurementConfig.add_aperture_photometry)
 def add_aperture_photometry(target, apertures):
-    global_measurement_config.add_measurement_image(target)
+    for t in target if isinstance(target, list) else [target]:
+        global_measurement_config.add_measurement_image(t)
     return global_measurement_config.add_aperture_photometry(target, apertures)
 
 
-- 
2.43.0


From b01174b60ee761362194a31e58a0dc7db0692dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 63/67] fix: a FileList could not be passed to load_fits_images

---
 .../python/sourcextractor/config/measurement_config.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index b1ed367..290c6e0 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -21,6 +21,7 @@ import sys
 
 import _SourceXtractorPy as cpp
 
+from .argv import FileList
 from .measurement_images import DataCubeSlice, FitsFile, ImageGroup, MeasurementGroup, \
     MeasurementImage
 from .model_fitting import ModelFitting, ParameterBase
@@ -156,6 +157,8 @@ class MeasurementConfig:
             In case of mismatched list of files
         """
 
+        images, psfs, weights = [list(i) if isinstance(i, FileList) else i for i in (images, psfs, weights)]
+
         if isinstance(images, list):
             if len(images) == 0:
                 raise ValueError("An empty list passed to load_fits_images")
-- 
2.43.0


From 46ba7a65261fb9e47e3124edaa017448acd78c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 64/67] fix: measurement groups of empty subgroups or with keys
 that are not strings failed

---
 .../sourcextractor/config/measurement_images.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_images.py b/SEImplementation/python/sourcextractor/config/measurement_images.py
index e4a2a47..fa651b3 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_images.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_images.py
@@ -292,7 +292,7 @@ class ImageGroup(object):
         int
             How may subgroups or images are there in this group
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             return len(self.__subgroups)
         else:
             return len(self.__images)
@@ -309,7 +309,7 @@ class ImageGroup(object):
         -------
         iterator
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             return self.__subgroups.__iter__()
         else:
             return self.__images.__iter__()
@@ -335,7 +335,7 @@ class ImageGroup(object):
         ValueError
             If some images have not been grouped by the callable.
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             # if we are already subgrouped, apply the split to the subgroups
             for _, sub_group in self.__subgroups:
                 sub_group.split(grouping_method)
@@ -586,7 +586,7 @@ class MeasurementGroup(object):
         -------
         iterator
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             return self.__subgroups.__iter__()
         else:
             return self.__images.__iter__()
@@ -610,7 +610,7 @@ class MeasurementGroup(object):
             If we can't find what we want
         """
 
-        if self.__subgroups:
+        if self.__subgroups is not None:
             try:
                 return next(x for x in self.__subgroups if x[0] == index)[1]
             except StopIteration:
@@ -628,7 +628,7 @@ class MeasurementGroup(object):
         int
             Number of subgroups, or images contained within the group
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             return len(self.__subgroups)
         else:
             return len(self.__images)
@@ -660,9 +660,9 @@ class MeasurementGroup(object):
             if show_images:
                 for im in self.__images:
                     print('{}  {}'.format(prefix, im), file=file)
-        if self.__subgroups:
+        if self.__subgroups is not None:
             print('{}Measurement sub-groups: {}'.format(prefix, ','.join(
-                x for x, _ in self.__subgroups)), file=file)
+                str(x) for x, _ in self.__subgroups)), file=file)
             for name, group in self.__subgroups:
                 print('{}  {}:'.format(prefix, name), file=file)
                 group.print(prefix + '    ', show_images, file=file)
-- 
2.43.0


From 1350f57d53c753d2a3a9e5e3428b6d74eb52544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 65/67] fix: describing a compute graph model failed, and
 creating one changed its parameters argument

---
 .../python/sourcextractor/config/model_fitting.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index bd03607..539cd57 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -755,6 +755,7 @@ class ComputeGraphModel(CoordinateModelBase):
         angle_name = "_angle"
         scale_name = "_scale"
 
+        params = dict(params)
         for k in params.keys():
             if not isinstance(params[k], ParameterBase):
                 params[k] = ConstantParameter(params[k])
@@ -790,12 +791,12 @@ class ComputeGraphModel(CoordinateModelBase):
         str
         """
         if show_params:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord, self.y_coord, self.flux, self.effective_radius, self.aspect_ratio,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord, self.y_coord, self.flux, self.scale, self.aspect_ratio,
                 self.angle)
         else:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord.id, self.y_coord.id, self.flux.id, self.effective_radius.id,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord.id, self.y_coord.id, self.flux.id, self.scale.id,
                 self.aspect_ratio.id, self.angle.id)
 
     def get_params(self):
-- 
2.43.0


From 054021225442a4295e7ce90b7face589a1c03d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 66/67] fix: output columns of mixed types were accepted and
 lost entries

---
 .../sourcextractor/config/measurement_config.py       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 290c6e0..52b4147 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -411,19 +411,18 @@ class MeasurementConfig:
 
         if not isinstance(params, list):
             params = [params]
-        param_type = type(params[0])
 
         known_subclass = False
         for base in self._column_map:
-            if issubclass(param_type, base):
+            if params and all(isinstance(param, base) for param in params):
                 self._column_map[base].append((name, params))
                 known_subclass = True
-        if issubclass(param_type, ParameterBase):
-            for param in params:
-                self.model_fitting._register_parameter(param)
+                if base is ParameterBase:
+                    for param in params:
+                        self.model_fitting._register_parameter(param)
 
         if not known_subclass:
-            raise TypeError('{} is not a known column type'.format(str(param_type)))
+            raise TypeError('{} is not a list of a known column type'.format(str(params)))
 
 
 global_measurement_config = MeasurementConfig()
-- 
2.43.0


From dac829a74a4c88753da4b62f95d15761420843ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 67/67] fix: the model fitting configuration did not wait for
 the association it uses

---
 SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp b/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp
index 4d3dc68..a4e226d 100644
--- a/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp
@@ -139,6 +139,7 @@ struct FunctionFromPython<double(double, const SourceInterface&)> {
 
 ModelFittingConfig::ModelFittingConfig(long manager_id) : Configuration(manager_id) {
   declareDependency<PythonConfig>();
+  declareDependency<AssocModeConfig>();
 }
 
 ModelFittingConfig::~ModelFittingConfig() {
-- 
2.43.0

