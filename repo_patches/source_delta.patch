From 448799ad96a77fe39714374531993118a38c6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 01/17] fix: Swath::clone keeps the swath type (and copies
 swaths without a width)

---
 src/fields2cover/types/Swath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..aba2464 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,8 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s {*this};
+  new_s.setPath(this->path_.clone());
   return new_s;
 }
 
-- 
2.43.0


From ccd36e36ce0c8ab59bb1ae671486bf940f0d60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 02/17] fix: SnakeOrder leaves a single swath alone instead of
 rotating past its end

---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..0cdd281 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 2) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From f5216f90bc6a828b7cb7b90e4bc5227a4fd710bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 03/17] fix: SpiralOrder::setSpiralSize(0) no longer makes
 ordering divide by zero

---
 src/fields2cover/route_planning/spiral_order.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..78a6300 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -10,7 +10,7 @@ SpiralOrder::SpiralOrder(size_t sp_size) {
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max<size_t>(1, sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From dcb096b88a395ec886ff59375694deecb2c7e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 04/17] fix: Graph::removeDirectedEdge drops the cached
 shortest paths

---
 src/fields2cover/types/Graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..32114b2 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -30,6 +30,9 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
   return *this;
 }
 Graph& Graph::removeEdge(size_t i, size_t j) {
-- 
2.43.0


From 31bef2abcb3908540eedb141449aa150ea106ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 05/17] fix: Graph counts nodes without outgoing edges and
 sizes its matrices by the biggest index

---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..d7214ac 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -68,6 +68,9 @@ class Graph {
     std::vector<bool>& visited,
     int& route_index) const;
 
+  // One more than the biggest index of a node
+  size_t indexEnd() const;
+
  protected:
   map_to_map_to_int edges_;
   short_path_container_t shortest_paths_;       // sequence of nodes
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 32114b2..7a5b9d0 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,6 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
+  this->edges_[to];
   if (!this->next_.empty() || !this->distance_.empty()) {
     this->next_.clear();
     this->distance_.clear();
@@ -43,6 +44,14 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::indexEnd() const {
+  size_t n = 0;
+  for (const auto& src : this->edges_) {
+    n = std::max(n, src.first + 1);
+  }
+  return n;
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
@@ -72,7 +81,7 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(std::max(this->indexEnd(), from + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -103,7 +112,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->indexEnd();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -114,7 +123,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = dist.size();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -167,7 +176,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = next_.size();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From 8580394814810386bffb141f69c66edbba4a2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 06/17] fix: lines inside a cell were lost when one of them
 also touches the cell in a single point

---
 include/fields2cover/types/MultiLineString.h |  4 ++++
 src/fields2cover/types/Cell.cpp              |  4 ++--
 src/fields2cover/types/Cells.cpp             |  4 ++--
 src/fields2cover/types/MultiLineString.cpp   | 17 +++++++++++++++++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/fields2cover/types/MultiLineString.h b/include/fields2cover/types/MultiLineString.h
index 5dc5514..8b52d0e 100644
--- a/include/fields2cover/types/MultiLineString.h
+++ b/include/fields2cover/types/MultiLineString.h
@@ -56,6 +56,10 @@ struct MultiLineString :
   template <class T, OGRwkbGeometryType R>
   static MultiLineString intersection(
       const LineString& line, const Geometry<T, R>& g);
+
+  /// Parts of the lines that are inside an area
+  static MultiLineString linesInside(
+      const OGRGeometry* lines, const OGRGeometry* area);
 };
 
 
diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..4ad0e2c 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -174,11 +174,11 @@ LineString Cell::createStraightLongLine(
 }
 
 MultiLineString Cell::getLinesInside(const LineString& line) const {
-  return MultiLineString::intersection(line, *this);
+  return MultiLineString::linesInside(line.get(), this->get());
 }
 
 MultiLineString Cell::getLinesInside(const MultiLineString& lines) const {
-  return lines.intersection(*this);
+  return MultiLineString::linesInside(lines.get(), this->get());
 }
 
 bool Cell::isPointInBorder(const Point& p) const {
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..2c3b0a6 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -206,11 +206,11 @@ LineString Cells::createStraightLongLine(
 }
 
 MultiLineString Cells::getLinesInside(const LineString& line) const {
-  return MultiLineString::intersection(line, *this);
+  return MultiLineString::linesInside(line.get(), this->get());
 }
 
 MultiLineString Cells::getLinesInside(const MultiLineString& lines) const {
-  return lines.intersection(*this);
+  return MultiLineString::linesInside(lines.get(), this->get());
 }
 
 Cells Cells::getCellsInside(const Cells& cell) const {
diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..434bcc5 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -68,6 +68,23 @@ void MultiLineString::append(const OGRGeometry* geom) {
   }
 }
 
+MultiLineString MultiLineString::linesInside(
+    const OGRGeometry* lines, const OGRGeometry* area) {
+  MultiLineString res;
+  auto* inter = lines->Intersection(area);
+  // Lines that also touch the area in single points give a collection.
+  if (wkbFlatten(inter->getGeometryType()) ==
+      OGRwkbGeometryType::wkbGeometryCollection) {
+    for (auto&& g : *inter->toGeometryCollection()) {
+      res.append(g);
+    }
+  } else {
+    res.append(inter);
+  }
+  OGRGeometryFactory::destroyGeometry(inter);
+  return res;
+}
+
 void MultiLineString::getGeometry(size_t i, LineString& line) {
   if (i >= this->size()) {
     throw std::out_of_range(
-- 
2.43.0


From c44bf1363541915df43cf714f2401382207b943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 07/17] fix: NSwathModified takes the previous point of the
 ring for its first point

(i - 1) % size wraps around 2^64 for i = 0, so rings whose size does not
divide 2^64 - 1 suitably got an edge between unrelated points.
---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..98e2ffa 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -17,7 +17,7 @@ double NSwathModified::computeCost(
   for (auto&& ring : cell) {
     for (size_t i = 0; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry((i + ring.size() - 1) % ring.size());
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From e48c762cfd742a6ea80f7e39a24bc1c7c688ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 08/17] fix: Overlaps counts every pair of swaths

areas is filled from the last swath to the first one, but was indexed with
the position of the swath, so some pairs were never compared.
---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..a2946bf 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -17,9 +17,10 @@ double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   std::vector<F2CCells> areas;
   for (int i = swaths.size() - 1; i >= 0; --i) {
     areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
-      if (areas[i].intersects(areas[j])) {
-        area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
+    const F2CCells& area = areas.back();
+    for (size_t j = 0; j + 1 < areas.size(); ++j) {
+      if (area.intersects(areas[j])) {
+        area_overlaped += area.intersection(areas[j]).area();
       }
     }
   }
-- 
2.43.0


From 921cd07034ba0f6a329cc6586776a6c65f380514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 09/17] fix: FieldCoverage of no swaths is zero

swaths[0] was read for the width without checking that there is one.
---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..96190f3 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,6 +15,9 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
+  if (swaths.size() == 0) {
+    return 0.0;
+  }
   F2CMultiLineString lines;
   for (const auto& s : swaths) {
     lines.addGeometry(s.getPath());
-- 
2.43.0


From 436c427707d04602ac1f42f8b2c5d8da5dde3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 10/17] fix: RPObjective costs nothing to or from an empty
 group of swaths

back() and [0] were called on empty Swaths, undefined behaviour that a
route with an empty group of swaths runs into.
---
 src/fields2cover/objectives/rp_obj/rp_objective.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..0daee27 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -79,7 +79,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (s.size() == 0 || ps.isEmpty()) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +94,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
-- 
2.43.0


From fbe363a36fcabcc173fc6cd021de4f488ebe069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 11/17] fix: no headland ring for zero swaths from inside to
 outside

---
 src/fields2cover/headland_generator/constant_headland.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..a68388b 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -26,7 +26,7 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     for (int i = 0; i < n_swaths; ++i) {
       hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
     }
-  } else {
+  } else if (n_swaths > 0) {
     hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
     for (int i = 1; i < n_swaths; ++i) {
       hl.emplace_back(hl.back().buffer(swath_width));
-- 
2.43.0


From 44a81484f1cfdc958f4f2f4bd131fb637c4b6fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 12/17] fix: Cells::splitByLine no longer throws on regrowing
 its parts

The loop assigned the grown part to a temporary view, so it never changed the
result, but it threw when the buffer of a thin part is not one polygon.
---
 src/fields2cover/types/Cells.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 2c3b0a6..78839f4 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -178,11 +178,7 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  Cells cells = this->difference(this->buffer(line, 1e-8));
-  for (auto&& c : cells) {
-    c = Cell::buffer(c, 1e-8 * 0.5);
-  }
-  return cells;
+  return this->difference(this->buffer(line, 1e-8));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-- 
2.43.0


From da1e6a6fcd3e785011df9f6d6a9fea8264ea90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 13/17] fix: assigning to a moved-from Point (std::swap of
 points or fields) crashed

---
 src/fields2cover/types/Point.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index f0ff44f..4396b84 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -21,6 +21,9 @@ Point::Point(Point&& p) = default;
 Point::~Point() = default;
 
 Point& Point::operator=(Point&& p) {
+  if (!this->data_) {  // A moved-from point has no data
+    this->data_ = Point().data_;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
@@ -28,6 +31,9 @@ Point& Point::operator=(Point&& p) {
 }
 
 Point& Point::operator=(const Point& p) {
+  if (!this->data_) {  // A moved-from point has no data
+    this->data_ = Point().data_;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
-- 
2.43.0


From 16905eaf59ae8850a0df11a9e6e2fc75dbb686a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 14/17] fix: Field::clone dropped the previous coordinate
 system, and the reference point of a field without cells

---
 src/fields2cover/types/Field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..23ec401 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -76,6 +76,10 @@ void Field::setField(const Cells& _field) {
 Field Field::clone() const {
   Field new_field {this->field_ + this->ref_point_, this->id_};
   new_field.coord_sys_ = this->coord_sys_;
+  new_field.prev_coord_sys_ = this->prev_coord_sys_;
+  if (this->isEmpty()) {
+    new_field.ref_point_ = this->ref_point_;
+  }
   return new_field;
 }
 
-- 
2.43.0


From 02c61bcfcfedae990ab56624077bb1b9efa21ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 15/17] fix: Transform::transform moved the field when the
 coordinate system was rejected

---
 src/fields2cover/utils/transformation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..ddd2433 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -19,9 +19,9 @@ std::unique_ptr<OGRCoordinateTransformation,
 
 void Transform::transform(F2CField& field, const std::string& coord_sys_to) {
   if (!field.isEmpty()) {
+    auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
     field.setField(field.getField() + field.getRefPoint());
-    field.getField()->transform(
-        generateCoordTransf(field.getCRS(), coord_sys_to).get());
+    field.getField()->transform(coords.get());
     field.setRefPoint(field.getField().getCellBorder(0).startPoint());
     field.setField(field.getField() - field.getRefPoint());
   } else {
-- 
2.43.0


From 12fd4fc58a030433de0b7410898ef720cc88c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 16/17] fix: transforming swaths dropped their type and
 direction

---
 src/fields2cover/utils/transformation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index ddd2433..521ef56 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -87,9 +87,11 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
+  F2CSwath new_swath(transform(
         swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+      swath.getWidth(), swath.getId(), swath.getType());
+  new_swath.setCreationDir(swath.getCreationDir());
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +134,10 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  F2CSwath new_swath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
+      swath.getWidth(), swath.getId(), swath.getType());
+  new_swath.setCreationDir(swath.getCreationDir());
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From 1c2aeb55092b04c8000a8ff43278d88bc744008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:42 +0000
Subject: [PATCH 17/17] fix: UTM zones of one digit (1 to 9, as transformToUTM
 writes them) were not understood

---
 src/fields2cover/types/Field.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 23ec401..81a0770 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -166,7 +166,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  const std::string utm {getUTMCoordSystem(coord_sys)};
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -174,7 +175,9 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  const std::string zone {getUTMZone(coord_sys)};
+  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(
+      zone.empty() ? 2 : zone.size(), 1)};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0

