From 071fd37c7a0973d1d3a75109674502f101669bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 01/37] fix: moving a vector into an inverted line string has
 to reverse it

The result of utils::invert() was discarded, so that the points were stored in the wrong direction.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..b82fda4 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      std::reverse(rhs.begin(), rhs.end());
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From f56f691db2018beb44b93464fb9b08c878c46839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 02/37] fix: findUsagesInLanelets and findUsagesInAreas
 returned elements twice

std::unique only removes adjacent duplicates, so the result has to be sorted first.
---
 lanelet2_core/src/LaneletMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..f235e96 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -795,6 +795,8 @@ ConstLanelets findUsagesInLanelets(const LaneletMapLayers& map, const ConstPoint
   auto llts = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls); });
   auto lltsInv = utils::concatenate(ls, [&map](const auto& ls) { return map.laneletLayer.findUsages(ls.invert()); });
   llts.insert(llts.end(), lltsInv.begin(), lltsInv.end());
+  // equal elements have to be adjacent for std::unique
+  std::sort(llts.begin(), llts.end(), [](const auto& lhs, const auto& rhs) { return lhs.id() < rhs.id(); });
   auto remove = std::unique(llts.begin(), llts.end());
   llts.erase(remove, llts.end());
   return llts;
@@ -805,6 +807,8 @@ ConstAreas findUsagesInAreas(const LaneletMapLayers& map, const ConstPoint3d& p)
   auto areas = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls); });
   auto areasInv = utils::concatenate(ls, [&map](const auto& ls) { return map.areaLayer.findUsages(ls.invert()); });
   areas.insert(areas.end(), areasInv.begin(), areasInv.end());
+  // equal elements have to be adjacent for std::unique
+  std::sort(areas.begin(), areas.end(), [](const auto& lhs, const auto& rhs) { return lhs.id() < rhs.id(); });
   auto remove = std::unique(areas.begin(), areas.end());
   areas.erase(remove, areas.end());
   return areas;
-- 
2.43.0


From ff1f155602845dc6cd951d862e7a47989d1619ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 03/37] fix: adding an element to a submap again duplicated it
 in the lookups

The element was put into the r-tree and the usage lookup a second time, so spatial queries and findUsages
returned it twice. LaneletMap::add ignores elements that are already present, do the same here.
---
 lanelet2_core/src/LaneletMap.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index f235e96..36ceb0a 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -683,34 +683,52 @@ void LaneletMap::add(Point3d point) {
 }
 
 void LaneletSubmap::add(Lanelet lanelet) {
+  if (laneletLayer.exists(lanelet.id())) {
+    return;
+  }
   checkId(lanelet);
   utils::forEach(lanelet.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
   laneletLayer.add(lanelet);
 }
 
 void LaneletSubmap::add(Area area) {
+  if (areaLayer.exists(area.id())) {
+    return;
+  }
   checkId(area);
   utils::forEach(area.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
   areaLayer.add(area);
 }
 
 void LaneletSubmap::add(const RegulatoryElementPtr& regElem) {
+  if (regulatoryElementLayer.exists(regElem->id())) {
+    return;
+  }
   checkId(*regElem);
   trackParameters(*regElem);
   regulatoryElementLayer.add(regElem);
 }
 
 void LaneletSubmap::add(Polygon3d polygon) {
+  if (polygonLayer.exists(polygon.id())) {
+    return;
+  }
   checkId(polygon);
   polygonLayer.add(polygon);
 }
 
 void LaneletSubmap::add(LineString3d lineString) {
+  if (lineStringLayer.exists(lineString.id())) {
+    return;
+  }
   checkId(lineString);
   lineStringLayer.add(lineString);
 }
 
 void LaneletSubmap::add(Point3d point) {
+  if (pointLayer.exists(point.id())) {
+    return;
+  }
   checkId(point);
   pointLayer.add(point);
 }
-- 
2.43.0


From 97cf54108f3176d9b2c2e82c374ee1a9d1665422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 04/37] fix: ids of elements of a created map could be handed
 out again

Only the area layer registered the ids of the elements it is constructed from, so after utils::createMap getId and
uniqueId could return the id of an existing point, linestring, polygon, lanelet or regulatory element.
---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 36ceb0a..67600ad 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From e0100ae9361b1e181cad53c9e737d6d18257a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 05/37] fix: converting a const submap to a map lost the
 orientation of polygons

---
 lanelet2_core/src/LaneletMap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 67600ad..90decb9 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -745,9 +745,12 @@ LaneletMapConstPtr LaneletSubmap::laneletMap() const {
   auto addLs = [&map](auto& prim) {
     map->add(LineString3d(std::const_pointer_cast<LineStringData>(prim.constData()), prim.inverted()));
   };
+  auto addPoly = [&map](auto& prim) {
+    map->add(Polygon3d(std::const_pointer_cast<LineStringData>(prim.constData()), prim.inverted()));
+  };
   auto addRe = [&map](auto& prim) { map->add(std::const_pointer_cast<RegulatoryElement>(prim)); };
   utils::forEach(regulatoryElementLayer, addRe);
-  utils::forEach(polygonLayer, add);
+  utils::forEach(polygonLayer, addPoly);
   utils::forEach(lineStringLayer, addLs);
   utils::forEach(pointLayer, add);
   return map;
-- 
2.43.0


From 3f4950b5828268876fbd5964f65959f60ff2e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 06/37] fix: stop lines of an all way stop shifted to other
 lanelets when a lanelet expired

---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 44 ++++++++++---------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..ea6dd13 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -76,6 +76,24 @@ ConstLineStringsOrPolygons3d getConstLsOrPoly(const RuleParameterMap& params, Ro
                           [](auto& lsOrPoly) { return static_cast<ConstLineStringOrPolygon3d>(lsOrPoly); });
 }
 
+// Looks up the stop line at the position of the lanelet in the parameters. Expired lanelets keep their position there.
+Optional<LineString3d> findStopLine(const RuleParameterMap& params, const ConstLanelet& llt) {
+  auto yields = params.find(RoleName::Yield);
+  auto lines = params.find(RoleName::RefLine);
+  if (yields == params.end() || lines == params.end() || lines->second.empty()) {
+    return {};
+  }
+  auto it = std::find_if(yields->second.begin(), yields->second.end(), [&](const RuleParameter& param) {
+    const auto* weak = boost::get<WeakLanelet>(&param);
+    return weak != nullptr && !weak->expired() && weak->lock() == llt;
+  });
+  if (it == yields->second.end()) {
+    return {};
+  }
+  const auto* line = boost::get<LineString3d>(&lines->second.at(size_t(std::distance(yields->second.begin(), it))));
+  return line != nullptr ? *line : Optional<LineString3d>();
+}
+
 void updateTrafficSigns(TrafficSignsWithType trafficSigns) {
   if (!trafficSigns.type.empty()) {
     for (auto& sign : trafficSigns.trafficSigns) {
@@ -375,30 +393,14 @@ ConstLineStrings3d AllWayStop::stopLines() const { return getParameters<ConstLin
 LineStrings3d AllWayStop::stopLines() { return getParameters<LineString3d>(RoleName::RefLine); }
 
 Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) const {
-  auto sl = stopLines();
-  if (sl.empty()) {
+  auto stopLine = findStopLine(parameters(), llt);
+  if (!stopLine) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
-    return {};
-  }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return ConstLineString3d(*stopLine);
 }
 
-Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
-  auto sl = stopLines();
-  if (sl.empty()) {
-    return {};
-  }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
-    return {};
-  }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
-}
+Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) { return findStopLine(parameters(), llt); }
 
 ConstLineStringsOrPolygons3d AllWayStop::trafficSigns() const {
   return getConstLsOrPoly(parameters(), RoleName::Refers);
@@ -416,7 +418,7 @@ bool AllWayStop::removeTrafficSign(const LineStringOrPolygon3d& sign) {
 
 void AllWayStop::addLanelet(const LaneletWithStopLine& lltWithStop) {
   auto sl = stopLines();
-  if (sl.empty() && !lanelets().empty() && !!lltWithStop.stopLine) {
+  if (sl.empty() && !parameters()[RoleName::Yield].empty() && !!lltWithStop.stopLine) {
     throw InvalidInputError("A lanelet with stop line was added, but existing lanelets don't have a stop line!");
   }
   if (!sl.empty() && !lltWithStop.stopLine) {
-- 
2.43.0


From 11a5d2d62a8de5c63211bc0d0fd9868a88b07754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 07/37] fix: areas that must not be used could be entered from
 other areas

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From 8f370eed6a377a18d3cd2b5c746e590f0211f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 08/37] fix: bus lanes were closed to buses, taxis and
 emergency vehicles and had no speed limit

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 28ab26e..582c71d 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -271,6 +271,8 @@ SpeedLimitInformation getSpeedLimitFromType(const AttributeMap& attributes, cons
       {{Value::Urban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
       {{Value::Nonurban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
       {{Value::Urban, Value::Exit}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Urban, Value::BusLane}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Nonurban, Value::BusLane}, &CountrySpeedLimits::vehicleNonurbanRoad},
   };
   if (participant == Participants::Pedestrian) {
     return countryLimits.pedestrian;
@@ -334,6 +336,7 @@ Optional<bool> GenericTrafficRules::canPass(const std::string& type, const std::
       {Value::BicycleLane, {Participants::Bicycle}},
       {Value::PlayStreet, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::EmergencyLane, {Participants::VehicleEmergency}},
+      {Value::BusLane, {Participants::VehicleBus, Participants::VehicleEmergency, Participants::VehicleTaxi}},
       {Value::Exit, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::Walkway, {Participants::Pedestrian}},
       {Value::Crosswalk, {Participants::Pedestrian}},
-- 
2.43.0


From 286dbf76f5628a0a4da34622a888dbc8378a4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 09/37] fix: speed_limit_mandatory overruled
 speed_limit_mandatory of the participant

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 582c71d..e48ee55 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -307,8 +307,10 @@ SpeedLimitInformation GenericTrafficRules::speedLimit(const RegulatoryElementCon
         getMapOrDefault(attributes, AttributeName::SpeedLimit, Attribute(0_kmh)).asVelocity().get_value_or(0_kmh);
     auto limit =
         getOverride(attributes, Attr::SpeedLimit + ":"s, Attr::SpeedLimit + ":"s + participant(), defaultLimit);
-    auto mandatory =
-        getOverride(attributes, Attr::SpeedLimitMandatory, Attr::SpeedLimitMandatory + ":"s + participant(), true);
+    auto defaultMandatory =
+        getMapOrDefault(attributes, Attr::SpeedLimitMandatory, Attribute(true)).asBool().get_value_or(true);
+    auto mandatory = getOverride(attributes, Attr::SpeedLimitMandatory + ":"s,
+                                 Attr::SpeedLimitMandatory + ":"s + participant(), defaultMandatory);
     return {limit, mandatory};
   }
   return getSpeedLimitFromType(attributes, countrySpeedLimits(), participant());
-- 
2.43.0


From 9b6eb5608abc8b67c5b0dc033a9d6b1d7f6cbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 10/37] fix: routingRelation reported conflicts although they
 were not asked for

---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From 2d1b75637c4694a6947e7b7122c617c9189bbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 11/37] fix: two lanelets used against their direction were
 never conflicting

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..1592ae8 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -236,6 +236,11 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
     if ((maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) || (!maxHeight && geometry::overlaps2d(ll, other))) {
       assignCosts(ll, other, RelationType::Conflicting);
       assignCosts(other, ll, RelationType::Conflicting);
+      // the search only returns lanelets in their normal direction
+      if (ll.inverted() && graph_->getVertex(other.invert()) && !hasEdge(ll, other.invert())) {
+        assignCosts(ll, other.invert(), RelationType::Conflicting);
+        assignCosts(other.invert(), ll, RelationType::Conflicting);
+      }
     }
   }
 }
-- 
2.43.0


From cbd5dedf4ac52986bf5991c965cc22e9e603c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 12/37] fix: areas did not know about conflicting lanelets

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 1592ae8..5487a6d 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -297,6 +297,11 @@ void RoutingGraphBuilder::addAreaEdge(const ConstArea& area, const LaneletLayer&
     if ((maxHeight && geometry::overlaps3d(area, candidate, *maxHeight)) ||
         (!maxHeight && geometry::overlaps2d(area, candidate))) {
       assignCosts(candidate, area, RelationType::Conflicting);
+      assignCosts(area, candidate, RelationType::Conflicting);
+      if (bothWaysLaneletIds_.find(candidate.id()) != bothWaysLaneletIds_.end()) {
+        assignCosts(candidate.invert(), area, RelationType::Conflicting);
+        assignCosts(area, candidate.invert(), RelationType::Conflicting);
+      }
     }
   }
 }
-- 
2.43.0


From 6b7f985fdb129ddd44094873e832caed4bfa61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 13/37] fix: entering or leaving an area was counted as a lane
 change in visitor searches

---
 .../include/lanelet2_routing/internal/ShortestPath.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
index 9e67370..1378e10 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
@@ -99,7 +99,8 @@ class DijkstraStyleSearch {
       auto& follower = (*map_)[boost::target(e, g)];
       follower.length = predecessor.length + 1;
       follower.predecessor = boost::source(e, g);
-      follower.numLaneChanges = predecessor.numLaneChanges + (g[e].relation != RelationType::Successor);
+      auto isLaneChange = g[e].relation != RelationType::Successor && g[e].relation != RelationType::Area;
+      follower.numLaneChanges = predecessor.numLaneChanges + isLaneChange;
     }
 
    private:
-- 
2.43.0


From d2a61266710e50885c5d6fbcaf2421c9d933ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 14/37] fix: lanelets without a speed limit had an infinite
 travel time cost and lost their successors

---
 lanelet2_routing/src/RoutingCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RoutingCost.cpp b/lanelet2_routing/src/RoutingCost.cpp
index 047bab6..482048c 100644
--- a/lanelet2_routing/src/RoutingCost.cpp
+++ b/lanelet2_routing/src/RoutingCost.cpp
@@ -12,7 +12,7 @@ namespace {
 Velocity speedLimit(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& la) {
   auto limit = la.applyVisitor([&](auto& la) { return trafficRules.speedLimit(la); });
   if (limit.speedLimit.value() == 0.) {
-    limit.speedLimit = std::numeric_limits<double>::max() * Velocity();
+    limit.speedLimit = std::numeric_limits<double>::max() * units::MPS();
   }
   if (std::isinf(limit.speedLimit.value())) {
     throw lanelet::InvalidInputError("Infinite speed limit returned by trafficRules object");
-- 
2.43.0


From 7e87dccfeebb9fbb6f66a88d9d31927c3679ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 15/37] fix: the remaining shortest path of a route with a
 single lanelet was empty

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..1498668 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -142,7 +142,7 @@ LaneletPath Route::remainingShortestPath(const ConstLanelet& ll) const {
   if (iter == shortestPath_.end()) {
     return LaneletPath{};
   }
-  if (!shortestPath_.empty() && shortestPath_.front() == shortestPath_.back()) {  // circular
+  if (shortestPath_.size() > 1 && shortestPath_.front() == shortestPath_.back()) {  // circular
     ConstLanelets llts{shortestPath_.begin(), shortestPath_.end()};
     llts.pop_back();
     std::rotate(llts.begin(), llts.begin() + std::distance(shortestPath_.begin(), iter), llts.end());
-- 
2.43.0


From daedf34313f15ec8c09e6569215e3cc429b3f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 16/37] fix: left and right relations of lanelets outside of
 the route dereferenced a missing vertex

---
 lanelet2_routing/src/Route.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 1498668..83ad532 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -267,6 +267,9 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
@@ -288,6 +291,9 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-- 
2.43.0


From 2521bdd4094906bbdb81f5a87ddaac9dbd333afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 17/37] fix: validity check of routes reported consistent
 relations and accepted inconsistent ones

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 83ad532..e906a90 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -359,7 +359,7 @@ bool Route::contains(const ConstLanelet& lanelet) const { return !!graph_->getVe
 
 template <RelationType Expect>
 void checkRelationIs(Route::Errors& errors, Id source, Id dest, RelationType sourceRel, RelationType targetRel) {
-  if ((Expect & targetRel) != RelationType::None) {
+  if ((Expect & targetRel) == RelationType::None) {
     auto sourceStr = std::to_string(source);
     auto destStr = std::to_string(dest);
     errors.emplace_back("Lanelet " + sourceStr + " is " + relationToString(sourceRel) + "of/with " + destStr +
-- 
2.43.0


From 8f2c7e37e4d16da1683e041785f890445724942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 18/37] fix: debug map of a route contained only one of its
 relations and no point for a single lanelet

---
 lanelet2_routing/src/Route.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index e906a90..d706425 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -59,7 +59,7 @@ void addRelation(std::map<DebugEdge, LineString3d>& edgeMap, std::map<Id, Point2
     if (toPointIt == vertexMap.end()) {
       toPointIt = createAndAddPoint(vertexMap, to);
     }
-    LineString2d lineString;
+    LineString2d lineString(utils::getId());
     lineString.push_back(fromPointIt->second);
     lineString.push_back(toPointIt->second);
     lineStringMapIt = edgeMap.emplace(orderedPair, LineString3d(lineString)).first;
@@ -208,6 +208,9 @@ LaneletMapPtr Route::getDebugLaneletMap() const {
     addRelation(edgeMap, vertexMap, g[boost::source(e, g)], g[boost::target(e, g)], g[e].relation);
   };
   for (auto v : graph_->get().vertex_set()) {
+    if (vertexMap.find(g[v].lanelet.id()) == vertexMap.end()) {
+      createAndAddPoint(vertexMap, g[v]);
+    }
     auto outEdges = boost::out_edges(v, graph_->get());
     std::for_each(outEdges.first, outEdges.second, addEdge);
   }
-- 
2.43.0


From b345163e4d36389f611686e2ed760b42ed3ad3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 19/37] fix: compound polygons without or with one point had a
 segment

---
 .../include/lanelet2_core/primitives/CompoundPolygon.h    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h b/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h
index 750fb03..5a1eaf0 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h
@@ -27,7 +27,7 @@ class CompoundPolygon2d : public CompoundLineStringImpl<ConstPoint2d> {
   explicit CompoundPolygon2d(const CompoundLineString2d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundLineString2d() const { return CompoundLineString2d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
 
   BasicLineString basicLineString() = delete;
   BasicPolygon2d basicPolygon() const { return {basicBegin(), basicEnd()}; }
@@ -55,7 +55,7 @@ class CompoundPolygon3d : public CompoundLineStringImpl<ConstPoint3d> {
   explicit CompoundPolygon3d(const CompoundLineString3d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundLineString3d() const { return CompoundLineString3d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
 
   BasicLineString basicLineString() = delete;
   BasicPolygon3d basicPolygon() const {
@@ -87,7 +87,7 @@ class CompoundHybridPolygon2d : public CompoundLineStringImpl<BasicPoint2d> {
   explicit CompoundHybridPolygon2d(const CompoundHybridLineString2d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundHybridLineString2d() const { return CompoundHybridLineString2d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
   BasicLineString basicLineString() = delete;
   BasicPolygon2d basicPolygon() const { return {basicBegin(), basicEnd()}; }
 };
@@ -115,7 +115,7 @@ class CompoundHybridPolygon3d : public CompoundLineStringImpl<BasicPoint3d> {
   explicit CompoundHybridPolygon3d(const CompoundHybridLineString3d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundHybridLineString3d() const { return CompoundHybridLineString3d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
   BasicLineString basicLineString() = delete;
   BasicPolygon3d basicPolygon() const { return {basicBegin(), basicEnd()}; }
 };
-- 
2.43.0


From 837905bab1ace67aeff4e243b4d22bd787ab1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 20/37] fix: inverted lanelet sequences did not invert their
 lanelets

---
 .../lanelet2_core/primitives/LaneletSequence.h    | 15 +++++++++------
 lanelet2_core/src/LaneletSequence.cpp             |  1 +
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LaneletSequence.h b/lanelet2_core/include/lanelet2_core/primitives/LaneletSequence.h
index 06f9583..af94a0a 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LaneletSequence.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LaneletSequence.h
@@ -37,6 +37,8 @@ class LaneletSequenceData : public boost::noncopyable {
   const CompoundLineString3d& rightBound3d() const { return rightBound_; }
   CompoundLineString2d rightBound2d() const { return utils::to2D(rightBound3d()); }
   const ConstLanelets& lanelets() const { return lanelets_; }
+  //! The lanelets as seen by an inverted LaneletSequence
+  const ConstLanelets& invertedLanelets() const { return invertedLanelets_; }
 
   /**
    * @brief computes the centerline. Result is cached
@@ -53,15 +55,16 @@ class LaneletSequenceData : public boost::noncopyable {
   CompoundPolygon3d polygon() const;
 
   iterator begin(bool inverted) const noexcept {
-    return inverted ? iterator(lanelets_.rbegin()) : iterator(lanelets_.begin());
+    return iterator(inverted ? invertedLanelets_.begin() : lanelets_.begin());
   }
 
   iterator end(bool inverted) const noexcept {
-    return inverted ? iterator(lanelets_.rend()) : iterator(lanelets_.end());
+    return iterator(inverted ? invertedLanelets_.end() : lanelets_.end());
   }
 
  private:
-  const ConstLanelets lanelets_;  // NOLINT
+  const ConstLanelets lanelets_;          // NOLINT
+  const ConstLanelets invertedLanelets_;  // NOLINT
   //!< Cached data
   const CompoundLineString3d leftBound_;                      // NOLINT
   const CompoundLineString3d rightBound_;                     // NOLINT
@@ -203,12 +206,12 @@ class LaneletSequence {
    * @brief returns the lanelets that are part of this object
    * @return vector of lanelets
    */
-  ConstLanelets lanelets() const { return inverted() ? utils::invert(data_->lanelets()) : data_->lanelets(); }
+  ConstLanelets lanelets() const { return inverted() ? data_->invertedLanelets() : data_->lanelets(); }
 
-  //! Returns iterator to the first lanelet (or to the last, if inverted)
+  //! Returns iterator to the first lanelet (or to the inverted last, if inverted)
   iterator begin() const noexcept { return data_->begin(inverted()); }
 
-  //! Returns iterator to the last lanelet (or to the first, if inverted)
+  //! Returns iterator behind the last lanelet (or behind the inverted first, if inverted)
   iterator end() const noexcept { return data_->end(inverted()); }
 
   //! Access an individual lanelet
diff --git a/lanelet2_core/src/LaneletSequence.cpp b/lanelet2_core/src/LaneletSequence.cpp
index 5712a62..576b289 100644
--- a/lanelet2_core/src/LaneletSequence.cpp
+++ b/lanelet2_core/src/LaneletSequence.cpp
@@ -4,6 +4,7 @@ namespace lanelet {
 
 lanelet::LaneletSequenceData::LaneletSequenceData(lanelet::ConstLanelets lanelets)
     : lanelets_{std::move(lanelets)},
+      invertedLanelets_{utils::invert(utils::transform(lanelets_, [](const auto& l) { return l.invert(); }))},
       leftBound_{utils::transform(lanelets_, [](const auto& l) { return l.leftBound(); })},
       rightBound_{utils::transform(lanelets_, [](const auto& l) { return l.rightBound(); })} {}
 
-- 
2.43.0


From 8362533bedd5150b5e0f0eb0e9433aec5f561f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 21/37] fix: findNearest with a count of zero read the last of
 no results

---
 lanelet2_core/src/LaneletMap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 90decb9..badea58 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -997,6 +997,9 @@ auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
   // of the count-th furthest current element, then we can stop, because all
   // succeding elements will be even further away.
   NSmallestElements<RetT> closest(count);
+  if (count == 0) {
+    return closest.moveValues();
+  }
   auto searchFunction = [&closest, &pt](auto& box, const RetT& prim) {
     auto dBox = distance(box, pt);
     if (closest.full() && dBox > closest.values().back().first) {
-- 
2.43.0


From 818c9f60ebf0adecc1e035f4b04809ca77cc2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 22/37] fix: distance to a regulatory element threw if one of
 its parameters is an empty line string or polygon

---
 lanelet2_core/src/RegulatoryElementGeometry.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/src/RegulatoryElementGeometry.cpp b/lanelet2_core/src/RegulatoryElementGeometry.cpp
index 8ce4e47..99a9cb7 100644
--- a/lanelet2_core/src/RegulatoryElementGeometry.cpp
+++ b/lanelet2_core/src/RegulatoryElementGeometry.cpp
@@ -51,8 +51,18 @@ struct Bbox3dVisitor : public RuleParameterVisitor {  // NOLINT
 struct DistanceVisitor : public RuleParameterVisitor {  // NOLINT
   explicit DistanceVisitor(BasicPoint2d p) : pdist{std::move(p)} {}
   void operator()(const ConstPoint3d& p) override { d = std::min(d, distance(traits::to2D(p), pdist)); }
-  void operator()(const ConstLineString3d& l) override { d = std::min(d, distance2d(l, pdist)); }
-  void operator()(const ConstPolygon3d& p) override { d = std::min(d, distance2d(p, pdist)); }
+  void operator()(const ConstLineString3d& l) override {
+    if (l.empty()) {
+      return;
+    }
+    d = std::min(d, distance2d(l, pdist));
+  }
+  void operator()(const ConstPolygon3d& p) override {
+    if (p.empty()) {
+      return;
+    }
+    d = std::min(d, distance2d(p, pdist));
+  }
   void operator()(const ConstWeakLanelet& ll) override {
     if (ll.expired()) {
       return;
-- 
2.43.0


From 9723e830838cd2a4eb1de40d704aed9eb01a4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 23/37] fix: reading an attribute could use a cached value that
 another thread had already replaced

---
 lanelet2_core/src/Attribute.cpp | 38 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..4b978d3 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -37,12 +37,14 @@ T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
 }
 
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
   if (!c) {
-    return nullptr;
+    return {};
   }
-  return boost::get<T>(&*cache);
+  // the value must be copied: another thread can replace the cache as soon as we release it
+  auto* value = boost::get<T>(c.get());
+  return value != nullptr ? Optional<T>(*value) : Optional<T>();
 }
 }  // namespace
 
@@ -60,9 +62,9 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<bool>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -80,9 +82,9 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<double>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -94,9 +96,9 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<Id>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -108,9 +110,9 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<int>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   try {
@@ -122,9 +124,9 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
-    return *val;
+  auto val = load<Velocity>(cache_);
+  if (!!val) {
+    return val;
   }
   // need to compute value
   auto asD = asDouble();
-- 
2.43.0


From ce02c762718a470774b5b055e67f8cad1efa6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 24/37] fix: copying an attribute while others read its values
 was a data race

---
 lanelet2_core/include/lanelet2_core/Attribute.h |  5 +++++
 lanelet2_core/src/Attribute.cpp                 | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..90b137f 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -37,6 +37,11 @@ class Attribute {
   using Cache = boost::variant<bool, double, Id, int, Velocity>;
 
   Attribute() = default;
+  Attribute(const Attribute& rhs);
+  Attribute(Attribute&& rhs) noexcept = default;
+  Attribute& operator=(const Attribute& rhs);
+  Attribute& operator=(Attribute&& rhs) noexcept = default;
+  ~Attribute() noexcept = default;
   Attribute(const std::string& value) : value_{value} {}        // NOLINT
   Attribute(std::string&& value) : value_{std::move(value)} {}  // NOLINT
   Attribute(const char* value) : value_(value) {}               // NOLINT
diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 4b978d3..4d961be 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -48,6 +48,18 @@ Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
 }
 }  // namespace
 
+// other threads can read values from (and therefore update the cache of) the attribute that is copied
+Attribute::Attribute(const Attribute& rhs)
+    : value_(rhs.value_), cache_(std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire)) {}
+
+Attribute& Attribute::operator=(const Attribute& rhs) {
+  if (this != &rhs) {
+    value_ = rhs.value_;
+    cache_ = std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire);
+  }
+  return *this;
+}
+
 Attribute::Attribute(Id value) : value_(std::to_string(value)) { store(cache_, value); }
 
 Attribute::Attribute(bool value) : value_(std::to_string(int(value))) { store(cache_, value); }
-- 
2.43.0


From 3ddce28758c8cb067526d3d66ae037183d183468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 25/37] fix: an attribute made from a floating point number did
 not keep its value

---
 lanelet2_core/src/Attribute.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 4d961be..277cfc7 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -46,6 +46,18 @@ Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   auto* value = boost::get<T>(c.get());
   return value != nullptr ? Optional<T>(*value) : Optional<T>();
 }
+
+// text that gives exactly the same value when it is read again
+std::string toText(double value) {
+  auto text = std::to_string(value);
+  try {
+    if (boost::lexical_cast<double>(text) == value || value != value) {
+      return text;
+    }
+  } catch (boost::bad_lexical_cast&) {
+  }
+  return boost::lexical_cast<std::string>(value);
+}
 }  // namespace
 
 // other threads can read values from (and therefore update the cache of) the attribute that is copied
@@ -66,11 +78,9 @@ Attribute::Attribute(bool value) : value_(std::to_string(int(value))) { store(ca
 
 Attribute::Attribute(int value) : value_(std::to_string(value)) { store(cache_, value); }
 
-Attribute::Attribute(double value) : value_(std::to_string(value)) { store(cache_, value); }
+Attribute::Attribute(double value) : value_(toText(value)) {}
 
-Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQuantity(value).value())} {
-  store(cache_, value);
-}
+Attribute::Attribute(const Velocity& value) : value_{toText(units::KmHQuantity(value).value())} {}
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-- 
2.43.0


From 09fc81a56c2a6c9edffbc69c793bc3c47fa90b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 26/37] fix: centerline of a lanelet that starts at a point
 that is all of one of its bounds left the bound or ended there

---
 lanelet2_core/src/Lanelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 58753ae..cc78fb7 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -194,7 +194,7 @@ std::shared_ptr<ConstLineString3d> calculateCenterline(const ConstLineString2d&
   auto leftCurrent = leftBound.begin();
   auto rightCurrent = rightBound.begin();
   // special handling is required if the first two points are identical (i.e. the lanelet is closed at the beginning)
-  if (*leftCurrent == *rightCurrent) {
+  if (*leftCurrent == *rightCurrent && leftBound.size() > 1 && rightBound.size() > 1) {
     ++leftCurrent;
   }
   while (leftCurrent != leftBound.end() || rightCurrent != rightBound.end()) {
-- 
2.43.0


From 3c0ffd069bd573d812aee6ad313ced28e4befb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 27/37] fix: writing a regulatory element with several lanelets
 that are not in the map

Removing the placeholder of the first missing one moved the places of the others by one.
---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..2b3c02b 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From 21f73845885a663f1768404d94b189e95d8fbb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 28/37] fix: load the inner bounds of areas counter-clockwise

as the definition of areas requires it. They were loaded clockwise, whatever the orientation was when they were written.
---
 lanelet2_io/src/OsmHandlerLoad.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..bba575a 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -285,7 +285,10 @@ class FromFileLoader {  // NOLINT
 
   std::vector<LineStrings3d> getInnerRing(const osm::Relation& area) {
     auto innerLs = getLinestrings(area.members, RoleNameString::Inner, area.id);
-    return assembleBoundary(innerLs, area.id);
+    auto innerRings = assembleBoundary(innerLs, area.id);
+    // in contrast to the outer ring, holes are oriented counter-clockwise
+    std::for_each(innerRings.begin(), innerRings.end(), [](auto& ring) { reverse(ring); });
+    return innerRings;
   }
 
   RuleParameterMap getRulesForRegulatoryElement(Id currElemId, const osm::Roles& roles) {
-- 
2.43.0


From 78fb40c20edb6d810beb0b60af2ace745d1a9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 29/37] fix: report rings of areas that do not close

if the ring is the last one, it was dropped without an error.
---
 lanelet2_io/src/OsmHandlerLoad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index bba575a..5501e67 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -375,6 +375,9 @@ class FromFileLoader {  // NOLINT
         rings.emplace_back(LineStrings3d());
       }
     }
+    if (!rings.back().empty()) {
+      parserError(id, "Could not complete boundary around linestring " + std::to_string(rings.back().back().id()));
+    }
     rings.pop_back();  // last ring will be empty or invalid
     return rings;
   }
-- 
2.43.0


From 223623369af5dc6b939a400890475119fd765fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 30/37] fix: orient custom centerlines along the lanelet when
 loading osm files

A lanelet whose centerline is an inverted linestring had a centerline against its direction after loading.
---
 lanelet2_io/src/OsmHandlerLoad.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 5501e67..9793065 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -35,6 +35,21 @@ void reverse(LineStrings3d& lss) {
   std::reverse(lss.begin(), lss.end());
 }
 
+// the format does not store the orientation of the centerline, it has to be recovered from the (oriented) bounds
+LineString3d alignCenterline(const LineString3d& center, const LineString3d& left, const LineString3d& right) {
+  if (center.empty() || left.empty() || right.empty()) {
+    return center;
+  }
+  using traits::to2D;
+  const BasicPoint2d entry = (to2D(left.front()).basicPoint() + to2D(right.front()).basicPoint()) / 2;
+  const BasicPoint2d exit = (to2D(left.back()).basicPoint() + to2D(right.back()).basicPoint()) / 2;
+  const BasicPoint2d front = to2D(center.front()).basicPoint();
+  const BasicPoint2d back = to2D(center.back()).basicPoint();
+  const bool isReversed =
+      (front - exit).norm() < (front - entry).norm() && (back - entry).norm() < (back - exit).norm();
+  return isReversed ? center.invert() : center;
+}
+
 template <typename PrimT>
 PrimT getDummy(Id id) {
   return PrimT(id);
@@ -143,7 +158,7 @@ class FromFileLoader {  // NOLINT
       Lanelet lanelet(id, left, right, attributes);
       if (findRole(llElem.members, RoleNameString::Centerline) != llElem.members.end()) {
         auto center = getLaneletBorder(llElem, RoleNameString::Centerline);
-        lanelet.setCenterline(center);
+        lanelet.setCenterline(alignCenterline(center, left, right));
       }
 
       lanelets_.emplace(id, lanelet);
-- 
2.43.0


From 40e28898c87152dea3fdda14937635e7fc9c24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 31/37] fix: relations that are defined more than once in an
 osm file

The members of the second definition were appended to those of the first.
---
 lanelet2_io/src/OsmFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..7e22c62 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -261,7 +261,12 @@ class OsmFileParser {
       }
       const auto id = node.attribute(keyword::Id).as_llong(InvalId);
       const auto attributes = tags(node);
-      auto& relation = relations.emplace(id, Relation{id, attributes, {}}).first->second;
+      auto inserted = relations.emplace(id, Relation{id, attributes, {}});
+      if (!inserted.second) {
+        reportParseError(id, "Relation is defined more than once");
+        continue;
+      }
+      auto& relation = inserted.first->second;
 
       // resolve members
       auto& roles = relation.members;
-- 
2.43.0


From 592e9a4939035a2e2317400622dff5e41bd7f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 32/37] fix: report members of unknown type in osm files

They were left out without an error.
---
 lanelet2_io/src/OsmFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 7e22c62..c809190 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -284,6 +284,8 @@ class OsmFileParser {
             // insert a placeholder and store a pointer to it for the second pass
             roles.emplace_back(role, nullptr);
             unresolvedRoles.push_back(UnresolvedRole{id, memberId, &roles.back().second});
+          } else {
+            reportParseError(id, "Relation has member " + std::to_string(memberId) + " of unknown type " + type);
           }
         } catch (std::out_of_range&) {
           reportParseError(id, "Relation has nonexistent member " + std::to_string(memberId));
-- 
2.43.0


From 9effc19c33ee61d94836aa57b4b94030cd1ffb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 33/37] fix: ways and nodes are no regulatory elements

A lanelet or area that refers to a way as its regulatory element got the unrelated regulatory element with the id of the way.
---
 lanelet2_io/src/OsmHandlerLoad.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 9793065..2159d20 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -228,6 +228,10 @@ class FromFileLoader {  // NOLINT
   void addRegulatoryElements(std::vector<std::pair<PrimT, const osm::Relation*>>& addTos) {
     for (auto& addTo : addTos) {
       osm::forEachMember(addTo.second->members, RoleNameString::RegulatoryElement, [&](const osm::Role& role) {
+        if (role.second->type() != AttributeValueString::Relation) {
+          parserError(addTo.first.id(), "Regulatory element "s + std::to_string(role.second->id) + " is not of type relation!");
+          return;
+        }
         auto regElem = getOrGetDummy(regulatoryElements_, role.second->id, addTo.first.id());
         addTo.first.addRegulatoryElement(regElem);
       });
-- 
2.43.0


From 9737b1705e6dece436cf29a2e4f652bd3682126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 34/37] fix: exit is a documented subtype of lanelets

---
 lanelet2_validation/src/validators/CheckTags.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index c3ff409..1163332 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -100,8 +100,8 @@ const ValueMap& knownLaneletValues() {
   const static ValueMap Tags{
       {Attr::Type, {Value::Lanelet}},
       {Attr::Subtype,
-       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Highway, Value::PlayStreet,
-        Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
+       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Exit, Value::Highway,
+        Value::PlayStreet, Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
       {Attr::Location, {Value::Nonurban, Value::Private, Value::Urban}}};
   return Tags;
 }
-- 
2.43.0


From 455fae6a0891b5cd85dcfc4d0c8bca0a5bb76538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 35/37] fix: points that are close in 3d are found next to
 points above them

Only the two points nearest in 2d were compared. A point at the same
position on another level hid points that are really close.
---
 .../src/validators/PointsTooClose.cpp         | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lanelet2_validation/src/validators/PointsTooClose.cpp b/lanelet2_validation/src/validators/PointsTooClose.cpp
index 05d5186..15e2f90 100644
--- a/lanelet2_validation/src/validators/PointsTooClose.cpp
+++ b/lanelet2_validation/src/validators/PointsTooClose.cpp
@@ -12,16 +12,22 @@ RegisterMapValidator<PointsTooCloseChecker> reg;
 
 Issues PointsTooCloseChecker::operator()(const lanelet::LaneletMap& map) {
   Issues issues;
+  const double minDist = 0.05;
   for (const auto& p : map.pointLayer) {
-    auto nearest = map.pointLayer.nearest(utils::to2D(p).basicPoint(), 2);
-    if (nearest.size() == 2) {
-      auto& next = nearest[0] == p ? nearest[1] : nearest[0];
-      if (geometry::distance(p, next) < 0.05) {
-        issues.emplace_back(
-            Severity::Warning, Primitive::Point, p.id(),
-            "Point is very close to point " + std::to_string(next.id()) + ". This can lead to defects in the map");
+    // the layer is indexed in 2d, the points nearest in 2d are not necessarily the ones nearest in 3d
+    auto p2d = utils::to2D(p).basicPoint();
+    auto offset = BasicPoint2d(minDist, minDist);
+    Optional<ConstPoint3d> next;
+    for (const auto& other : map.pointLayer.search(BoundingBox2d(p2d - offset, p2d + offset))) {
+      if (other != p && (!next || geometry::distance(p, other) < geometry::distance(p, *next))) {
+        next = other;
       }
     }
+    if (!!next && geometry::distance(p, *next) < minDist) {
+      issues.emplace_back(Severity::Warning, Primitive::Point, p.id(),
+                          "Point is very close to point " + std::to_string(next->id()) +
+                              ". This can lead to defects in the map");
+    }
   }
   return issues;
 }
-- 
2.43.0


From a487a6934b74eba288d57b7f874516ac1cd1a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 36/37] fix: building a routing graph with lanelets that have
 an empty bound

Reading the ends of an empty bound crashed. Loading a map file in which a
border of a lanelet is missing gives such lanelets, so that validating
the file crashed instead of reporting the error.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 5487a6d..c10b2ef 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -108,7 +108,10 @@ ConstLanelets RoutingGraphBuilder::getPassableLanelets(const LaneletLayer& lanel
   ConstLanelets llts;
   llts.reserve(lanelets.size());
   std::copy_if(lanelets.begin(), lanelets.end(), std::back_inserter(llts),
-               [&trafficRules](const ConstLanelet& llt) { return trafficRules.canPass(llt); });
+               [&trafficRules](const ConstLanelet& llt) {
+                 // a bound without points has no ends that could be connected (e.g. a border missing in the map file)
+                 return !llt.leftBound().empty() && !llt.rightBound().empty() && trafficRules.canPass(llt);
+               });
   return llts;
 }
 
-- 
2.43.0


From df4b4a1a0e7ab78bbf5a91916382b6bb59bd2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 37/37] fix: neighbouring lanelets that form a loop

If lanelet A is left of B and B is left of A (e.g. because a lanelet was
mapped twice, with exchanged bounds), all queries for left or right
neighbours and the validation of the graph never returned.
---
 .../lanelet2_routing/internal/GraphUtils.h    | 26 ++++---
 lanelet2_routing/src/Route.cpp                |  9 ++-
 lanelet2_routing/src/RoutingGraph.cpp         | 73 ++++++++++---------
 3 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h b/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
index a7f5004..6cd11a8 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
@@ -75,31 +75,33 @@ struct GetTarget<false> {
 
 template <typename Vertex, typename Graph, typename Func>
 bool anySidewayNeighbourIs(Vertex v, const Graph& g, Func&& f) {
+  std::set<LaneletVertexId> visited;  // neighbours might form a loop
   Optional<LaneletVertexId> currVertex = v;
-  while (!!currVertex && !f(*currVertex)) {
+  while (!!currVertex && visited.insert(*currVertex).second) {
+    if (f(*currVertex)) {
+      return true;
+    }
     currVertex = getNext<RelationType::Left>(*currVertex, g);
   }
-  if (!!currVertex) {
-    return true;
-  }
   currVertex = getNext<RelationType::Right>(v, g);
-  while (!!currVertex && !f(*currVertex)) {
+  while (!!currVertex && visited.insert(*currVertex).second) {
+    if (f(*currVertex)) {
+      return true;
+    }
     currVertex = getNext<RelationType::Right>(*currVertex, g);
   }
-  return !!currVertex;
+  return false;
 }
 
 template <typename Graph>
 std::set<LaneletVertexId> getAllNeighbourLanelets(LaneletVertexId ofVertex, const Graph& ofRoute) {
-  std::set<LaneletVertexId> result{ofVertex};
+  std::set<LaneletVertexId> result;
   Optional<LaneletVertexId> currVertex = ofVertex;
-  while (!!currVertex) {
-    result.insert(*currVertex);
+  while (!!currVertex && result.insert(*currVertex).second) {
     currVertex = getNext<RelationType::Left>(*currVertex, ofRoute);
   }
-  currVertex = ofVertex;
-  while (!!currVertex) {
-    result.insert(*currVertex);
+  currVertex = getNext<RelationType::Right>(ofVertex, ofRoute);
+  while (!!currVertex && result.insert(*currVertex).second) {
     currVertex = getNext<RelationType::Right>(*currVertex, ofRoute);
   }
   return result;
diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index d706425..c2dac1e 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -97,6 +97,11 @@ LaneletSequence remainingLaneImpl(RouteGraph::Vertex v, const FilteredRouteGraph
   return LaneletSequence{std::move(lane)};
 }
 
+//! neighbours can form a loop
+bool isKnown(const ConstLanelet& start, const LaneletRelations& relations, const ConstLanelet& llt) {
+  return llt == start || utils::anyOf(relations, [&](auto& relation) { return relation.lanelet == llt; });
+}
+
 template <bool Backwards = false>
 LaneletRelations getRelations(RouteGraph::Vertex v, const FilteredRouteGraph& g) {
   auto out = internal::GetEdges<Backwards>{}(v, g);
@@ -276,7 +281,7 @@ LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
-  while (!!next) {
+  while (!!next && !isKnown(lanelet, result, g[*next].lanelet)) {
     result.emplace_back(LaneletRelation{g[*next].lanelet, type});
     std::tie(next, type) = getNextVertex(*next, g);
   }
@@ -300,7 +305,7 @@ LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-  while (!!next) {
+  while (!!next && !isKnown(lanelet, result, g[*next].lanelet)) {
     result.emplace_back(LaneletRelation{g[*next].lanelet, type});
     std::tie(next, type) = getNextVertex(*next, g);
   }
diff --git a/lanelet2_routing/src/RoutingGraph.cpp b/lanelet2_routing/src/RoutingGraph.cpp
index 057db0b..a95b433 100644
--- a/lanelet2_routing/src/RoutingGraph.cpp
+++ b/lanelet2_routing/src/RoutingGraph.cpp
@@ -152,11 +152,44 @@ ConstLanelets getUntilEnd(const ConstLanelet& start, Func next) {
   auto result = reservedVector<ConstLanelets>(3);
   Optional<ConstLanelet> current = start;
   while (!!(current = next(*current))) {
+    if (*current == start || utils::contains(result, *current)) {
+      break;  // the neighbours form a loop
+    }
     result.emplace_back(*current);
   }
   return result;
 }
 
+//! collects left/adjacent left (or right/adjacent right) relations until there is no further neighbour
+template <typename Func1, typename Func2>
+LaneletRelations getRelationsUntilEnd(const ConstLanelet& start, RelationType relation, Func1 neighbours,
+                                      RelationType adjacentRelation, Func2 adjacentNeighbours) {
+  auto result = reservedVector<LaneletRelations>(3);
+  auto isNew = [&](const ConstLanelet& llt) {
+    return llt != start && !utils::anyOf(result, [&](auto& rel) { return rel.lanelet == llt; });
+  };
+  ConstLanelet current = start;
+  size_t sizeBefore{};
+  do {
+    sizeBefore = result.size();
+    for (auto const& it : neighbours(current)) {
+      if (!isNew(it)) {
+        return result;  // the neighbours form a loop
+      }
+      result.emplace_back(LaneletRelation{it, relation});
+      current = it;
+    }
+    for (auto const& it : adjacentNeighbours(current)) {
+      if (!isNew(it)) {
+        return result;  // the neighbours form a loop
+      }
+      result.emplace_back(LaneletRelation{it, adjacentRelation});
+      current = it;
+    }
+  } while (result.size() > sizeBefore);
+  return result;
+}
+
 ConstLaneletOrAreas getAllEdgesFromGraph(const RoutingGraphGraph& graph, const FilteredRoutingGraph& subgraph,
                                          const ConstLaneletOrArea& laneletOrArea, bool edgesOut) {
   ConstLaneletOrAreas result;
@@ -520,23 +553,9 @@ ConstLanelets RoutingGraph::adjacentLefts(const ConstLanelet& lanelet, RoutingCo
 }
 
 LaneletRelations RoutingGraph::leftRelations(const ConstLanelet& lanelet, RoutingCostId routingCostId) const {
-  bool leftReached{false};
-  ConstLanelet current = lanelet;
-  LaneletRelations result;
-  while (!leftReached) {
-    const ConstLanelets leftOf{lefts(current, routingCostId)};
-    for (auto const& it : leftOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::Left});
-      current = it;
-    }
-    const ConstLanelets adjacentLeftOf{adjacentLefts(current, routingCostId)};
-    for (auto const& it : adjacentLeftOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::AdjacentLeft});
-      current = it;
-    }
-    leftReached = (leftOf.empty() && adjacentLeftOf.empty());
-  }
-  return result;
+  return getRelationsUntilEnd(
+      lanelet, RelationType::Left, [&](const ConstLanelet& llt) { return lefts(llt, routingCostId); },
+      RelationType::AdjacentLeft, [&](const ConstLanelet& llt) { return adjacentLefts(llt, routingCostId); });
 }
 
 ConstLanelets RoutingGraph::rights(const ConstLanelet& lanelet, RoutingCostId routingCostId) const {
@@ -548,23 +567,9 @@ ConstLanelets RoutingGraph::adjacentRights(const ConstLanelet& lanelet, RoutingC
 }
 
 LaneletRelations RoutingGraph::rightRelations(const ConstLanelet& lanelet, RoutingCostId routingCostId) const {
-  bool rightReached{false};
-  ConstLanelet current = lanelet;
-  auto result = reservedVector<LaneletRelations>(3);
-  while (!rightReached) {
-    const ConstLanelets rightOf{rights(current, routingCostId)};
-    for (auto const& it : rightOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::Right});
-      current = it;
-    }
-    const ConstLanelets adjacentRightOf{adjacentRights(current, routingCostId)};
-    for (auto const& it : adjacentRightOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::AdjacentRight});
-      current = it;
-    }
-    rightReached = (rightOf.empty() && adjacentRightOf.empty());
-  }
-  return result;
+  return getRelationsUntilEnd(
+      lanelet, RelationType::Right, [&](const ConstLanelet& llt) { return rights(llt, routingCostId); },
+      RelationType::AdjacentRight, [&](const ConstLanelet& llt) { return adjacentRights(llt, routingCostId); });
 }
 
 ConstLaneletOrAreas RoutingGraph::conflicting(const ConstLaneletOrArea& laneletOrArea) const {
-- 
2.43.0

