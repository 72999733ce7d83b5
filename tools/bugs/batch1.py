H = r'''
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/Attribute.h>
#include <cstdio>
using namespace lanelet;
#define CHECK(c) do { if (!(c)) { std::printf("violated: %s\n", #c); return 1; } } while (0)
Point3d P(Id i, double x, double y) { return Point3d(i, x, y, 0); }
LineString3d L(Id i, double x, double y, double x2, double y2) { return LineString3d(i, {P(i*10, x, y), P(i*10+1, x2, y2)}); }
Lanelet LL(Id i, double y) { return Lanelet(i, L(i*10+1, 0, y+1, 5, y+1), L(i*10+2, 0, y, 5, y)); }
'''
MAP = "lanelet2_core/src/LaneletMap.cpp"
RE = "lanelet2_core/src/BasicRegulatoryElements.cpp"
GTR = "lanelet2_traffic_rules/src/GenericTrafficRules.cpp"
BUGS = [
 dict(id="c03-tracked-by-id", prop="C03", needs="a regulatory element that refers to an area and a lanelet with the same id, and no other owner of the second one",
      breaks="The submap keeps only one object per id alive, but lanelets and areas have separate id spaces in a map.",
      edits=[(MAP, "      if (!wa.expired()) {\n        llOrAreas_->emplace_back(wa.lock());\n      }",
                   "      if (wa.expired()) {\n        return;\n      }\n      ConstArea ar = wa.lock();\n      // no need to hold an object more than once\n      auto sameId = [&ar](auto& obj) {\n        return boost::apply_visitor([](auto& prim) { return prim.id(); }, obj) == ar.id();\n      };\n      if (std::none_of(llOrAreas_->begin(), llOrAreas_->end(), sameId)) {\n        llOrAreas_->emplace_back(ar);\n      }")],
      demo=H + r'''
int main() {
  LaneletSubmap sm;
  RegulatoryElementPtr re;
  {
    auto a = LL(7, 0);
    Area ar(7, {L(90, 0, 0, 1, 0), L(91, 1, 0, 1, 1), L(92, 1, 1, 0, 0)});
    auto data = std::make_shared<RegulatoryElementData>(600);
    data->parameters["lanelets"] = RuleParameters{WeakLanelet(a)};
    data->parameters["zones"] = RuleParameters{WeakArea(ar)};
    re = RegulatoryElementFactory::create("", data);
    sm.add(re);
  }
  CHECK(re->getParameters<ConstLanelet>("lanelets").size() == 1);
  CHECK(re->getParameters<ConstArea>("zones").size() == 1);
  return 0;
}
'''),
 dict(id="c07-stale-end-after-move", prop="C07", needs="an attribute map with a gap in its index (an attribute with a lower enum value absent) that is move assigned, followed by a lookup of the absent attribute by name constant",
      breaks="After a move assignment the index keeps end iterators of the source, so an absent attribute is found through the name constant.",
      edits=[("lanelet2_core/include/lanelet2_core/utility/HybridMap.h",
              "    v_ = std::move(rhs.v_);\n    // move invalidates no iterators except end\n    detail::replaceIterator(v_, rhs.m_.end(), m_.end());\n    return *this;",
              "    v_ = std::move(rhs.v_);\n    return *this;")],
      demo=H + r'''
int main() {
  AttributeMap a{{"location", "urban"}};
  AttributeMap b{{"type", "x"}};
  b = std::move(a);
  CHECK(b.find(AttributeName::Location) != b.end());
  CHECK(b.find(AttributeName::Type) == b.find("type"));
  CHECK(b.find(AttributeName::Subtype) == b.end());
  return 0;
}
'''),
 dict(id="c08-resize-inverted-grow", prop="C08", needs="growing a non empty linestring with resize through an inverted handle",
      breaks="New points appear at the front of the inverted view instead of at its end.",
      edits=[("lanelet2_core/include/lanelet2_core/primitives/LineString.h",
              "  void resize(size_t num) {\n    if (inverted()) {\n      std::reverse(begin(), end());\n    }\n    points().resize(num);\n    if (inverted()) {\n      std::reverse(begin(), end());\n    }\n  }",
              "  void resize(size_t num) {\n    // the order only matters if points are removed, new points are all alike\n    const bool reorder = inverted() && num < size();\n    if (reorder) {\n      std::reverse(begin(), end());\n    }\n    points().resize(num);\n    if (reorder) {\n      std::reverse(begin(), end());\n    }\n  }")],
      demo=H + r'''
int main() {
  LineString3d l(1, {P(1,0,0), P(2,1,0)});
  auto i = l.invert();
  i.resize(3);
  CHECK(i.size() == 3);
  CHECK(i[0].id() == 2 && i[1].id() == 1);
  CHECK(l[1].id() == 1 && l[2].id() == 2);
  return 0;
}
'''),
 dict(id="c10-removed-lanelet-order", prop="C10", needs="an all way stop with three lanelets and stop lines where one that is not the last is removed",
      breaks="The remaining lanelets are attached to each other's stop lines.",
      edits=[(RE, "  yieldLLts.erase(lltIt);\n  return true;", "  *lltIt = yieldLLts.back();\n  yieldLLts.pop_back();\n  return true;")],
      demo=H + r'''
int main() {
  auto a = LL(1, 0), b = LL(2, 10), c = LL(3, 20);
  auto s = [](Id i) { return L(i, 0, 0, 1, 1); };
  auto la = s(401), lb = s(402), lc = s(403), ld = s(404);
  auto d = LL(4, 30);
  auto aws = AllWayStop::make(500, AttributeMap(), {{a, la}, {b, lb}, {c, lc}, {d, ld}}, LineStringsOrPolygons3d());
  aws->removeLanelet(a);
  CHECK(aws->lanelets().size() == 3 && aws->stopLines().size() == 3);
  CHECK(*aws->getStopLine(b) == lb);
  CHECK(*aws->getStopLine(c) == lc);
  CHECK(*aws->getStopLine(d) == ld);
  return 0;
}
'''),
 dict(id="c18-area-to-lanelet-right", prop="C18", libs=["traffic_rules", "core"], needs="an area to the right of a lanelet, separated by a marking that may be crossed from one side only",
      breaks="Entering a lanelet from an area on its right is judged by the wrong side of the marking.",
      edits=[(GTR, "  if (geometry::rightOf(to, from)) {\n    return canChangeToLeft(laneChangeType(to.rightBound(), true));",
                   "  if (geometry::rightOf(to, from)) {\n    return canChangeToRight(laneChangeType(to.rightBound(), true));")],
      demo=H + r'''
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_traffic_rules/TrafficRules.h>
int main() {
  auto a = LL(1, 0);
  auto r = a.rightBound();
  r.setAttribute("type", "line_thin"); r.setAttribute("subtype", "solid_dashed");
  a.setAttribute("subtype", "road"); a.setAttribute("location", "urban");
  auto p0 = r.front(), p1 = r.back(); Point3d q(999, 2, -5, 0);
  Area ar(5, {r.invert() /* p1->p0 */, LineString3d(801, {p0, q}), LineString3d(802, {q, p1})});
  Area ar2(6, {r, LineString3d(803, {p1, q}), LineString3d(804, {q, p0})});
  for (auto* x : {&ar, &ar2}) { x->setAttribute("participant:bicycle", "yes"); } // germany
  auto rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::Bicycle);
  bool ok = false;
  for (auto* x : {&ar, &ar2}) {
    // solid on the left, dashed on the right: may be crossed from the right to the left
    bool out = rules->canPass(a, *x), in = rules->canPass(*x, a);
    std::printf("%d %d\n", out, in);
    if (out) return 1;
    ok = ok || in;
  }
  CHECK(ok);
  return 0;
}
'''),
 dict(id="c19-nonurban-playstreet", prop="C19", libs=["traffic_rules", "core"], needs="a play street outside of urban areas",
      breaks="The default speed limit of a non urban play street is the one of a country road.",
      edits=[(GTR, "{{Value::Nonurban, Value::PlayStreet}, &CountrySpeedLimits::playStreet}", "{{Value::Nonurban, Value::PlayStreet}, &CountrySpeedLimits::vehicleNonurbanRoad}")],
      demo=H + r'''
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_traffic_rules/TrafficRules.h>
int main() {
  auto a = LL(1, 0), b = LL(2, 10);
  for (auto* x : {&a, &b}) x->setAttribute("subtype", "play_street");
  a.setAttribute("location", "urban"); b.setAttribute("location", "nonurban");
  auto rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::VehicleCar);
  CHECK(rules->speedLimit(a).speedLimit == rules->speedLimit(b).speedLimit);
  return 0;
}
'''),
]
