// C04: spatial queries of map layers.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
#include <cmath>
#include "driver.h"
using namespace lanelet;
using namespace drv;

static std::map<std::string, Point3d> ps;
static std::map<std::string, LineString3d> ls;
static std::map<std::string, Polygon3d> gs;
static std::map<std::string, Lanelet> ts;
static std::map<std::string, Area> as;
static std::map<std::string, std::shared_ptr<GenericRegulatoryElement>> rs;
static std::shared_ptr<LaneletMap> m1, m2;
static std::shared_ptr<LaneletSubmap> m3;
static Id ids = 100;

template <typename T>
static std::string nameOf(const T& t) {
  return t.attributes().at("name").value();
}
static std::string nameOf(const RegulatoryElementConstPtr& t) { return t->attributes().at("name").value(); }
static std::string nameOf(const RegulatoryElementPtr& t) { return t->attributes().at("name").value(); }

static int num(const std::string& s) { return atoi(s.c_str()); }
static AttributeMap nm(const std::string& n) {
  AttributeMap a;
  a["name"] = n;
  return a;
}
static LineString3d line(const std::string& n, const std::string& inv) { return inv == "1" ? ls.at(n).invert() : ls.at(n); }
static LineStrings3d lines(const Args& a, size_t from) {
  LineStrings3d r;
  for (size_t i = from; i + 1 < a.size(); i += 2) r.push_back(line(a[i], a[i + 1]));
  return r;
}
static int cm(double d) { return int(std::llround(d * 100)); }

template <typename M>
static void addTo(M& m, const std::string& n) {
  switch (n[0]) {
    case 'p': m.add(ps.at(n)); break;
    case 'l': m.add(ls.at(n)); break;
    case 'g': m.add(gs.at(n)); break;
    case 't': m.add(ts.at(n)); break;
    case 'a': m.add(as.at(n)); break;
    case 'r': m.add(RegulatoryElementPtr(rs.at(n))); break;
  }
}
static LaneletMapLayers& layers(const std::string& m) {
  if (m == "1") return *m1;
  if (m == "2") return *m2;
  return *m3;
}
template <typename V>
static std::string names(const V& v) {
  std::vector<std::string> r;
  for (auto&& e : v) r.push_back(nameOf(e));
  return js(r);
}
template <typename V>
static std::string ranked(const V& v) {
  std::vector<Raw> r;
  for (auto&& e : v) r.push_back(Raw{"[" + js(nameOf(e.second)) + "," + js(cm(e.first)) + "]"});
  return js(r);
}
// a predicate accepting the k-th element it sees
struct Visits {
  std::vector<std::string> v;
  int k;
  bool boxes{true};
  template <typename B, typename P>
  bool see(const B& b, const P& p) {
    v.push_back(nameOf(p));
    boxes = boxes && b.isApprox(bb(p));
    return int(v.size()) == k;
  }
  template <typename P>
  static BoundingBox2d bb(const P& p) {
    return geometry::boundingBox2d(traits::to2D(p));
  }
  static BoundingBox2d bb(const RegulatoryElementConstPtr& p) { return geometry::boundingBox2d(p); }
  static BoundingBox2d bb(const RegulatoryElementPtr& p) { return geometry::boundingBox2d(p); }
};
static bool same(const BoundingBox2d& a, const BoundingBox2d& b) { return a.min() == b.min() && a.max() == b.max(); }
static bool same(const BasicPoint2d& a, const BoundingBox2d& b) { return a == b.min() && a == b.max(); }
template <typename L, typename Search>
static std::string until(L& lay, int k, Search&& search) {
  std::vector<std::string> v;
  bool boxes = true;
  auto res = search(lay, [&](const auto& b, const auto& p) {
    v.push_back(nameOf(p));
    boxes = boxes && same(b, Visits::bb(p));
    return int(v.size()) == k;
  });
  std::vector<std::string> r;
  if (res) r.push_back(nameOf(*res));
  return Obj()("v", v)("r", r)("boxes", boxes).str();
}
template <typename T>
struct is2 {
  static constexpr bool p = std::is_same<T, PointLayer>::value, r = std::is_same<T, RegulatoryElementLayer>::value;
};

template <typename L>
static std::string within(L& lay, double lim, const std::string& g) {
  using LL = std::remove_const_t<L>;
  if constexpr (is2<LL>::r) {
    throw std::runtime_error("regulatory elements have no distance to lines");
  } else if (g[0] == 'l') {
    return ranked(geometry::findWithin2d(lay, utils::toHybrid(utils::to2D(ls.at(g))), lim));
  } else if (g[0] == 'g') {
    BasicPolygon2d b = utils::to2D(gs.at(g)).basicPolygon();
    return ranked(geometry::findWithin2d(lay, b, lim));
  } else {
    return ranked(geometry::findWithin2d(lay, ts.at(g).polygon2d().basicPolygon(), lim));
  }
}
template <typename L>
static std::string withinP(L& lay, double lim, const BasicPoint2d& p) {
  if constexpr (is2<std::remove_const_t<L>>::r) {
    throw std::runtime_error("not available for regulatory elements");
  } else {
    return ranked(geometry::findWithin2d(lay, p, lim));
  }
}
template <typename L>
static std::string within3(L& lay, double lim, const BasicPoint3d& p) {
  using LL = std::remove_const_t<L>;
  if constexpr (std::is_same<LL, PointLayer>::value || std::is_same<LL, LineStringLayer>::value) {
    return ranked(geometry::findWithin3d(lay, p, lim));
  } else {
    throw std::runtime_error("no 3d distance");
  }
}

template <typename L>
static std::string query(L& lay, const std::string& op, const Args& a) {
  auto box = [&] { return BoundingBox2d(BasicPoint2d(num(a[2]), num(a[3])), BasicPoint2d(num(a[4]), num(a[5]))); };
  auto pt = [&] { return BasicPoint2d(num(a[2]), num(a[3])); };
  if (op == "box") return names(lay.search(box()));
  if (op == "nearest") return names(lay.nearest(pt(), unsigned(num(a[4]))));
  if (op == "nuntil") return until(lay, num(a[4]), [&](auto& l, auto f) { return l.nearestUntil(pt(), f); });
  if (op == "suntil") return until(lay, num(a[6]), [&](auto& l, auto f) { return l.searchUntil(box(), f); });
  if (op == "fnear") return ranked(geometry::findNearest(lay, pt(), unsigned(num(a[4]))));
  if (op == "fwith") return withinP(lay, num(a[2]) / 100., BasicPoint2d(num(a[3]), num(a[4])));
  if (op == "fwithg") return within(lay, num(a[2]) / 100., a[3]);
  if (op == "fwith3") return within3(lay, num(a[2]) / 100., BasicPoint3d(num(a[3]), num(a[4]), num(a[5])));
  throw std::runtime_error("unknown query");
}
template <typename L>
static Obj both(L& lay, const std::string& op, const Args& a) {
  const L& c = lay;
  return Obj()("r", Raw{query(lay, op, a)})("c", Raw{query(c, op, a)});
}

static Obj handle(const std::string& op, const Args& a) {
  Obj ok;
  ok("ok", true);
  if (op == "reset") {
    ps.clear(), ls.clear(), gs.clear(), ts.clear(), as.clear(), rs.clear();
    m1 = std::make_shared<LaneletMap>();
    m2 = std::make_shared<LaneletMap>();
    m3 = std::make_shared<LaneletSubmap>();
    ids = 100;
    return ok;
  }
  if (op == "pt") {
    ps[a[0]] = Point3d(++ids, num(a[1]), num(a[2]), num(a[3]), nm(a[0]));
    return ok;
  }
  if (op == "line" || op == "poly") {
    Points3d p;
    for (size_t i = 1; i < a.size(); ++i) p.push_back(ps.at(a[i]));
    if (op == "line") {
      ls[a[0]] = LineString3d(++ids, p, nm(a[0]));
    } else {
      gs[a[0]] = Polygon3d(++ids, p, nm(a[0]));
    }
    return ok;
  }
  if (op == "llt") {
    ts[a[0]] = Lanelet(++ids, line(a[1], a[2]), line(a[3], a[4]), nm(a[0]));
    return ok;
  }
  if (op == "area") {
    as[a[0]] = Area(++ids, lines(a, 1), InnerBounds{}, nm(a[0]));
    return ok;
  }
  if (op == "hole") {
    auto in = as.at(a[0]).innerBounds();
    InnerBounds b(in.begin(), in.end());
    b.push_back(lines(a, 1));
    as.at(a[0]).setInnerBounds(b);
    return ok;
  }
  if (op == "re") {
    RuleParameterMap rp;
    for (size_t i = 1; i < a.size(); ++i) {
      auto& to = rp[a[i].substr(0, 1) == "l" ? "refers" : "other"];
      switch (a[i][0]) {
        case 'p': to.push_back(ps.at(a[i])); break;
        case 'l': to.push_back(ls.at(a[i])); break;
        case 'g': to.push_back(gs.at(a[i])); break;
        case 't': to.push_back(WeakLanelet(ts.at(a[i]))); break;
        case 'a': to.push_back(WeakArea(as.at(a[i]))); break;
      }
    }
    rs[a[0]] = std::make_shared<GenericRegulatoryElement>(++ids, rp, nm(a[0]));
    return ok;
  }
  if (op == "add") {
    if (a[0] == "1") addTo(*m1, a[1]);
    if (a[0] == "2") addTo(*m2, a[1]);
    if (a[0] == "3") addTo(*m3, a[1]);
    return ok;
  }
  if (op == "copy") {
    LaneletLayer::Map t;
    AreaLayer::Map ar;
    RegulatoryElementLayer::Map r;
    PolygonLayer::Map g;
    LineStringLayer::Map l;
    PointLayer::Map p;
    for (auto e : m1->laneletLayer) t.insert({e.id(), e});
    for (auto e : m1->areaLayer) ar.insert({e.id(), e});
    for (auto e : m1->regulatoryElementLayer) r.insert({e->id(), e});
    for (auto e : m1->polygonLayer) g.insert({e.id(), e});
    for (auto e : m1->lineStringLayer) l.insert({e.id(), e});
    for (auto e : m1->pointLayer) p.insert({e.id(), e});
    m2 = std::make_shared<LaneletMap>(t, ar, r, g, l, p);
    return ok;
  }
  auto& m = layers(a[0]);
  switch (a[1][0]) {
    case 'p': return both(m.pointLayer, op, a);
    case 'l': return both(m.lineStringLayer, op, a);
    case 'g': return both(m.polygonLayer, op, a);
    case 't': return both(m.laneletLayer, op, a);
    case 'a': return both(m.areaLayer, op, a);
    case 'r': return both(m.regulatoryElementLayer, op, a);
  }
  throw std::runtime_error("unknown layer");
}
int main(int argc, char** argv) { return run(argc, argv, handle); }
