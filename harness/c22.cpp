// C22: compound line strings, polygons and lanelet sequences. Every compound exists in all eight kinds, each built from its
// parts directly and converted from the others.
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include "driver.h"
using namespace lanelet;
using namespace drv;
using IP = std::pair<int, int>;

static std::map<int, Point3d> pts;
static std::map<int, LineString3d> lines;
static std::map<int, Lanelet> llts;
static std::map<int, bool> custom;
static std::map<int, RegulatoryElementPtr> res;
static std::map<int, LaneletSequence> seqs;

struct Comp {
  CompoundLineString3d l3;
  CompoundLineString2d l2;
  CompoundHybridLineString3d hl3;
  CompoundHybridLineString2d hl2;
  CompoundPolygon3d p3;
  CompoundPolygon2d p2;
  CompoundHybridPolygon3d hp3;
  CompoundHybridPolygon2d hp2;
};
static std::map<int, Comp> comps;

template <typename P>
static int pid(const P& p) {
  return int(p.id());
}
static int pid(const BasicPoint3d& p) { return int(p.x()); }
static int pid(const BasicPoint2d& p) { return int(p.x()); }
static int pid(const Eigen::Ref<const BasicPoint3d>& p) { return int(p.x()); }

template <typename C>
static std::vector<int> pids(const C& c) {
  std::vector<int> r;
  for (auto it = c.begin(); it != c.end(); ++it) r.push_back(pid(*it));
  return r;
}
template <typename C>
static std::vector<IP> handles(const C& ls) {
  std::vector<IP> r;
  for (auto& l : ls) r.emplace_back(int(l.id() % 100), int(l.inverted()));
  return r;
}

template <typename C, typename TwoD, typename Shape>
static Obj probe1(const C& c, const TwoD& other, const Shape& shape) {
  Obj o;
  size_t n = c.size();
  std::vector<int> index, back, basic, ends;
  for (size_t i = 0; i < n; ++i) index.push_back(pid(c[i]));
  for (auto it = c.end(); it != c.begin();) {
    --it;
    back.push_back(pid(*it));
  }
  for (auto it = c.basicBegin(); it != c.basicEnd(); ++it) basic.push_back(int((*it).x()));
  if (n > 0) ends = {pid(c.front()), pid(c.back())};
  bool jumps = true;
  for (int i = 0; i <= int(n); ++i) {
    for (int j = 0; j <= int(n); ++j) {
      auto it = c.begin() + i;
      it += j - i;
      jumps = jumps && it == c.begin() + j && it - c.begin() == j && (c.begin() < it) == (j > 0) && c.end() - it == int(n) - j &&
              (c.begin() + i) - it == i - j;
      if (j < int(n)) jumps = jumps && pid(*it) == index[j];
    }
  }
  std::vector<IP> segs, lines;
  for (size_t i = 0; i < c.numSegments(); ++i) {
    auto s = c.segment(i);
    segs.emplace_back(pid(s.first), pid(s.second));
  }
  std::vector<int> closing;
  if (n > 0) {
    auto s = c.segment(n - 1);
    closing = {pid(s.first), pid(s.second)};
  }
  std::vector<int> ids;
  for (auto i : c.ids()) ids.push_back(int(i % 100));
  auto inv = c.invert();
  std::vector<typename C::PointType> v;
  for (auto it = c.begin(); it != c.end(); ++it) v.push_back(*it);
  o("size", int(n))("empty", c.empty())("index", index)("iter", pids(c))("back", back)("basic", basic);
  o("dim", pids(other))("shape", pids(shape))("ends", ends)("jumps", jumps)("segs", segs)("closing", closing)("ids", ids);
  o("lines", handles(c.lineStrings()));
  o("eqs", std::vector<bool>{c == c && !(c != c), inv.invert() == c, c == inv, c == v && v == c});
  return o;
}

template <typename C>
static C see(const C& c, int inv) {
  return inv ? C(c.invert()) : c;
}
// polygon compounds have no invert
template <typename C, typename L>
struct Inv : C {
  explicit Inv(const C& c) : C(c) {}
  Inv invert() const { return Inv(C(L(C::constData(), !C::inverted()))); }
};
template <typename L, typename C>
static Inv<C, L> seeP(const C& c, int inv) {
  Inv<C, L> i(c);
  return inv ? i.invert() : i;
}

static std::vector<IP> pairs(const Args& a, size_t from) {
  std::vector<IP> r;
  for (size_t i = from; i + 1 < a.size(); i += 2) r.emplace_back(std::stoi(a[i]), std::stoi(a[i + 1]));
  return r;
}
static LineString3d ls(const IP& h) { return h.second ? lines.at(h.first).invert() : lines.at(h.first); }
static ConstLanelet ll(const IP& h) { return h.second ? ConstLanelet(llts.at(h.first)).invert() : ConstLanelet(llts.at(h.first)); }
static Lanelet mll(const IP& h) { return h.second ? llts.at(h.first).invert() : llts.at(h.first); }

static void resetAll() {
  for (auto& s : seqs) s.second.resetCache();
}

static Obj handle(const std::string& op, const Args& a) {
  auto I = [&](size_t i) { return std::stoi(a.at(i)); };
  if (op == "reset") {
    pts.clear(), lines.clear(), llts.clear(), custom.clear(), res.clear(), seqs.clear(), comps.clear();
    for (int i = 1; i <= 8; ++i) pts[i] = Point3d(i, i, (i * i) % 7, i % 3);
    return Obj()("ok", true);
  }
  if (op == "line") {
    LineString3d l(100 + I(0), {});
    for (size_t i = 1; i < a.size(); ++i) l.push_back(pts.at(I(i)));
    lines[I(0)] = l;
  } else if (op == "push") {
    ls({I(0), I(1)}).push_back(pts.at(I(2)));
  } else if (op == "pop") {
    auto l = ls({I(0), I(1)});
    if (!l.empty()) l.pop_back();
  } else if (op == "comp") {
    auto ps = pairs(a, 1);
    ConstLineStrings3d c3;
    LineStrings3d m3;
    ConstLineStrings2d c2;
    std::vector<ConstHybridLineString3d> h3;
    std::vector<ConstHybridLineString2d> h2;
    for (auto& p : ps) {
      m3.push_back(ls(p));
      c3.push_back(ls(p));
      c2.push_back(utils::to2D(ConstLineString3d(ls(p))));
      h3.push_back(utils::toHybrid(c3.back()));
      h2.push_back(utils::toHybrid(c2.back()));
    }
    Comp c;
    c.l3 = CompoundLineString3d(m3);
    c.l2 = CompoundLineString2d(c2);
    c.hl3 = CompoundHybridLineString3d(c3);
    c.hl2 = CompoundHybridLineString2d(c2);
    c.p3 = CompoundPolygon3d(c3);
    c.p2 = CompoundPolygon2d(c2);
    c.hp3 = CompoundHybridPolygon3d(m3);
    c.hp2 = CompoundHybridPolygon2d(c3);
    comps[I(0)] = c;
  } else if (op == "compc") {
    CompoundLineStrings3d l3;
    CompoundLineStrings2d l2;
    CompoundHybridLineStrings3d hl3;
    CompoundHybridLineStrings2d hl2;
    CompoundPolygons3d p3;
    CompoundPolygons2d p2;
    CompoundHybridPolygons3d hp3;
    CompoundHybridPolygons2d hp2;
    for (auto& p : pairs(a, 1)) {
      Comp& s = comps.at(p.first);
      l3.push_back(see(s.l3, p.second));
      l2.push_back(see(s.l2, p.second));
      hl3.push_back(see(s.hl3, p.second));
      hl2.push_back(see(s.hl2, p.second));
      p3.push_back(seeP<CompoundLineString3d>(s.p3, p.second));
      p2.push_back(seeP<CompoundLineString2d>(s.p2, p.second));
      hp3.push_back(seeP<CompoundHybridLineString3d>(s.hp3, p.second));
      hp2.push_back(seeP<CompoundHybridLineString2d>(s.hp2, p.second));
    }
    Comp c;
    c.l3 = CompoundLineString3d(l3);
    c.l2 = CompoundLineString2d(l2);
    c.hl3 = CompoundHybridLineString3d(hl3);
    c.hl2 = CompoundHybridLineString2d(hl2);
    bool viaLines = I(0) % 2 == 0;
    c.p3 = viaLines ? CompoundPolygon3d(l3) : CompoundPolygon3d(p3);
    c.p2 = viaLines ? CompoundPolygon2d(l2) : CompoundPolygon2d(p2);
    c.hp3 = viaLines ? CompoundHybridPolygon3d(hl3) : CompoundHybridPolygon3d(hp3);
    c.hp2 = viaLines ? CompoundHybridPolygon2d(hl2) : CompoundHybridPolygon2d(hp2);
    comps[I(0)] = c;
  } else if (op == "llt") {
    llts[I(0)] = Lanelet(200 + I(0), ls({I(1), I(2)}), ls({I(3), I(4)}));
    custom[I(0)] = false;
  } else if (op == "setl" || op == "setr") {
    auto l = mll({I(0), I(1)});
    op == "setl" ? l.setLeftBound(ls({I(2), I(3)})) : l.setRightBound(ls({I(2), I(3)}));
    resetAll();
  } else if (op == "setc") {
    mll({I(0), I(1)}).setCenterline(ls({I(2), I(3)}));
    custom[I(0)] = true;
    resetAll();
  } else if (op == "addre") {
    int r = I(1);
    if (!res.count(r)) {
      LineString3d x(900 + r, {Point3d(990, 0, 0, 0), Point3d(991, 1, 0, 0)});
      if (r % 2 == 0)
        res[r] = TrafficLight::make(300 + r, AttributeMap(), {x});
      else
        res[r] = SpeedLimit::make(300 + r, AttributeMap(), {{x}, "de274"});
    }
    llts.at(I(0)).addRegulatoryElement(res[r]);
  } else if (op == "seq") {
    ConstLanelets v;
    for (auto& p : pairs(a, 1)) v.push_back(ll(p));
    seqs[I(0)] = LaneletSequence(v);
  } else if (op == "seqs") {
    LaneletSequences v;
    for (auto& p : pairs(a, 1)) v.push_back(p.second ? seqs.at(p.first).invert() : seqs.at(p.first));
    seqs[I(0)] = LaneletSequence(v);
  } else if (op == "probe") {
    Comp& c = comps.at(I(0));
    int inv = I(1);
    auto l3 = see(c.l3, inv);
    auto l2 = see(c.l2, inv);
    auto hl3 = see(c.hl3, inv);
    auto hl2 = see(c.hl2, inv);
    auto p3 = seeP<CompoundLineString3d>(c.p3, inv);
    auto p2 = seeP<CompoundLineString2d>(c.p2, inv);
    auto hp3 = seeP<CompoundHybridLineString3d>(c.hp3, inv);
    auto hp2 = seeP<CompoundHybridLineString2d>(c.hp2, inv);
    std::vector<Raw> k;
    k.push_back({probe1(l3, utils::to2D(l3), CompoundPolygon3d(l3)).str()});
    k.push_back({probe1(l2, utils::to3D(l2), CompoundPolygon2d(l2)).str()});
    k.push_back({probe1(hl3, utils::toHybrid(l3), CompoundHybridPolygon3d(hl3)).str()});
    k.push_back({probe1(hl2, utils::toHybrid(l2), CompoundHybridPolygon2d(hl2)).str()});
    k.push_back({probe1(p3, utils::to2D(CompoundPolygon3d(p3)), CompoundLineString3d(CompoundPolygon3d(p3))).str()});
    k.push_back({probe1(p2, utils::to3D(CompoundPolygon2d(p2)), CompoundLineString2d(CompoundPolygon2d(p2))).str()});
    k.push_back({probe1(hp3, utils::toHybrid(CompoundPolygon3d(p3)), CompoundHybridLineString3d(CompoundHybridPolygon3d(hp3))).str()});
    k.push_back({probe1(hp2, utils::toHybrid(CompoundPolygon2d(p2)), CompoundHybridLineString2d(CompoundHybridPolygon2d(hp2))).str()});
    std::vector<bool> has;
    for (int p = 1; p <= 8; ++p) has.push_back(utils::has(l3, p) && utils::has(l2, p) && utils::has(p3, p));
    return Obj()("k", k)("has", has)("inverted", l3.inverted() && p2.inverted());
  } else if (op == "sprobe") {
    LaneletSequence s = I(1) ? seqs.at(I(0)).invert() : seqs.at(I(0));
    Obj o;
    ConstLanelets it(s.begin(), s.end()), ix;
    for (size_t i = 0; i < s.size(); ++i) ix.push_back(s[i]);
    std::vector<int> ids;
    for (auto i : s.ids()) ids.push_back(int(i % 100));
    auto L = s.leftBound(), R = s.rightBound();
    o("size", int(s.size()))("empty", s.empty())("lanelets", handles(s.lanelets()))("iter", handles(it))("index", handles(ix))("ids", ids);
    o("left", pids(L))("leftlines", handles(L.lineStrings()))("right", pids(R))("rightlines", handles(R.lineStrings()));
    // computed centerlines need proper bounds
    bool usable = true;
    for (auto& l : s.lanelets()) usable = usable && (custom.at(int(l.id() % 100)) || (l.leftBound().size() > 1 && l.rightBound().size() > 1));
    auto c = usable ? s.centerline() : CompoundLineString3d();
    o("same2d", s.leftBound3d() == L && s.rightBound3d() == R && pids(s.leftBound2d()) == pids(L) && pids(s.rightBound2d()) == pids(R) &&
                    (!usable || (s.centerline3d() == c && pids(s.centerline2d()) == pids(c))) && pids(s.polygon2d()) == pids(s.polygon3d()));
    bool known = true;
    ConstLineStrings3d parts;
    for (auto& l : s.lanelets()) {
      known = known && custom.at(int(l.id() % 100));
      if (usable) parts.push_back(l.centerline());
    }
    o("center", known ? pids(c) : std::vector<int>{})("centerparts", c.lineStrings() == parts);
    o("poly", pids(s.polygon3d()));
    std::vector<int> re, lights, limits;
    for (auto& r : s.regulatoryElements()) re.push_back(int(r->id() % 100));
    for (auto& r : s.regulatoryElementsAs<TrafficLight>()) lights.push_back(int(r->id() % 100));
    for (auto& r : s.regulatoryElementsAs<SpeedLimit>()) limits.push_back(int(r->id() % 100));
    o("re", re)("lights", lights)("limits", limits);
    std::vector<bool> has;
    for (int p = 1; p <= 8; ++p) has.push_back(utils::has(s, p));
    o("has", has);
    o("eqs", std::vector<bool>{s == s && !(s != s), s.invert().invert() == s, s == s.invert()})("inverted", s.inverted());
    return o;
  } else {
    throw std::runtime_error("unknown operation " + op);
  }
  return Obj()("ok", true);
}
int main(int argc, char** argv) { return run(argc, argv, handle); }
