// C09: lanelets, areas and what their handles show
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <unistd.h>
#include <cmath>
#include "driver.h"
#include "fibers.h"
#undef atomic
#undef mutex
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#include "race.h"
using namespace lanelet;
using namespace drv;

struct H {
  bool cst{false}, weak{false};
  Lanelet m;
  ConstLanelet c;
  WeakLanelet w;
  ConstWeakLanelet cw;
  Lanelet mut() const { return weak ? w.lock() : m; }
  ConstLanelet con() const { return weak ? (cst ? cw.lock() : ConstLanelet(w.lock())) : (cst ? c : ConstLanelet(m)); }
};
struct AH {
  bool weak{false};
  Area a;
  WeakArea w;
  Area get() const { return weak ? w.lock() : a; }
};
static std::map<int, Point3d> pts;
static std::map<int, LineString3d> lines;
static std::map<int, H> hs;
static std::map<int, AH> ahs;
static std::vector<Lanelet> keep;
static std::vector<Area> keepA;
static std::map<int, RegulatoryElementPtr> res;
static LaneletMapUPtr mp;
static LaneletSubmapUPtr sub;
static std::vector<std::string> script;

static int I(const std::string& s) { return atoi(s.c_str()); }
static LineString3d L(int n, int v) { return v != 0 ? lines.at(n).invert() : lines.at(n); }
static RegulatoryElementPtr re(int n) {
  auto& r = res[n];
  if (!r) r = std::make_shared<GenericRegulatoryElement>(1000 + n, RuleParameterMap(), AttributeMap{{"subtype", GenericRegulatoryElement::RuleName}});
  return r;
}
template <typename Ls>
static std::vector<int> idsOf(const Ls& l) {
  std::vector<int> r;
  for (auto& p : l) r.push_back(int(p.id()));
  return r;
}
template <typename Ls>
static std::vector<std::vector<int>> twice3(const Ls& l) {
  std::vector<std::vector<int>> r;
  for (auto& p : l) {
    auto q = utils::toBasicPoint(p);
    std::vector<int> c;
    for (double x : {q.x(), q.y(), q.z()}) {
      double t = 2 * x;
      c.push_back(t == std::floor(t) && std::abs(t) < 1e6 ? int(t) : 999999);
    }
    r.push_back(c);
  }
  return r;
}
template <typename Ls>
static std::vector<std::vector<int>> twice2(const Ls& l) {
  std::vector<std::vector<int>> r;
  for (auto& p : l) {
    std::vector<int> c;
    auto q = utils::toBasicPoint(p);
    for (double x : {q.x(), q.y()}) {
      double t = 2 * x;
      c.push_back(t == std::floor(t) && std::abs(t) < 1e6 ? int(t) : 999999);
    }
    r.push_back(c);
  }
  return r;
}
template <typename Poly>
static std::vector<std::vector<int>> plain(const Poly& l) {
  std::vector<std::vector<int>> r;
  for (auto& p : l) {
    std::vector<int> c;
    for (int i = 0; i < int(p.size()); ++i) c.push_back(int(std::lround(p[i])));
    r.push_back(c);
  }
  return r;
}
template <typename Ls>
static std::vector<int> lh(const Ls& l) { return {int(l.id()), int(l.inverted())}; }
template <typename A, typename B>
static void same(const A& a, const B& b, const char* what) {
  if (!(a == b)) throw std::runtime_error(what);
}
// centerline of a new lanelet with the same points
static std::vector<std::vector<int>> ref(const ConstLanelet& h) {
  ConstLanelet d = h.inverted() ? h.invert() : h;
  auto copy = [](const ConstLineString3d& l) {
    Points3d q;
    for (auto& p : l) q.push_back(Point3d(std::const_pointer_cast<PointData>(p.constData())));
    return LineString3d(7, q);
  };
  Lanelet fresh(8, copy(d.leftBound()), copy(d.rightBound()));
  return twice3(fresh.centerline());
}
static Obj probe(const H& h) {
  ConstLanelet c = h.con();
  Obj o;
  auto l = c.leftBound(), r = c.rightBound();
  auto cl = c.centerline();
  o("id", int(c.id()))("inv", int(c.inverted()))("l", lh(l))("r", lh(r))("lp", idsOf(l))("rp", idsOf(r))("lp2", idsOf(c.leftBound2d()))(
      "rp2", idsOf(c.rightBound2d()));
  o("il", idsOf(c.invert().leftBound()))("ir", idsOf(c.invert().rightBound()))("back", c.invert().invert() == c && c.invert() != c);
  bool custom = c.hasCustomCenterline();
  o("custom", custom)("cid", custom ? lh(cl) : std::vector<int>{});
  o("at", c.attributeOr("mark", 0));
  std::vector<int> rs;
  for (auto& e : c.regulatoryElements()) rs.push_back(int(e->id() - 1000));
  o("re", rs);
  o("poly", idsOf(c.polygon3d()))("poly2", idsOf(c.polygon2d()));
  o("c", twice3(cl))("c2", twice2(c.centerline2d()))("ic", twice3(c.invert().centerline()))("ref", ref(c));
  // the other accessors show the same
  same(lh(c.leftBound3d()), lh(l), "leftBound3d");
  same(lh(c.rightBound3d()), lh(r), "rightBound3d");
  same(c.centerline3d(), cl, "centerline3d");
  if (!h.cst) {
    Lanelet m = h.mut();
    same(m.leftBound(), l, "mutable leftBound");
    same(m.rightBound(), r, "mutable rightBound");
    same(m.leftBound3d(), l, "mutable leftBound3d");
    same(m.rightBound3d(), r, "mutable rightBound3d");
    same(utils::to3D(m.leftBound2d()), l, "mutable leftBound2d");
    same(utils::to3D(m.rightBound2d()), r, "mutable rightBound2d");
    same(m.invert(), c.invert(), "mutable invert");
    same(m.invert().leftBound(), c.invert().leftBound(), "mutable inverted leftBound");
    same(m.invert().rightBound(), c.invert().rightBound(), "mutable inverted rightBound");
    same(m.regulatoryElements().size(), rs.size(), "mutable regulatoryElements");
    for (size_t i = 0; i < rs.size(); ++i) same(m.regulatoryElements()[i], re(rs[i]), "mutable regulatoryElement");
    same(m.regulatoryElementsAs<GenericRegulatoryElement>().size(), rs.size(), "regulatoryElementsAs");
  }
  return o;
}
static std::vector<std::pair<int, int>> pairs(const Args& a, size_t from) {
  std::vector<std::pair<int, int>> r;
  for (size_t i = from; i + 1 < a.size(); i += 2) r.push_back({I(a[i]), I(a[i + 1])});
  return r;
}
static Obj aprobe(const AH& h) {
  Area m = h.get();
  ConstArea c = m;
  Obj o;
  std::vector<std::vector<int>> ob, op, bh;
  std::vector<Raw> ib, ip, bhs;
  for (auto& l : c.outerBound()) ob.push_back(lh(l));
  for (auto& ring : c.innerBounds()) {
    std::vector<std::vector<int>> q;
    for (auto& l : ring) q.push_back(lh(l));
    ib.push_back(Raw{js(q)});
  }
  for (auto& p : c.innerBoundPolygons()) ip.push_back(Raw{js(idsOf(p))});
  auto b2 = c.basicPolygonWithHoles2d();
  auto b3 = c.basicPolygonWithHoles3d();
  for (auto& p : b2.inner) bhs.push_back(Raw{js(plain(p))});
  same(b3.inner.size(), b2.inner.size(), "holes");
  std::vector<int> rs;
  for (auto& e : c.regulatoryElements()) rs.push_back(int(e->id() - 1000));
  same(m.outerBound().size(), ob.size(), "mutable outerBound");
  same(m.innerBounds().size(), ib.size(), "mutable innerBounds");
  same(m.regulatoryElements().size(), rs.size(), "mutable regulatoryElements");
  return o("id", int(c.id()))("o", ob)("i", ib)("op", idsOf(c.outerBoundPolygon()))("ip", ip)("b3", plain(b3.outer))("b2", plain(b2.outer))("bh", bhs)(
      "at", c.attributeOr("mark", 0))("re", rs);
}

// ---- concurrent readings
static std::string reading(const ConstLanelet& c, const std::string& k) {
  std::string v;
  if (k == "c") v = js(twice3(c.centerline()));
  if (k == "ci") v = js(twice3(c.invert().centerline()));
  if (k == "c2") v = js(twice2(c.centerline2d()));
  if (k == "h") v = js(std::vector<std::vector<int>>{{int(c.hasCustomCenterline())}});
  if (k == "p") v = js(std::vector<std::vector<int>>{idsOf(c.polygon2d())});
  if (k == "b") v = js(std::vector<std::vector<int>>{idsOf(c.leftBound()), idsOf(c.rightBound())});
  if (k == "r") {
    c.resetCache();
    v = "[[0]]";
  }
  return "[" + js(k) + "," + v + "]";
}
static std::vector<std::vector<std::string>> program(const Args& a, size_t from) {
  std::vector<std::vector<std::string>> r(1);
  for (size_t i = from; i < a.size(); ++i) {
    if (a[i] == "/") {
      r.emplace_back();
    } else {
      r.back().push_back(a[i]);
    }
  }
  return r;
}
// an own lanelet that nobody has read yet, like h
static ConstLanelet unread(const H& h) {
  ConstLanelet c = h.con();
  ConstLanelet d = c.inverted() ? c.invert() : c;
  auto un = [](const ConstLineString3d& l) {
    return LineString3d(std::const_pointer_cast<LineStringData>(l.constData()), l.inverted());
  };
  Lanelet n(d.id(), un(d.leftBound()), un(d.rightBound()));
  if (d.hasCustomCenterline()) n.setCenterline(un(d.centerline()));
  return c.inverted() ? n.invert() : n;
}
static std::vector<Raw> raws(const std::set<std::string>& s) {
  std::vector<Raw> r;
  for (auto& x : s) r.push_back(Raw{x});
  return r;
}
static Obj explore(const Args& a) {
  sched::Explorer ex;
  ex.maxPreempt = I(a[1]);
  ex.maxRuns = 1500;
  auto prog = program(a, 2);
  ConstLanelet subject;
  std::set<std::string> all;
  std::vector<std::vector<std::string>> got(prog.size());
  std::vector<std::vector<std::function<void()>>> ops(prog.size());
  for (size_t i = 0; i < prog.size(); ++i) {
    got[i].resize(prog[i].size());
    for (size_t j = 0; j < prog[i].size(); ++j) {
      auto s = prog[i][j];
      ops[i].push_back([&, i, j, s] { got[i][j] = reading(subject, s); });
    }
  }
  ex.explore(ops, [&] { subject = unread(hs.at(I(a[0]))); },
             [&] {
               for (auto& g : got) all.insert(g.begin(), g.end());
               for (auto k : {"h", "c", "ci", "h", "c2"}) all.insert(reading(subject, k));
             });
  return Obj()("ref", ref(hs.at(I(a[0])).con()))("rs", raws(all));
}
static Obj raceHere(const Args& a) {
  auto prog = program(a, 2);
  int before = race::reports();
  std::set<std::string> all;
  std::vector<std::set<std::string>> mine(prog.size());
  for (int k = 0; k < I(a[1]); ++k) {
    const ConstLanelet subject = unread(hs.at(I(a[0])));
    std::vector<std::function<void()>> fs;
    for (size_t i = 0; i < prog.size(); ++i) {
      fs.push_back([&, i] {
        for (auto& s : prog[i]) mine[i].insert(reading(subject, s));
      });
    }
    race::threads(fs);
  }
  for (auto& m : mine) all.insert(m.begin(), m.end());
  return Obj()("races", int(race::reports() - before))("ref", ref(hs.at(I(a[0])).con()))("rs", raws(all));
}

static Obj handle(const std::string& op, const Args& a) {
  Obj o;
  if (op == "reset") script.clear();
  std::string line = op;
  for (auto& x : a) line += " " + (x.empty() ? std::string("_") : x);
  script.push_back(line);
  auto n = [&](size_t i) { return I(a.at(i)); };
  if (op == "reset") {
    hs.clear();
    ahs.clear();
    keep.clear();
    keepA.clear();
    mp = std::make_unique<LaneletMap>();
    sub = std::make_unique<LaneletSubmap>();
    pts.clear();
    lines.clear();
    res.clear();
    return o("ok", true);
  }
  if (op == "pt") {
    auto it = pts.find(n(0));
    if (it == pts.end()) {
      pts[n(0)] = Point3d(n(0), n(1), n(2), n(3));
    } else {
      it->second.x() = n(1);
      it->second.y() = n(2);
      it->second.z() = n(3);
    }
    return o("ok", true);
  }
  if (op == "line") {
    Points3d q;
    for (size_t i = 1; i < a.size(); ++i) q.push_back(pts.at(n(i)));
    lines[n(0)] = LineString3d(n(0), q);
    return o("ok", true);
  }
  if (op == "push") {
    auto l = L(n(0), n(1));
    l.push_back(pts.at(n(2)));
    return o("ok", true);
  }
  if (op == "pop") {
    auto l = L(n(0), n(1));
    if (!l.empty()) l.pop_back();
    return o("ok", true);
  }
  if (op == "llt") {
    H h;
    h.m = Lanelet(n(0), L(n(1), n(2)), L(n(3), n(4)));
    keep.push_back(h.m);
    hs[n(0)] = h;
    return o("ok", true);
  }
  if (op == "handle") {
    const H& f = hs.at(n(2));
    H h;
    auto how = a[0];
    h.cst = f.cst || how == "const" || how == "cinv" || how == "cweak";
    if (how == "weak" || how == "cweak") {
      h.weak = true;
      if (h.cst) {
        h.cw = ConstWeakLanelet(f.con());
      } else {
        h.w = WeakLanelet(f.mut());
      }
    } else {
      bool inv = how == "inv" || how == "cinv";
      if (h.cst) {
        h.c = inv ? f.con().invert() : f.con();
      } else {
        h.m = inv ? f.mut().invert() : f.mut();
      }
      if (how == "data") {
        if (h.cst) {
          h.c = ConstLanelet(f.con().constData(), f.con().inverted());
        } else {
          h.m = Lanelet(std::const_pointer_cast<LaneletData>(f.con().constData()), f.con().inverted());
        }
      }
    }
    hs[n(1)] = h;
    return o("ok", true);
  }
  if (op == "setl") {
    hs.at(n(0)).mut().setLeftBound(L(n(1), n(2)));
    return o("ok", true);
  }
  if (op == "setr") {
    hs.at(n(0)).mut().setRightBound(L(n(1), n(2)));
    return o("ok", true);
  }
  if (op == "setc") {
    hs.at(n(0)).mut().setCenterline(L(n(1), n(2)));
    return o("ok", true);
  }
  if (op == "attr") {
    auto m = hs.at(n(0)).mut();
    m.setAttribute("mark", n(1));
    return o("ok", true);
  }
  if (op == "addre") {
    hs.at(n(0)).mut().addRegulatoryElement(re(n(1)));
    return o("ok", true);
  }
  if (op == "remre") return o("ok", hs.at(n(0)).mut().removeRegulatoryElement(re(n(1))));
  if (op == "fresh") {
    hs.at(n(0)).con().resetCache();
    return o("ok", true);
  }
  if (op == "map") {
    mp->add(hs.at(n(0)).mut());
    return o("ok", true);
  }
  if (op == "submap") {
    sub->add(hs.at(n(0)).mut());
    return o("ok", true);
  }
  if (op == "probe") return probe(hs.at(n(0)));
  if (op == "area" || op == "outer") {
    LineStrings3d b;
    for (auto& p : pairs(a, 1)) b.push_back(L(p.first, p.second));
    if (op == "outer") {
      ahs.at(n(0)).get().setOuterBound(b);
    } else {
      AH h;
      h.a = Area(n(0), b);
      keepA.push_back(h.a);
      ahs[n(0)] = h;
    }
    return o("ok", true);
  }
  if (op == "inner") {
    InnerBounds b;
    if (a.size() > 1) b.emplace_back();
    for (auto& p : pairs(a, 1)) {
      if (p.first == 0) {
        b.emplace_back();
      } else {
        b.back().push_back(L(p.first, p.second));
      }
    }
    ahs.at(n(0)).get().setInnerBounds(b);
    return o("ok", true);
  }
  if (op == "ahandle") {
    const AH& f = ahs.at(n(2));
    AH h;
    h.weak = a[0] == "weak";
    if (h.weak) {
      h.w = WeakArea(f.get());
    } else {
      h.a = f.get();
    }
    ahs[n(1)] = h;
    return o("ok", true);
  }
  if (op == "aattr") {
    auto m = ahs.at(n(0)).get();
    m.setAttribute("mark", n(1));
    return o("ok", true);
  }
  if (op == "aaddre") {
    ahs.at(n(0)).get().addRegulatoryElement(re(n(1)));
    return o("ok", true);
  }
  if (op == "aremre") return o("ok", ahs.at(n(0)).get().removeRegulatoryElement(re(n(1))));
  if (op == "aprobe") return aprobe(ahs.at(n(0)));
  if (op == "explore") return explore(a);
  if (op == "race") {
#if defined(__SANITIZE_THREAD__)
    return raceHere(a);
#else
    Obj b;
    std::string s = race::other(script);
    b.body = s.substr(1, s.size() - 2);
    return b;
#endif
  }
  throw std::runtime_error("unknown op");
}
int main(int argc, char** argv) { return run(argc, argv, handle); }
