// C08: linestrings and polygons. Three data objects; for each one handles of every kind and direction live from the start.
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/Polygon.h>
#include "driver.h"
using namespace lanelet;
using namespace drv;

static std::map<int, Point3d> pts;
struct Handles {
  LineString3d l3;
  LineString2d l2;
  Polygon3d p3;
  Polygon2d p2;
  ConstLineString3d cl3;
  ConstLineString2d cl2;
  ConstPolygon3d cp3;
  ConstPolygon2d cp2;
  ConstHybridLineString3d hl3;
  ConstHybridLineString2d hl2;
  ConstHybridPolygon3d hp3;
  ConstHybridPolygon2d hp2;
};
struct Slot {
  Handles h[2];
};
static std::map<int, Slot> slots;

static Handles make(const LineString3d& l) {
  Handles h;
  h.l3 = l;
  h.l2 = utils::to2D(l);
  h.p3 = Polygon3d(l);
  h.p2 = Polygon2d(h.l2);
  h.cl3 = l;
  h.cl2 = utils::to2D(h.cl3);
  h.cp3 = ConstPolygon3d(h.cl3);
  h.cp2 = utils::to2D(h.cp3);
  h.hl3 = utils::toHybrid(h.cl3);
  h.hl2 = utils::toHybrid(h.cl2);
  h.hp3 = utils::toHybrid(h.cp3);
  h.hp2 = utils::toHybrid(h.cp2);
  return h;
}

template <typename H>
static std::vector<int> ids(const H& h) {
  std::vector<int> r;
  for (auto& p : h) r.push_back(int(p.id()));
  return r;
}
static std::string num(double d) {
  return d == long(d) ? std::to_string(long(d)) : "\"" + std::to_string(d) + "\"";
}
static std::string crd(const BasicPoint3d& p) { return "[" + num(p.x()) + "," + num(p.y()) + "," + num(p.z()) + "]"; }
static std::string crd(const BasicPoint2d& p) { return "[" + num(p.x()) + "," + num(p.y()) + "]"; }
template <typename It>
static Raw crds(It b, It e) {
  std::string r = "[";
  for (; b != e; ++b) {
    if (r.size() > 1) r += ",";
    r += crd(*b);
  }
  return Raw{r + "]"};
}
template <typename H>
static Raw crds(const H& h) {
  return crds(h.begin(), h.end());
}

static std::vector<std::vector<int>> allIds(const Handles& h) {
  return {ids(h.l3), ids(h.l2), ids(h.p3), ids(h.p2), ids(h.cl3), ids(h.cl2), ids(h.cp3), ids(h.cp2)};
}

static Obj view(int d) {
  const Handles& f = slots[d].h[0];
  const Handles& r = slots[d].h[1];
  Obj o;
  o("fwd", allIds(f))("inv", allIds(r));
  o("h3", std::vector<Raw>{crds(f.hl3), crds(f.hp3)})("h3i", std::vector<Raw>{crds(r.hl3), crds(r.hp3)});
  o("h2", std::vector<Raw>{crds(f.hl2), crds(f.hp2)})("h2i", std::vector<Raw>{crds(r.hl2), crds(r.hp2)});
  return o;
}

static Obj out(int d, int ret) { return Obj()("ret", ret)("v", view(d)); }

template <typename H>
static Points3d threeD(const H& h);

template <typename H, typename Hyb, typename C>
static Obj probe(H& h, const Hyb& hyb, const C& c, bool inv) {
  Obj o;
  std::vector<int> index, iter, back, random, ends;
  size_t n = h.size();
  bool same = c.size() == n && hyb.size() == n && c.empty() == h.empty();
  for (size_t i = 0; i < n; ++i) {
    index.push_back(int(h[i].id()));
    same = same && c[i].id() == h[i].id() && crd(hyb[i]) == crd(c[i].basicPoint());
  }
  for (auto it = h.begin(); it != h.end(); ++it) iter.push_back(int(it->id()));
  if (n > 0) {
    auto it = h.end();
    do {
      --it;
      back.push_back(int((*it).id()));
    } while (it != h.begin());
    ends = {int(h.front().id()), int(h.back().id())};
    same = same && c.front().id() == h.front().id() && c.back().id() == h.back().id() &&
           crd(hyb.front()) == crd(c.front().basicPoint()) && crd(hyb.back()) == crd(c.back().basicPoint());
  }
  for (size_t i = 0; i < n; ++i) random.push_back(int((*(h.begin() + i)).id()));
  std::vector<std::pair<int, int>> segs;
  for (size_t i = 0; i < h.numSegments(); ++i) {
    auto s = h.segment(i);
    segs.emplace_back(int(s.first.id()), int(s.second.id()));
    auto cs = c.segment(i);
    same = same && cs.first.id() == s.first.id() && cs.second.id() == s.second.id();
  }
  std::vector<int> closing;
  if (n > 0) {
    auto s = h.segment(n - 1);
    closing = {int(s.first.id()), int(s.second.id())};
  }
  o("size", same ? int(n) : -1)("empty", h.empty())("index", index)("iter", iter)("back", back)("random", random);
  o("ends", ends)("segs", segs)("closing", closing);
  o("basic", crds(h.basicBegin(), h.basicEnd()));
  std::vector<bool> has;
  for (int p = 1; p <= 8; ++p) has.push_back(utils::has(c, p));
  o("has", has);
  o("dist", std::vector<int>{int(h.end() - h.begin()), int(h.begin() - h.end())});
  return o;
}

template <typename H>
static Obj& finish(Obj& o, const H& h, const H& other, const std::vector<typename H::ConstPointType>& v) {
  using C = typename H::ConstType;
  C c(h);
  return o("eqs", std::vector<bool>{h == h, h == other, false, c == v});
}

template <typename H>
struct Kind;
template <typename H>
static typename H::PointType pt(int i) {
  return typename H::PointType(pts[i]);
}

template <typename H>
static int ofIter(H& h, typename H::iterator it) {
  // position of an iterator, without relying on it being in range
  int i = 0;
  for (auto b = h.begin();; ++b, ++i) {
    if (b == it) return i;
    if (b == h.end()) break;
  }
  return -99;
}
template <typename H>
static int edit(H& h, Slot& other, int otherInv, const std::string& op, const std::vector<long>& a) {
  // a: arguments after slot, kind, direction
  size_t n = h.size();
  if (op == "push") return h.push_back(pt<H>(a[0])), 0;
  if (op == "pop") {
    if (n == 0) return -1;
    return h.pop_back(), 0;
  }
  if (op == "clear") return h.clear(), 0;
  if (op == "reserve") return h.reserve(n + 5), 0;
  if (op == "reverse") return std::reverse(h.begin(), h.end()), 0;
  if (op == "rotate") {
    if (n == 0) return -1;
    std::rotate(h.begin(), h.begin() + 1, h.end());
    return 0;
  }
  if (op == "ins") {
    auto it = h.insert(h.begin() + a[0] % (n + 1), pt<H>(a[1]));
    return ofIter(h, it);
  }
  if (op == "insr") {
    std::vector<typename H::PointType> v;
    Points3d v3;
    for (size_t i = 1; i < a.size(); ++i) {
      v.push_back(pt<H>(a[i]));
      v3.push_back(pts[a[i]]);
    }
    auto it = h.insert(h.begin() + a[0] % (n + 1), v3.begin(), v3.end());
    if (v3.empty()) return int(a[0] % (n + 1));
    return ofIter(h, it);
  }
  if (op == "erase") {
    if (n == 0) return -1;
    auto it = h.erase(h.begin() + a[0] % n);
    return ofIter(h, it);
  }
  if (op == "set") {
    if (n == 0) return -1;
    h[a[0] % n] = pt<H>(a[1]);
    return int(a[0] % n);
  }
  if (op == "setit") {
    if (n == 0) return -1;
    *(h.begin() + a[0] % n) = pt<H>(a[1]);
    return int(a[0] % n);
  }
  if (op == "setfront") {
    if (n == 0) return -1;
    h.front() = pt<H>(a[1]);
    return 0;
  }
  if (op == "setback") {
    if (n == 0) return -1;
    h.back() = pt<H>(a[1]);
    return int(n - 1);
  }
  if (op == "resize") return h.resize(a[0]), 0;
  return -77;
}

static int dispatch(int d, const std::string& k, int inv, const std::string& op, const std::vector<long>& a) {
  Handles& h = slots[d].h[inv];
  Slot dummy;
  if (op == "mv") {
    if (h.l3.empty()) return -1;
    size_t i = a[0] % h.l3.size();
    int axis = int(a[1]);
    double v = a[2];
    int p = int(h.l3[i].id());
    if (p == 0) return -1;
    if (k == "L3" || k == "P3") {
      auto set = [&](auto& l) {
        if (axis == 1) l[i].x() = v;
        if (axis == 2) l[i].basicPoint().y() = v;
        if (axis == 3) l[i].z() = v;
      };
      k == "L3" ? set(h.l3) : set(h.p3);
    } else {
      auto set = [&](auto& l) {
        if (axis == 1) l[i].x() = v;
        if (axis == 2) l[i].basicPoint()(1) = v;
        if (axis == 3) Point3d(l[i]).z() = v;
      };
      k == "L2" ? set(h.l2) : set(h.p2);
    }
    return p;
  }
  if (op == "insls") {
    Handles& o = slots[a[1]].h[a[2]];
    size_t n = h.l3.size();
    long i = a[0] % (n + 1);
    bool none = o.l3.empty();
    auto pos = [&](auto& l, auto it) { return none ? int(i) : ofIter(l, it); };
    if (k == "L3") return pos(h.l3, h.l3.insert(h.l3.begin() + i, o.l3.begin(), o.l3.end()));
    if (k == "P3") return pos(h.p3, h.p3.insert(h.p3.begin() + i, o.p3.begin(), o.p3.end()));
    // 2d handles: from 3d points (what the interface accepts)
    if (k == "L2") return pos(h.l2, h.l2.insert(h.l2.begin() + i, o.l3.begin(), o.l3.end()));
    return pos(h.p2, h.p2.insert(h.p2.begin() + i, o.l3.begin(), o.l3.end()));
  }
  if (op == "assign") {
    if (k == "L3" || k == "P3") {
      Points3d v;
      for (auto i : a) v.push_back(pts[i]);
      if (k == "L3")
        static_cast<LineStringImpl<ConstLineString3d>&>(h.l3) = v;
      else
        static_cast<LineStringImpl<ConstPolygon3d>&>(h.p3) = v;
    } else if (k == "L2") {
      std::vector<Point2d> v;
      for (auto i : a) v.push_back(Point2d(pts[i]));
      static_cast<LineStringImpl<ConstLineString2d>&>(h.l2) = v;
    } else {
      Points3d v;
      for (auto i : a) v.push_back(pts[i]);
      static_cast<LineStringImpl<ConstPolygon2d>&>(h.p2) = std::move(v);
    }
    return 0;
  }
  if (k == "L3") return edit(h.l3, dummy, 0, op, a);
  if (k == "P3") return edit(h.p3, dummy, 0, op, a);
  if (k == "L2") return edit(h.l2, dummy, 0, op, a);
  return edit(h.p2, dummy, 0, op, a);
}

template <typename H>
static void eqs(Obj& o, const H& h, const H& twice, const H& inverse) {
  std::vector<typename H::ConstType::value_type> v(h.begin(), h.end());
  const typename H::ConstType c(h);
  bool ev = c.size() == v.size() && std::equal(v.begin(), v.end(), c.begin());
  std::hash<typename H::ConstType> hash;
  o("eqs", std::vector<bool>{h == h && hash(h) == hash(twice), h == twice && !(h != twice), h == inverse, ev});
}

static Obj handle(const std::string& op, const Args& a) {
  if (op == "reset") {
    pts.clear();
    slots.clear();
    for (int i = 1; i <= 8; ++i) pts[i] = Point3d(i, i, 10 * i, 100 * i);
    for (int d = 1; d <= 3; ++d) {
      LineString3d l(1000 + d);
      slots[d].h[0] = make(l);
      slots[d].h[1] = make(l.invert());
    }
    return Obj()("ok", true);
  }
  int d = std::stoi(a[0]), inv = std::stoi(a[2]);
  std::string k = a[1];
  std::vector<long> r;
  for (size_t i = 3; i < a.size(); ++i) r.push_back(std::stol(a[i]));
  if (op == "probe") {
    Handles& h = slots[d].h[inv];
    Handles& i = slots[d].h[1 - inv];
    Obj o;
    bool in = false;
    if (k == "L3") o = probe(h.l3, h.hl3, h.cl3, inv), eqs(o, h.l3, h.l3.invert().invert(), i.l3), in = h.l3.inverted();
    if (k == "L2") o = probe(h.l2, h.hl2, h.cl2, inv), eqs(o, h.l2, h.l2.invert().invert(), i.l2), in = h.l2.inverted();
    if (k == "P3") o = probe(h.p3, h.hp3, h.cp3, inv), eqs(o, h.p3, Polygon3d(LineString3d(h.p3).invert().invert()), i.p3), in = h.p3.inverted();
    if (k == "P2") o = probe(h.p2, h.hp2, h.cp2, inv), eqs(o, h.p2, Polygon2d(LineString2d(h.p2).invert().invert()), i.p2), in = h.p2.inverted();
    o("inverted", in);
    return o;
  }
  int ret = dispatch(d, k, inv, op, r);
  return out(d, ret);
}

int main(int argc, char** argv) { return run(argc, argv, handle); }
