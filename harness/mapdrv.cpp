// C01-C03: maps and submaps over a graph of named primitives.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include "driver.h"
using namespace lanelet;
using namespace drv;

struct World {
  std::map<std::string, Point3d> p;
  std::map<std::string, LineString3d> l;
  std::map<std::string, Polygon3d> g;
  std::map<std::string, Lanelet> x;
  std::map<std::string, Area> a;
  std::map<std::string, std::shared_ptr<GenericRegulatoryElement>> r;
  std::map<std::string, std::shared_ptr<LaneletMap>> maps;
  std::map<std::string, std::shared_ptr<LaneletSubmap>> subs;
  std::set<Id> ids{0, -1, 1, 99999};  // ids that are asked for
};
static World w;

static int num(const std::string& s) { return atoi(s.c_str()); }
template <typename T>
static std::string nameOf(const T& t) {
  return t.attributes().at("name").value();
}
static std::string nameOf(const RegulatoryElementConstPtr& t) { return t->attributes().at("name").value(); }
static std::string nameOf(const RegulatoryElementPtr& t) { return t->attributes().at("name").value(); }

static LineString3d ls(const std::string& n, const std::string& inv) {
  auto v = w.l.at(n);
  return inv == "1" ? v.invert() : v;
}
static Polygon3d pg(const std::string& n, const std::string& inv) {
  auto v = w.g.at(n);
  return inv == "1" ? Polygon3d(std::const_pointer_cast<LineStringData>(v.constData()), !v.inverted()) : v;
}
static Lanelet ll(const std::string& n, const std::string& inv) {
  auto v = w.x.at(n);
  return inv == "1" ? v.invert() : v;
}

static int inv(const ConstPoint3d&) { return 0; }
static int inv(const ConstLineString3d& v) { return v.inverted() ? 1 : 0; }
static int inv(const ConstPolygon3d& v) { return v.inverted() ? 1 : 0; }
static int inv(const ConstLanelet& v) { return v.inverted() ? 1 : 0; }
static int inv(const ConstArea&) { return 0; }
static int inv(const RegulatoryElementConstPtr&) { return 0; }
template <typename T>
static Id idOf(const T& t) {
  return t.id();
}
static Id idOf(const RegulatoryElementConstPtr& t) { return t->id(); }
static Id idOf(const RegulatoryElementPtr& t) { return t->id(); }

using Tok = std::pair<std::string, int>;
template <typename V>
static std::vector<Tok> toks(const V& v) {
  std::vector<Tok> r;
  for (auto&& e : v) r.emplace_back(nameOf(e), inv(e));
  return sorted(r);
}
template <typename V>
static std::vector<std::string> names(const V& v) {
  std::vector<std::string> r;
  for (auto&& e : v) r.push_back(nameOf(e));
  return sorted(r);
}

// one layer: what iteration shows, plus everything in which the other ways of asking deviate from it
template <typename L>
static Obj layer(L& lay) {
  const L& clay = lay;
  using Item = std::pair<std::string, std::pair<int, long>>;
  std::vector<Item> it, cit;
  for (auto&& e : lay) {
    it.push_back({nameOf(e), {inv(e), long(idOf(e))}});
    w.ids.insert(idOf(e));
  }
  for (auto&& e : clay) cit.push_back({nameOf(e), {inv(e), long(idOf(e))}});
  it = sorted(it);
  std::vector<std::string> bad;
  if (sorted(cit) != it) bad.push_back("const iteration");
  if (lay.size() != it.size()) bad.push_back("size " + std::to_string(lay.size()));
  if (lay.empty() != it.empty()) bad.push_back("empty");
  for (Id id : w.ids) {
    std::vector<std::string> here;
    for (auto& e : it)
      if (e.second.second == id) here.push_back(e.first);
    auto say = [&](const std::string& s) { bad.push_back(s + " of " + std::to_string(long(id)) + (here.empty() ? "" : " " + here[0])); };
    bool in = !here.empty();
    if (here.size() > 1) say("twice");
    if (lay.exists(id) != in) say("exists");
    auto f = lay.find(id);
    auto cf = clay.find(id);
    if ((f != lay.end()) != in || (in && (nameOf(*f) != here[0] || idOf(*f) != id))) say("find");
    if ((cf != clay.end()) != in || (in && (nameOf(*cf) != here[0] || idOf(*cf) != id))) say("const find");
    try {
      auto e = lay.get(id);
      if (!in || nameOf(e) != here[0] || idOf(e) != id) say("get");
    } catch (NoSuchPrimitiveError&) {
      if (in) say("get throws");
    }
    try {
      auto e = clay.get(id);
      if (!in || nameOf(e) != here[0]) say("const get");
    } catch (NoSuchPrimitiveError&) {
      if (in) say("const get throws");
    }
  }
  std::vector<Raw> out;
  for (auto& e : it) out.push_back(Raw{"[" + js(e.first) + "," + js(e.second.first) + "," + js(e.second.second) + "]"});
  return Obj()("it", out)("bad", bad);
}
static LaneletMapLayers& layers(const std::string& m) {
  auto i = w.maps.find(m);
  if (i != w.maps.end()) return *i->second;
  return *w.subs.at(m);
}
static Obj dump(const std::string& m) {
  LaneletMapLayers& v = layers(m);
  Obj o;
  o("p", layer(v.pointLayer))("l", layer(v.lineStringLayer))("g", layer(v.polygonLayer));
  o("x", layer(v.laneletLayer))("a", layer(v.areaLayer))("r", layer(v.regulatoryElementLayer));
  o("size", (unsigned long)v.size())("empty", v.empty());
  return o;
}

template <typename M>
static void addTo(M& m, const std::string& n, const std::string& i) {
  switch (n[0]) {
    case 'p': m.add(w.p.at(n)); break;
    case 'l': m.add(ls(n, i)); break;
    case 'g': m.add(pg(n, i)); break;
    case 'x': m.add(ll(n, i)); break;
    case 'a': m.add(w.a.at(n)); break;
    case 'r': m.add(RegulatoryElementPtr(w.r.at(n))); break;
  }
}
static Id mkId(const std::string& s) {
  int i = num(s);
  Id id = i >= 0 ? i : utils::getId() - i;
  w.ids.insert(id);
  return id;
}
static RuleParameter param(const std::string& n, const std::string& i) {
  switch (n[0]) {
    case 'p': return w.p.at(n);
    case 'l': return ls(n, i);
    case 'g': return pg(n, i);
    case 'x': return WeakLanelet(ll(n, i));
    default: return WeakArea(w.a.at(n));
  }
}

static Raw params(const RegulatoryElement& re) {
  struct V : RuleParameterVisitor {
    std::map<std::string, std::vector<Tok>> r;
    void operator()(const ConstPoint3d& v) override { r[role].emplace_back(nameOf(v), 0); }
    void operator()(const ConstLineString3d& v) override { r[role].emplace_back(nameOf(v), inv(v)); }
    void operator()(const ConstPolygon3d& v) override { r[role].emplace_back(nameOf(v), inv(v)); }
    void operator()(const ConstWeakLanelet& v) override {
      if (v.expired())
        r[role].emplace_back("expired", 0);
      else
        r[role].emplace_back(nameOf(v.lock()), inv(v.lock()));
    }
    void operator()(const ConstWeakArea& v) override {
      if (v.expired())
        r[role].emplace_back("expired", 0);
      else
        r[role].emplace_back(nameOf(v.lock()), 0);
    }
  } v;
  re.applyVisitor(v);
  std::vector<Raw> out;
  for (auto& e : v.r) out.push_back(Raw{"[" + js(e.first) + "," + js(e.second) + "]"});
  return Raw{"[" + js(nameOf(re)) + "," + js(out) + "]"};
}

template <typename M>
static Obj use(M& v, const std::string& n, const std::string& i) {
  // M is const or not
  Obj o;
  std::vector<Tok> none;
  std::vector<std::string> nn;
  switch (n[0]) {
    case 'p': {
      auto p = w.p.at(n);
      o("l", names(v.lineStringLayer.findUsages(p)))("g", toks(v.polygonLayer.findUsages(p)));
      o("x", toks(utils::findUsagesInLanelets(v, p)))("a", toks(utils::findUsagesInAreas(v, p)));
      o("r", toks(v.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstPoint3d(p)))));
      break;
    }
    case 'l': {
      auto l = ls(n, i);
      o("l", nn)("g", none)("x", toks(v.laneletLayer.findUsages(l)))("a", toks(v.areaLayer.findUsages(l)));
      o("r", toks(v.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstLineString3d(l)))));
      break;
    }
    case 'g': {
      auto g = pg(n, i);
      o("l", nn)("g", none)("x", none)("a", none);
      o("r", toks(v.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstPolygon3d(g)))));
      break;
    }
    case 'x': {
      auto x = ll(n, i);
      o("l", nn)("g", none)("x", none)("a", none);
      o("r", toks(v.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstWeakLanelet(ConstLanelet(x))))));
      break;
    }
    case 'a': {
      auto x = w.a.at(n);
      o("l", nn)("g", none)("x", none)("a", none);
      o("r", toks(v.regulatoryElementLayer.findUsages(ConstRuleParameter(ConstWeakArea(ConstArea(x))))));
      break;
    }
    default: {
      RegulatoryElementConstPtr r = w.r.at(n);
      o("l", nn)("g", none)("x", toks(v.laneletLayer.findUsages(r)))("a", toks(v.areaLayer.findUsages(r)))("r", none);
    }
  }
  return o;
}
static Id idByName(const std::string& n) {
  switch (n[0]) {
    case 'p': return w.p.at(n).id();
    case 'l': return w.l.at(n).id();
    case 'g': return w.g.at(n).id();
    case 'x': return w.x.at(n).id();
    case 'a': return w.a.at(n).id();
    default: return w.r.at(n)->id();
  }
}

static Obj handle(const std::string& op, const Args& a) {
  auto ok = [] { return Obj()("ok", true); };
  if (op == "reset") {
    w = World();
    return ok();
  }
  AttributeMap nm;
  if (op.substr(0, 2) == "mk") {
    nm["name"] = a[0];
    Id id = mkId(a[1]);
    int k = num(a[0].substr(1));
    if (op == "mkpt") {
      w.p[a[0]] = Point3d(id, k * 3 % 7, k * 5 % 11, k % 3, nm);
    } else if (op == "mkls" || op == "mkpg") {
      Points3d pts;
      for (size_t j = 2; j < a.size(); ++j) pts.push_back(w.p.at(a[j]));
      if (op == "mkls")
        w.l[a[0]] = LineString3d(id, pts, nm);
      else
        w.g[a[0]] = Polygon3d(id, pts, nm);
    } else if (op == "mkll") {
      w.x[a[0]] = Lanelet(id, ls(a[2], a[3]), ls(a[4], a[5]), nm);
    } else if (op == "mkar") {
      LineStrings3d outer;
      InnerBounds inner;
      for (size_t j = 2; j + 2 < a.size(); j += 3) {
        int ring = num(a[j]);
        if (ring == 0) {
          outer.push_back(ls(a[j + 1], a[j + 2]));
        } else {
          while (int(inner.size()) < ring) inner.emplace_back();
          inner[ring - 1].push_back(ls(a[j + 1], a[j + 2]));
        }
      }
      w.a[a[0]] = Area(id, outer, inner, nm);
    } else if (op == "mkre") {
      auto re = std::make_shared<GenericRegulatoryElement>(id, RuleParameterMap(), nm);
      w.r[a[0]] = re;
      for (size_t j = 2; j + 2 < a.size(); j += 3) re->parameters()[a[j]].push_back(param(a[j + 1], a[j + 2]));
    }
    return Obj()("id", long(id));
  }
  if (op == "lspush") {
    w.l.at(a[0]).push_back(w.p.at(a[1]));
    return ok();
  }
  if (op == "left") {
    w.x.at(a[0]).setLeftBound(ls(a[1], a[2]));
    return ok();
  }
  if (op == "right") {
    w.x.at(a[0]).setRightBound(ls(a[1], a[2]));
    return ok();
  }
  if (op == "setcl") {
    w.x.at(a[0]).setCenterline(ls(a[1], a[2]));
    return ok();
  }
  if (op == "addre") {
    if (a[0][0] == 'x')
      w.x.at(a[0]).addRegulatoryElement(w.r.at(a[1]));
    else
      w.a.at(a[0]).addRegulatoryElement(w.r.at(a[1]));
    return ok();
  }
  if (op == "rmre") {
    bool r = a[0][0] == 'x' ? w.x.at(a[0]).removeRegulatoryElement(w.r.at(a[1])) : w.a.at(a[0]).removeRegulatoryElement(w.r.at(a[1]));
    return Obj()("ret", r);
  }
  if (op == "repar") {
    auto re = w.r.at(a[0]);
    switch (a[2][0]) {
      case 'p': re->addParameter(a[1], w.p.at(a[2])); break;
      case 'l': re->addParameter(a[1], ls(a[2], a[3])); break;
      case 'g': re->addParameter(a[1], pg(a[2], a[3])); break;
      case 'x': re->addParameter(a[1], ll(a[2], a[3])); break;
      default: re->addParameter(a[1], w.a.at(a[2]));
    }
    return ok();
  }
  if (op == "drop") {
    w.p.erase(a[0]); w.l.erase(a[0]); w.g.erase(a[0]); w.x.erase(a[0]); w.a.erase(a[0]); w.r.erase(a[0]);
    return ok();
  }
  if (op == "free") {
    w.maps.erase(a[0]);
    w.subs.erase(a[0]);
    return ok();
  }
  if (op == "newm" || op == "news") {
    if (a[0][0] == 'm')
      w.maps[a[0]] = std::make_shared<LaneletMap>();
    else
      w.subs[a[0]] = std::make_shared<LaneletSubmap>();
    return ok();
  }
  if (op == "add") {
    if (a[0][0] == 'm')
      addTo(*w.maps.at(a[0]), a[1], a[2]);
    else
      addTo(*w.subs.at(a[0]), a[1], a[2]);
    return dump(a[0]);
  }
  if (op == "addnull") {
    try {
      w.maps.at(a[0])->add(RegulatoryElementPtr());
    } catch (NullptrError&) {
      return dump(a[0])("ex", std::string("null"));
    }
    return dump(a[0])("ex", std::string("none"));
  }
  if (op == "createm" || op == "creates") {
    Points3d P;
    LineStrings3d L;
    Polygons3d G;
    Lanelets X;
    Areas A;
    for (size_t j = 2; j + 1 < a.size(); j += 2) {
      const auto& n = a[j];
      if (n[0] == 'p') P.push_back(w.p.at(n));
      if (n[0] == 'l') L.push_back(ls(n, a[j + 1]));
      if (n[0] == 'g') G.push_back(pg(n, a[j + 1]));
      if (n[0] == 'x') X.push_back(ll(n, a[j + 1]));
      if (n[0] == 'a') A.push_back(w.a.at(n));
    }
    ConstLanelets CX(X.begin(), X.end());
    ConstAreas CA(A.begin(), A.end());
    if (a[0][0] == 'm') {
      auto& m = w.maps[a[0]];
      if (a[1] == "P") m = utils::createMap(P);
      if (a[1] == "L") m = utils::createMap(L);
      if (a[1] == "G") m = utils::createMap(G);
      if (a[1] == "X") m = utils::createMap(X);
      if (a[1] == "A") m = utils::createMap(A);
      if (a[1] == "XA") m = utils::createMap(X, A);
      if (a[1] == "C") m = std::const_pointer_cast<LaneletMap>(std::shared_ptr<const LaneletMap>(utils::createConstMap(CX, CA)));
    } else {
      auto& m = w.subs[a[0]];
      if (a[1] == "P") m = utils::createSubmap(P);
      if (a[1] == "L") m = utils::createSubmap(L);
      if (a[1] == "G") m = utils::createSubmap(G);
      if (a[1] == "X") m = utils::createSubmap(X);
      if (a[1] == "A") m = utils::createSubmap(A);
      if (a[1] == "XA") m = utils::createSubmap(X, A);
      if (a[1] == "C") m = std::const_pointer_cast<LaneletSubmap>(std::shared_ptr<const LaneletSubmap>(utils::createConstSubmap(CX, CA)));
    }
    return dump(a[0]);
  }
  if (op == "conv") {  // submap -> map
    auto& s = w.subs.at(a[0]);
    if (a[2] == "1") {
      const LaneletSubmap& c = *s;
      w.maps[a[1]] = std::const_pointer_cast<LaneletMap>(c.laneletMap());
    } else {
      w.maps[a[1]] = s->laneletMap();
    }
    return dump(a[1]);
  }
  if (op == "mvm" || op == "mvs") {  // a[0] -> a[1]
    auto m = w.maps.at(a[0]);
    w.maps.erase(a[0]);
    if (a[1][0] == 'm')
      w.maps[a[1]] = std::make_shared<LaneletMap>(std::move(*m));
    else if (a[2] == "1") {
      w.subs[a[1]] = std::make_shared<LaneletSubmap>();
      *w.subs[a[1]] = std::move(*m);
    } else
      w.subs[a[1]] = std::make_shared<LaneletSubmap>(std::move(*m));
    return dump(a[1]);
  }
  if (op == "dump") return dump(a[0]);
  if (op == "use") {
    LaneletMapLayers& v = layers(a[0]);
    const LaneletMapLayers& c = v;
    Id id = idByName(a[1]);
    return Obj()("m", use(v, a[1], a[2]))("c", use(c, a[1], a[2]));
  }
  if (op == "has") {
    const LaneletMapLayers& c = layers(a[0]);
    Id id = idByName(a[1]);
    return Obj()("x", names(utils::findUsages<Lanelet>(c.laneletLayer, id)))("l", names(utils::findUsages<LineString3d>(c.lineStringLayer, id)))(
        "g", names(utils::findUsages<Polygon3d>(c.polygonLayer, id)))("r", names(utils::findUsages<RegulatoryElementPtr>(c.regulatoryElementLayer, id)));
  }
  if (op == "pars") {  // parameters of all regulatory elements that can be reached from the layers of a map
    LaneletMapLayers& v = layers(a[0]);
    const LaneletMapLayers& c = v;
    std::map<std::string, Raw> all;
    for (auto& r : c.regulatoryElementLayer) all[nameOf(RegulatoryElementConstPtr(r))] = params(*r);
    for (auto& x : c.laneletLayer)
      for (auto& r : x.regulatoryElements()) all[nameOf(r)] = params(*r);
    for (auto& x : c.areaLayer)
      for (auto& r : x.regulatoryElements()) all[nameOf(r)] = params(*r);
    std::vector<Raw> out;
    for (auto& e : all) out.push_back(e.second);
    return Obj()("re", out);
  }
  throw std::runtime_error("unknown op " + op);
}
int main(int argc, char** argv) { return run(argc, argv, handle); }
