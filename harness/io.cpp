// C11, C12, C13: maps written to files and read back, and OSM documents read. One map (or document) per case.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <unistd.h>
#include <cmath>
#include "driver.h"
using namespace lanelet;
using namespace drv;

struct Plane : Projector {
  Plane() : Projector(Origin({49., 8.4})) {}
  BasicPoint3d forward(const GPSPoint& p) const override { return {p.lon * 1e5, p.lat * 1e5, p.ele}; }
  GPSPoint reverse(const BasicPoint3d& p) const override { return {p.y() * 1e-5, p.x() * 1e-5, p.z()}; }
};
static const std::vector<std::string> odd{
    "", "a&b<c>\"d'", " lead and trail ", "tab\there", "line\nbreak", "<!-- 'c' -->", "\xc3\xbcml\xc3\xa4ut \xe6\xbc\xa2", "cr\r\nlf", "]]>", "&amp;&#10;", std::string(3000, 'y')};
static std::string text(const std::string& s) { return !s.empty() && s[0] == '#' ? odd.at(std::stoul(s.substr(1))) : s; }
static std::string shown(const std::string& s) {
  for (size_t i = 1; i < odd.size(); ++i)
    if (s == odd[i]) return "#" + std::to_string(i);
  return s;
}
static Id ID(const std::string& s) { return std::stoll(s); }
static double tolXY = 0, tolZ = 0;
static std::vector<int> coords(const BasicPoint3d& p) {
  const double part[3] = {1. / 3000, 1. / 7000, 1. / 9000}, v[3] = {p.x(), p.y(), p.z()};
  for (int f = 0; f < 2; ++f) {
    std::vector<int> r;
    for (int i = 0; i < 3; ++i) {
      int n = int(std::lround(v[i] - (f ? part[i] : 0)));
      if (std::abs(v[i] - (n + (f ? part[i] : 0.))) <= (i < 2 ? tolXY : tolZ)) r.push_back(n);
    }
    if (r.size() == 3) {
      r.push_back(f);
      return r;
    }
  }
  return {-999999, 0, 0, 0};
}
static BasicPoint3d point(const Args& a, size_t i) {
  int f = std::stoi(a[i + 3]);
  return {std::stoi(a[i]) + f * (1. / 3000), std::stoi(a[i + 1]) + f * (1. / 7000), std::stoi(a[i + 2]) + f * (1. / 9000)};
}
// ---------------------------------------------------------------- the map
static LaneletMapUPtr m;
static std::vector<std::pair<std::string, std::string>> attrs(const AttributeMap& at) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& x : at) r.emplace_back(shown(x.first), "=" + shown(x.second.value()));
  return r;
}
static Raw ref(const ConstLineString3d& l, const LaneletMap& mm) {
  int own = mm.lineStringLayer.exists(l.id()) && mm.lineStringLayer.get(l.id()).constData() == l.constData() ? 1 : l.empty() ? 0 : 2;
  return Raw{"[" + js(l.id()) + "," + js(int(l.inverted())) + "," + js(own) + "]"};
}
static std::vector<Raw> res(const RegulatoryElementConstPtrs& rs, const LaneletMap& mm) {
  std::vector<Raw> r;
  for (auto& x : rs) {
    int own = mm.regulatoryElementLayer.exists(x->id()) && *mm.regulatoryElementLayer.find(x->id()) == x ? 1 : 0;
    r.push_back(Raw{"[" + js(x->id()) + "," + js(own) + "]"});
  }
  return r;
}
struct Params : RuleParameterVisitor {
  const LaneletMap& mm;
  std::vector<Raw> r;
  std::string lastRole;
  int i{0};
  explicit Params(const LaneletMap& mm) : mm{mm} {}
  void add(const char* kind, Id id, int inv, int own) {
    i = lastRole == role ? i + 1 : 1;
    lastRole = role;
    r.push_back(Raw{"[" + js(shown(role)) + "," + js(i) + "," + js(kind) + "," + js(id) + "," + js(inv) + "," + js(own) + "]"});
  }
  template <typename L, typename P>
  int own(const L& l, const P& p) { return l.exists(p.id()) && l.get(p.id()).constData() == p.constData() ? 1 : 0; }
  void operator()(const ConstPoint3d& p) override { add("pt", p.id(), 0, own(mm.pointLayer, p)); }
  void operator()(const ConstLineString3d& p) override { add("ls", p.id(), p.inverted(), own(mm.lineStringLayer, p)); }
  void operator()(const ConstPolygon3d& p) override { add("pg", p.id(), p.inverted(), own(mm.polygonLayer, p)); }
  void operator()(const ConstWeakLanelet& p) override {
    if (p.expired()) return add("gone", 0, 0, 0);
    add("ll", p.lock().id(), p.lock().inverted(), own(mm.laneletLayer, p.lock()));
  }
  void operator()(const ConstWeakArea& p) override {
    if (p.expired()) return add("gone", 0, 0, 0);
    add("ar", p.lock().id(), 0, own(mm.areaLayer, p.lock()));
  }
};
static std::vector<Id> pts(const ConstLineString3d& l) {
  std::vector<Id> r;
  for (auto& p : l) r.push_back(p.id());
  return r;
}
static Raw tup(const std::vector<std::string>& v) {
  std::string r = "[";
  for (auto& x : v) r += (r.size() > 1 ? "," : "") + x;
  return Raw{r + "]"};
}
static std::string cls(const RegulatoryElement* r) {
  if (dynamic_cast<const TrafficLight*>(r)) return "traffic_light";
  if (dynamic_cast<const RightOfWay*>(r)) return "right_of_way";
  if (dynamic_cast<const SpeedLimit*>(r)) return "speed_limit";
  if (dynamic_cast<const TrafficSign*>(r)) return "traffic_sign";
  if (dynamic_cast<const AllWayStop*>(r)) return "all_way_stop";
  if (dynamic_cast<const GenericRegulatoryElement*>(r)) return "regulatory_element";
  return "?";
}
static void dump(Obj& o, const LaneletMap& mm) {
  std::vector<Raw> r;
  std::set<Id> strangers;  // points of lines that are not the points of the map
  auto own = [&](const ConstLineString3d& l) {
    for (auto& p : l)
      if (!mm.pointLayer.exists(p.id()) || mm.pointLayer.get(p.id()).constData() != p.constData()) strangers.insert(p.id());
  };
  auto all = [](auto& layer) {
    std::vector<Id> ids;
    for (auto& x : layer) ids.push_back(utils::getId(x));
    std::sort(ids.begin(), ids.end());
    return ids;
  };
  auto flush = [&](const char* k) {
    o(k, r);
    r.clear();
  };
  for (auto id : all(mm.pointLayer)) {
    auto p = mm.pointLayer.get(id);
    r.push_back(tup({js(id), js(coords(p.basicPoint())), js(attrs(p.attributes()))}));
  }
  flush("pt");
  for (auto id : all(mm.lineStringLayer)) {
    auto l = mm.lineStringLayer.get(id);
    if (l.inverted()) l = l.invert();
    own(l);
    r.push_back(tup({js(id), js(pts(l)), js(attrs(l.attributes()))}));
  }
  flush("ls");
  for (auto id : all(mm.polygonLayer)) {
    ConstPolygon3d l = mm.polygonLayer.get(id);
    ConstLineString3d q(l.constData(), l.inverted());
    own(q);
    r.push_back(tup({js(id), js(pts(q)), js(attrs(l.attributes()))}));
  }
  flush("pg");
  for (auto id : all(mm.laneletLayer)) {
    auto l = mm.laneletLayer.get(id);
    std::vector<Raw> c;
    if (l.hasCustomCenterline()) c.push_back(ref(l.centerline(), mm));
    r.push_back(tup({js(id), js(ref(l.leftBound(), mm)), js(ref(l.rightBound(), mm)), js(c), js(res(l.regulatoryElements(), mm)),
                     js(attrs(l.attributes())), js(int(l.inverted()))}));
  }
  flush("ll");
  for (auto id : all(mm.areaLayer)) {
    auto l = mm.areaLayer.get(id);
    std::vector<Raw> outer;
    for (auto& x : l.outerBound()) outer.push_back(ref(x, mm));
    std::vector<std::vector<Raw>> inner;
    for (auto& ring : l.innerBounds()) {
      inner.emplace_back();
      for (auto& x : ring) inner.back().push_back(ref(x, mm));
    }
    r.push_back(tup({js(id), js(outer), js(inner), js(res(l.regulatoryElements(), mm)), js(attrs(l.attributes()))}));
  }
  flush("ar");
  for (auto id : all(mm.regulatoryElementLayer)) {
    RegulatoryElementConstPtr x = *mm.regulatoryElementLayer.find(id);
    Params ps(mm);
    x->applyVisitor(ps);
    r.push_back(tup({js(id), js(cls(x.get())), js(ps.r), js(attrs(x->attributes()))}));
  }
  flush("rg");
  o("strangers", std::vector<Id>(strangers.begin(), strangers.end()));
  // who uses a line string
  for (auto id : all(mm.lineStringLayer)) {
    auto l = mm.lineStringLayer.get(id);
    std::set<std::pair<std::string, Id>> us;
    for (auto& x : mm.laneletLayer.findUsages(l)) us.insert({"ll", x.id()});
    for (auto& x : mm.laneletLayer.findUsages(l.invert())) us.insert({"ll", x.id()});
    for (auto& x : mm.areaLayer.findUsages(l)) us.insert({"ar", x.id()});
    for (auto& x : mm.areaLayer.findUsages(l.invert())) us.insert({"ar", x.id()});
    for (auto& x : us) r.push_back(tup({js(id), js(x.first), js(x.second)}));
  }
  flush("us");
}
// ids named by the messages, without the introduction
static std::vector<std::vector<Id>> named(const ErrorMessages& es) {
  std::vector<std::vector<Id>> r;
  for (auto& e : es) {
    std::vector<Id> ids;
    for (size_t i = 0; i < e.size();) {
      bool neg = e[i] == '-' && i + 1 < e.size() && isdigit(e[i + 1]) && (i == 0 || e[i - 1] == ' ');
      if (isdigit(e[i]) || neg) {
        size_t n = 0;
        ids.push_back(std::stoll(e.substr(i), &n));
        i += n;
      } else {
        ++i;
      }
    }
    if (ids.empty() && &e == &es.front() && es.size() > 1) continue;
    r.push_back(ids);
  }
  return r;
}
static std::string file(const std::string& ext) {
  const char* d = getenv("VT_SCRATCH");
  return std::string(d ? d : "/tmp") + "/io-" + std::to_string(getpid()) + ext;
}
// the same file in a process that has not seen any id: ids generated after loading that are already taken
static std::vector<Id> fresh(const std::string& f) {
  auto mm = load(f, Plane());
  std::vector<Id> r;
  for (int i = 0; i < 300; ++i) {
    Id n = utils::getId();
    if (mm->pointLayer.exists(n) || mm->lineStringLayer.exists(n) || mm->polygonLayer.exists(n) || mm->laneletLayer.exists(n) ||
        mm->areaLayer.exists(n) || mm->regulatoryElementLayer.exists(n))
      r.push_back(n);
  }
  return r;
}
static Obj inFresh(const std::string& f) {
  auto out = file(".ids");
  std::string exe(4096, 0);
  exe.resize(size_t(readlink("/proc/self/exe", &exe[0], exe.size())));
  int rc = system((exe + " --fresh " + f + " " + out).c_str());
  std::ifstream in(out);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  unlink(out.c_str());
  Obj o;
  if (rc != 0) return o("ex", "fresh");
  return o("clash", Raw{s});
}
static Obj reload(const std::string& ext, const LaneletMap& mm, const io::Configuration& conf, double xy, double z, bool replace) {
  Obj o;
  ErrorMessages we, le;
  auto f = file(ext);
  write(f, mm, Plane(), &we, conf);
  LaneletMapUPtr n;
  try {
    n = load(f, Plane(), &le);
  } catch (...) {
    unlink(f.c_str());
    throw;
  }
  unlink(f.c_str());
  tolXY = xy, tolZ = z;
  o("we", named(we))("le", named(le));
  dump(o, *n);
  tolXY = tolZ = 0;
  if (replace) m = std::move(n);
  return o;
}
// files in the format forget a little less than a millionth: the map in memory goes on with the values it had
static void settle() {
  tolXY = 1e-6, tolZ = 1e-6;
  for (auto p : m->pointLayer) {
    auto c = coords(p.basicPoint());
    if (c[0] == -999999) continue;
    p.basicPoint() = point({std::to_string(c[0]), std::to_string(c[1]), std::to_string(c[2]), std::to_string(c[3])}, 0);
  }
  tolXY = tolZ = 0;
}
// ---------------------------------------------------------------- the document
struct Member {
  std::string type;
  Id ref;
  std::string role;
};
struct El {
  BasicPoint3d p;
  std::vector<Id> nd;
  std::vector<Member> mem;
  std::vector<std::pair<std::string, std::string>> tags;
  bool deleted{false}, dup{false};
};
static std::map<std::string, std::map<Id, El>> doc;
static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '&') r += "&amp;";
    else if (c == '<') r += "&lt;";
    else if (c == '>') r += "&gt;";
    else if (c == '"') r += "&quot;";
    else if (c < 0x20) r += "&#" + std::to_string(int(c)) + ";";
    else r += char(c);
  }
  return r;
}
static std::string num(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
static void put(std::ostream& o, const std::string& kind, Id id, const El& e) {
  const char* name = kind == "n" ? "node" : kind == "w" ? "way" : "relation";
  o << " <" << name << " id=\"" << id << "\"" << (e.deleted ? " action=\"delete\"" : "");
  GPSPoint g = Plane().reverse(e.p);
  if (kind == "n") o << " lat=\"" << num(g.lat) << "\" lon=\"" << num(g.lon) << "\"";
  o << ">\n";
  for (auto& n : e.nd) o << "  <nd ref=\"" << n << "\"/>\n";
  for (auto& x : e.mem) o << "  <member type=\"" << x.type << "\" ref=\"" << x.ref << "\" role=\"" << esc(x.role) << "\"/>\n";
  if (kind == "n" && e.p.z() != 0) o << "  <tag k=\"ele\" v=\"" << num(e.p.z()) << "\"/>\n";
  for (auto& t : e.tags) o << "  <tag k=\"" << esc(text(t.first)) << "\" v=\"" << esc(text(t.second.substr(1))) << "\"/>\n";
  o << " </" << name << ">\n";
}
static void write(const std::string& f, const std::string& order) {
  std::ofstream o(f);
  o << "<?xml version=\"1.0\"?>\n<osm version=\"0.6\">\n";
  for (char c : order) {
    std::string k(1, c);
    std::vector<std::pair<Id, El>> es(doc[k].begin(), doc[k].end());
    if (order.size() > 3) std::reverse(es.begin(), es.end());
    if (c == '-') continue;
    for (auto& e : es) put(o, k, e.first, e.second);
    for (auto& e : es) {
      if (!e.second.dup) continue;
      El d = e.second;
      d.p.x() += 1;
      std::reverse(d.nd.begin(), d.nd.end());
      if (c == 'r') d.tags.push_back({"dup", "=1"});
      put(o, k, e.first, d);
    }
  }
  o << "</osm>\n";
}

static LineString3d line(const std::string& id, const std::string& inv) {
  auto l = m->lineStringLayer.get(ID(id));
  if (l.inverted()) l = l.invert();
  return inv == "1" ? l.invert() : l;
}
static RegulatoryElementPtr reg(const std::string& id) { return *m->regulatoryElementLayer.find(ID(id)); }
template <typename F>
static void withAttrs(const std::string& kind, Id id, F&& f) {
  if (kind == "pt") { auto x = m->pointLayer.get(id); f(x.attributes()); }
  if (kind == "ls") { auto x = m->lineStringLayer.get(id); f(x.attributes()); }
  if (kind == "pg") { auto x = m->polygonLayer.get(id); f(x.attributes()); }
  if (kind == "ll") { auto x = m->laneletLayer.get(id); f(x.attributes()); }
  if (kind == "ar") { auto x = m->areaLayer.get(id); f(x.attributes()); }
  if (kind == "rg") { RegulatoryElementPtr x = *m->regulatoryElementLayer.find(id); f(const_cast<AttributeMap&>(const_cast<const RegulatoryElement&>(*x).attributes())); }
}

static Obj handle(const std::string& op, const Args& a) {
  Obj o;
  auto ok = [&] { return o("ok", true); };
  auto points = [&](size_t from) {
    Points3d ps;
    for (size_t i = from; i < a.size(); ++i) ps.push_back(m->pointLayer.get(ID(a[i])));
    return ps;
  };
  if (op == "reset") {
    m = std::make_unique<LaneletMap>();
    doc.clear();
    return ok();
  }
  if (op == "pt") { m->add(Point3d(ID(a[0]), point(a, 1))); return ok(); }
  if (op == "mv") { m->pointLayer.get(ID(a[0])).basicPoint() = point(a, 1); return ok(); }
  if (op == "ls") { m->add(LineString3d(ID(a[0]), points(1))); return ok(); }
  if (op == "pg") { m->add(Polygon3d(ID(a[0]), points(1))); return ok(); }
  if (op == "li") { m->add(LineString3d(ID(a[0]), points(1)).invert()); return ok(); }
  if (op == "push") { line(a[0], "0").push_back(m->pointLayer.get(ID(a[1]))); return ok(); }
  if (op == "ll") {
    Lanelet l(ID(a[0]), line(a[1], a[2]), line(a[3], a[4]));
    if (a.size() > 5) l.setCenterline(line(a[5], a[6]));
    m->add(l);
    return ok();
  }
  if (op == "setl") { m->laneletLayer.get(ID(a[0])).setLeftBound(line(a[1], a[2])); return ok(); }
  if (op == "setr") { m->laneletLayer.get(ID(a[0])).setRightBound(line(a[1], a[2])); return ok(); }
  if (op == "setc") { m->laneletLayer.get(ID(a[0])).setCenterline(line(a[1], a[2])); return ok(); }
  if (op == "ar") {
    InnerBounds rings(1);
    for (size_t i = 1; i + 1 < a.size(); i += 2) {
      if (a[i] == "0") rings.emplace_back();
      else rings.back().push_back(line(a[i], a[i + 1]));
    }
    LineStrings3d outer = rings.front();
    rings.erase(rings.begin());
    m->add(Area(ID(a[0]), outer, rings));
    return ok();
  }
  if (op == "rg") {
    RuleParameterMap ps;
    for (size_t i = 2; i + 3 < a.size(); i += 4) {
      auto& l = ps[text(a[i])];
      auto id = ID(a[i + 2]);
      bool inv = a[i + 3] == "1";
      if (a[i + 1] == "pt") l.emplace_back(m->pointLayer.get(id));
      if (a[i + 1] == "ls") l.emplace_back(line(a[i + 2], a[i + 3]));
      if (a[i + 1] == "pg") l.emplace_back(m->polygonLayer.get(id));
      if (a[i + 1] == "ll") l.emplace_back(WeakLanelet(inv ? m->laneletLayer.get(id).invert() : m->laneletLayer.get(id)));
      if (a[i + 1] == "ar") l.emplace_back(WeakArea(m->areaLayer.get(id)));
    }
    m->add(RegulatoryElementFactory::create(a[1], ID(a[0]), ps));
    return ok();
  }
  if (op == "re") {
    if (a[0] == "ll") m->laneletLayer.get(ID(a[1])).addRegulatoryElement(reg(a[2]));
    if (a[0] == "ar") m->areaLayer.get(ID(a[1])).addRegulatoryElement(reg(a[2]));
    return ok();
  }
  if (op == "at") {
    withAttrs(a[0], ID(a[1]), [&](AttributeMap& at) { at[text(a[2])] = text(a[3].substr(1)); });
    return ok();
  }
  if (op == "dump") {
    dump(o, *m);
    return o;
  }
  if (op == "bin") return reload(".bin", *m, {}, 0, 0, true);
  if (op == "osm") {
    io::Configuration c;
    if (!a.empty() && a[0] == "ele") {
      c["josm_format_elevation"] = true;
      return reload(".osm", *m, c, 1e-6, 0.0051, false);
    }
    if (!a.empty() && a[0] == "up") c["josm_upload"] = true;
    o = reload(".osm", *m, c, 1e-6, 1e-6, true);
    settle();
    return o;
  }
  if (op == "less") {  // written as if some elements were not part of the map
    std::map<std::string, std::set<Id>> gone;
    for (size_t i = 0; i + 1 < a.size(); i += 2) gone[a[i]].insert(ID(a[i + 1]));
    auto layer = [&](auto& from, const char* k) {
      typename std::decay_t<decltype(from)>::Map r;
      for (auto x : from)
        if (!gone[k].count(utils::getId(x))) r.emplace(utils::getId(x), x);
      return r;
    };
    LaneletMap part(layer(m->laneletLayer, "ll"), layer(m->areaLayer, "ar"), layer(m->regulatoryElementLayer, "rg"), layer(m->polygonLayer, "pg"),
                    layer(m->lineStringLayer, "ls"), layer(m->pointLayer, "pt"));
    return reload(".osm", part, {}, 1e-6, 1e-6, false);
  }
  if (op == "fresh") {
    auto f = file(a[0]);
    write(f, *m, Plane());
    o = inFresh(f);
    unlink(f.c_str());
    return o;
  }
  // the document
  auto& e = [&]() -> El& {
    static El none;
    if (a.size() < 2 || op[0] != 'd') return none;
    return doc[a[0]][ID(a[1])];
  }();
  if (op == "dn") { e.p = point(a, 2); return ok(); }
  if (op == "dw") {
    e.nd.clear();
    for (size_t i = 2; i < a.size(); ++i) e.nd.push_back(ID(a[i]));
    return ok();
  }
  if (op == "dr") return ok();
  if (op == "dm") { e.mem.push_back({a[2], ID(a[3]), a[4]}); return ok(); }
  if (op == "dt") { e.tags.push_back({a[2], a[3]}); return ok(); }
  if (op == "dut") {
    e.tags.erase(std::remove_if(e.tags.begin(), e.tags.end(), [&](auto& t) { return t.first == a[2]; }), e.tags.end());
    return ok();
  }
  if (op == "ddel") { e.deleted = true; return ok(); }
  if (op == "ddup") { e.dup = true; return ok(); }
  if (op == "drm") { doc[a[0]].erase(ID(a[1])); return ok(); }
  if (op == "dum") { e.mem.erase(e.mem.begin() + std::stoi(a[2]) - 1); return ok(); }
  if (op == "dsm") { e.mem.at(std::stoul(a[2]) - 1) = {a[3], ID(a[4]), a[5]}; return ok(); }
  if (op == "dun") { e.nd.erase(e.nd.begin() + std::stoi(a[2]) - 1); return ok(); }
  if (op == "dsn") { e.nd.at(std::stoul(a[2]) - 1) = ID(a[3]); return ok(); }
  if (op == "load") {
    auto f = file(".osm");
    write(f, a[0]);
    ErrorMessages le;
    try {
      m = load(f, Plane(), &le);
    } catch (...) {
      unlink(f.c_str());
      throw;
    }
    bool threw = false;
    try {
      load(f, Plane());
    } catch (const IOError&) {
      threw = true;
    }
    o("threw", threw);
    if (getenv("VT_DEBUG")) for (auto& x : le) std::cerr << x << "\n";
    unlink(f.c_str());
    tolXY = 1e-6, tolZ = 1e-6;
    o("le", named(le));
    dump(o, *m);
    tolXY = tolZ = 0;
    settle();
    return o;
  }
  throw std::runtime_error("unknown op");
}
int main(int argc, char** argv) {
  if (argc == 4 && std::string(argv[1]) == "--fresh") {
    std::ofstream(argv[3]) << js(fresh(argv[2]));
    return 0;
  }
  return run(argc, argv, handle, [](const std::exception& e) -> std::string {
    if (getenv("VT_DEBUG")) std::cerr << e.what() << "\n";
    return typeid(e).name();
  });
}
