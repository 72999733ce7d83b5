// C21: validation of maps. A world of named ids; every run reports the entries, the report, and what the command line tool prints.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_validation/Cli.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>
#include <unistd.h>
#include "driver.h"
using namespace lanelet;
using namespace lanelet::validation;
using namespace drv;

//! one issue of each severity, if there is a point in the map
class CustomMap : public MapValidator {
 public:
  constexpr static const char* name() { return "custom.map"; }
  Issues operator()(const LaneletMap& map) override {
    if (map.pointLayer.empty()) return {};
    return {Issue(Severity::Info, "gamma"), Issue(Severity::Error, "alpha"), Issue(Severity::Warning, validation::Primitive::Area, 77, "beta"),
            Issue(Severity::Warning, validation::Primitive::Area, 77, "beta")};
  }
};
class CustomRules : public TrafficRuleValidator {
 public:
  constexpr static const char* name() { return "custom.rules"; }
  Issues operator()(const LaneletMap&, const std::vector<traffic_rules::TrafficRulesUPtr>& rules) override {
    Issues i;
    for (auto& r : rules) i.emplace_back(Severity::Warning, "rules " + r->participant() + " " + r->location());
    return i;
  }
};
class CustomGraph : public RoutingGraphValidator {
 public:
  constexpr static const char* name() { return "zcustom.graph"; }
  Issues operator()(const routing::RoutingGraph&, const traffic_rules::TrafficRules& rules) override {
    return {Issue(Severity::Error, validation::Primitive::Lanelet, 78, "graph " + rules.participant())};
  }
};
namespace {
RegisterMapValidator<CustomMap> r1;
RegisterTrafficRuleValidator<CustomRules> r2;
RegisterRoutingGraphValidator<CustomGraph> r3;
}  // namespace

//! attributes of regulatory elements can only be changed by themselves
class Rule : public RegulatoryElement {
 public:
  explicit Rule(Id id) : RegulatoryElement(std::make_shared<RegulatoryElementData>(id)) {}
  AttributeMap& attrs() { return data()->attributes; }
};
static std::map<Id, std::shared_ptr<Rule>> regs;
static LaneletMapPtr m;
static std::set<std::string> words;
static Id ID(const std::string& s) { return std::stoll(s); }
static std::string V(const std::string& s) { return s.substr(1); }

static std::string sev(Severity s) { return s == Severity::Error ? "Error" : s == Severity::Warning ? "Warning" : "Info"; }
//! the words of a message that are keys, values, participants or ids of points
static std::vector<std::string> tokens(const std::string& msg) {
  std::set<std::string> r;
  std::istringstream ss(msg);
  std::string t;
  while (ss >> t) {
    for (auto x : {t, t.substr(0, t.find_last_not_of(".:,") + 1)}) {
      if (words.count(x)) r.insert(x);
      if (words.count("=" + x)) r.insert("=" + x);
      if (words.count("#" + x)) r.insert("#" + x);
    }
  }
  return {r.begin(), r.end()};
}
static Raw issue(const Issue& i) {
  return Raw{"[" + js(sev(i.severity)) + "," + js(std::string(i.primitive == validation::Primitive::RegulatoryElement ? "regelem" : toString(i.primitive))) + "," + js((long)i.id) + "," + js(tokens(i.message)) + "," +
             js(i.message) + "]"};
}
static Raw entries(const std::vector<DetectedIssues>& v) {
  std::vector<Raw> r;
  for (auto& e : v) {
    std::vector<Raw> is;
    for (auto& i : e.issues) is.push_back(issue(i));
    r.push_back(Raw{"[" + js(e.checkName) + "," + js(is) + "]"});
  }
  return Raw{js(r)};
}
static void report(Obj& o, const std::string& p, const std::vector<DetectedIssues>& v) {
  o(p + "ent", entries(v));
  auto rep = buildReport(v);
  o(p + "err", rep.errors);
  o(p + "warn", rep.warnings);
  long e = 0, w = 0;
  for (auto& d : v) e += d.errors().size(), w += d.warnings().size();
  o(p + "n", Raw{"[" + js(e) + "," + js(w) + "]"});
}
static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r;
  std::istringstream ss(s);
  for (std::string l; std::getline(ss, l);) r.push_back(l);
  return r;
}
struct Capture {
  std::ostringstream out, err;
  std::streambuf *o, *e;
  Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(o), std::cerr.rdbuf(e); }
};
static CommandLineConfig parse(const std::vector<std::string>& a) {
  std::vector<const char*> v{"lanelet2_validate"};
  for (auto& x : a) v.push_back(x.c_str());
  return parseCommandLine(v.size(), v.data());
}
static AttributeMap& at(const std::string& kind, const std::string& id) {
  if (kind == "point") return m->pointLayer.get(ID(id)).attributes();
  if (kind == "linestring") return m->lineStringLayer.get(ID(id)).attributes();
  if (kind == "polygon") return m->polygonLayer.get(ID(id)).attributes();
  if (kind == "lanelet") return m->laneletLayer.get(ID(id)).attributes();
  if (kind == "area") return m->areaLayer.get(ID(id)).attributes();
  return regs.at(ID(id))->attrs();
}
static LineString3d line(const std::string& id, const std::string& inv) {
  auto l = m->lineStringLayer.get(ID(id));
  return inv == "1" ? l.invert() : l;
}
static ValidationConfig config(const Args& a, size_t i) {
  ValidationConfig c;
  c.checksFilter = V(a[i]);
  if (a.size() > i + 1) c.location = a[i + 1];
  if (a.size() > i + 2) c.participants.assign(a.begin() + i + 2, a.end());
  return c;
}
static std::vector<Raw> messages(const std::vector<std::string>& v) {
  std::vector<Raw> r;
  for (auto& x : v) r.push_back(Raw{js(x)});
  return r;
}

static Obj op(const std::string& op, const Args& a) {
  Obj o;
  auto ok = [&]() -> Obj& { return o("ret", "ok"); };
  if (op == "reset") {
    m = std::make_shared<LaneletMap>();
    regs.clear();
    words = {"type", "subtype", "location"};
    for (auto p : {"vehicle", "pedestrian", "bicycle", "vehicle:car", "vehicle:bus", "vehicle:taxi", "vehicle:emergency", "vehicle:truck", "de"})
      words.insert(std::string("=") + p);
    return ok();
  }
  if (op == "pt") {
    words.insert("#" + a[0]);
    m->add(Point3d(ID(a[0]), std::stoi(a[1]) / 100., std::stoi(a[2]) / 100., std::stoi(a[3]) / 100.));
    return ok();
  }
  if (op == "ls" || op == "pg") {
    Points3d p;
    for (size_t i = 1; i < a.size(); ++i) p.push_back(m->pointLayer.get(ID(a[i])));
    if (op == "ls") m->add(LineString3d(ID(a[0]), p));
    else m->add(Polygon3d(ID(a[0]), p));
    return ok();
  }
  if (op == "ll") {
    m->add(Lanelet(ID(a[0]), line(a[1], a[2]), line(a[3], a[4])));
    return ok();
  }
  if (op == "ar") {
    LineStrings3d ls;
    for (size_t i = 1; i + 1 < a.size(); i += 2) ls.push_back(line(a[i], a[i + 1]));
    m->add(Area(ID(a[0]), ls));
    return ok();
  }
  if (op == "rg") {
    regs[ID(a[0])] = std::make_shared<Rule>(ID(a[0]));
    m->add(regs[ID(a[0])]);
    return ok();
  }
  if (op == "tag") {
    words.insert(a[2]);
    if (a[3] != "=") words.insert(a[3]);
    at(a[0], a[1])[a[2]] = V(a[3]);
    return ok();
  }
  if (op == "untag") {
    at(a[0], a[1]).erase(a[2]);
    return ok();
  }
  if (op == "checks") {
    o("names", availabeChecks(V(a[0])));
    // the tool prints the same
    Capture c;
    auto cfg = parse({"--print", "-f", V(a[0])});
    int rc = runFromConfig(cfg);
    o("rc", rc);
    o("out", lines(c.out.str()));
    o("errs", lines(c.err.str()));
    return o;
  }
  if (op == "run") {
    report(o, "", validateMap(*m, config(a, 0)));
    return o;
  }
  if (op == "cli") {
    Capture c;
    std::vector<std::string> v;
    for (auto& x : a) v.push_back(x[0] == '=' ? V(x) : x);
    auto g = parse(v);
    auto& x = g.validationConfig;
    o("filter", x.checksFilter)("location", x.location)("parts", x.participants)("lat", Raw{std::to_string((long)(x.origin.lat * 8))});
    o("lon", Raw{std::to_string((long)(x.origin.lon * 8))})("file", g.mapFile)("print", g.print)("help", g.help);
    return o;
  }
  if (op == "file") {
    // file damage filter location participants...
    const char* d = getenv("VT_SCRATCH");
    std::string f = std::string(d ? d : "/tmp") + "/val" + std::to_string(getpid()) + ".osm";
    Origin origin{GPSPoint{49, 8.4, 0}};
    write(f, *m, projection::UtmProjector(origin));
    std::string text;
    {
      std::ifstream in(f);
      text.assign(std::istreambuf_iterator<char>(in), {});
    }
    auto end = text.rfind("</osm>");
    if (a[0] == "noref") text.insert(end, "<way id=\"900001\" visible=\"true\" version=\"1\"><nd ref=\"900002\"/></way>");
    if (a[0] == "twice") text.insert(end, "<relation id=\"900003\" visible=\"true\" version=\"1\"><member type=\"way\" ref=\"900004\" role=\"left\"/>"
                                          "<tag k=\"type\" v=\"lanelet\"/></relation><way id=\"900005\"><nd ref=\"900002\"/></way>");
    auto rel = [&](const std::string& id, const std::string& members, const std::string& tags) {
      return "<relation id=\"" + id + "\" visible=\"true\" version=\"1\">" + members + tags + "</relation>";
    };
    auto mem = [](const std::string& t, const std::string& id, const std::string& role) {
      return "<member type=\"" + t + "\" ref=\"" + id + "\" role=\"" + role + "\"/>";
    };
    auto tag = [](const std::string& k, const std::string& v) { return "<tag k=\"" + k + "\" v=\"" + v + "\"/>"; };
    std::string usable = tag("location", "urban") + tag("one_way", "no") + tag("participant:vehicle", "yes") + tag("participant:pedestrian", "yes") +
                         tag("participant:bicycle", "yes");
    std::string twoNodes = "<node id=\"900010\" lat=\"49.001\" lon=\"8.401\"/><node id=\"900011\" lat=\"49.0011\" lon=\"8.401\"/>";
    std::string way = "<way id=\"900012\"><nd ref=\"900010\"/><nd ref=\"900011\"/></way>";
    std::string lost = "<way id=\"900013\"><nd ref=\"900002\"/></way>";
    if (a[0] == "noleft" || a[0] == "noright")
      text.insert(end, twoNodes + way + rel("900020", mem("way", "900012", a[0] == "noleft" ? "right" : "left"), tag("type", "lanelet") + usable));
    if (a[0] == "lostline")
      text.insert(end, twoNodes + way + lost + rel("900020", mem("way", "900012", "left") + mem("way", "900013", "right"), tag("type", "lanelet") + usable));
    if (a[0] == "noring") text.insert(end, rel("900021", "", tag("type", "multipolygon") + usable));
    if (a[0] == "lostring") text.insert(end, lost + rel("900021", mem("way", "900013", "outer"), tag("type", "multipolygon") + usable));
    if (a[0] == "openring") text.insert(end, twoNodes + way + rel("900021", mem("way", "900012", "outer"), tag("type", "multipolygon") + usable));
    if (a[0] == "lostrule")
      text.insert(end, rel("900022", mem("way", "900099", "refers"), tag("type", "regulatory_element") + tag("subtype", "traffic_light")));
    if (a[0] == "xml") text.resize(text.size() / 2);
    if (a[0] == "missing") unlink(f.c_str());
    else std::ofstream(f) << text;
    auto c = config(a, 1);
    c.origin = origin.position;
    ErrorMessages errors;
    bool threw = false;
    std::vector<DetectedIssues> loaded;
    try {
      auto map = load(f, projection::UtmProjector(origin), &errors);
      loaded = validateMap(*map, c);
    } catch (const LaneletError&) {
      threw = true;
    }
    o("threw", threw)("le", errors);
    o("mem", entries(loaded));
    report(o, "", validateMap(f, c));
    Capture cap;
    std::vector<std::string> args{f, "--filter", c.checksFilter, "--location", c.location, "--lat", "49", "--lon", "8.4"};
    for (auto& p : c.participants) args.push_back("-p"), args.push_back(p);
    auto g = parse(args);
    int rc = runFromConfig(g);
    o("rc", rc)("out", lines(cap.out.str()))("errs", lines(cap.err.str()));
    unlink(f.c_str());
    return o;
  }
  throw std::runtime_error("unknown op");
}
int main(int argc, char** argv) {
  return run(argc, argv, op, [](const std::exception& e) -> std::string {
    if (getenv("VT_DEBUG")) std::cerr << e.what() << "\n";
    return typeid(e).name();
  });
}
