// C18, C19: traffic rules over a small explicit world of lines, lanelets, areas and regulatory elements.
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/utility/Units.h>
#include <lanelet2_traffic_rules/Exceptions.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <cmath>
#include "driver.h"
using namespace lanelet;
using namespace lanelet::traffic_rules;
using namespace drv;
using namespace lanelet::units::literals;

//! rules where regulatory elements decide: attribute "allow" on passing, attribute "limit" on the speed
class Custom : public GenericTrafficRules {
 public:
  using GenericTrafficRules::GenericTrafficRules;

 protected:
  Optional<bool> canPass(const RegulatoryElementConstPtrs& regElems) const override {
    for (auto& r : regElems)
      if (r->hasAttribute("allow")) return r->attributeOr("allow", false);
    return {};
  }
  const CountrySpeedLimits& countrySpeedLimits() const override { return limits_; }
  Optional<SpeedLimitInformation> speedLimit(const RegulatoryElementConstPtrs& regelems) const override {
    for (auto& r : regElemsOf(regelems)) {
      return SpeedLimitInformation{*r->attribute("limit").asVelocity(), r->attributeOr("must", true)};
    }
    return {};
  }
  static RegulatoryElementConstPtrs regElemsOf(const RegulatoryElementConstPtrs& regelems) {
    RegulatoryElementConstPtrs v;
    for (auto& r : regelems)
      if (r->hasAttribute("limit")) v.push_back(r);
    return v;
  }

 private:
  CountrySpeedLimits limits_{{51_kmh, false}, {52_kmh}, {53_kmh, true}, {54_kmh, false}, {55_kmh}, {56_kmh, false}, {57_kmh}};
};

struct World {
  std::map<std::string, Point3d> p;
  std::map<std::string, LineString3d> l;
  std::map<std::string, Lanelet> ll;
  std::map<std::string, Area> ar;
  std::map<std::string, RegulatoryElementPtr> re;
  std::vector<std::string> lln, arn, ln;
  std::map<std::string, TrafficRulesPtr> rules;
  Id id = 1000;
};
static World w;

static Point3d pt(const std::string& n) {
  auto it = w.p.find(n);
  if (it == w.p.end()) it = w.p.emplace(n, Point3d(w.id++, w.p.size(), w.p.size() * 0.5, 0)).first;
  return it->second;
}
static LineString3d ln(const std::string& n, const std::string& inv) { return inv == "1" ? w.l.at(n).invert() : w.l.at(n); }

static const TrafficRules& rules(const std::string& kind, const std::string& part) {
  auto& r = w.rules[kind + "/" + part];
  if (!r) {
    if (kind == "de") {
      r = TrafficRulesFactory::create(Locations::Germany, part);
    } else {
      TrafficRules::Configuration c;
      c["location"] = "nowhere";
      c["participant"] = part;
      r = std::make_shared<Custom>(c);
    }
  }
  return *r;
}

struct H {
  std::string name;
  ConstLanelet l;
};
static std::vector<H> handles() {
  std::vector<H> v;
  for (auto& n : w.lln) {
    v.push_back({n, w.ll.at(n)});
    v.push_back({n + "~", w.ll.at(n).invert()});
  }
  return v;
}

static Raw limit(const std::function<SpeedLimitInformation()>& f) {
  try {
    auto s = f();
    return Raw{"[" + std::to_string(std::llround(units::KmHQuantity(s.speedLimit).value() * 1000)) + "," +
               (s.isMandatory ? "true" : "false") + "]"};
  } catch (const InterpretationError&) {
    return Raw{"[-2,true]"};
  }
}

static Obj op(const std::string& op, const Args& a) {
  Obj o;
  if (op == "reset") {
    w = World();
    o("ret", "ok");
  } else if (op == "line") {
    Points3d pts;
    for (size_t i = 1; i < a.size(); ++i) pts.push_back(pt(a[i]));
    w.l[a[0]] = LineString3d(w.id++, pts);
    w.ln.push_back(a[0]);
    o("ret", "ok");
  } else if (op == "llt") {
    w.ll[a[0]] = Lanelet(w.id++, ln(a[1], a[2]), ln(a[3], a[4]));
    w.lln.push_back(a[0]);
    o("ret", "ok");
  } else if (op == "area") {
    LineStrings3d ls;
    for (size_t i = 1; i + 1 < a.size(); i += 2) ls.push_back(ln(a[i], a[i + 1]));
    w.ar[a[0]] = Area(w.id++, ls);
    w.arn.push_back(a[0]);
    o("ret", "ok");
  } else if (op == "re") {
    // re name sign (empty: a generic element)
    if (a[1].empty()) w.re[a[0]] = std::make_shared<GenericRegulatoryElement>(w.id++);
    else {
      auto v = a[1];
      std::replace(v.begin(), v.end(), '#', ' ');
      w.re[a[0]] = SpeedLimit::make(w.id++, AttributeMap(), v);
    }
    o("ret", "ok");
  } else if (op == "addre" || op == "remre") {
    bool r = true;
    auto re = w.re.at(a[1]);
    if (w.ll.count(a[0])) {
      if (op == "addre") w.ll.at(a[0]).addRegulatoryElement(re);
      else r = w.ll.at(a[0]).removeRegulatoryElement(re);
    } else {
      if (op == "addre") w.ar.at(a[0]).addRegulatoryElement(re);
      else r = w.ar.at(a[0]).removeRegulatoryElement(re);
    }
    o("ret", r ? "ok" : "no");
  } else if (op == "tag") {
    auto set = [&](AttributeMap& m) {
      if (a[2].empty()) {
        auto it = m.find(a[1]);
        if (it != m.end()) m.erase(it);
      } else {
        auto v = a[2];
        std::replace(v.begin(), v.end(), '#', ' ');
        m[a[1]] = v;
      }
    };
    // blanks of values are written as # in scripts
    auto n = a[0];
    for (auto& e : w.l) if (n == e.first || n == "*l") set(e.second.attributes());
    for (auto& e : w.ll) if (n == e.first || n == "*") set(e.second.attributes());
    for (auto& e : w.ar) if (n == e.first || n == "*") set(e.second.attributes());
    for (auto& e : w.re)
      if (n == e.first) {
        auto g = std::dynamic_pointer_cast<GenericRegulatoryElement>(e.second);
        if (g) set(g->attributes());
      }
    o("ret", "ok");
  } else if (op == "fac") {
    try {
      auto r = TrafficRulesFactory::create(a[0], a[1]);
      o("ret", "ok")("loc", r->location())("part", r->participant());
    } catch (const InvalidInputError&) {
      o("ret", "invalid")("loc", "")("part", "");
    }
  } else if (op == "q") {
    auto& r = rules(a[0], a[1]);
    std::vector<std::string> pass, oneway, dyn, ll, ch, la, al, aa;
    auto hs = handles();
    for (auto& h : hs) {
      if (r.canPass(h.l)) pass.push_back(h.name);
      if (r.isOneWay(h.l)) oneway.push_back(h.name);
      if (r.hasDynamicRules(h.l)) dyn.push_back(h.name);
    }
    for (auto& n : w.arn)
      if (r.canPass(ConstArea(w.ar.at(n)))) pass.push_back(n);
    for (auto& h : hs) {
      for (auto& g : hs) {
        if (r.canPass(h.l, g.l)) ll.push_back(h.name + ">" + g.name);
        if (r.canChangeLane(h.l, g.l)) ch.push_back(h.name + ">" + g.name);
      }
      for (auto& n : w.arn) {
        if (r.canPass(h.l, ConstArea(w.ar.at(n)))) la.push_back(h.name + ">" + n);
        if (r.canPass(ConstArea(w.ar.at(n)), h.l)) al.push_back(n + ">" + h.name);
      }
    }
    for (auto& n : w.arn)
      for (auto& m : w.arn)
        if (r.canPass(ConstArea(w.ar.at(n)), ConstArea(w.ar.at(m)))) aa.push_back(n + ">" + m);
    o("pass", pass)("oneway", oneway)("dyn", dyn)("ll", ll)("ch", ch)("la", la)("al", al)("aa", aa);
  } else if (op == "lim") {
    auto& r = rules(a[0], a[1]);
    std::vector<Raw> v;
    for (auto& h : handles()) v.push_back(limit([&] { return r.speedLimit(h.l); }));
    for (auto& n : w.arn) v.push_back(limit([&] { return r.speedLimit(ConstArea(w.ar.at(n))); }));
    o("lim", v);
  }
  return o;
}

int main(int argc, char** argv) {
  numericArgs() = [](const std::string& o) { return o == "llt" || o == "area"; };
  return run(argc, argv, op);
}
