// C10: regulatory elements. One current element, a fixed set of primitives, every operation followed by a full observation.
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include "driver.h"
using namespace lanelet;
using namespace drv;

struct World {
  std::map<std::string, Point3d> pts;
  std::map<std::string, LineString3d> ls;
  std::map<std::string, Polygon3d> pg;
  std::map<std::string, Lanelet> ll;
  std::map<std::string, Area> ar;
  std::map<Id, std::string> names;
};
static World w;
static RegulatoryElementPtr cur;
static std::string kind = "none";

static void fresh() {
  cur.reset();
  kind = "none";
  w = World();
  Id id = 1;
  auto pt = [&](double x, double y) { return Point3d(id++, x, y, 0); };
  for (int i = 1; i <= 4; ++i) {
    LineString3d l(100 + i, {pt(i, 0), pt(i, 1)});
    w.ls["l" + std::to_string(i)] = l;
    w.names[l.id()] = "l" + std::to_string(i);
  }
  for (int i = 1; i <= 2; ++i) {
    Polygon3d l(200 + i, {pt(i, 0), pt(i, 1), pt(i + 1, 1)});
    w.pg["g" + std::to_string(i)] = l;
    w.names[l.id()] = "g" + std::to_string(i);
  }
  for (int i = 1; i <= 3; ++i) {
    LineString3d a(300 + i, {pt(0, i), pt(1, i)}), b(310 + i, {pt(0, i - 1), pt(1, i - 1)});
    w.ll["L" + std::to_string(i)] = Lanelet(320 + i, a, b);
    w.names[320 + i] = "L" + std::to_string(i);
  }
  for (int i = 1; i <= 2; ++i) {
    LineString3d a(400 + i, {pt(0, i), pt(1, i), pt(1, i + 1), pt(0, i)});
    w.ar["a" + std::to_string(i)] = Area(410 + i, {a});
    w.names[410 + i] = "a" + std::to_string(i);
    w.pts["p" + std::to_string(i)] = pt(9, 9);
    w.names[w.pts["p" + std::to_string(i)].id()] = "p" + std::to_string(i);
  }
}
static bool inv(const std::string& t) { return !t.empty() && t.back() == '~'; }
static std::string base(const std::string& t) { return inv(t) ? t.substr(0, t.size() - 1) : t; }
static LineString3d LS(const std::string& t) { return inv(t) ? w.ls.at(base(t)).invert() : w.ls.at(t); }
static Lanelet LL(const std::string& t) { return inv(t) ? w.ll.at(base(t)).invert() : w.ll.at(t); }
static LineStringOrPolygon3d LP(const std::string& t) {
  return t[0] == 'g' ? LineStringOrPolygon3d(w.pg.at(t)) : LineStringOrPolygon3d(LS(t));
}
static RuleParameter RP(const std::string& t) {
  switch (t[0]) {
    case 'l': return LS(t);
    case 'g': return w.pg.at(t);
    case 'L': return WeakLanelet(LL(t));
    case 'a': return WeakArea(w.ar.at(t));
    default: return w.pts.at(t);
  }
}
static bool isLP(const std::string& t) { return t[0] == 'l' || t[0] == 'g'; }
static bool dead(const std::string& t) { return t[0] == 'L' && w.ll.count(base(t)) == 0; }

static std::string nm(Id id) {
  auto it = w.names.find(id);
  return it == w.names.end() ? "?" : it->second;
}
static std::string tok(const ConstPoint3d& p) { return nm(p.id()); }
static std::string tok(const ConstLineString3d& p) { return nm(p.id()) + (p.inverted() ? "~" : ""); }
static std::string tok(const ConstPolygon3d& p) { return nm(p.id()); }
static std::string tok(const ConstLanelet& p) { return nm(p.id()) + (p.inverted() ? "~" : ""); }
static std::string tok(const ConstArea& p) { return nm(p.id()); }
static std::string tok(const ConstLineStringOrPolygon3d& p) {
  return p.isLineString() ? tok(*p.lineString()) : tok(*p.polygon());
}
static std::string tok(const LineStringOrPolygon3d& p) { return tok(ConstLineStringOrPolygon3d(p)); }
template <typename T>
static std::vector<std::string> toks(const std::vector<T>& v) {
  std::vector<std::string> r;
  for (auto& e : v) r.push_back(tok(e));
  return r;
}
template <typename T>
static std::vector<std::string> toks(const Optional<T>& v) {
  if (!v) return {};
  return {tok(*v)};
}
struct TokVis : RuleParameterVisitor {
  std::vector<std::pair<std::string, std::string>> all;
  void add(const std::string& t) { all.emplace_back(role, t); }
  void operator()(const ConstPoint3d& p) override { add(tok(p)); }
  void operator()(const ConstLineString3d& l) override { add(tok(l)); }
  void operator()(const ConstPolygon3d& p) override { add(tok(p)); }
  void operator()(const ConstWeakLanelet& ll) override { add(ll.expired() ? "x" : tok(ll.lock())); }
  void operator()(const ConstWeakArea& a) override { add(a.expired() ? "x" : tok(a.lock())); }
};
struct One : boost::static_visitor<std::string> {
  std::string operator()(const ConstPoint3d& p) const { return tok(p); }
  std::string operator()(const ConstLineString3d& l) const { return tok(l); }
  std::string operator()(const ConstPolygon3d& p) const { return tok(p); }
  std::string operator()(const ConstWeakLanelet& ll) const { return ll.expired() ? "x" : tok(ll.lock()); }
  std::string operator()(const ConstWeakArea& a) const { return a.expired() ? "x" : tok(a.lock()); }
};

static const std::vector<std::pair<std::string, RoleName>> Roles = {
    {"cancel_line", RoleName::CancelLine}, {"cancels", RoleName::Cancels}, {"ref_line", RoleName::RefLine},
    {"refers", RoleName::Refers}, {"right_of_way", RoleName::RightOfWay}, {"yield", RoleName::Yield}};

template <typename T>
static std::vector<std::string> both(const RegulatoryElement& r, const std::string& s, RoleName e, bool& ok) {
  auto a = toks(r.getParameters<T>(s)), b = toks(r.getParameters<T>(e));
  ok = ok && a == b;
  return a;
}
static std::string man(ManeuverType m) {
  return m == ManeuverType::Yield ? "yield" : m == ManeuverType::RightOfWay ? "row" : "unknown";
}
template <typename F>
static std::string guarded(F f) {
  try {
    return f();
  } catch (const InvalidInputError&) {
    return "!invalid";
  } catch (const NoSuchAttributeError&) {
    return "!noattr";
  } catch (const std::exception&) {
    return "!other";
  }
}
template <typename R>
static std::vector<std::string> lltTokens(const R&) {
  return {};
}

static Obj view() {
  Obj o;
  o("kind", kind);
  if (!cur) return o;
  const RegulatoryElement& r = *cur;
  std::vector<std::pair<std::string, std::vector<std::string>>> par;
  auto all = r.getParameters();
  bool ok = true;
  size_t nonEmpty = 0;
  for (auto& e : all) {
    if (e.second.empty()) continue;
    ++nonEmpty;
    std::vector<std::string> v;
    for (auto& x : e.second) v.push_back(boost::apply_visitor(One(), x));
    par.emplace_back(e.first, v);
  }
  std::sort(par.begin(), par.end());
  o("par", par);
  auto roles = r.roles();
  for (auto& e : par) ok = ok && std::count(roles.begin(), roles.end(), e.first) == 1;
  ok = ok && roles.size() == r.size() && r.empty() == (r.size() == 0) && roles.size() == all.size();
  TokVis tv;
  r.applyVisitor(tv);
  std::stable_sort(tv.all.begin(), tv.all.end(), [](auto& a, auto& b) { return a.first < b.first; });
  o("vis", tv.all);
  std::vector<std::vector<std::vector<std::string>>> typed;
  for (auto& e : Roles) {
    typed.push_back({both<ConstLineString3d>(r, e.first, e.second, ok), both<ConstPolygon3d>(r, e.first, e.second, ok),
                     both<ConstLanelet>(r, e.first, e.second, ok), both<ConstArea>(r, e.first, e.second, ok),
                     both<ConstPoint3d>(r, e.first, e.second, ok)});
  }
  o("typed", typed);
  // find by id: every primitive of the world
  std::vector<std::string> found;
  for (auto& e : w.names) {
    bool f = false;
    f = f || !!r.find<ConstLineString3d>(e.first) || !!r.find<ConstPolygon3d>(e.first) ||
        !!r.find<ConstLanelet>(e.first) || !!r.find<ConstArea>(e.first) || !!r.find<ConstPoint3d>(e.first);
    bool g = !!r.find<ConstRuleParameter>(e.first);
    ok = ok && f == g;
    if (f) ok = ok && utils::has(r, e.first);
    if (f) found.push_back(e.second);
  }
  o("found", sorted(found));
  std::vector<std::string> acc[5];
  std::string type, stype;
  std::vector<std::pair<std::string, std::string>> maneuver, stops;
  std::vector<std::string> cancelTypes;
  auto same = [&](const std::vector<std::string>& a, const std::vector<std::string>& b) {
    ok = ok && a == b;
    return a;
  };
  if (auto t = std::dynamic_pointer_cast<TrafficLight>(cur)) {
    const TrafficLight& c = *t;
    acc[0] = same(toks(c.trafficLights()), toks(t->trafficLights()));
    acc[1] = same(toks(c.stopLine()), toks(t->stopLine()));
    o("acc", std::vector<std::vector<std::string>>{acc[0], acc[1]});
  } else if (auto t = std::dynamic_pointer_cast<RightOfWay>(cur)) {
    const RightOfWay& c = *t;
    acc[0] = same(toks(c.rightOfWayLanelets()), toks(t->rightOfWayLanelets()));
    acc[1] = same(toks(c.yieldLanelets()), toks(t->yieldLanelets()));
    acc[2] = same(toks(c.stopLine()), toks(t->stopLine()));
    for (auto& e : w.ll) {
      maneuver.emplace_back(e.first, man(c.getManeuver(e.second)));
      maneuver.emplace_back(e.first + "~", man(c.getManeuver(e.second.invert())));
    }
    o("acc", std::vector<std::vector<std::string>>{acc[0], acc[1], acc[2]})("man", maneuver);
  } else if (auto t = std::dynamic_pointer_cast<TrafficSign>(cur)) {
    const TrafficSign& c = *t;
    acc[0] = same(toks(c.trafficSigns()), toks(t->trafficSigns()));
    acc[1] = same(toks(c.refLines()), toks(t->refLines()));
    acc[2] = same(toks(c.cancellingTrafficSigns()), toks(t->cancellingTrafficSigns()));
    acc[3] = same(toks(c.cancelLines()), toks(t->cancelLines()));
    type = guarded([&] { return c.type(); });
    stype = guarded([&] {
      cancelTypes = c.cancelTypes();
      return std::string("ok");
    });
    o("acc", std::vector<std::vector<std::string>>{acc[0], acc[1], acc[2], acc[3]})("type", type)("cts", stype)(
        "ct", cancelTypes);
  } else if (auto t = std::dynamic_pointer_cast<AllWayStop>(cur)) {
    const AllWayStop& c = *t;
    acc[0] = same(toks(c.lanelets()), toks(t->lanelets()));
    acc[1] = same(toks(c.stopLines()), toks(t->stopLines()));
    acc[2] = same(toks(c.trafficSigns()), toks(t->trafficSigns()));
    for (auto& e : w.ll)
      for (int i = 0; i < 2; ++i) {
        auto l = i ? e.second.invert() : e.second;
        auto f = [&](auto& x) { return guarded([&] { auto s = x.getStopLine(l); return s ? tok(*s) : std::string("-"); }); };
        auto a = f(c), b = f(*t);
        ok = ok && a == b;
        stops.emplace_back(e.first + (i ? "~" : ""), a);
      }
    o("acc", std::vector<std::vector<std::string>>{acc[0], acc[1], acc[2]})("stops", stops);
  } else {
    ok = ok && !!std::dynamic_pointer_cast<GenericRegulatoryElement>(cur);
  }
  o("sub", std::string(r.attributeOr(AttributeName::Subtype, std::string("-"))))("ok", ok);
  return o;
}

static Obj op(const std::string& op, const Args& a) {
  std::string ret = "na";
  auto tl = std::dynamic_pointer_cast<TrafficLight>(cur);
  auto row = std::dynamic_pointer_cast<RightOfWay>(cur);
  auto ts = std::dynamic_pointer_cast<TrafficSign>(cur);
  auto aws = std::dynamic_pointer_cast<AllWayStop>(cur);
  auto gen = std::dynamic_pointer_cast<GenericRegulatoryElement>(cur);
  auto b = [](bool x) { return std::string(x ? "yes" : "no"); };
  if (op == "reset") {
    fresh();
    ret = "ok";
  } else if (op == "mk" || op == "fac") {
    auto opt = [&](size_t i, auto f) {
      std::vector<decltype(f(a[i]))> v;
      for (size_t k = i; k < i + 2; ++k)
        if (!a[k].empty()) v.push_back(f(a[k]));
      return v;
    };
    bool bad = false;
    for (size_t i = 1; i < 14; ++i) bad = bad || (!a[i].empty() && dead(a[i]));
    if (bad) {
      ret = "dead";
    } else {
      AttributeMap at;
      if (!a[14].empty()) at["sign_type"] = a[14];
      RegulatoryElementPtr n;
      ret = guarded([&] {
        if (op == "fac") {
          RuleParameterMap m;
          const char* names[] = {"refers", "ref_line", "yield", "right_of_way", "cancels", "cancel_line"};
          for (int i = 0; i < 6; ++i) {
            auto v = opt(1 + 2 * i, RP);
            if (!v.empty()) m.insert({names[i], v});
          }
          if (!a[13].empty()) m.insert({"foo", {RP(a[13])}});
          n = RegulatoryElementFactory::create(a[0], 500, m, at);
        } else {
          auto ref = opt(3, LS);
          auto stop = ref.empty() ? Optional<LineString3d>() : Optional<LineString3d>(ref[0]);
          if (a[0] == "TL") n = TrafficLight::make(500, at, opt(1, LP), stop);
          if (a[0] == "ROW") n = RightOfWay::make(500, at, opt(7, LL), opt(5, LL), stop);
          if (a[0] == "TS") n = TrafficSign::make(500, at, {opt(1, LP), a[15]}, {opt(9, LP), a[16]}, ref, opt(11, LS));
          if (a[0] == "SL") n = SpeedLimit::make(500, at, {opt(1, LP), a[15]}, {opt(9, LP), a[16]}, ref, opt(11, LS));
          if (a[0] == "SLT") n = SpeedLimit::make(500, AttributeMap(), a[14], ref, opt(11, LS));
          if (a[0] == "AWS") {
            LaneletsWithStopLines v;
            for (int i = 0; i < 2; ++i)
              if (!a[5 + i].empty())
                v.push_back({LL(a[5 + i]), a[3 + i].empty() ? Optional<LineString3d>() : Optional<LineString3d>(LS(a[3 + i]))});
            n = AllWayStop::make(500, at, v, opt(1, LP));
          }
        }
        return std::string("ok");
      });
      if (n) {
        cur = n;
        kind = std::dynamic_pointer_cast<TrafficLight>(n) ? "TL" : std::dynamic_pointer_cast<RightOfWay>(n) ? "ROW" :
               std::dynamic_pointer_cast<SpeedLimit>(n) ? "SL" : std::dynamic_pointer_cast<TrafficSign>(n) ? "TS" :
               std::dynamic_pointer_cast<AllWayStop>(n) ? "AWS" : "GEN";
      }
    }
  } else if (op == "sub") {
    auto f = [&](auto prim) {
      if (a[1].empty()) prim.attributes().erase(std::string("subtype"));
      else prim.setAttribute(AttributeName::Subtype, a[1]);
    };
    LP(a[0]).applyVisitor(f);
    ret = "ok";
  } else if (op == "kill") {
    w.ll.erase(a[0]);
    ret = "ok";
  } else if (op == "add" || op == "rem") {
    const auto &r = a[0], &t = a[1];
    bool add = op == "add";
    auto did = [&](bool x) { ret = b(x); };
    if (dead(t)) {
      ret = "dead";
    } else if (tl && r == "refers" && isLP(t)) {
      if (add) tl->addTrafficLight(LP(t)), ret = "ok"; else did(tl->removeTrafficLight(LP(t)));
    } else if (row && r == "right_of_way" && t[0] == 'L') {
      if (add) row->addRightOfWayLanelet(LL(t)), ret = "ok"; else did(row->removeRightOfWayLanelet(LL(t)));
    } else if (row && r == "yield" && t[0] == 'L') {
      if (add) row->addYieldLanelet(LL(t)), ret = "ok"; else did(row->removeYieldLanelet(LL(t)));
    } else if (ts && r == "refers" && isLP(t)) {
      if (add) ts->addTrafficSign(LP(t)), ret = "ok"; else did(ts->removeTrafficSign(LP(t)));
    } else if (ts && r == "ref_line" && t[0] == 'l') {
      if (add) ts->addRefLine(LS(t)), ret = "ok"; else did(ts->removeRefLine(LS(t)));
    } else if (ts && r == "cancel_line" && t[0] == 'l') {
      if (add) ts->addCancellingRefLine(LS(t)), ret = "ok"; else did(ts->removeCancellingRefLine(LS(t)));
    } else if (ts && r == "cancels" && isLP(t) && !add) {
      did(ts->removeCancellingTrafficSign(LP(t)));
    } else if (aws && r == "refers" && isLP(t)) {
      if (add) aws->addTrafficSign(LP(t)), ret = "ok"; else did(aws->removeTrafficSign(LP(t)));
    }
  } else if (op == "addcanc") {
    if (ts) {
      TrafficSignsWithType s;
      s.type = a[0];
      for (size_t i = 1; i < 3; ++i)
        if (!a[i].empty()) s.trafficSigns.push_back(LP(a[i]));
      ts->addCancellingTrafficSign(s);
      ret = "ok";
    }
  } else if (op == "setstop") {
    if (tl) tl->setStopLine(LS(a[0])), ret = "ok";
    if (row) row->setStopLine(LS(a[0])), ret = "ok";
  } else if (op == "rmstop") {
    if (tl) tl->removeStopLine(), ret = "ok";
    if (row) row->removeStopLine(), ret = "ok";
  } else if (op == "addaws") {
    if (dead(a[0])) ret = "dead";
    else if (aws)
      ret = guarded([&] {
        aws->addLanelet({LL(a[0]), a[1].empty() ? Optional<LineString3d>() : Optional<LineString3d>(LS(a[1]))});
        return std::string("ok");
      });
  } else if (op == "remaws") {
    if (dead(a[0])) ret = "dead";
    else if (aws) ret = b(aws->removeLanelet(LL(a[0])));
  } else if (op == "gadd" || op == "gadde") {
    if (dead(a[1])) ret = "dead";
    else if (gen) {
      auto doit = [&](auto prim) {
        if (op == "gadd") gen->addParameter(a[0], prim);
        else for (auto& e : Roles) if (e.first == a[0]) gen->addParameter(e.second, prim);
      };
      switch (a[1][0]) {
        case 'l': doit(LS(a[1])); break;
        case 'g': doit(w.pg.at(a[1])); break;
        case 'L': doit(LL(a[1])); break;
        case 'a': doit(w.ar.at(a[1])); break;
        default: doit(w.pts.at(a[1]));
      }
      ret = "ok";
    }
  }
  return Obj()("ret", ret)("v", view());
}

int main(int argc, char** argv) { return run(argc, argv, op); }
