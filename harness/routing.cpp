// C14-C17: routing graphs, shortest paths, searches and routes over a small explicit world.
// Handles are names ("a"), inverse lanelets are "a~". Costs are reported times 2000 (see spec/Routing.tla).
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_routing/RoutingGraphContainer.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <cmath>
#include "driver.h"
using namespace lanelet;
using namespace lanelet::routing;
using namespace lanelet::traffic_rules;
using namespace drv;

using S = std::string;
using PairS = std::pair<S, S>;
static constexpr int Inf = 99999;

struct World {
  std::map<S, Point3d> p;
  std::map<S, LineString3d> l;
  std::map<S, Lanelet> ll;
  std::map<S, Area> ar;
  std::vector<S> lln, arn;
  std::map<Id, S> names;
  std::map<S, S> attr;
  std::map<S, int> pass, cost, speed;
  std::map<PairS, int> pp, ch, cpair, lcost;
  std::map<S, std::vector<S>> sub;
  LaneletMapPtr map;
  LaneletSubmapPtr submap;
  TrafficRulesPtr rules;
  std::vector<RoutingGraphConstPtr> graphs;
  Optional<Route> route;
  Id id = 1000;
};
static World w;

static S nm(const ConstLanelet& l) { return w.names.at(l.id()) + (l.inverted() ? "~" : ""); }
static S nm(const ConstArea& a) { return w.names.at(a.id()); }
static S nm(const ConstLaneletOrArea& a) { return a.isLanelet() ? nm(*a.lanelet()) : nm(*a.area()); }
template <typename K>
static int look(const std::map<K, int>& m, const K& k, int dflt) {
  auto it = m.find(k);
  return it == m.end() ? dflt : it->second;
}

class Table : public TrafficRules {
 public:
  using TrafficRules::TrafficRules;
  bool canPass(const ConstLanelet& l) const override { return look(w.pass, w.names.at(l.id()), 1) > (l.inverted() ? 1 : 0); }
  bool canPass(const ConstArea& a) const override { return look(w.pass, nm(a), 1) > 0; }
  template <typename A, typename B>
  bool both(const A& a, const B& b, int dflt) const {
    return canPass(a) && canPass(b) && look(w.pp, PairS(nm(a), nm(b)), dflt) != 0;
  }
  bool canPass(const ConstLanelet& a, const ConstLanelet& b) const override { return both(a, b, 1); }
  bool canPass(const ConstLanelet& a, const ConstArea& b) const override { return both(a, b, 0); }
  bool canPass(const ConstArea& a, const ConstLanelet& b) const override { return both(a, b, 0); }
  bool canPass(const ConstArea& a, const ConstArea& b) const override { return both(a, b, 0); }
  bool canChangeLane(const ConstLanelet& a, const ConstLanelet& b) const override {
    return canPass(a) && canPass(b) && look(w.ch, PairS(nm(a), nm(b)), 0) != 0;
  }
  SpeedLimitInformation speed(const S& n) const { return {look(w.speed, n, 10) * units::MPS()}; }
  SpeedLimitInformation speedLimit(const ConstLanelet& l) const override { return speed(w.names.at(l.id())); }
  SpeedLimitInformation speedLimit(const ConstArea& a) const override { return speed(nm(a)); }
  bool isOneWay(const ConstLanelet& l) const override { return canPass(l) != canPass(l.invert()); }
  bool hasDynamicRules(const ConstLanelet&) const override { return false; }
};

class TableCost : public RoutingCost {
 public:
  static double d(int c) { return c == Inf ? std::numeric_limits<double>::infinity() : double(c); }
  double getCostSucceeding(const TrafficRules&, const ConstLaneletOrArea& a, const ConstLaneletOrArea& b) const override {
    auto it = w.cpair.find(PairS(nm(a), nm(b)));
    return d(it != w.cpair.end() ? it->second : look(w.cost, nm(a), 1));
  }
  double getCostLaneChange(const TrafficRules&, const ConstLanelets& a, const ConstLanelets& b) const override {
    return d(look(w.lcost, PairS(nm(a.front()), nm(b.front())), 1));
  }
};

static ConstLanelet llt(const S& n) {
  if (n.back() == '~') return w.ll.at(n.substr(0, n.size() - 1)).invert();
  return w.ll.at(n);
}
static ConstLaneletOrArea la(const S& n) {
  if (w.ar.count(n)) return ConstArea(w.ar.at(n));
  return llt(n);
}
//! all lanelet handles in canonical order, then areas
static std::vector<S> laneletHandles() {
  std::vector<S> v;
  for (auto& n : w.lln) {
    v.push_back(n);
    v.push_back(n + "~");
  }
  return v;
}
static std::map<S, int> order() {
  std::map<S, int> o;
  int i = 0;
  for (auto& n : laneletHandles()) o[n] = i++;
  for (auto& n : w.arn) o[n] = i++;
  return o;
}
template <typename C>
static std::vector<S> seq(const C& c) {
  std::vector<S> v;
  for (auto& e : c) v.push_back(nm(e));
  return v;
}
template <typename C>
static std::vector<S> bag(const C& c) {
  auto v = seq(c);
  auto o = order();
  std::sort(v.begin(), v.end(), [&](auto& a, auto& b) { return o.at(a) < o.at(b); });
  return v;
}
template <typename T>
static std::vector<S> opt(const Optional<T>& o) {
  if (!o) return {};
  return {nm(*o)};
}
using RelList = std::vector<PairS>;
static RelList relseq(const LaneletRelations& r) {
  RelList v;
  for (auto& e : r) v.emplace_back(nm(e.lanelet), relationToString(e.relationType));
  return v;
}
static RelList relbag(const LaneletRelations& r) {
  auto v = relseq(r);
  auto o = order();
  std::sort(v.begin(), v.end(), [&](auto& a, auto& b) { return o.at(a.first) < o.at(b.first); });
  return v;
}
static RelList relopt(const Optional<LaneletRelation>& r) {
  if (!r) return {};
  return relseq({*r});
}
static long long scaled(double c) { return std::llround(c * 2000); }
static int num(const S& s) { return std::stoi(s); }

static RoutingCostPtr makeCost(const S& s) {
  if (s[0] == 't') return std::make_shared<TableCost>();
  auto m = s.find('m');
  double lc = std::stod(s.substr(1, m == S::npos ? S::npos : m - 1));
  double mn = m == S::npos ? 0. : std::stod(s.substr(m + 1));
  if (s[0] == 'd') return std::make_shared<RoutingCostDistance>(lc, mn);
  return std::make_shared<RoutingCostTravelTime>(lc, mn);
}
static const RoutingGraph& G() { return *w.graphs.back(); }

static void prepareMap() {
  if (w.map) return;
  w.map = std::make_shared<LaneletMap>();
  for (auto& n : w.lln) w.map->add(w.ll.at(n));
  for (auto& n : w.arn) w.map->add(w.ar.at(n));
}

static Obj build(const Args& a) {
  // build kind participant costs height source
  prepareMap();
  Obj o;
  if (a[0] == "t") {
    w.rules = std::make_shared<Table>();
  } else {
    w.rules = TrafficRulesFactory::create(Locations::Germany, a[1]);
  }
  std::vector<S> pass;
  std::vector<PairS> pp, ch;
  if (a[0] != "t") {
    auto hs = laneletHandles();
    for (auto& h : hs)
      if (w.rules->canPass(llt(h))) pass.push_back(h);
    for (auto& h : w.arn)
      if (w.rules->canPass(ConstArea(w.ar.at(h)))) pass.push_back(h);
    for (auto& h : hs)
      for (auto& g : hs) {
        if (w.rules->canPass(llt(h), llt(g))) pp.emplace_back(h, g);
        if (w.rules->canChangeLane(llt(h), llt(g))) ch.emplace_back(h, g);
      }
    for (auto& n : w.arn) {
      ConstArea ar = w.ar.at(n);
      for (auto& h : hs) {
        if (w.rules->canPass(llt(h), ar)) pp.emplace_back(h, n);
        if (w.rules->canPass(ar, llt(h))) pp.emplace_back(n, h);
      }
      for (auto& m : w.arn)
        if (w.rules->canPass(ar, ConstArea(w.ar.at(m)))) pp.emplace_back(n, m);
    }
  }
  o("pass", pass)("pp", pp)("ch", ch);
  w.route = Optional<Route>();
  try {
    RoutingCostPtrs costs;
    std::stringstream ss(a[2]);
    S c;
    while (std::getline(ss, c, ',')) costs.push_back(makeCost(c));
    RoutingGraph::Configuration conf;
    if (a[3] != "-1") conf[RoutingGraph::ParticipantHeight] = Attribute(a[3]);
    RoutingGraphPtr g;
    if (a[4].empty()) {
      g = RoutingGraph::build(*w.map, *w.rules, costs, conf);
    } else {
      auto sm = std::make_shared<LaneletSubmap>();
      for (auto& n : w.sub.at(a[4])) {
        if (w.ll.count(n)) sm->add(w.ll.at(n));
        else sm->add(w.ar.at(n));
      }
      w.submap = sm;
      g = RoutingGraph::build(*sm, *w.rules, costs, conf);
    }
    w.graphs.push_back(g);
    o("ret", "ok");
  } catch (const RoutingGraphError&) {
    o("ret", "graph");
  } catch (const InvalidInputError&) {
    o("ret", "input");
  }
  return o;
}

template <typename F>
static void guarded(Obj& o, const F& f) {
  try {
    f();
  } catch (const InvalidInputError&) {
    o = Obj();
    o("ret", "input");
  } catch (const RoutingGraphError&) {
    o = Obj();
    o("ret", "graph");
  }
}

static Obj op(const S& op, const Args& a) {
  Obj o;
  auto ok = [&] { o("ret", "ok"); };
  if (op == "reset") {
    w = World();
    ok();
  } else if (op == "pt") {
    w.p[a[0]] = Point3d(w.id++, num(a[1]), num(a[2]), num(a[3]));
    ok();
  } else if (op == "line") {
    Points3d pts;
    for (size_t i = 1; i < a.size(); ++i) pts.push_back(w.p.at(a[i]));
    w.l[a[0]] = LineString3d(w.id++, pts);
    ok();
  } else if (op == "llt") {
    auto get = [&](const S& n, const S& inv) { return inv == "1" ? w.l.at(n).invert() : w.l.at(n); };
    w.ll[a[0]] = Lanelet(w.id++, get(a[1], a[2]), get(a[3], a[4]));
    w.names[w.ll[a[0]].id()] = a[0];
    w.lln.push_back(a[0]);
    ok();
  } else if (op == "area") {
    LineStrings3d ls;
    for (size_t i = 1; i + 1 < a.size(); i += 2) ls.push_back(a[i + 1] == "1" ? w.l.at(a[i]).invert() : w.l.at(a[i]));
    w.ar[a[0]] = Area(w.id++, ls);
    w.names[w.ar[a[0]].id()] = a[0];
    w.arn.push_back(a[0]);
    ok();
  } else if (op == "tag") {
    if (w.l.count(a[0])) w.l.at(a[0]).attributes()[a[1]] = a[2];
    else if (w.ll.count(a[0])) w.ll.at(a[0]).attributes()[a[1]] = a[2];
    else w.ar.at(a[0]).attributes()[a[1]] = a[2];
    ok();
  } else if (op == "pass") {
    w.pass[a[0]] = num(a[1]);
    ok();
  } else if (op == "pp") {
    w.pp[{a[0], a[1]}] = num(a[2]);
    ok();
  } else if (op == "ch") {
    w.ch[{a[0], a[1]}] = num(a[2]);
    ok();
  } else if (op == "cost") {
    w.cost[a[0]] = num(a[1]);
    ok();
  } else if (op == "cpair") {
    w.cpair[{a[0], a[1]}] = num(a[2]);
    ok();
  } else if (op == "lcost") {
    w.lcost[{a[0], a[1]}] = num(a[2]);
    ok();
  } else if (op == "speed") {
    w.speed[a[0]] = num(a[1]);
    ok();
  } else if (op == "sub") {
    w.sub[a[0]] = std::vector<S>(a.begin() + 1, a.end());
    ok();
  } else if (op == "build") {
    return build(a);
  } else if (op == "graph") {
    auto m = G().passableSubmap();
    std::vector<ConstLanelet> l;
    std::vector<ConstArea> ar;
    for (auto& e : m->laneletLayer) l.push_back(e);
    for (auto& e : m->areaLayer) ar.push_back(e);
    std::vector<std::vector<S>> rel, relc;
    auto hs = laneletHandles();
    for (auto& h : hs)
      for (auto& g : hs) {
        auto r = G().routingRelation(llt(h), llt(g));
        auto c = G().routingRelation(llt(h), llt(g), true);
        if (r) rel.push_back({h, g, relationToString(*r)});
        if (c) relc.push_back({h, g, relationToString(*c)});
      }
    o("ll", bag(l))("ar", bag(ar))("err", G().checkValidity(false).size())("rel", rel)("relc", relc);
  } else if (op == "nb") {
    auto h = a[0];
    auto k = RoutingCostId(num(a[1]));
    guarded(o, [&] {
      auto& g = G();
      if (w.ar.count(h)) {
        o("ret", "area")("conf", bag(g.conflicting(la(h))));
        return;
      }
      auto l = llt(h);
      ok();
      o("fol", bag(g.following(l)))("folc", bag(g.following(l, true)))("folr", relbag(g.followingRelations(l)));
      o("folcr", relbag(g.followingRelations(l, true)))("prev", bag(g.previous(l)))("prevc", bag(g.previous(l, true)));
      o("prevr", relbag(g.previousRelations(l)))("prevcr", relbag(g.previousRelations(l, true)));
      o("l", opt(g.left(l, k)))("al", opt(g.adjacentLeft(l, k)))("r", opt(g.right(l, k)))("ar", opt(g.adjacentRight(l, k)));
      o("ls", seq(g.lefts(l, k)))("als", seq(g.adjacentLefts(l, k)))("rs", seq(g.rights(l, k)))("ars", seq(g.adjacentRights(l, k)));
      o("lrel", relseq(g.leftRelations(l, k)))("rrel", relseq(g.rightRelations(l, k)))("bes", seq(g.besides(l, k)));
      o("conf", bag(g.conflicting(l)));
    });
  } else if (op == "dbg") {
    guarded(o, [&] {
      auto m = G().getDebugLaneletMap(RoutingCostId(num(a[0])), a[1] == "1", a[2] == "1");
      ok();
      std::vector<S> pts;
      for (auto& p : m->pointLayer) pts.push_back(w.names.at(*p.attribute("id").asId()));
      std::vector<std::vector<S>> ls;
      for (auto& l : m->lineStringLayer) {
        auto f = w.names.at(*l.front().attribute("id").asId()), t = w.names.at(*l.back().attribute("id").asId());
        S r = l.attribute("relation").value(), rr = l.attributeOr("relation_reverse", S());
        auto cost = [&](const char* n) { return l.hasAttribute(n) ? std::to_string(scaled(*l.attribute(n).asDouble())) : S(); };
        S c = cost("routing_cost"), cr = cost("routing_cost_reverse");
        ls.push_back({f, t, r, c, rr, cr});
      }
      o("pts", sorted(pts))("ls", sorted(ls));
    });
  } else if (op == "sp") {
    // sp from to k lc areas via...
    auto k = RoutingCostId(num(a[2]));
    bool lc = a[3] == "1", ar = a[4] == "1";
    guarded(o, [&] {
      if (!ar) {
        ConstLanelets via;
        for (size_t i = 5; i < a.size(); ++i) via.push_back(llt(a[i]));
        auto p = via.empty() ? G().shortestPath(llt(a[0]), llt(a[1]), k, lc) : G().shortestPathVia(llt(a[0]), via, llt(a[1]), k, lc);
        std::vector<S> none;
        std::vector<std::vector<S>> lanes;
        if (p)
          for (auto it = p->begin(); it != p->end(); ++it) lanes.push_back(seq(static_cast<const LaneletPath&>(*p).getRemainingLane(it).lanelets()));
        o("ret", p ? "path" : "none")("path", p ? seq(*p) : none)("lanes", lanes);
      } else {
        ConstLaneletOrAreas via;
        for (size_t i = 5; i < a.size(); ++i) via.push_back(la(a[i]));
        auto p = via.empty() ? G().shortestPathIncludingAreas(la(a[0]), la(a[1]), k, lc)
                             : G().shortestPathIncludingAreasVia(la(a[0]), via, la(a[1]), k, lc);
        std::vector<S> none;
        std::vector<std::vector<S>> lanes;
        o("ret", p ? "path" : "none")("path", p ? seq(*p) : none)("lanes", lanes);
      }
    });
  } else if (op == "reach") {
    // reach mode(f|b|a) h limit k lc     (limit times 2000)
    double lim = num(a[2]) / 2000.;
    auto k = RoutingCostId(num(a[3]));
    bool lc = a[4] == "1";
    guarded(o, [&] {
      ok();
      if (a[0] == "f") o("set", bag(G().reachableSet(llt(a[1]), lim, k, lc)));
      else if (a[0] == "b") o("set", bag(G().reachableSetTowards(llt(a[1]), lim, k, lc)));
      else o("set", bag(G().reachableSetIncludingAreas(la(a[1]), lim, k)));
    });
  } else if (op == "paths") {
    // paths mode(f|b|a) h costLimit elementLimit k lc shorter api(0: params, 1: overload)
    auto k = RoutingCostId(num(a[4]));
    bool lc = a[5] == "1", shorter = a[6] == "1", over = a[7] == "1";
    int cl = num(a[2]), nl = num(a[3]);
    guarded(o, [&] {
      PossiblePathsParams p;
      if (cl >= 0) p.routingCostLimit = cl / 2000.;
      if (nl >= 0) p.elementLimit = uint32_t(nl);
      p.routingCostId = k;
      p.includeLaneChanges = lc;
      p.includeShorterPaths = shorter;
      std::vector<std::vector<S>> ps;
      auto put = [&](const auto& r) {
        for (auto& e : r) ps.push_back(seq(e));
      };
      if (a[0] == "f") put(!over ? G().possiblePaths(llt(a[1]), p) : cl >= 0 ? G().possiblePaths(llt(a[1]), cl / 2000., k, lc) : G().possiblePaths(llt(a[1]), uint32_t(nl), lc, k));
      else if (a[0] == "b") put(!over ? G().possiblePathsTowards(llt(a[1]), p) : cl >= 0 ? G().possiblePathsTowards(llt(a[1]), cl / 2000., k, lc) : G().possiblePathsTowards(llt(a[1]), uint32_t(nl), lc, k));
      else put(!over ? G().possiblePathsIncludingAreas(la(a[1]), p) : cl >= 0 ? G().possiblePathsIncludingAreas(la(a[1]), cl / 2000., k, lc) : G().possiblePathsIncludingAreas(la(a[1]), uint32_t(nl), lc, k));
      ok();
      o("paths", sorted(ps));
    });
  } else if ((op == "rq" || op == "rvisit" || op == "rdbg") && !w.route) {
    o("ret", "none");
  } else if (op == "visit" || op == "rvisit") {
    // visit mode(f|b|fa|ba) h k lc stop...
    std::set<S> stop(a.begin() + 4, a.end());
    std::vector<Raw> v;
    auto rec = [&](const S& n, const S& p, double c, size_t len, size_t chg) {
      v.push_back(Raw{"[" + quote(n) + "," + quote(p) + "," + std::to_string(scaled(c)) + "," + std::to_string(len) + "," + std::to_string(chg) + "]"});
      return stop.count(n) == 0;
    };
    auto f = [&](const LaneletVisitInformation& i) { return rec(nm(i.lanelet), nm(i.predecessor), i.cost, i.length, i.numLaneChanges); };
    auto fa = [&](const LaneletOrAreaVisitInformation& i) { return rec(nm(i.laneletOrArea), nm(i.predecessor), i.cost, i.length, i.numLaneChanges); };
    auto k = RoutingCostId(num(a[2]));
    bool lc = a[3] == "1";
    guarded(o, [&] {
      if (op == "rvisit") {
        if (a[0] == "f") w.route->forEachSuccessor(llt(a[1]), f);
        else w.route->forEachPredecessor(llt(a[1]), f);
      } else if (a[0] == "f") G().forEachSuccessor(llt(a[1]), f, lc, k);
      else if (a[0] == "b") G().forEachPredecessor(llt(a[1]), f, lc, k);
      else if (a[0] == "fa") G().forEachSuccessorIncludingAreas(la(a[1]), fa, lc, k);
      else G().forEachPredecessorIncludingAreas(la(a[1]), fa, lc, k);
      ok();
      o("v", v);
    });
  } else if (op == "route") {
    // route from to k lc via...
    auto k = RoutingCostId(num(a[2]));
    bool lc = a[3] == "1";
    guarded(o, [&] {
      ConstLanelets via;
      for (size_t i = 4; i < a.size(); ++i) via.push_back(llt(a[i]));
      w.route = Optional<Route>();
      w.route = via.empty() ? G().getRoute(llt(a[0]), llt(a[1]), k, lc) : G().getRouteVia(llt(a[0]), via, llt(a[1]), k, lc);
      if (!w.route) {
        o("ret", "none");
        return;
      }
      auto& r = *w.route;
      std::vector<S> in;
      for (auto& h : laneletHandles())
        if (r.contains(llt(h))) in.push_back(h);
      std::vector<ConstLanelet> sm;
      for (auto& e : r.laneletSubmap()->laneletLayer) sm.push_back(e);
      ok();
      auto conf = r.allConflictingInMap();
      o("sp", seq(r.shortestPath()))("size", r.size())("in", in)("sub", bag(sm))("lanes", r.numLanes())("err", r.checkValidity(false).size());
      o("conf", bag(conf));
    });
  } else if (op == "rq") {
    auto l = llt(a[0]);
    auto& r = *w.route;
    o("in", r.contains(l));
    o("fol", bag(r.following(l)))("folr", relbag(r.followingRelations(l)))("prev", bag(r.previous(l)))("prevr", relbag(r.previousRelations(l)));
    o("l", relopt(r.leftRelation(l)))("r", relopt(r.rightRelation(l)))("ls", relseq(r.leftRelations(l)))("rs", relseq(r.rightRelations(l)));
    o("confr", bag(r.conflictingInRoute(l)))("confm", bag(r.conflictingInMap(l)));
    o("full", seq(r.fullLane(l).lanelets()))("rem", seq(r.remainingLane(l).lanelets()))("rsp", seq(r.remainingShortestPath(l)));
  } else if (op == "rdbg") {
    for (auto& n : w.lln)
      if (w.route->contains(llt(n)) && w.route->contains(llt(n + "~"))) {
        o("ret", "skip");
        return o;
      }
    auto m = w.route->getDebugLaneletMap();
    std::vector<std::vector<S>> pts, ls;
    for (auto& p : m->pointLayer) pts.push_back({w.names.at(p.attribute("id").asId().value()), p.attributeOr("shortest_path", S("no"))});
    for (auto& l : m->lineStringLayer) {
      auto f = w.names.at(*l.front().attribute("id").asId()), t = w.names.at(*l.back().attribute("id").asId());
      for (auto& e : l.attributes()) {
        bool rev = e.first.find("relation_reverse") == 0;
        if (e.first.find("relation") == 0) ls.push_back({rev ? t : f, rev ? f : t, e.second.value()});
      }
    }
    o("pts", sorted(pts))("ls", sorted(ls));
  } else if (op == "cont") {
    // cont h graph height : lanelets of that graph in conflict with h, over all graphs, and of the route
    guarded(o, [&] {
      RoutingGraphContainer c(w.graphs);
      double height = num(a[2]);
      auto one = c.conflictingInGraph(llt(a[0]), size_t(num(a[1])), height);
      ok();
      std::vector<std::vector<S>> all;
      size_t i = 0;
      for (auto& e : c.conflictingInGraphs(llt(a[0]), height)) {
        if (e.first != i++) o("order", "wrong");
        all.push_back(bag(e.second));
      }
      std::vector<S> none;
      o("one", bag(one))("all", all)("route", w.route ? bag(c.conflictingOfRouteInGraph(&*w.route, size_t(num(a[1])), height)) : none);
    });
  } else {
    o("ret", "badop");
  }
  return o;
}

int main(int argc, char** argv) {
  numericArgs() = [](const S& o) { return o != "reset" && o != "tag"; };
  return run(argc, argv, op);
}
