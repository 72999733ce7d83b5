// C05: ids handed out by the library. All numbers in scripts and observations are relative to the state at the last reset.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_io/Io.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iomanip>
#include <limits>
#include "driver.h"
#include "fibers.h"
#undef atomic
#undef mutex
#include <thread>
using namespace lanelet;
using namespace drv;

static Id base = 0;
static std::shared_ptr<LaneletMap> mp;
static std::shared_ptr<LaneletSubmap> sub;
static Id abs_(const std::string& s) { return base + atoi(s.c_str()); }
static int rel(Id i) { return int(i - base); }

static std::vector<Id> ids(const Args& a, size_t from) {
  std::vector<Id> r;
  for (size_t i = from; i < a.size(); ++i) r.push_back(abs_(a[i]));
  return r;
}
// elements with all ids they consist of; returns the ids they finally have
struct El {
  Point3d p;
  LineString3d l, l2;
  Polygon3d g;
  Lanelet t;
  Area a;
  std::shared_ptr<GenericRegulatoryElement> r;
  char kind;
  El(char k, const std::vector<Id>& i) : kind(k) {
    auto pt = [&](size_t n) { return Point3d(i.at(n), double(n), double(n * n), 0); };
    switch (k) {
      case 'p': p = pt(0); break;
      case 'l': l = LineString3d(i.at(0), {pt(1), pt(2)}); break;
      case 'g': g = Polygon3d(i.at(0), {pt(1), pt(2), pt(3)}); break;
      case 't':
        l = LineString3d(i.at(1), {pt(3), pt(4)});
        l2 = LineString3d(i.at(2), {pt(5), pt(6)});
        t = Lanelet(i.at(0), l, l2);
        break;
      case 'a':
        p = pt(5);
        g = Polygon3d(InvalId, {pt(3)});
        l = LineString3d(i.at(1), {p, pt(4), g[0]});
        l2 = LineString3d(i.at(2), {g[0], p});
        a = Area(i.at(0), {l, l2});
        break;
      case 'r':
        l = LineString3d(i.at(1), {pt(2), pt(3)});
        r = std::make_shared<GenericRegulatoryElement>(i.at(0), RuleParameterMap{{"refers", {l}}},
                                                       AttributeMap{{"type", "regulatory_element"}, {"subtype", GenericRegulatoryElement::RuleName}});
        break;
    }
  }
  template <typename M>
  void add(M& m) {
    switch (kind) {
      case 'p': m.add(p); break;
      case 'l': m.add(l); break;
      case 'g': m.add(g); break;
      case 't': m.add(t); break;
      case 'a': m.add(a); break;
      case 'r': m.add(RegulatoryElementPtr(r)); break;
    }
  }
  Id id() const {
    switch (kind) {
      case 'p': return p.id();
      case 'l': return l.id();
      case 'g': return g.id();
      case 't': return t.id();
      case 'a': return a.id();
      default: return r->id();
    }
  }
  std::vector<int> all() const {
    std::vector<int> v{rel(id())};
    auto line = [&](const LineString3d& x) {
      v.push_back(rel(x.id()));
      for (auto& q : x) v.push_back(rel(q.id()));
    };
    if (kind == 'l') {
      for (auto& q : l) v.push_back(rel(q.id()));
    } else if (kind == 'g') {
      for (auto& q : g) v.push_back(rel(q.id()));
    } else if (kind == 't') {
      line(l), line(l2);
    } else if (kind == 'a') {
      line(l);
      v.push_back(rel(l2.id()));
    } else if (kind == 'r') {
      line(l);
    }
    return v;
  }
};
static std::string scratch(const std::string& n) {
  const char* d = getenv("VT_SCRATCH");
  return std::string(d ? d : "/tmp") + "/c05-" + std::to_string(getpid()) + n;
}
static void layerMaps(El& e, LaneletLayer::Map& t, AreaLayer::Map& ar, RegulatoryElementLayer::Map& r, PolygonLayer::Map& g,
                      LineStringLayer::Map& l, PointLayer::Map& p) {
  switch (e.kind) {
    case 'p': p.insert({e.p.id(), e.p}); break;
    case 'l': l.insert({e.l.id(), e.l}); break;
    case 'g': g.insert({e.g.id(), e.g}); break;
    case 't': t.insert({e.t.id(), e.t}); break;
    case 'a': ar.insert({e.a.id(), e.a}); break;
    case 'r': r.insert({e.r->id(), e.r}); break;
  }
}

// a concurrent program: g = getId, r+<n> = registerId(base + n)
static std::vector<std::vector<std::string>> program(const Args& a, size_t from) {
  std::vector<std::vector<std::string>> r(1);
  for (size_t i = from; i < a.size(); ++i) {
    if (a[i] == "/") {
      r.emplace_back();
    } else {
      r.back().push_back(a[i]);
    }
  }
  return r;
}

static Obj explore(const Args& a) {
  sched::Explorer ex;
  ex.maxPreempt = atoi(a[0].c_str());
  auto prog = program(a, 1);
  ex.maxRuns = 4000;
  Id b0 = 0;
  std::vector<std::vector<Id>> got(prog.size());
  std::vector<std::vector<std::function<void()>>> ops(prog.size());
  for (size_t t = 0; t < prog.size(); ++t) {
    got[t].resize(prog[t].size());
    for (size_t i = 0; i < prog[t].size(); ++i) {
      auto s = prog[t][i];
      if (s == "g") {
        ops[t].push_back([&got, t, i] { got[t][i] = utils::getId(); });
      } else {
        int d = atoi(s.substr(1).c_str());
        ops[t].push_back([&got, &b0, t, i, d] {
          got[t][i] = b0 + d;
          utils::registerId(b0 + d);
        });
      }
    }
  }
  std::set<std::string> hist;
  ex.explore(ops, [&] { b0 = utils::getId(); },
             [&] {
               // every operation: kind, value, time of start, time of end
               std::vector<Raw> h;
               for (size_t t = 0; t < prog.size(); ++t) {
                 for (size_t i = 0; i < prog[t].size(); ++i) {
                   int s = -1, e = -1;
                   for (size_t k = 0; k < ex.events.size(); ++k) {
                     auto& v = ex.events[k];
                     if (v.thread == int(t) && v.step == int(i)) (v.start ? s : e) = int(k);
                   }
                   h.push_back(Raw{"[" + js(prog[t][i].substr(0, 1)) + "," + js(int(got[t][i] - b0)) + "," + js(s) + "," + js(e) + "]"});
                 }
               }
               // what is handed out afterwards
               Id after = utils::getId();
               h.push_back(Raw{"[\"g\"," + js(int(after - b0)) + ",1000,1001]"});
               hist.insert(js(h));
             });
  std::vector<Raw> hs;
  for (auto& h : hist) hs.push_back(Raw{h});
  return Obj()("hist", hs);
}

// real threads
static Obj stress(const Args& a) {
  int n = atoi(a[0].c_str()), each = atoi(a[1].c_str());
  std::vector<std::vector<Id>> got(n);
  Id b0 = utils::getId();
  std::vector<std::thread> ts;
  std::atomic<int> ready{0};
  for (int t = 0; t < n; ++t) {
    ts.emplace_back([&, t] {
      got[t].reserve(each);
      ++ready;
      while (ready < n) {
      }
      for (int i = 0; i < each; ++i) {
        if (t % 3 == 2) {
          // registers what is just about to be handed out
          Id x = utils::getId();
          got[t].push_back(x);
          utils::registerId(x + 2);
        } else {
          got[t].push_back(utils::getId());
        }
      }
    });
  }
  for (auto& t : ts) t.join();
  // per thread ascending; over all threads without duplicates
  bool asc = true;
  std::set<Id> all{b0};
  size_t count = 1;
  for (auto& g : got) {
    for (size_t i = 0; i < g.size(); ++i) {
      asc = asc && (i == 0 ? g[i] > b0 : g[i] > g[i - 1]);
      all.insert(g[i]);
      ++count;
    }
  }
  Id after = utils::getId();
  return Obj()("unique", all.size() == count)("ascending", asc)("after", after > *all.rbegin());
}

static Obj handle(const std::string& op, const Args& a) {
  Obj o;
  if (op == "reset") {
    mp = std::make_shared<LaneletMap>();
    sub = std::make_shared<LaneletSubmap>();
    base = utils::getId();
    return o("ok", true);
  }
  if (op == "get") {
    std::vector<int> v;
    for (int i = 0; i < atoi(a[0].c_str()); ++i) v.push_back(rel(utils::getId()));
    return o("ids", v);
  }
  if (op == "reg") {
    for (Id i : ids(a, 0)) utils::registerId(i);
    return o("ok", true);
  }
  if (op == "add") {  // how kind ids...
    El e(a[1][0], ids(a, 2));
    if (a[0] == "map") {
      e.add(*mp);
    } else if (a[0] == "sub") {
      e.add(*sub);
    } else if (a[0] == "ctor" || a[0] == "subctor") {
      LaneletLayer::Map t;
      AreaLayer::Map ar;
      RegulatoryElementLayer::Map r;
      PolygonLayer::Map g;
      LineStringLayer::Map l;
      PointLayer::Map p;
      layerMaps(e, t, ar, r, g, l, p);
      if (a[0] == "ctor") {
        LaneletMap m(t, ar, r, g, l, p);
      } else {
        LaneletSubmap m(t, ar, r, g, l, p);
      }
    } else if (a[0] == "create") {
      LaneletMapUPtr m;
      switch (e.kind) {
        case 'p': m = utils::createMap(Points3d{e.p}); break;
        case 'l': m = utils::createMap(LineStrings3d{e.l}); break;
        case 'g': m = utils::createMap(Polygons3d{e.g}); break;
        case 't': m = utils::createMap(Lanelets{e.t}); break;
        case 'a': m = utils::createMap(Areas{e.a}); break;
        default: throw std::runtime_error("create");
      }
    } else if (a[0] == "subcreate") {
      LaneletSubmapUPtr m;
      switch (e.kind) {
        case 'p': m = utils::createSubmap(Points3d{e.p}); break;
        case 'l': m = utils::createSubmap(LineStrings3d{e.l}); break;
        case 'g': m = utils::createSubmap(Polygons3d{e.g}); break;
        case 't': m = utils::createSubmap(Lanelets{e.t}); break;
        case 'a': m = utils::createSubmap(Areas{e.a}); break;
        default: throw std::runtime_error("subcreate");
      }
    }
    return o("ids", e.all());
  }
  if (op == "new") {  // how kind parts
    El e(a[1][0], std::vector<Id>(size_t(atoi(a[2].c_str())), InvalId));
    if (a[0] == "map") {
      e.add(*mp);
    } else {
      e.add(*sub);
    }
    return o("ids", e.all());
  }
  if (op == "load") {  // osm|bin kind ids...
    auto f = scratch(a[0] == "osm" ? ".osm" : ".bin");
    // written by another process, so that nothing is registered here
    pid_t c = fork();
    if (c == 0) {
      try {
        El e(a[1][0], ids(a, 2));
        LaneletMap m;
        e.add(m);
        write(f, m, Origin({49, 8}));
        _exit(0);
      } catch (...) {
        _exit(1);
      }
    }
    int st = 0;
    waitpid(c, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) throw std::runtime_error("not written");
    auto m = load(f, Origin({49, 8}));
    unlink(f.c_str());
    std::vector<int> v;
    for (auto& e : m->pointLayer) v.push_back(rel(e.id()));
    for (auto& e : m->lineStringLayer) v.push_back(rel(e.id()));
    for (auto& e : m->polygonLayer) v.push_back(rel(e.id()));
    for (auto& e : m->laneletLayer) v.push_back(rel(e.id()));
    for (auto& e : m->areaLayer) v.push_back(rel(e.id()));
    for (auto& e : m->regulatoryElementLayer) v.push_back(rel(e->id()));
    return o("ids", sorted(v));
  }
  if (op == "explore") return explore(a);
  if (op == "stress") return stress(a);
  throw std::runtime_error("unknown op");
}
int main(int argc, char** argv) { return run(argc, argv, handle); }
