// C07: attribute maps. Slots A,B,C are AttributeMaps, P is the attribute map of a primitive (through its interface).
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/Attribute.h>
#include "driver.h"
using namespace lanelet;
using namespace drv;

static std::map<std::string, AttributeMap> g;
static Point3d gP;

static AttributeMap& slot(const std::string& x) { return x == "P" ? gP.attributes() : g[x]; }

static AttributeName byName(const std::string& k) {
  static const std::map<std::string, AttributeName> t = {{"type", AttributeName::Type},
                                                         {"subtype", AttributeName::Subtype},
                                                         {"one_way", AttributeName::OneWay},
                                                         {"participant:vehicle", AttributeName::ParticipantVehicle},
                                                         {"participant:pedestrian", AttributeName::ParticipantPedestrian},
                                                         {"speed_limit", AttributeName::SpeedLimit},
                                                         {"location", AttributeName::Location},
                                                         {"dynamic", AttributeName::Dynamic}};
  return t.at(k);
}
static const char* const kKnown[] = {"type",        "subtype",  "one_way", "participant:vehicle", "participant:pedestrian",
                                     "speed_limit", "location", "dynamic"};

//! key and value of an iterator without touching it unless it is really part of the map
template <typename M, typename It>
static std::vector<std::string> deref(M& m, It it) {
  if (it == m.end()) return {};
  for (auto i = m.begin(); i != m.end(); ++i) {
    if (i == it) return {i->first, i->second.value()};
  }
  return {"dangling", "dangling"};
}

static Obj view(const std::string& x) {
  AttributeMap& m = slot(x);
  const AttributeMap& c = m;
  std::vector<std::vector<std::string>> items;
  for (auto& e : c) items.push_back({e.first, e.second.value()});
  std::vector<std::vector<std::string>> by;
  for (auto k : kKnown) {
    auto a = deref(m, m.find(byName(k)));
    auto b = deref(c, c.find(byName(k)));
    if (a != b) a = {"const", "differs"};
    auto sa = deref(m, m.find(std::string(k)));
    auto sb = deref(c, c.find(std::string(k)));
    if (sa != sb || sa != a) a = {"string", "differs"};
    by.push_back(a);
  }
  return Obj()("items", items)("byname", by)("size", m.size())("empty", m.empty());
}

template <typename T>
static Obj res(const std::string& x, const T& ret) {
  return Obj()("ret", ret)("map", view(x));
}
template <typename T>
static Obj res2(const std::string& x, const std::string& y, const T& ret) {
  return Obj()("ret", ret)("map", view(x))("map2", view(y));
}

static std::string attrVal(const AttributeMap& m, AttributeMap::const_iterator it) {
  auto d = deref(m, it);
  return d.empty() ? "" : d[1];
}

static Obj handle(const std::string& op, const Args& a) {
  if (op == "reset") {
    g.clear();
    gP = Point3d(1, 0, 0, 0);
    return Obj()("ok", true);
  }
  const std::string x = a[0];
  AttributeMap& m = slot(x);
  const AttributeMap& c = m;
  auto K = [&] { return a.at(1); };
  auto N = [&] { return byName(a.at(1)); };
  auto V = [&] { return Attribute(a.at(2)); };
  const std::string oor = "out_of_range";
  if (op == "insert") {
    auto r = m.insert(std::make_pair(K(), V()));
    auto d = deref(m, r.first);
    return res(x, Raw{"[" + js(d.empty() ? "end" : d[0]) + "," + js(d.empty() ? "end" : d[1]) + "," + js(r.second) + "]"});
  }
  if (op == "insertHint") {
    auto r = m.insert(AttributeMap::const_iterator(m.end()), AttributeMap::value_type(K(), V()));
    auto d = deref(m, r);
    return res(x, Raw{"[" + js(d.empty() ? "end" : d[0]) + "," + js(d.empty() ? "end" : d[1]) + ",true]"});
  }
  if (op == "set") return m[K()] = V(), res(x, m[K()].value());
  if (op == "setEnum") return m[N()] = V(), res(x, m[N()].value());
  if (op == "setAttr") return gP.setAttribute(K(), V()), res(x, gP.attribute(K()).value());
  if (op == "setAttrEnum") return gP.setAttribute(N(), V()), res(x, gP.attribute(N()).value());
  if (op == "get") {
    std::string r = m[K()].value();
    return res(x, r);
  }
  if (op == "getEnum") {
    std::string r = m[N()].value();
    return res(x, r);
  }
  if (op == "assignFound" || op == "assignFoundEnum") {
    auto it = op == "assignFound" ? m.find(K()) : m.find(N());
    bool f = it != m.end();
    if (f) {
      if (deref(m, it)[0] == "dangling") return res(x, "dangling");
      it->second = V();
    }
    return res(x, f);
  }
  if (op == "find") return res(x, deref(c, c.find(K())));
  if (op == "findEnum") return res(x, deref(c, c.find(N())));
  if (op == "at" || op == "atEnum") {
    std::string r, r2;
    auto guard = op == "atEnum" ? deref(m, m.find(N())) : std::vector<std::string>{};
    if (!guard.empty() && guard[0] == "dangling") return res(x, "dangling");
    try {
      r = op == "at" ? m.at(K()).value() : m.at(N()).value();
    } catch (const std::out_of_range&) {
      r = oor;
    }
    try {
      r2 = op == "at" ? c.at(K()).value() : c.at(N()).value();
    } catch (const std::out_of_range&) {
      r2 = oor;
    }
    return res(x, r == r2 ? r : "const differs: " + r2);
  }
  if (op == "attr" || op == "attrEnum") {
    std::string r;
    ConstPoint3d cp = gP;
    try {
      r = op == "attr" ? cp.attribute(K()).value() : cp.attribute(N()).value();
    } catch (const NoSuchAttributeError&) {
      r = "NoSuchAttributeError";
    }
    return res(x, r);
  }
  if (op == "attrOr") return res(x, gP.attributeOr(K(), std::string("dflt")));
  if (op == "attrOrEnum") return res(x, gP.attributeOr(N(), std::string("dflt")));
  if (op == "hasAttr") return res(x, gP.hasAttribute(K()));
  if (op == "hasAttrEnum") return res(x, gP.hasAttribute(N()));
  if (op == "erase") return res(x, int(m.erase(K())));
  if (op == "eraseIt" || op == "eraseItEnum") {
    auto it = op == "eraseIt" ? m.find(K()) : m.find(N());
    std::vector<std::string> r{"none"};
    if (it != m.end()) {
      if (deref(m, it)[0] == "dangling") return res(x, std::vector<std::string>{"dangling"});
      auto n = m.erase(it);
      r = deref(m, n);
      if (r.empty()) r = {"end"};
    }
    return res(x, r);
  }
  if (op == "clear") return m.clear(), res(x, true);
  if (op == "selfCopy") {
    AttributeMap& alias = m;
    m = alias;
    return res(x, true);
  }
  const std::string y = a.at(1);
  if (op == "eq") {
    return res(x, std::vector<int>{}.empty() ? Raw{"[" + js(c == slot(y)) + "," + js(c != slot(y)) + "]"} : Raw{""});
  }
  AttributeMap& d = slot(y);
  if (op == "copyCtor" || op == "copyAssign" || op == "rangeCtor") {
    bool same = d == m;
    if (op == "copyCtor") {
      AttributeMap t(c);
      g.erase(y);
      g.emplace(y, t);  // copy constructed again in place
    } else if (op == "copyAssign") {
      d = c;
    } else {
      AttributeMap t(c.begin(), c.end());
      g[y] = std::move(t);
    }
    return res2(x, y, same);
  }
  if (op == "moveCtor" || op == "moveAssign") {
    if (op == "moveCtor") {
      g.erase(y);
      g.emplace(y, std::move(m));
    } else {
      d = std::move(m);
    }
    // a moved from map has to be usable: consistent lookups, and clearable
    Obj v = view(x);
    bool ok = v.str().find("differs") == std::string::npos && v.str().find("dangling") == std::string::npos;
    m.clear();
    return res2(x, y, ok);
  }
  if (op == "swap") {
    std::swap(m, d);
    return res2(x, y, true);
  }
  return Obj()("bad", op);
}

int main(int argc, char** argv) { return run(argc, argv, handle); }
