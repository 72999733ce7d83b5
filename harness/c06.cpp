// C06: typed readings of attributes. The attributes of a case live in the attribute map of a point.
#include <lanelet2_core/Attribute.h>
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/utility/Units.h>
#include <unistd.h>
#include <cmath>
#include "driver.h"
#include "fibers.h"
#undef atomic
#undef mutex
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#include "race.h"
using namespace lanelet;
using namespace drv;

static Point3d pt;
static std::vector<std::string> script;  // of the current case
static std::string text(std::string s) {
  std::replace(s.begin(), s.end(), '~', ' ');
  return s;
}
static std::string shown(std::string s) {
  std::replace(s.begin(), s.end(), ' ', '~');
  return s;
}
struct Rd {
  std::string r{"none"};
  int n{0};
};
static Rd rd(const Optional<bool>& v) { return !v ? Rd{} : Rd{*v ? "true" : "false", int(*v)}; }
static Rd rd(const Optional<int>& v) { return !v ? Rd{} : Rd{std::to_string(*v), std::abs(double(*v)) < 1e9 ? *v : 0}; }
static Rd rd(const Optional<Id>& v) { return !v ? Rd{} : Rd{std::to_string(*v), std::abs(double(*v)) < 1e9 ? int(*v) : 0}; }
static Rd num(double v, double f) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return Rd{b, std::abs(v * f) < 2e9 ? int(std::llround(v * f)) : 0};
}
static Rd rd(const Optional<double>& v) { return !v ? Rd{} : num(*v, 1000); }
static Rd rd(const Optional<Velocity>& v) { return !v ? Rd{} : num(v->value(), 3.6e6); }
static Rd conv(const Attribute& a, const std::string& k) {
  if (k == "b") return rd(a.asBool());
  if (k == "i") return rd(a.asInt());
  if (k == "id") return rd(a.asId());
  if (k == "d") return rd(a.asDouble());
  if (k == "v") return rd(a.asVelocity());
  throw std::runtime_error("kind");
}
// what a thread does: a kind, or c<kind>: with a copy, or a<kind>: with a copy by assignment
static Rd does(const Attribute& a, const std::string& s) {
  if (s.size() > 1 && s[0] == 'c') {
    Attribute b(a);
    return conv(b, s.substr(1));
  }
  if (s.size() > 1 && s[0] == 'a') {
    Attribute b("7.25");
    b.asDouble();
    b = a;
    return conv(b, s.substr(1));
  }
  return conv(a, s);
}
static std::string kindOf(const std::string& s) { return s.size() > 1 && (s[0] == 'c' || s[0] == 'a') ? s.substr(1) : s; }
static std::vector<std::vector<std::string>> program(const Args& a, size_t from) {
  std::vector<std::vector<std::string>> r(1);
  for (size_t i = from; i < a.size(); ++i) {
    if (a[i] == "/") {
      r.emplace_back();
    } else {
      r.back().push_back(a[i]);
    }
  }
  return r;
}
using Seen = std::set<std::string>;
static std::string seen(const std::string& k, const Rd& r) { return "[" + js(kindOf(k)) + "," + js(r.r) + "," + js(r.n) + "]"; }
static std::vector<Raw> raws(const Seen& s) {
  std::vector<Raw> r;
  for (auto& x : s) r.push_back(Raw{x});
  return r;
}
template <typename M>
static Attribute& get(M& m, const std::string& n) { return m[n]; }

static Obj explore(const Args& a) {  // name preempt program
  sched::Explorer ex;
  ex.maxPreempt = atoi(a[1].c_str());
  ex.maxRuns = 3000;
  auto prog = program(a, 2);
  auto& attrs = pt.attributes();
  const Attribute original = attrs[a[0]];
  std::string t = original.value();
  Attribute subject;
  Seen all;
  std::vector<std::vector<Rd>> got(prog.size());
  std::vector<std::vector<std::function<void()>>> ops(prog.size());
  for (size_t i = 0; i < prog.size(); ++i) {
    got[i].resize(prog[i].size());
    for (size_t j = 0; j < prog[i].size(); ++j) {
      auto s = prog[i][j];
      ops[i].push_back([&, i, j, s] { got[i][j] = does(subject, s); });
    }
  }
  ex.explore(ops, [&] { subject = Attribute(original); },
             [&] {
               for (size_t i = 0; i < prog.size(); ++i)
                 for (size_t j = 0; j < prog[i].size(); ++j) all.insert(seen(prog[i][j], got[i][j]));
               for (auto k : {"i", "d", "b", "v", "id"}) all.insert(seen(k, conv(subject, k)));
             });
  return Obj()("rs", raws(all));
}
// real threads, in the build with the race detector
static Obj raceHere(const Args& a) {
  auto prog = program(a, 2);
  const std::string t = pt.attributes()[a[0]].value();
  int before = race::reports();
  Seen all;
  std::vector<Seen> mine(prog.size());
  for (int k = 0; k < atoi(a[1].c_str()); ++k) {
    const Attribute subject(pt.attributes()[a[0]]);
    std::vector<std::function<void()>> fs;
    for (size_t i = 0; i < prog.size(); ++i) {
      fs.push_back([&, i] {
        for (int n = 0; n < 20; ++n)
          for (auto& s : prog[i]) mine[i].insert(seen(s, does(subject, s)));
      });
    }
    race::threads(fs);
  }
  for (auto& m : mine) all.insert(m.begin(), m.end());
  return Obj()("races", int(race::reports() - before))("rs", raws(all));
}

static Obj handle(const std::string& op, const Args& a) {
  Obj o;
  if (op == "reset") script.clear();
  std::string line = op;
  for (auto& x : a) line += " " + (x.empty() ? std::string("_") : x);
  script.push_back(line);
  auto& at = pt.attributes();
  if (op == "reset") {
    pt = Point3d(1, 0, 0, 0);
    return o("ok", true);
  }
  if (op == "new") {
    at[a[0]] = Attribute(text(a[1]));
    return o("t", shown(at[a[0]].value()));
  }
  if (op == "make") {
    auto k = a[1], v = a[2];
    Rd r;
    if (k == "b") r = rd(Optional<bool>(v == "true")), at[a[0]] = Attribute(v == "true");
    if (k == "i") r = rd(Optional<int>(std::stoi(v))), at[a[0]] = Attribute(std::stoi(v));
    if (k == "id") r = rd(Optional<Id>(std::stoll(v))), at[a[0]] = Attribute(Id(std::stoll(v)));
    if (k == "d") r = rd(Optional<double>(std::strtod(v.c_str(), nullptr))), at[a[0]] = Attribute(std::strtod(v.c_str(), nullptr));
    if (k == "v") {
      Velocity q = std::strtod(v.c_str(), nullptr) * units::MPS();
      r = rd(Optional<Velocity>(q)), at[a[0]] = Attribute(q);
    }
    return o("t", shown(at[a[0]].value()))("r", r.r)("n", r.n);
  }
  if (op == "set") {
    at[a[0]].setValue(text(a[1]));
    return o("t", shown(at[a[0]].value()));
  }
  if (op == "assign") {
    const Attribute& from = at[a[1]];
    Attribute& to = at[a[0]];
    to = from;
    return o("t", shown(at[a[0]].value()));
  }
  if (op == "copy") {
    const Attribute b(at[a[1]]);
    auto it = at.find(a[0]);
    if (it != at.end()) at.erase(it);
    at.insert({a[0], b});
    return o("t", shown(at[a[0]].value()));
  }
  if (op == "move") {
    Attribute b = std::move(at[a[1]]);
    at.erase(at.find(a[1]));
    at[a[0]] = std::move(b);
    return o("t", shown(at[a[0]].value()));
  }
  if (op == "swap") {
    std::swap(at[a[0]], at[a[1]]);
    return o("t", shown(at[a[0]].value()));
  }
  if (op == "text") return o("t", shown(pt.attributeOr(a[0], std::string("?"))));
  if (op == "conv") {
    auto r = conv(pt.attribute(a[0]), a[1]);
    return o("r", r.r)("n", r.n);
  }
  if (op == "or") {
    Rd r;
    const ConstPoint3d& p = pt;
    auto& n = a[0];
    if (a[1] == "b") r = rd(p.attributeOr(n, Optional<bool>()));
    if (a[1] == "i") r = rd(p.attributeOr(n, Optional<int>()));
    if (a[1] == "id") r = rd(p.attributeOr(n, Optional<Id>()));
    if (a[1] == "d") r = rd(p.attributeOr(n, Optional<double>()));
    if (a[1] == "v") r = rd(p.attributeOr(n, Optional<Velocity>()));
    // with a value as default
    Rd q = r;
    if (a[1] == "b") q = p.attributeOr(n, true) == p.attributeOr(n, false) ? rd(Optional<bool>(p.attributeOr(n, true))) : Rd{};
    if (a[1] == "i") q = p.attributeOr(n, 77) == p.attributeOr(n, 78) ? rd(Optional<int>(p.attributeOr(n, 77))) : Rd{};
    if (a[1] == "d" && r.r.find("nan") == std::string::npos) q = p.attributeOr(n, .77) == p.attributeOr(n, .78) ? rd(Optional<double>(p.attributeOr(n, .77))) : Rd{};
    if (q.r != r.r) throw std::runtime_error("default");
    return o("r", r.r)("n", r.n);
  }
  if (op == "explore") return explore(a);
  if (op == "race") {
#if defined(__SANITIZE_THREAD__)
    return raceHere(a);
#else
    Obj b;
    std::string s = race::other(script);
    b.body = s.substr(1, s.size() - 2);
    return b;
#endif
  }
  throw std::runtime_error("unknown op");
}
int main(int argc, char** argv) {
  numericArgs() = [](const std::string&) { return false; };
  return run(argc, argv, handle);
}
