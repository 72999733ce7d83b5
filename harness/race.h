// Real threads under the race detector: the script of the current case is handed to a second build of the same driver
// (VT_EXE_TSAN), which executes the racing operation with real threads and says whether two accesses were not ordered.
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <locale>
#include <string>
#include <thread>
#include <vector>
namespace race {
inline std::atomic<int>& reports() {
  static std::atomic<int> r{0};
  return r;
}
//! libstdc++ fills the tables of std::ctype<char> (used by std::regex) on demand and without synchronization: fill them first
inline void fillTables() {
  static bool done = [] {
    auto& ct = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 1; c < 256; ++c) ct.narrow(char(c), 0), ct.widen(char(c));
    return true;
  }();
  (void)done;
}
//! runs all functions at once in own threads, n times in a row for n rounds prepared by setup
inline void threads(const std::vector<std::function<void()>>& fs) {
  fillTables();
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (auto& f : fs) {
    ts.emplace_back([&] {
      ++ready;
      while (ready < int(fs.size())) {
      }
      f();
    });
  }
  for (auto& t : ts) t.join();
}
//! last observation of the other build, or nothing if it died
inline std::string other(const std::vector<std::string>& script) {
  const char* exe = getenv("VT_EXE_TSAN");
  const char* d = getenv("VT_SCRATCH");
  if (exe == nullptr) return "{\"skipped\":true}";
  std::string b = std::string(d ? d : "/tmp") + "/race-" + std::to_string(getpid());
  {
    std::ofstream o(b + ".script");
    for (auto& l : script) o << l << "\n";
  }
  std::string cmd = "TSAN_OPTIONS='exitcode=0 report_signal_unsafe=0 halt_on_error=0' timeout 60 " + std::string(exe) + " " + b + ".script " + b + ".out >/dev/null 2>&1";
  int rc = system(cmd.c_str());
  std::ifstream in(b + ".out");
  std::string l, last;
  size_t n = 0;
  while (std::getline(in, l)) {
    last = l;
    ++n;
  }
  unlink((b + ".script").c_str());
  unlink((b + ".out").c_str());
  if (rc != 0 || n != script.size()) return "{\"died\":true}";
  auto p = last.find("\"o\":");
  return last.substr(p + 4, last.size() - p - 5);
}
}  // namespace race
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_on_report(void*) { ++race::reports(); }
#endif
