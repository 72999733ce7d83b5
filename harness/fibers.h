// Simulated threads: enumerates the schedules of small concurrent programs over the points announced by shim.h.
#pragma once
#include <ucontext.h>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sched {
struct Event {
  int thread, step;  // thread, index of its operation
  bool start;
};
class Explorer;
inline Explorer*& active() {
  static Explorer* e = nullptr;
  return e;
}

class Explorer {
 public:
  int maxPreempt{3};
  int maxSpurious{1};
  long maxRuns{20000};
  long runs{0};
  bool truncated{false};
  std::vector<Event> events;  // of the current run

  // setup() prepares a run, ops[t] are the operations of thread t, done() is called after every complete run
  void explore(const std::vector<std::vector<std::function<void()>>>& ops, const std::function<void()>& setup,
               const std::function<void()>& done) {
    prefix_.clear();
    for (;;) {
      setup();
      if (run(ops)) done();
      ++runs;
      // backtrack
      while (!choices_.empty() && choices_.back().first + 1 >= choices_.back().second) choices_.pop_back();
      if (choices_.empty()) return;
      if (runs >= maxRuns) {
        truncated = true;
        return;
      }
      choices_.back().first++;
      prefix_.clear();
      for (auto& c : choices_) prefix_.push_back(c.first);
    }
  }
  void point() {
    if (cur_ < 0) return;
    swapcontext(&fibers_[cur_].ctx, &main_);
  }
  bool spurious() {
    if (cur_ < 0 || spuriousLeft_ <= 0) return false;
    if (choose(2) == 1) {
      --spuriousLeft_;
      return true;
    }
    return false;
  }

 private:
  struct Fiber {
    ucontext_t ctx;
    std::vector<char> stack;
    bool finished{false};
    const std::vector<std::function<void()>>* ops{nullptr};
    int index{0};
  };
  int choose(int n) {
    if (n <= 1) return 0;
    int c = 0;
    if (choices_.size() < prefix_.size()) c = prefix_[choices_.size()];
    choices_.push_back({c, n});
    return c;
  }
  static void entry(unsigned hi, unsigned lo) {
    auto* self = reinterpret_cast<Explorer*>((uintptr_t(hi) << 32) | uintptr_t(lo));
    auto& f = self->fibers_[self->cur_];
    for (size_t i = 0; i < f.ops->size(); ++i) {
      self->events.push_back({f.index, int(i), true});
      (*f.ops)[i]();
      self->events.push_back({f.index, int(i), false});
      if (i + 1 < f.ops->size()) self->point();
    }
    f.finished = true;
    for (;;) swapcontext(&f.ctx, &self->main_);
  }
  bool run(const std::vector<std::vector<std::function<void()>>>& ops) {
    choices_.clear();
    events.clear();
    spuriousLeft_ = maxSpurious;
    fibers_.resize(ops.size());
    for (size_t t = 0; t < ops.size(); ++t) {
      auto& f = fibers_[t];
      f.stack.resize(256 * 1024);
      f.finished = false;
      f.ops = &ops[t];
      f.index = int(t);
      getcontext(&f.ctx);
      f.ctx.uc_stack.ss_sp = f.stack.data();
      f.ctx.uc_stack.ss_size = f.stack.size();
      f.ctx.uc_link = &main_;
      auto p = reinterpret_cast<uintptr_t>(this);
      makecontext(&f.ctx, reinterpret_cast<void (*)()>(entry), 2, unsigned(p >> 32), unsigned(p & 0xffffffffu));
    }
    active() = this;
    int last = -1, preempt = 0, stuck = 0;
    long steps = 0;
    for (;;) {
      std::vector<int> can;
      bool lastCan = last >= 0 && !fibers_[last].finished;
      if (lastCan) can.push_back(last);
      if (!lastCan || preempt < maxPreempt || stuck > 40) {
        for (int t = 0; t < int(fibers_.size()); ++t)
          if (t != last && !fibers_[t].finished) can.push_back(t);
      }
      if (can.empty()) break;
      int next;
      if (stuck > 40 && can.size() > 1) {
        next = can[1];  // somebody spins: let the others run
        stuck = 0;
      } else {
        next = can[choose(int(can.size()))];
        if (lastCan && next != last) ++preempt;
      }
      stuck = next == last ? stuck + 1 : 0;
      last = next;
      cur_ = next;
      swapcontext(&main_, &fibers_[next].ctx);
      cur_ = -1;
      if (++steps > 20000) {
        active() = nullptr;
        throw std::runtime_error("no progress under a schedule");
      }
    }
    active() = nullptr;
    return true;
  }
  std::vector<Fiber> fibers_;
  ucontext_t main_{};
  int cur_{-1};
  int spuriousLeft_{0};
  std::vector<int> prefix_;
  std::vector<std::pair<int, int>> choices_;
};
}  // namespace sched
extern "C" void vt_point() {
  if (sched::active() != nullptr) sched::active()->point();
}
extern "C" bool vt_spurious() { return sched::active() != nullptr && sched::active()->spurious(); }
extern "C" bool vt_exploring() { return sched::active() != nullptr; }
