// Force-included before the sources of the library: turns atomics and mutexes into points where the scheduler of fibers.h may
// switch to another (simulated) thread. Outside of an exploration everything behaves as usual.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <random>
#include <regex>
#include <shared_mutex>
#include <thread>
#include <boost/geometry.hpp>
#include <boost/geometry/index/rtree.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/make_shared.hpp>
#include <boost/optional.hpp>
#include <boost/variant.hpp>

extern "C" void vt_point();         // somebody else may run here
extern "C" bool vt_spurious();      // does a weak compare-exchange fail for no reason?
extern "C" bool vt_exploring();

namespace std {
template <typename T>
class vt_atomic {
 public:
  vt_atomic() noexcept = default;
  constexpr vt_atomic(T v) noexcept : a_(v) {}
  vt_atomic(const vt_atomic&) = delete;
  vt_atomic& operator=(const vt_atomic&) = delete;
  using value_type = T;
  struct Around {
    Around() { vt_point(); }
    ~Around() { vt_point(); }
  };
  T load(memory_order o = memory_order_seq_cst) const noexcept { Around x; return a_.load(o); }
  void store(T v, memory_order o = memory_order_seq_cst) noexcept { Around x; a_.store(v, o); }
  operator T() const noexcept { return load(); }
  T operator=(T v) noexcept { store(v); return v; }
  T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { Around x; return a_.exchange(v, o); }
  template <typename... M>
  bool compare_exchange_strong(T& e, T v, M... m) noexcept { Around x; return a_.compare_exchange_strong(e, v, m...); }
  template <typename... M>
  bool compare_exchange_weak(T& e, T v, M... m) noexcept {
    Around x;
    if (vt_spurious()) {
      e = a_.load();
      return false;
    }
    return a_.compare_exchange_strong(e, v, m...);
  }
  template <typename U>
  T fetch_add(U v, memory_order o = memory_order_seq_cst) noexcept { Around x; return a_.fetch_add(v, o); }
  template <typename U>
  T fetch_sub(U v, memory_order o = memory_order_seq_cst) noexcept { Around x; return a_.fetch_sub(v, o); }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  template <typename U>
  T operator+=(U v) noexcept { return fetch_add(v) + v; }
  template <typename U>
  T operator-=(U v) noexcept { return fetch_sub(v) - v; }
  bool is_lock_free() const noexcept { return a_.is_lock_free(); }

 private:
  std::atomic<T> a_;
};
class vt_mutex {
 public:
  constexpr vt_mutex() noexcept = default;
  vt_mutex(const vt_mutex&) = delete;
  void lock() {
    if (!vt_exploring()) {
      m_.lock();
      return;
    }
    vt_point();
    while (held_) vt_point();
    held_ = true;
  }
  bool try_lock() {
    if (!vt_exploring()) return m_.try_lock();
    vt_point();
    if (held_) return false;
    return held_ = true;
  }
  void unlock() {
    if (!vt_exploring()) {
      m_.unlock();
      return;
    }
    held_ = false;
    vt_point();
  }

 private:
  std::mutex m_;
  bool held_{false};
};
template <typename P>
auto vt_atomic_load(const P* p) { vt_point(); auto r = std::atomic_load(p); vt_point(); return r; }
template <typename P>
auto vt_atomic_load_explicit(const P* p, memory_order o) { vt_point(); auto r = std::atomic_load_explicit(p, o); vt_point(); return r; }
template <typename P, typename V>
void vt_atomic_store(P* p, V&& v) { vt_point(); std::atomic_store(p, std::forward<V>(v)); vt_point(); }
template <typename P, typename V>
void vt_atomic_store_explicit(P* p, V&& v, memory_order o) { vt_point(); std::atomic_store_explicit(p, P(std::forward<V>(v)), o); vt_point(); }
template <typename P, typename V>
auto vt_atomic_exchange(P* p, V&& v) { vt_point(); auto r = std::atomic_exchange(p, P(std::forward<V>(v))); vt_point(); return r; }
template <typename P, typename V>
bool vt_atomic_compare_exchange_strong(P* p, P* e, V&& v) {
  vt_point();
  bool r = std::atomic_compare_exchange_strong(p, e, P(std::forward<V>(v)));
  vt_point();
  return r;
}
template <typename P, typename V>
bool vt_atomic_compare_exchange_weak(P* p, P* e, V&& v) {
  return vt_atomic_compare_exchange_strong(p, e, std::forward<V>(v));
}
template <typename P, typename V>
bool vt_atomic_compare_exchange_strong_explicit(P* p, P* e, V&& v, memory_order, memory_order) {
  return vt_atomic_compare_exchange_strong(p, e, std::forward<V>(v));
}
template <typename P, typename V>
bool vt_atomic_compare_exchange_weak_explicit(P* p, P* e, V&& v, memory_order, memory_order) {
  return vt_atomic_compare_exchange_strong(p, e, std::forward<V>(v));
}
}  // namespace std
#ifndef VT_NO_SHIM
#define atomic vt_atomic
#define mutex vt_mutex
#define atomic_load vt_atomic_load
#define atomic_load_explicit vt_atomic_load_explicit
#define atomic_store vt_atomic_store
#define atomic_store_explicit vt_atomic_store_explicit
#define atomic_exchange vt_atomic_exchange
#define atomic_compare_exchange_strong vt_atomic_compare_exchange_strong
#define atomic_compare_exchange_weak vt_atomic_compare_exchange_weak
#define atomic_compare_exchange_strong_explicit vt_atomic_compare_exchange_strong_explicit
#define atomic_compare_exchange_weak_explicit vt_atomic_compare_exchange_weak_explicit
#endif
