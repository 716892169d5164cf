// Prelude of the bitcode build (clang -include): std::async and std::future by model. A task is a closure; the scheduler
// (thread.cc) decides, choice by choice, when it runs. Everything else of /repo's sources is compiled as it is.
#pragma once
#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <type_traits>
#include <utility>
namespace v_thr {
struct Task { std::function<void()> f; bool started = false, done = false, failed = false; int id = 0; };
void add(const std::shared_ptr<Task>& t, bool deferred);   // may run it at once
void join(Task& t);                                        // runs it if it has not run
[[noreturn]] void rethrow();                               // an exception left the task
template <class R> struct Box { std::unique_ptr<R> v; };
template <> struct Box<void> {};
template <class F, class... A> auto start(bool deferred, F f, A... a);
}  // namespace v_thr
namespace std {
enum class v_launch { v_async = 1, deferred = 2 };
inline v_launch operator|(v_launch a, v_launch b) { return (v_launch)((int)a | (int)b); }
template <class R> struct v_future {
  std::shared_ptr<v_thr::Task> t; std::shared_ptr<v_thr::Box<R>> b;
  v_future() = default;
  v_future(v_future&&) = default;
  v_future& operator=(v_future&&) = default;
  ~v_future() { if (t && t->started) v_thr::join(*t); }   // as the future of std::async does
  bool valid() const { return (bool)t; }
  void wait() { v_thr::join(*t); }
  R get() { auto k = t; auto bb = b; v_thr::join(*k); t.reset(); b.reset(); if (k->failed) v_thr::rethrow(); if constexpr (!std::is_void<R>::value) return std::move(*bb->v); }
};
template <class F, class... A> auto v_async(v_launch l, F f, A... a) {
  using R = decltype(f(a...));
  v_future<R> r; r.t = std::make_shared<v_thr::Task>(); r.b = std::make_shared<v_thr::Box<R>>();
  auto b = r.b;
  r.t->f = [=]() mutable { if constexpr (std::is_void<R>::value) f(a...); else b->v.reset(new R(f(a...))); };
  v_thr::add(r.t, l == v_launch::deferred);
  return r;
}
template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, v_launch>::value>> auto v_async(F f, A... a) { return v_async(v_launch::v_async, f, a...); }
}  // namespace std
#ifdef V_NATIVE
#include <atomic>
#include <iostream>
#include <map>
#include <set>
#include <vector>
#include <unordered_map>
#include "v.h"
extern "C" void v_yield_atomic();
// the native build under the same scheduler: atomics yield where the verifier does, threads are tasks
namespace std {
template <class T> struct v_atomic : std::atomic<T> {
  using B = std::atomic<T>; using B::B; v_atomic() = default; constexpr v_atomic(T x) : B(x) {}
  T load(std::memory_order = std::memory_order_seq_cst) const { v_yield_atomic(); return B::load(); }
  void store(T x, std::memory_order = std::memory_order_seq_cst) { v_yield_atomic(); B::store(x); }
  operator T() const { return load(); }
  T operator=(T x) { store(x); return x; }
  T exchange(T x, std::memory_order = std::memory_order_seq_cst) { v_yield_atomic(); return B::exchange(x); }
  template <class... A> bool compare_exchange_strong(T& e, T d, A...) { v_yield_atomic(); return B::compare_exchange_strong(e, d); }
  template <class... A> bool compare_exchange_weak(T& e, T d, A...) { v_yield_atomic(); return B::compare_exchange_strong(e, d); }
  template <class X> T fetch_add(X x, std::memory_order = std::memory_order_seq_cst) { v_yield_atomic(); return B::fetch_add(x); }
  template <class X> T fetch_sub(X x, std::memory_order = std::memory_order_seq_cst) { v_yield_atomic(); return B::fetch_sub(x); }
  T operator++() { return fetch_add(1) + 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--() { return fetch_sub(1) - 1; }
  T operator--(int) { return fetch_sub(1); }
  template <class X> T operator+=(X x) { return fetch_add(x) + x; }
  template <class X> T operator-=(X x) { return fetch_sub(x) - x; }
};
struct v_thread {
  std::shared_ptr<v_thr::Task> t; v_thread() = default; v_thread(v_thread&&) = default; v_thread& operator=(v_thread&&) = default;
  template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, v_thread>::value>> explicit v_thread(F f, A... a) { t = std::make_shared<v_thr::Task>(); t->f = [=]() mutable { f(a...); }; v_thr::add(t, false); }
  bool joinable() const { return (bool)t; }
  void join() { v_thr::join(*t); if (t->failed) v_fail("no-terminate"); t.reset(); }
  void detach() { t.reset(); }
  static unsigned hardware_concurrency() { return 4; }
};
}
#define atomic v_atomic
#define thread v_thread
#endif
#define future v_future
#define async v_async
#define launch v_launch
