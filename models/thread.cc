// Threads by choice. Every task has a stack of its own and tasks switch at yield points: before a lock is taken, at atomic
// operations of the project's code, at operations of the harness's data handles, and when a task must wait (lock held by another, join) or ends. A switch away from a task that could go on counts against the
// limit of preemptions (v_sched_limit); every other switch is free. So: all schedules with at most that many preemptions.
// Between yield points tasks are ordered by happens-before only through locks, atomics, start and join; the engine checks
// every access of memory against that order (no-data-race), which makes the yield points enough.
// Natively (-DV_NATIVE) the same scheduler drives real threads one at a time (native_sched.cc): a schedule replays.
#include "vthread.h"
#include <pthread.h>
#include <stdexcept>
#include <vector>
#include "v.h"
extern "C" { int v_spawn(void (*)(void*), void*); void v_switch(int); void v_norace(int); void v_acquire(const void*); void v_release(const void*); uint64_t v_pick(const char*, uint64_t); }
#ifdef V_NATIVE
#define LOCK(f) v_##f
#else
#define LOCK(f) f
extern "C" uint64_t v_pick(const char* n, uint64_t k) { return v_choose(n, k); }
#endif
namespace {
struct Quiet { Quiet() { v_norace(1); } ~Quiet() { v_norace(-1); } };
struct T { int ctx = 0; bool done = false; pthread_mutex_t* m = nullptr; v_thr::Task* j = nullptr; std::shared_ptr<v_thr::Task> t; };
std::vector<T*>* all; int current, points = 2;
T* me() { return (*all)[current]; }
void init() { if (!all) { all = new std::vector<T*>(); all->push_back(new T()); } }
bool free_(pthread_mutex_t* m) { return !m->__data.__lock; }
bool can(T* t) { return !t->done && (!t->m || free_(t->m)) && (!t->j || t->j->done); }
void to(int k) { current = k; v_switch((*all)[k]->ctx); }
// another task that can run, by choice; extra: the current one is a choice as well (number 0)
int other(const char* n, bool extra) {
  int c[64]; int k = 0; if (extra) c[k++] = -1;
  for (size_t i = 0; i < all->size(); i++) if ((int)i != current && can((*all)[i])) c[k++] = (int)i;
  if (!k) return -2;
  return c[k == 1 ? 0 : v_pick(n, (uint64_t)k)];
}
void yieldAs(const char* n) {
  if (!all || all->size() < 2 || points <= 0) return;
  int k = other(n, true); if (k < 0) return;
  points--; to(k);
}
void block() { while (!can(me())) { int k = other("next", false); if (k < 0) { v_fail("no-deadlock"); } to(k); } }
void body(void* p) {
  T* t = (T*)p;
  v_norace(-1);
  try { t->t->f(); } catch (...) { t->t->failed = true; }
  v_norace(1);
  v_release(t->t.get()); t->t->done = true; t->done = true;
  for (;;) block();
}
}
extern "C" {
void v_yield() { Quiet q; yieldAs("sched"); }
void v_yield_atomic() { Quiet q; yieldAs("asched"); }
void v_sched_limit(int k) { points = k; }
int v_task() { return current; }
int LOCK(pthread_mutex_lock)(pthread_mutex_t* m) noexcept {
  Quiet q; init(); yieldAs("sched");
  if (!free_(m)) {
    if (m->__data.__owner != current + 1) { me()->m = m; block(); me()->m = nullptr; }
    else if (m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) v_fail("no-self-deadlock");
  }
  m->__data.__lock++; m->__data.__owner = current + 1; v_acquire(m);
  return 0;
}
int LOCK(pthread_mutex_trylock)(pthread_mutex_t* m) noexcept {
  Quiet q; init(); yieldAs("sched");
  if (!free_(m) && (m->__data.__owner != current + 1 || m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP)) return 16;
  m->__data.__lock++; m->__data.__owner = current + 1; v_acquire(m);
  return 0;
}
int LOCK(pthread_mutex_unlock)(pthread_mutex_t* m) noexcept {
  Quiet q; init();
  if (free_(m) || m->__data.__owner != current + 1) v_fail("unlock-by-the-owner");
  v_release(m);
  if (!--m->__data.__lock) m->__data.__owner = 0;
  return 0;
}
bool v_held(const void* mutex) { Quiet q; auto m = (const pthread_mutex_t*)mutex; return m->__data.__lock && m->__data.__owner == current + 1; }
}
namespace v_thr {
void add(const std::shared_ptr<Task>& t, bool deferred) {
  Quiet q; init();
  if (deferred) return;   // runs in the task that joins it
  T* x = new T(); x->t = t; t->started = true; t->id = (int)all->size(); x->ctx = v_spawn(body, x); all->push_back(x);
}
void join(Task& t) {
  if (!t.started) { t.started = true; try { t.f(); } catch (...) { t.failed = true; } t.done = true; return; }
  Quiet q; init();
  if (!t.done) { me()->j = &t; block(); me()->j = nullptr; }
  v_acquire(&t);
}
void rethrow() { throw std::runtime_error("exception of a task"); }
}
// std::thread itself
#ifndef V_NATIVE
namespace std {
thread::_State::~_State() = default;
namespace { vector<shared_ptr<v_thr::Task>>* started; }
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  auto t = make_shared<v_thr::Task>(); _State* p = s.release();
  t->f = [p] { p->_M_run(); };
  { Quiet q; if (!started) started = new vector<shared_ptr<v_thr::Task>>(); started->push_back(t); *(size_t*)&_M_id = started->size(); }
  v_thr::add(t, false);
}
void thread::join() { shared_ptr<v_thr::Task> t; { Quiet q; t = (*started)[*(size_t*)&_M_id - 1]; } v_thr::join(*t); if (t->failed) v_fail("no-terminate"); *(size_t*)&_M_id = 0; }
void thread::detach() { *(size_t*)&_M_id = 0; }
unsigned thread::hardware_concurrency() noexcept { return 4; }
}
#endif
