// Native side of the scheduler: tasks are real threads of which one runs at a time; a switch hands over by semaphore.
#include <pthread.h>
#include <semaphore.h>
#include <cstdint>
#include <vector>
#include "v.h"
namespace {
struct N { sem_t s; pthread_t p; void (*f)(void*); void* a; };
std::vector<N*> n; thread_local int self = 0;
void ready() { if (n.empty()) { n.push_back(new N()); sem_init(&n[0]->s, 0, 0); } }
struct Start { int k; };
void* run(void* p) { int k = ((Start*)p)->k; self = k; sem_wait(&n[k]->s); n[k]->f(n[k]->a); return nullptr; }
}
extern "C" {
uint64_t v_pick(const char* name, uint64_t k) { return v_choose(name, k); }
int v_spawn(void (*f)(void*), void* a) { ready(); n.reserve(256); int k = (int)n.size(); auto x = new N(); sem_init(&x->s, 0, 0); x->f = f; x->a = a; n.push_back(x); pthread_create(&x->p, nullptr, run, new Start{k}); return k; }
void v_switch(int k) { int me = self; sem_post(&n[k]->s); sem_wait(&n[me]->s); }
void v_acquire(const void*) {}
void v_release(const void*) {}
}
