// Verification interface. Under odcv these are intrinsics of the verifier; in a native replay build they read the
// recorded inputs (see native.cc).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t v_u64(const char* name);
uint32_t v_u32(const char* name);
uint16_t v_u16(const char* name);
uint8_t v_u8(const char* name);
bool v_bool(const char* name);
int64_t v_range(const char* name, int64_t lo, int64_t hi);   // lo <= x <= hi
double v_intd(const char* name, int64_t lo, int64_t hi);     // a double holding an integer of that range (|x| <= 2^53)
double v_double(const char* name);                           // every bit pattern
float v_float(const char* name);
void v_bytes(void* p, size_t n, const char* name);
void* v_symbuf(const char* name, size_t size);               // object of (possibly symbolic) size, arbitrary content
void v_havoc_buf(void* p);
size_t v_objsize(const void* p);
uint64_t v_choose(const char* name, uint64_t n);             // 0..n-1, one path each
uint64_t v_concretize(uint64_t x);
void v_assume(bool c);
void v_check(bool c, const char* name);
void v_fail(const char* name);
void v_cover(const char* name);
bool v_native();
void v_stop();
void v_trace(const char* name, uint64_t x);
bool v_is_sat(bool c);
bool v_must(bool c);
// contracts (proof harnesses only)
void v_replace(const char* fnPrefix, const void* stub);      // callee by contract: stub is entered instead of the body
void v_loop(const char* fnPrefix, int which, void (*inv)(int mode), const char* tag);
void v_ghost(const void* p, size_t bytes);
uint64_t v_iter();                                           // iterations done of the innermost loop with a contract
// threads: a point where another task may run; natively a short random sleep
void v_yield();
void v_sched_limit(int k);                                   // at most k preemptions (other switches are free)
void v_norace(int d);                                        // +1: accesses from here are not checked for races, -1: undone
int v_task();                                                // 0: the main thread
bool v_held(const void* mutex);                              // the current task holds it (verifier only; true natively)
}
#define HARNESS(name) extern "C" void name()
