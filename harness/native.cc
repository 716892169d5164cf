// Native replay: runs one harness against the real code with the inputs of a recorded counterexample.
#include "v.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <unistd.h>
#include "eckit/runtime/Main.h"
#include "eckit/exception/Exceptions.h"
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> cnt;
static std::string uniq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static uint64_t get(const std::string& n) { auto i = in.find(n); return i == in.end() ? 0 : i->second; }
static int fails = 0;
static void finish(int rc) { std::cout.flush(); fflush(stdout); _Exit(rc); }
extern "C" {
uint64_t v_u64(const char* n) { return get(uniq(n)); }
uint32_t v_u32(const char* n) { return get(uniq(n)); }
uint16_t v_u16(const char* n) { return get(uniq(n)); }
uint8_t v_u8(const char* n) { return get(uniq(n)); }
bool v_bool(const char* n) { return get(uniq(n)) & 1; }
static void out_of_domain(const std::string& n) { std::cout << "REPLAY-INVALID " << n << " outside its domain\n"; finish(5); }
int64_t v_range(const char* n, int64_t lo, int64_t hi) { std::string u = uniq(n); if (!in.count(u)) return lo <= 0 && 0 <= hi ? 0 : lo; int64_t x = (int64_t)get(u); if (x < lo || x > hi) out_of_domain(u); return x; }
double v_intd(const char* n, int64_t lo, int64_t hi) { return (double)v_range(n, lo, hi); }
double v_double(const char* n) { uint64_t x = get(uniq(n)); double d; memcpy(&d, &x, 8); return d; }
float v_float(const char* n) { uint32_t x = get(uniq(n)); float d; memcpy(&d, &x, 4); return d; }
void v_bytes(void* p, size_t k, const char* n) { std::string u = uniq(n); for (size_t i = 0; i < k; i++) ((unsigned char*)p)[i] = get(u + "[" + std::to_string(i) + "]"); }
uint64_t v_choose(const char* n, uint64_t k) { uint64_t x = get(uniq(n)); if (x >= k) out_of_domain(n); return x; }
uint64_t v_concretize(uint64_t x) { return x; }
void v_assume(bool c) { if (!c) { std::cout << "REPLAY-INVALID assumption not met\n"; finish(5); } }
void v_check(bool c, const char* n) { if (!c) { std::cout << "REPLAY-FAIL " << n << "\n"; fails++; } }
void v_fail(const char* n) { std::cout << "REPLAY-FAIL " << n << "\n"; finish(42); }
void v_cover(const char* n) { std::cout << "cover " << n << "\n"; }
bool v_native() { return true; }
void v_stop() { finish(fails ? 42 : 0); }
void v_trace(const char* n, uint64_t x) { std::cout << "trace " << n << " " << x << "\n"; }
bool v_is_sat(bool c) { return c; }
bool v_must(bool c) { return c; }
void* v_symbuf(const char* n, size_t) { std::cout << "REPLAY-INVALID contract harness\n"; finish(6); return nullptr; }
void v_havoc_buf(void*) { finish(6); }
size_t v_objsize(const void*) { finish(6); return 0; }
void v_replace(const char*, const void*) { std::cout << "REPLAY-INVALID contract harness\n"; finish(6); }
uint64_t v_iter() { return 0; }
void v_loop(const char*, int, void (*)(int), const char*) { std::cout << "REPLAY-INVALID contract harness\n"; finish(6); }
void v_ghost(const void*, size_t) {}
__attribute__((weak)) void v_yield() { static thread_local unsigned r = (unsigned)(size_t)&r >> 6; r = r * 1103515245 + 12345; ::usleep((r >> 16) % 400); }
__attribute__((weak)) void v_sched_limit(int) {}
__attribute__((weak)) int v_task() { return 0; }
__attribute__((weak)) bool v_held(const void*) { return true; }
__attribute__((weak)) void v_norace(int) {}
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  if (argc > 2) { std::ifstream f(argv[2]); std::string n; uint64_t v; while (f >> n >> v) in[n] = v; }
  eckit::Main::initialise(1, argv);
  auto h = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { std::cout << "no such harness\n"; return 2; }
  std::set_terminate([] { std::cout << "REPLAY-FAIL no-terminate\n"; finish(42); });
  try { h(); }
  catch (std::exception& e) { std::cout << "REPLAY-FAIL no-uncaught-exception: " << e.what() << "\n"; finish(42); }
  catch (...) { std::cout << "REPLAY-FAIL no-uncaught-exception\n"; finish(42); }
  finish(fails ? 42 : 0);
}
