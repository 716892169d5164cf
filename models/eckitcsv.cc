// Assumed contracts of eckit and libstdc++, continued: text read line by line, numbers read from text.
// A text is the one last registered: by v_text (harness) or by the HandleBuf made last. A stream is at fail once a line was
// asked for and no character was left; other streams never fail.
#include <cmath>
#include <cstring>
#include <string>
#include "eckit/exception/Exceptions.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/utils/Translator.h"
#include "v.h"

namespace { const char* text; size_t len, pos; bool atEof, atFail; }
extern "C" void v_text(const char* p, size_t n) { text = p; len = n; pos = 0; atEof = atFail = false; }
static void* line(void* is, std::string* s, char d) {
  s->erase(); if (atEof || atFail) { atFail = true; return is; }
  size_t n = 0; for (; pos < len; n++) { char c = text[pos++]; if (c == d) return is; s->push_back(c); }
  atEof = true; if (n == 0) atFail = true; return is;
}
extern "C" {
void* v_getline2(void* is, std::string* s) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
void* v_getline2(void* is, std::string* s) { return line(is, s, '\n'); }
void* v_getline3(void* is, std::string* s, char d) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
void* v_getline3(void* is, std::string* s, char d) { return line(is, s, d); }
bool v_iosnot(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv");
bool v_iosnot(const void*) { return atFail; }
bool v_iosbool(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv");
bool v_iosbool(const void*) { return !atFail; }
bool v_iosfail(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv");
bool v_iosfail(const void*) { return atFail; }
bool v_ioseof(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv");
bool v_ioseof(const void*) { return atEof; }
bool v_iosgood(const void*) __asm__("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv");
bool v_iosgood(const void*) { return !atFail && !atEof; }
}

// ---- numbers: sign, digits, point, digits, exponent. A number the harness holds as such is written '\1' and its index.
extern "C" { double v_numbers[16]; }
static bool number(const std::string& t, double& d, size_t& end) {
  size_t i = 0, n = t.size(); if (n >= 2 && t[0] == '\1') { d = v_numbers[t[1] - '0']; end = 2; return true; }
  bool neg = false; if (i < n && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
  double m = 0; size_t k = 0; int e = 0;
  while (i < n && t[i] >= '0' && t[i] <= '9') { m = m * 10 + (t[i++] - '0'); k++; }
  if (i < n && t[i] == '.') { i++; while (i < n && t[i] >= '0' && t[i] <= '9') { m = m * 10 + (t[i++] - '0'); k++; e--; } }
  if (!k) return false;
  if (i + 1 < n && (t[i] == 'e' || t[i] == 'E')) {
    size_t j = i + 1; bool en = false; if (t[j] == '-' || t[j] == '+') en = t[j++] == '-';
    if (j < n && t[j] >= '0' && t[j] <= '9') { int x = 0; while (j < n && t[j] >= '0' && t[j] <= '9' && x < 1000) x = x * 10 + (t[j++] - '0'); e += en ? -x : x; i = j; }
  }
  double p = 1; for (int q = e < 0 ? -e : e; q > 0; q--) p *= 10;
  d = e < 0 ? m / p : m * p; if (neg) d = -d; end = i; return true;
}
namespace eckit {
double Translator<std::string, double>::operator()(const std::string& t) {
  double d; size_t e; if (!number(t, d, e) || e != t.size()) throw BadParameter("Bad conversion from std::string to double"); return d;
}
float Translator<std::string, float>::operator()(const std::string& t) {
  double d; size_t e; if (!number(t, d, e) || e != t.size()) throw BadParameter("Bad conversion from std::string to float");
  if (d == d && !(d > 1.7e308 || d < -1.7e308) && (d > 3.4028235677973364e38 || d < -3.4028235677973364e38)) throw BadParameter("out of range"); return (float)d;
}
long Translator<std::string, long>::operator()(const std::string& t) {  // what begins like a number
  double d; size_t e; if (t.size() >= 2 && t[0] == '\1') { d = v_numbers[t[1] - '0']; if (!(d == d)) return 0; return d >= 9.2e18 ? INT64_MAX : d <= -9.2e18 ? INT64_MIN : (long)d; }
  size_t i = 0; bool neg = false; while (i < t.size() && (t[i] == ' ' || t[i] == '\t')) i++; if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
  long r = 0; for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++) { if (r > 900000000000000000l) return neg ? INT64_MIN : INT64_MAX; r = r * 10 + (t[i] - '0'); } return neg ? -r : r;
}
int Translator<std::string, int>::operator()(const std::string& t) { return (int)Translator<std::string, long>()(t); }

// ---- HandleBuf: what is left to read in the handle
HandleBuf::HandleBuf(DataHandle& h, bool t) : handle_(h), throwOnError_(t) {
  std::string* s = new std::string(); char b[64]; long n; while ((n = h.read(b, sizeof(b))) > 0) s->append(b, (size_t)n);
  v_text(s->data(), s->size());
}
HandleBuf::~HandleBuf() {}
int HandleBuf::overflow(int) { return -1; }
int HandleBuf::underflow() { return -1; }
int HandleBuf::sync() { return 0; }
}  // namespace eckit
