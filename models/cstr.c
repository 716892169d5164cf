/* C library byte-loop definitions (compiled with -fno-builtin). */
#include <stddef.h>
int v_errno_store;
int v_errno[16];
int v_single[16];
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = a, *y = b; size_t i;
  for (i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) { const unsigned char* x = a; size_t i; for (i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return 0; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; unsigned char x = a[i], y = b[i]; return x < y ? -1 : x > y ? 1 : 0; }
int strncmp(const char* a, const char* b, size_t n) { size_t i; for (i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
// ---- one-thread pthread model (sequential semantics assumed)
int pthread_once(int* ctl, void (*f)(void)) { if (!*ctl) { *ctl = 1; f(); } return 0; }
static const void* v_tls[16]; static unsigned v_ntls;
int pthread_key_create(unsigned* k, void (*d)(void*)) { *k = v_ntls++; return 0; }
int pthread_key_delete(unsigned k) { return 0; }
void* pthread_getspecific(unsigned k) { return k < 16 ? (void*)v_tls[k] : 0; }
int pthread_setspecific(unsigned k, const void* p) { if (k < 16) v_tls[k] = p; return 0; }
int isprint(int c) { return c >= 32 && c < 127; }
int atoi(const char* s) { long r = 0; int neg = 0; while (isspace(*s)) s++; if (*s == '-' || *s == '+') neg = *s++ == '-'; for (; *s >= '0' && *s <= '9'; s++) { if (r > 100000000000000000l) break; r = r * 10 + (*s - '0'); } return (int)(neg ? -r : r); }
