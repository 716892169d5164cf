/* File descriptors: memory files, shared offsets between duplicates. Nothing else can be opened. */
#include <stddef.h>
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t);
struct F { unsigned char* p; size_t n, cap; long pos; int refs; };
static struct F* v_fd[16];
int memfd_create(const char* name, unsigned flags) {
  for (int i = 3; i < 16; i++) if (!v_fd[i]) { struct F* f = malloc(sizeof *f); f->p = 0; f->n = f->cap = 0; f->pos = 0; f->refs = 1; v_fd[i] = f; return i; }
  return -1;
}
static struct F* v_file(int fd) { return fd >= 0 && fd < 16 ? v_fd[fd] : 0; }
int dup(int fd) { struct F* f = v_file(fd); if (!f) return -1; for (int i = 3; i < 16; i++) if (!v_fd[i]) { v_fd[i] = f; f->refs++; return i; } return -1; }
int close(int fd) { struct F* f = v_file(fd); if (!f) return -1; v_fd[fd] = 0; if (--f->refs == 0) { free(f->p); free(f); } return 0; }
long read(int fd, void* b, size_t n) { struct F* f = v_file(fd); if (!f) return -1; if (f->pos >= (long)f->n) return 0; size_t k = f->n - (size_t)f->pos; if (n < k) k = n; if (k) memcpy(b, f->p + f->pos, k); f->pos += (long)k; return (long)k; }
long write(int fd, const void* b, size_t n) {
  struct F* f = v_file(fd); if (!f) return -1;
  size_t e = (size_t)f->pos + n;
  if (e > f->cap) { size_t c = 2 * e; unsigned char* q = malloc(c); for (size_t i = 0; i < c; i++) q[i] = 0; if (f->n) memcpy(q, f->p, f->n); free(f->p); f->p = q; f->cap = c; }
  if (n) memcpy(f->p + f->pos, b, n);
  f->pos = (long)e; if (e > f->n) f->n = e; return (long)n;
}
long lseek(int fd, long o, int w) { struct F* f = v_file(fd); if (!f) return -1; long p = w == 0 ? o : w == 1 ? f->pos + o : (long)f->n + o; if (p < 0) return -1; f->pos = p; return p; }
