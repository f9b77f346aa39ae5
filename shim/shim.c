/* LD_PRELOAD monitor: counts every request for memory of the calling thread, whoever makes it. */
#define _GNU_SOURCE
#include <stddef.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <stdarg.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static __thread unsigned long n __attribute__((tls_model("initial-exec")));
unsigned long mon_shim_count(void) { return n; }

void *malloc(size_t s) { n++; return __libc_malloc(s); }
void *calloc(size_t a, size_t b) { n++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t s) { n++; return __libc_realloc(p, s); }
void *memalign(size_t a, size_t s) { n++; return __libc_memalign(a, s); }
void *aligned_alloc(size_t a, size_t s) { n++; return __libc_memalign(a, s); }
void *valloc(size_t s) { n++; return __libc_memalign(4096, s); }
int posix_memalign(void **o, size_t a, size_t s) {
  n++;
  void *p = __libc_memalign(a, s);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
  n++;
  return (void *)syscall(SYS_mmap, a, l, p, f, fd, o);
}
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return mmap(a, l, p, f, fd, o); }
void *mremap(void *a, size_t ol, size_t nl, int f, ...) {
  va_list v;
  va_start(v, f);
  void *b = (f & MREMAP_FIXED) ? va_arg(v, void *) : 0;
  va_end(v);
  n++;
  return (void *)syscall(SYS_mremap, a, ol, nl, f, b);
}
