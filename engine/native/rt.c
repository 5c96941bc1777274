// Runs one harness entry natively on the inputs of a counterexample.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
static uint64_t *in; static size_t nin, pos;
static uint32_t pid_;
static uint32_t hit[4096]; static size_t nhit;
uint64_t __sym_any(uint32_t bits) {
  uint64_t v = pos < nin ? in[pos] : 0; pos++;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
static void end(const char *s, uint32_t id, int rc) {
  fprintf(stdout, "NATIVE %s %u\n", s, id);
  for (size_t i = 0; i < nhit; i++) fprintf(stdout, "REACH %u\n", hit[i]);
  fflush(stdout); _exit(rc);
}
void __sym_assume(bool c) { if (!c) end("assume", 0, 77); }
void __sym_assert(bool c, uint32_t id) { if (!c) end("assert", id, 10); }
void __sym_reach(uint32_t id) { if (nhit < 4096) hit[nhit++] = id; }
void __sym_panic_id(uint32_t id) { pid_ = id; }
uint64_t __sym_fix(uint64_t v) { return v; }
void __sym_trace(uint32_t t, uint64_t v) { fprintf(stderr, "TRACE %u %llu %llx\n", t, (unsigned long long)v, (unsigned long long)v); }
void sym_unwind(void) { if (pid_ == 0xffffffffu) end("panic-allowed", 0, 0); end("panic", pid_, 11); }
void *sym_alloc(size_t n, size_t a) { void *p = 0; if (posix_memalign(&p, a < 16 ? 16 : a, n ? n : 1)) return 0; return p; }
void *sym_alloc_zeroed(size_t n, size_t a) { void *p = sym_alloc(n, a); if (p) memset(p, 0, n); return p; }
void sym_dealloc(void *p, size_t n, size_t a) { free(p); }
void *sym_realloc(void *p, size_t o, size_t a, size_t n) { void *q = sym_alloc(n, a); if (q) { memcpy(q, p, o < n ? o : n); free(p); } return q; }
void sym_alloc_error(void) { sym_unwind(); }
void sym_nop(void) {}
ssize_t getrandom(void *p, size_t n, unsigned f) { memset(p, 0, n); return n; }
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }
int main(int argc, char **argv) {
  void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no entry\n"); return 3; }
  nin = argc - 2; in = calloc(nin + 1, 8);
  for (size_t i = 0; i < nin; i++) in[i] = strtoull(argv[i + 2], 0, 10);
  alarm(60);
  f();
  end("ok", 0, 0);
}
__attribute__((used)) void sym_cut(void) { printf("NATIVE cut 0\n"); fflush(stdout); _exit(0); }
void *rust_psm_stack_pointer(void) { return __builtin_frame_address(0); }
void rust_psm_on_stack(void) { abort(); }
void rust_psm_replace_stack(void) { abort(); }
int rust_psm_stack_direction(void) { return 2; }
