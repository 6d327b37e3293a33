/* Runs one harness natively on the inputs of a counterexample file: the same machine code paths of the real
 * program (compiled by llc from the same bitcode), the OS model compiled along, one pthread per model thread of
 * which exactly one runs at a time.  Exit 0: ended quietly; 10: the assertion named on stdout failed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef uint64_t u64; typedef uint8_t u8;
struct in { char name[120]; int n; u8 *b; };
static struct in *ins; static int nin, at;
static void done(const char *kind, const char *id, int rc) { printf("%s %s\n", kind, id); fflush(stdout); _exit(rc); }
static struct in *next(const char *name, int n) {
  if (at >= nin) return 0;
  struct in *i = &ins[at++];
  if (strcmp(i->name, name) || i->n != n) { printf("expected %s/%d, the code asks for %s/%d\n", i->name, i->n, name, n); done("DIVERGED", name, 12); }
  return i;
}
void sym_make(u8 *p, size_t n, const char *name) { struct in *i = next(name, (int)n); if (i) memcpy(p, i->b, n); else memset(p, 0, n); }
void sym_assume(_Bool c) { if (!c) done("OUTSIDE", "assumption", 11); }
/* REPLAY_OWN: assertions of other properties do not count */
static int foreign(const char *id) {
    const char *o = getenv("REPLAY_OWN"); int any = 0;
    if (!o) return 0;
    for (; id[0] == 'P' && id[1] >= '0' && id[1] <= '9' && id[2] >= '0' && id[2] <= '9' && id[3] == '.'; id += 4) { any = 1; if (!strncmp(id, o, 3)) return 0; }
    return any;
}
void sym_assert(_Bool c, const char *id) { if (!c && !foreign(id)) done("FAILED", id, 10); }
void sym_cover(const char *id) { (void)id; }
uint32_t sym_choose(uint32_t n, const char *name) { struct in *i = next(name, 1); uint32_t v = i ? i->b[0] : 0; if (v >= n) done("DIVERGED", name, 12); return v; }
void sym_fail(const char *id) { if (foreign(id)) done("ENDED", id, 0); done("FAILED", id, 10); for (;;); }
void sym_note(const char *s, u64 v) { if (getenv("REPLAY_NOTES")) fprintf(stderr, "note %s %ld\n", s, (long)v); }
u64 sym_concrete(u64 v) { return v; }
u64 __eng_symbolic(void) { return 0; }
struct th { pthread_t t; sem_t s; void *(*f)(void *); void *a; };
static struct th T[256]; static int nt = 1; static __thread int self;
static void *start(void *p) { struct th *t = p; self = (int)(t - T); sem_wait(&t->s); t->f(t->a); for (;;) pause(); }
u64 __eng_thread_new(void *f, void *a) {
  struct th *t = &T[nt]; sem_init(&t->s, 0, 0); t->f = f; t->a = a;
  pthread_attr_t at_; pthread_attr_init(&at_); pthread_attr_setstacksize(&at_, 1 << 20);
  if (pthread_create(&t->t, &at_, start, t)) done("ENGINE", "thread", 13);
  return (u64)nt++;
}
void __eng_switch(u64 t) { int me = self; sem_post(&T[t].s); sem_wait(&T[me].s); }
u64 __eng_self(void) { return (u64)self; }
void __eng_end(void) { done("ENDED", "", 0); }
void __eng_exit_path(void) { done("ENDED", "", 0); for (;;); }
void __eng_thread_exit_native(void) {}
void *__rust_alloc(size_t n, size_t a) { void *p = 0; if (a <= 16) return malloc(n ? n : 1); return posix_memalign(&p, a, n) ? 0 : p; }
void *__rust_alloc_zeroed(size_t n, size_t a) { void *p = __rust_alloc(n, a); if (p) memset(p, 0, n); return p; }
void __rust_dealloc(void *p, size_t n, size_t a) { (void)n; (void)a; free(p); }
void *__rust_realloc(void *p, size_t o, size_t a, size_t n) { if (a <= 16) return realloc(p, n); void *q = __rust_alloc(n, a); memcpy(q, p, o < n ? o : n); free(p); return q; }
void __rust_no_alloc_shim_is_unstable_v2(void) {}
#define H(k) u64 stub_hash_native_##k(void) { return 0x123456789abcdef0ul; }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11) H(12) H(13) H(14) H(15)
static void crash(int s) { (void)s; printf("FAILED crash %d\n", s); fflush(stdout); _exit(10); }
static void hang(int s) { (void)s; printf("FAILED nontermination\n"); fflush(stdout); _exit(10); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); static char line[1 << 22]; char h[100] = ""; long a[7] = {0}; int na = 0;
  if (!f) return 13;
  ins = calloc(200000, sizeof *ins);
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "harness ", 8)) sscanf(line + 8, "%99s", h);
    else if (!strncmp(line, "args", 4)) { char *p = line + 4, *e; for (;;) { long v = strtol(p, &e, 10); if (e == p || na == 7) break; a[na++] = v; p = e; } }
    else if (!strncmp(line, "sym ", 4)) {
      /* sym NAME (may hold spaces) LEN HEX */
      size_t l = strlen(line); while (l && (line[l - 1] == '\n' || line[l - 1] == ' ')) line[--l] = 0;
      char *hex = strrchr(line, ' '); *hex++ = 0; char *len = strrchr(line, ' '); *len++ = 0;
      struct in *i = &ins[nin++]; snprintf(i->name, sizeof i->name, "%s", line + 4); i->n = atoi(len); i->b = malloc(i->n + 1);
      for (int k = 0; k < i->n; k++) { unsigned x; sscanf(hex + 2 * k, "%2x", &x); i->b[k] = (u8)x; }
    }
  }
  void (*fn)(long, long, long, long, long, long, long) = dlsym(RTLD_DEFAULT, h);
  if (!fn) { printf("no harness %s\n", h); return 13; }
  signal(SIGSEGV, crash); signal(SIGABRT, crash); signal(SIGILL, crash); signal(SIGBUS, crash); signal(SIGTRAP, crash); signal(SIGALRM, hang);
  alarm(argc > 2 ? atoi(argv[2]) : 20);
  sem_init(&T[0].s, 0, 0);
  fn(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
  done("ENDED", "", 0);
}
