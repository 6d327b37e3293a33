/* A small deterministic operating system: threads, futexes, virtual time, sockets, epoll, files.
 * Every m_X replaces the libc function X in the code under analysis.  Compiled to bitcode and
 * executed by the symbolic engine together with the real code; compiled natively for replay.
 * Scheduling, short writes and faults are decided by sym_choose, so the solver explores them. */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef long i64;
void *malloc(u64); void free(void *); void *memcpy(void *, const void *, u64); void *memset(void *, int, u64); u64 strlen(const char *);
int *__errno_location(void);
u32 sym_choose(u32 n, const char *name); void sym_fail(const char *id) __attribute__((noreturn)); void sym_note(const char *s, u64 v);
u64 __eng_thread_new(void *fn, void *arg); void __eng_switch(u64 t); void __eng_exit_path(void) __attribute__((noreturn)); void __eng_thread_exit_native(void);
u64 sym_concrete(u64);
#define NI __attribute__((noinline))
#define errno_(e) (*__errno_location() = (e), -1)
enum { EPERM=1, ENOENT=2, EINTR=4, EIO=5, EBADF=9, EAGAIN=11, ENOMEM=12, EACCES=13, EEXIST=17, ENOTDIR=20, EISDIR=21, EINVAL=22, ENFILE=23, EMFILE=24, ENOTTY=25, ESPIPE=29, EPIPE=32, ENOSYS=38, ELOOP=40, ENOTSOCK=88, EADDRINUSE=98, ECONNABORTED=103, ECONNRESET=104, ENOTCONN=107, ETIMEDOUT=110, ECONNREFUSED=111 };

/* ---- threads and time ------------------------------------------------ */
#define MAXT 160
#define NEVER (~0ul)
enum { T_FREE, T_RUN, T_BLOCK, T_DONE };
enum { W_NONE, W_FUTEX, W_JOIN, W_SLEEP, W_EPOLL, W_FD, W_IDLE, W_YIELD };
struct dtor { void (*f)(void *); void *obj; struct dtor *next; };
struct thr { int st, wk, woke, detached; u64 waddr, deadline; void *(*fn)(void *); void *arg, *ret; struct dtor *dtors; };
static struct thr T[MAXT];
static int nthr = 1, cur, live, live_max;
static u64 now = 1000000000000ul;
static int budget, choices, points_on, time_races;
static void os_init(void) { if (T[0].st == T_FREE) T[0].st = T_RUN; }

static int os_ready(u64 ep);
static NI void os_wake(int wk, u64 a, int n) {
  for (int i = 0; i < nthr && n > 0; i++)
    if (T[i].st == T_BLOCK && T[i].wk == wk && T[i].waddr == a) { T[i].st = T_RUN; T[i].woke = 1; n--; }
}
static int os_peer(int fi);
static int os_watches(u64 ep, int a, int b);
/* object fi (all if negative) or its peer changed: wake whoever waits on it (they re-check) */
static NI void os_fd_changed(int fi) {
  int b = fi < 0 ? -2 : os_peer(fi);
  for (int i = 0; i < nthr; i++) {
    if (T[i].st != T_BLOCK) continue;
    if (T[i].wk == W_FD) { i64 w = (i64)T[i].waddr; if (fi >= 0 && w >= 0 && w != fi && w != b) continue; }
    else if (T[i].wk == W_EPOLL) { if (fi >= 0 && !os_watches(T[i].waddr, fi, b)) continue; if (!os_ready(T[i].waddr)) continue; }
    else continue;
    T[i].st = T_RUN; T[i].woke = 1;
  }
}
static NI void os_go(int t) { if (t != cur) { cur = t; __eng_switch((u64)t); } }
static NI void os_timers(void);
static const char *os_stuck = "stuck";
/* leave the processor; the caller has set its own state */
static NI void os_resched(void) {
  int c[MAXT], k;
  for (;;) {
    k = 0;
    for (int j = 1; j <= nthr; j++) { int i = (cur + j) % nthr; if (T[i].st == T_RUN) c[k++] = i; }
    if (k) break;
    for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCK && T[i].wk == W_YIELD) { T[i].st = T_RUN; k = 1; }
    if (k) continue;
    /* quiescent: the harness waiting for that goes first, then time passes */
    for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCK && T[i].wk == W_IDLE) { T[i].st = T_RUN; T[i].woke = 1; k = 1; }
    if (k) continue;
    u64 best = NEVER;
    for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCK && T[i].deadline < best) best = T[i].deadline;
    if (best == NEVER) {
      for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCK) { sym_note("blocked thread", (u64)i); sym_note("  waiting for kind", (u64)T[i].wk); }
      sym_fail(os_stuck);
    }
    if (best > now) now = best;
    for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCK && T[i].deadline <= now) { T[i].st = T_RUN; T[i].woke = 0; }
    os_timers();
  }
  int i = 0;
  if (k > 1 && choices > 0) { i = (int)sym_choose((u32)k, "next thread"); choices--; }
  os_go(c[i]);
}
/* block the current thread; returns 1 when woken, 0 when the deadline passed */
static NI int os_block(int wk, u64 a, u64 deadline) {
  struct thr *t = &T[cur];
  os_init();
  if (deadline <= now) return 0;
  t->st = T_BLOCK; t->wk = wk; t->waddr = a; t->deadline = deadline; t->woke = 0;
  os_resched();
  t->wk = W_NONE; t->deadline = NEVER;
  return t->woke;
}
/* a place where another thread may run */
NI void m_point(void) {
  int c[MAXT], k = 0;
  if (!points_on || budget <= 0 || nthr < 2) return;
  for (int j = 1; j < nthr; j++) { int i = (cur + j) % nthr; if (T[i].st == T_RUN) c[k++] = i; }
  /* time may pass too, as far as the next deadline */
  u64 best = NEVER;
  if (time_races > 0) for (int i = 0; i < nthr; i++) if (i != cur && T[i].st == T_BLOCK && T[i].deadline < best) best = T[i].deadline;
  if (!k && best == NEVER) return;
  u32 x = sym_choose((u32)k + 1 + (best != NEVER), "preempt");
  if (x == (u32)k + 1) {
    time_races--; budget--;
    if (best > now) now = best;
    sym_note("time passes to", now / 1000000000ul);
    k = 0;
    for (int i = 0; i < nthr; i++) if (T[i].st == T_BLOCK && T[i].deadline <= now) { T[i].st = T_RUN; T[i].woke = 0; c[k++] = i; }
    /* and the one that it woke may run at once */
    if (k && sym_choose(2, "expired first")) os_go(c[0]);
    return;
  }
  if (x) { budget--; sym_note("preempted by", (u64)c[x - 1]); os_go(c[x - 1]); }
}
int m_sched_yield(void) {
  os_init();
  for (int i = 0; i < nthr; i++) if (i != cur && T[i].st == T_RUN) {
    /* a yielding thread stays out of the way until the others have run */
    T[cur].st = T_BLOCK; T[cur].wk = W_YIELD; T[cur].deadline = NEVER; os_resched(); T[cur].wk = W_NONE; return 0;
  }
  /* nobody else can run: let time pass, or this is a spin without end */
  { static int spins; if (++spins > 2000) sym_fail("spins forever"); }
  if (now + 1000 > now) os_block(W_SLEEP, 0, now + 1000000);
  return 0;
}
static void *os_trampoline(void *p) {
  struct thr *t = p;
  void *r = t->fn(t->arg);
  while (t->dtors) { struct dtor *d = t->dtors; t->dtors = d->next; d->f(d->obj); free(d); }
  t->ret = r; t->st = T_DONE; live--;
  os_wake(W_JOIN, (u64)(t - T), 99);
  __eng_thread_exit_native();
  os_resched();
  return 0;
}
static int spawn_fail;
int m_pthread_create(u64 *out, const void *attr, void *(*fn)(void *), void *arg) {
  (void)attr; os_init();
  if (spawn_fail > 0 && --spawn_fail == 0) return EAGAIN;
  if (nthr >= MAXT) sym_fail("engine: too many threads");
  int i = nthr++;
  T[i].fn = fn; T[i].arg = arg; T[i].deadline = NEVER; T[i].st = T_RUN;
  u64 id = __eng_thread_new((void *)os_trampoline, &T[i]);
  if (id != (u64)i) sym_fail("engine: thread numbering");
  *out = id; live++; if (live > live_max) live_max = live;
  m_point();
  return 0;
}
int m_pthread_join(u64 t, void **ret) {
  while (T[t].st != T_DONE) os_block(W_JOIN, t, NEVER);
  if (ret) *ret = T[t].ret;
  return 0;
}
int m_pthread_detach(u64 t) { T[t].detached = 1; return 0; }
u64 m_pthread_self(void) { return (u64)cur; }
int m_pthread_attr_init(void *a) { (void)a; return 0; }
int m_pthread_attr_destroy(void *a) { (void)a; return 0; }
int m_pthread_attr_setstacksize(void *a, u64 n) { (void)a; (void)n; return 0; }
int m_pthread_setname_np(u64 t, const char *n) { (void)t; (void)n; return 0; }
int m_gettid(void) { return 100 + cur; }
int m___cxa_thread_atexit_impl(void (*f)(void *), void *obj, void *dso) { (void)dso; struct dtor *d = malloc(sizeof *d); d->f = f; d->obj = obj; d->next = T[cur].dtors; T[cur].dtors = d; return 0; }
int m_pthread_key_create(u32 *k, void *d) { static u32 n; (void)d; *k = ++n; return 0; }
int m_pthread_key_delete(u32 k) { (void)k; return 0; }
int m_pthread_setspecific(u32 k, void *v) { (void)k; (void)v; return 0; }
void *m_pthread_getspecific(u32 k) { (void)k; return 0; }
struct ts { i64 sec, nsec; };
/* time that passed besides `now`, kept in parts so that it can be symbolic without divisions */
static i64 xtra_s, xtra_n;
void m_advance_parts(u64 sec, u64 nsec) { xtra_s += (i64)sec; xtra_n += (i64)nsec; i64 c = xtra_n >= 1000000000; xtra_s += c; xtra_n -= c ? 1000000000 : 0; }
int m_clock_gettime(int c, struct ts *t) { (void)c; i64 n = (i64)(now % 1000000000ul) + xtra_n; i64 k = n >= 1000000000; t->sec = (i64)(now / 1000000000ul) + xtra_s + k; t->nsec = n - (k ? 1000000000 : 0); return 0; }
int m_nanosleep(const struct ts *t, void *rem) { (void)rem; os_block(W_SLEEP, 0, now + (u64)t->sec * 1000000000ul + (u64)t->nsec); return 0; }
int m_clock_nanosleep(int c, int fl, const struct ts *t, void *rem) { (void)c; (void)rem; u64 d = (u64)t->sec * 1000000000ul + (u64)t->nsec; os_block(W_SLEEP, 0, (fl & 1) ? d : now + d); return 0; }
static i64 os_futex(u32 *a, int op, u32 val, const struct ts *t, u32 bits) {
  (void)bits;
  int o = op & 127;
  if (o == 0 || o == 9) {
    m_point();
    if (*(volatile u32 *)a != val) return errno_(EAGAIN);
    u64 dl = NEVER;
    if (t) { dl = (u64)t->sec * 1000000000ul + (u64)t->nsec; if (o == 0) dl += now; if (t->sec < 0 || (u64)t->sec > 9000000000ul) dl = NEVER; }
    if (os_block(W_FUTEX, (u64)a, dl)) return 0;
    return errno_(ETIMEDOUT);
  }
  if (o == 1 || o == 10) { os_wake(W_FUTEX, (u64)a, (int)val < 0 ? 1000 : (int)val); m_point(); return 0; }
  return errno_(ENOSYS);
}
/* interface for the harness */
void m_sched(int preemptions, int ch) { os_init(); budget = preemptions; choices = ch; points_on = preemptions > 0; }
void m_time_races(int n) { time_races = n; }
/* wait until nothing else can run without time passing */
void m_idle(void) { os_init(); os_block(W_IDLE, 0, NEVER); }
u64 m_now(void) { return now; }
void m_advance(u64 ns) { now += ns; }
int m_live(void) { return live; }
int m_live_max(void) { return live_max; }
int m_self(void) { return cur; }
void m_spawn_fail(int nth) { spawn_fail = nth; }
int m_thread_blocked(u64 t) { return T[t].st == T_BLOCK; }

/* ---- descriptors ----------------------------------------------------- */
#define NFD 900
#define NF 900
enum { F_FREE, F_LISTEN, F_SOCK, F_EPOLL, F_EVENT, F_TIMER, F_FILE, F_DIR };
#define NINT 4
struct fobj {
  int kind, refs, nonblock, self;
  /* sockets */
  int peer; u8 *rx; u32 rcap, rlen, rpos; u8 eof, rst, shr, shw, connected, accepted; u16 port; u64 rto, sto; int so_error;
  int q[128], qn; /* listener backlog */
  /* epoll */
  int ifd[NINT]; u32 iev[NINT]; u64 idata[NINT]; u8 iarmed[NINT]; int in;
  /* eventfd / timerfd */
  u64 val, when;
  /* files */
  int node; u64 pos;
};
static struct fobj *F[NF];
static short fdt[NFD];
static int nf; /* objects in use lie below */
static int rcap = 4096, fd_limit = NFD;
static int opens, closes;
static struct fobj *os_f(int fd) { if (fd < 3 || fd >= NFD || !fdt[fd]) return 0; return F[fdt[fd] - 1]; }
static int os_fdnew(int f) { for (int i = 3; i < fd_limit; i++) if (!fdt[i]) { fdt[i] = (short)(f + 1); F[f]->refs++; opens++; return i; } return errno_(EMFILE); }
static int os_fnew(int kind) {
  for (int i = 0; i < NF; i++) if (!F[i]) { if (i >= nf) nf = i + 1; struct fobj *f = malloc(sizeof *f); memset(f, 0, sizeof *f); f->kind = kind; f->self = i; f->peer = -1; f->when = NEVER; f->node = -1; F[i] = f; return i; }
  sym_fail("engine: too many open objects");
}
static int os_idx(struct fobj *f) { return f->self; }
static int sock_readable(struct fobj *f) { return f->rlen > f->rpos || f->eof || f->rst || f->shr || (!f->connected && f->kind == F_SOCK); }
static int sock_writable(struct fobj *f) {
  if (f->rst || f->shw || f->peer < 0 || !f->connected) return 1;
  struct fobj *p = F[f->peer]; if (!p) return 1;
  return p->rlen - p->rpos < p->rcap;
}
static u32 os_events(struct fobj *f) {
  u32 e = 0;
  switch (f->kind) {
  case F_LISTEN: if (f->qn) e |= 1; break;
  case F_SOCK: if (sock_readable(f)) e |= 1; if (sock_writable(f)) e |= 4; if (f->rst) e |= 8 | 16; if (f->eof || f->shr) e |= 0x2000; if ((f->eof || f->shr) && f->shw) e |= 16; if (!f->connected) e |= 16; break;
  case F_EVENT: if (f->val) e |= 1; e |= 4; break;
  case F_TIMER: if (f->when <= now) e |= 1; break;
  default: e = 5;
  }
  return e;
}
static int os_ready(u64 ep) {
  struct fobj *e = F[ep]; if (!e) return 1;
  for (int i = 0; i < e->in; i++) if (e->iarmed[i]) { struct fobj *f = F[e->ifd[i]]; if (f && (os_events(f) & ((e->iev[i] & 0x201f) | 8 | 16))) return 1; }
  return 0;
}
static int os_peer(int fi) { return F[fi] ? F[fi]->peer : -2; }
static int os_watches(u64 ep, int a, int b) { struct fobj *e = F[ep]; if (!e) return 1; for (int i = 0; i < e->in; i++) if (e->ifd[i] == a || e->ifd[i] == b) return 1; return 0; }
static NI void os_timers(void) { os_fd_changed(-1); }
static u64 os_ep_deadline(struct fobj *e) {
  u64 d = NEVER;
  for (int i = 0; i < e->in; i++) if (e->iarmed[i]) { struct fobj *f = F[e->ifd[i]]; if (f && f->kind == F_TIMER && (e->iev[i] & 1) && f->when < d) d = f->when; }
  return d;
}
static NI void os_unref(int fi) {
  struct fobj *f = F[fi];
  if (--f->refs > 0) return;
  int was = f->peer, all = f->kind == F_LISTEN || f->kind == F_EPOLL;
  if (f->kind == F_SOCK && f->peer >= 0 && F[f->peer]) {
    struct fobj *p = F[f->peer];
    if (!f->shw) p->eof = 1;
    if (f->rlen > f->rpos) { p->rst = 1; } /* unread data: the peer is reset */
    p->peer = -1;
  }
  if (f->kind == F_LISTEN) for (int i = 0; i < f->qn; i++) { struct fobj *s = F[f->q[i]]; s->refs++; os_unref(f->q[i]); }
  if (f->kind != F_EPOLL) for (int i = 0; i < nf; i++) if (F[i] && F[i]->kind == F_EPOLL) { struct fobj *e = F[i]; for (int j = 0; j < e->in; j++) if (e->ifd[j] == fi) { e->in--; e->ifd[j] = e->ifd[e->in]; e->iev[j] = e->iev[e->in]; e->idata[j] = e->idata[e->in]; e->iarmed[j] = e->iarmed[e->in]; j--; } }
  if (f->rx) free(f->rx);
  free(f); F[fi] = 0;
  if (all) os_fd_changed(-1); else if (was >= 0) os_fd_changed(was);
}
int m_close(int fd) {
  if (!os_f(fd)) return errno_(EBADF);
  int f = fdt[fd] - 1; fdt[fd] = 0; closes++; os_unref(f); return 0;
}
int m_fcntl(int fd, int cmd, i64 arg) {
  struct fobj *f = os_f(fd); if (!f) return fd < 3 ? 0 : errno_(EBADF);
  switch (cmd) {
  case 0: case 1030: return os_fdnew(fdt[fd] - 1);
  case 1: case 2: return 0;
  case 3: return 2 | (f->nonblock ? 04000 : 0);
  case 4: f->nonblock = (arg & 04000) != 0; return 0;
  }
  return errno_(EINVAL);
}
int m_ioctl(int fd, u64 req, int *arg) {
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  if (req == 0x5421) { f->nonblock = *arg != 0; return 0; }
  return errno_(ENOTTY);
}
/* ---- sockets --------------------------------------------------------- */
struct sin { u16 fam, port; u32 addr; u8 z[8]; };
static int would_block; /* how many operations on a non-blocking socket may find nothing to do although it was ready */
static int short_io;  /* how many more writes/reads the model may cut short */
static int write_err; /* the nth write from now fails */
static int accept_err, accept_errno;
static void os_cap(struct fobj *f) { f->rcap = (u32)rcap; f->rx = malloc(f->rcap); }
int m_socket(int dom, int type, int proto) { (void)dom; (void)proto; int f = os_fnew(F_SOCK); F[f]->nonblock = (type & 04000) != 0; return os_fdnew(f); }
static struct fobj *os_listener(u16 port) { for (int i = 0; i < nf; i++) if (F[i] && F[i]->kind == F_LISTEN && F[i]->port == port) return F[i]; return 0; }
int m_bind(int fd, const struct sin *a, u32 n) { (void)n; struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); if (a->port && os_listener(a->port)) return errno_(EADDRINUSE); f->port = a->port; return 0; }
int m_listen(int fd, int n) { (void)n; struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); f->kind = F_LISTEN; return 0; }
static int os_connect(struct fobj *f, struct fobj *l) {
  int s = os_fnew(F_SOCK); struct fobj *p = F[s];
  if (l->qn >= 128) sym_fail("engine: backlog");
  p->peer = os_idx(f); f->peer = s; p->connected = f->connected = 1; os_cap(p); os_cap(f);
  l->q[l->qn++] = s; os_fd_changed(l->self); os_fd_changed(f->self);
  return 0;
}
int m_connect(int fd, const struct sin *a, u32 n) {
  (void)n; struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  struct fobj *l = os_listener(a->port);
  if (!l) return errno_(ECONNREFUSED);
  os_connect(f, l); f->port = a->port;
  return 0;
}
static int os_addr(struct sin *a, u32 *n, u16 port) { if (a) { memset(a, 0, 16); a->fam = 2; a->port = port; a->addr = 0x0100007f; *n = 16; } return 0; }
int m_accept4(int fd, struct sin *a, u32 *n, int flags) {
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  m_point();
  if (accept_err > 0 && f->qn) { accept_err--; if (accept_errno == ECONNABORTED) { int s = f->q[0]; f->qn--; for (int i = 0; i < f->qn; i++) f->q[i] = f->q[i + 1]; F[s]->refs++; os_unref(s); } return errno_(accept_errno); }
  while (!f->qn) { if (f->nonblock) return errno_(EAGAIN); os_block(W_FD, (u64)f->self, NEVER); }
  int s = f->q[0];
  int nfd = os_fdnew(s); if (nfd < 0) return -1;
  f->qn--; for (int i = 0; i < f->qn; i++) f->q[i] = f->q[i + 1];
  F[s]->nonblock = (flags & 04000) != 0; F[s]->accepted = 1;
  os_addr(a, n, 40000);
  return nfd;
}
int m_getsockname(int fd, struct sin *a, u32 *n) { struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); return os_addr(a, n, f->port); }
int m_getpeername(int fd, struct sin *a, u32 *n) { struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); if (!f->connected) return errno_(ENOTCONN); return os_addr(a, n, f->port); }
struct tv { i64 sec, usec; };
int m_setsockopt(int fd, int level, int opt, const void *v, u32 n) {
  (void)n; struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  if (level == 1 && (opt == 20 || opt == 21)) { const struct tv *t = v; u64 d = (u64)t->sec * 1000000000ul + (u64)t->usec * 1000ul; if (opt == 20) f->rto = d; else f->sto = d; }
  return 0;
}
int m_getsockopt(int fd, int level, int opt, void *v, u32 *n) {
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  if (level == 1 && (opt == 20 || opt == 21)) { struct tv *t = v; u64 d = opt == 20 ? f->rto : f->sto; t->sec = (i64)(d / 1000000000ul); t->usec = (i64)(d % 1000000000ul / 1000); *n = 16; return 0; }
  *(int *)v = 0; *n = 4; return 0;
}
int m_shutdown(int fd, int how) {
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  if (f->kind == F_LISTEN) return 0;
  if (!f->connected || f->rst) return errno_(ENOTCONN);
  if (how == 0 || how == 2) f->shr = 1;
  if ((how == 1 || how == 2) && !f->shw) { f->shw = 1; if (f->peer >= 0 && F[f->peer]) F[f->peer]->eof = 1; }
  os_fd_changed(f->self); m_point();
  return 0;
}
static i64 os_recv(struct fobj *f, u8 *b, u64 n, int peek) {
  m_point();
  u64 dl = f->rto ? now + f->rto : NEVER;
  for (;;) {
    if (!f->connected) return errno_(ENOTCONN);
    if (f->nonblock && would_block > 0 && sym_choose(2, "would block")) { would_block--; return errno_(EAGAIN); }
    if (f->rlen > f->rpos) break;
    if (f->rst) return errno_(ECONNRESET);
    if (f->eof || f->shr) return 0;
    if (n == 0) return 0;
    if (f->nonblock) return errno_(EAGAIN);
    if (!os_block(W_FD, (u64)f->self, dl) && now >= dl) return errno_(EAGAIN);
  }
  u32 have = f->rlen - f->rpos;
  if (n > have) n = have;
  if (n > 1 && short_io > 0) { short_io--; n = 1 + sym_choose(n > 8 ? 8 : (u32)n, "received bytes"); }
  memcpy(b, f->rx + f->rpos, n);
  if (peek) return (i64)n;
  f->rpos += (u32)n;
  if (f->rpos == f->rlen) f->rpos = f->rlen = 0;
  os_fd_changed(f->self);
  return (i64)n;
}
static i64 os_send(struct fobj *f, const u8 *b, u64 n) {
  m_point();
  u64 dl = f->sto ? now + f->sto : NEVER;
  if (write_err > 0 && --write_err == 0) { f->rst = 1; return errno_(ECONNRESET); }
  for (;;) {
    if (!f->connected) return errno_(ENOTCONN);
    if (f->rst) return errno_(ECONNRESET);
    if (f->shw) return errno_(EPIPE);
    if (f->peer < 0) { f->rst = 1; return errno_(EPIPE); }
    if (f->nonblock && would_block > 0 && sym_choose(2, "would block")) { would_block--; return errno_(EAGAIN); }
    if (sock_writable(f)) break;
    if (f->nonblock) return errno_(EAGAIN);
    if (!os_block(W_FD, (u64)f->self, dl) && now >= dl) return errno_(EAGAIN);
  }
  struct fobj *p = F[f->peer];
  if (p->shr) return (i64)n; /* nobody will read it */
  u32 room = p->rcap - (p->rlen - p->rpos);
  if (n > room) n = room;
  if (n > 1 && short_io > 0) { short_io--; n = 1 + sym_choose(n > 8 ? 8 : (u32)n, "sent bytes"); }
  if (p->rlen + n > p->rcap) { for (u32 i = 0; i < p->rlen - p->rpos; i++) p->rx[i] = p->rx[p->rpos + i]; p->rlen -= p->rpos; p->rpos = 0; }
  memcpy(p->rx + p->rlen, b, n); p->rlen += (u32)n;
  os_fd_changed(f->self); m_point();
  return (i64)n;
}
static i64 os_read_file(struct fobj *f, u8 *b, u64 n);
struct iov { u8 *b; u64 n; };
i64 m_recv(int fd, u8 *b, u64 n, int flags) { struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); if (f->kind != F_SOCK) return errno_(ENOTSOCK); return os_recv(f, b, n, flags & 2); }
i64 m_send(int fd, const u8 *b, u64 n, int flags) { (void)flags; struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); if (f->kind != F_SOCK) return errno_(ENOTSOCK); return os_send(f, b, n); }
i64 m_read(int fd, u8 *b, u64 n) {
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  switch (f->kind) {
  case F_SOCK: return os_recv(f, b, n, 0);
  case F_EVENT: if (!f->val) return errno_(EAGAIN); *(u64 *)b = f->val; f->val = 0; return 8;
  case F_TIMER: if (f->when > now) return errno_(EAGAIN); *(u64 *)b = 1; f->when = NEVER; return 8;
  case F_FILE: return os_read_file(f, b, n);
  case F_DIR: return errno_(EISDIR);
  }
  return errno_(EINVAL);
}
i64 m_write(int fd, const u8 *b, u64 n) {
  if (fd == 1 || fd == 2) return (i64)n;
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF);
  switch (f->kind) {
  case F_SOCK: return os_send(f, b, n);
  case F_EVENT: f->val += *(const u64 *)b; os_fd_changed(f->self); m_point(); return 8;
  }
  return errno_(EINVAL);
}
i64 m_writev(int fd, const struct iov *v, int n) { for (int i = 0; i < n; i++) if (v[i].n) return m_write(fd, v[i].b, v[i].n); return 0; }
i64 m_readv(int fd, const struct iov *v, int n) { for (int i = 0; i < n; i++) if (v[i].n) return m_read(fd, v[i].b, v[i].n); return 0; }
/* ---- epoll, eventfd, timerfd ----------------------------------------- */
int m_epoll_create1(int fl) { (void)fl; return os_fdnew(os_fnew(F_EPOLL)); }
int m_epoll_create(int fl) { (void)fl; return os_fdnew(os_fnew(F_EPOLL)); }
int m_eventfd(u32 v, int fl) { int f = os_fnew(F_EVENT); F[f]->val = v; F[f]->nonblock = (fl & 04000) != 0; return os_fdnew(f); }
int m_timerfd_create(int c, int fl) { (void)c; (void)fl; return os_fdnew(os_fnew(F_TIMER)); }
struct its { struct ts interval, value; };
int m_timerfd_settime(int fd, int fl, const struct its *n, struct its *old) {
  struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); (void)old;
  u64 d = (u64)n->value.sec * 1000000000ul + (u64)n->value.nsec;
  f->when = d == 0 ? NEVER : (fl & 1) ? d : now + d; os_fd_changed(f->self); return 0;
}
struct __attribute__((packed)) epev { u32 ev; u64 data; };
int m_epoll_ctl(int ep, int op, int fd, const struct epev *ev) {
  struct fobj *e = os_f(ep), *f = os_f(fd); if (!e || !f) return errno_(EBADF);
  int fi = fdt[fd] - 1, i;
  for (i = 0; i < e->in; i++) if (e->ifd[i] == fi) break;
  if (op == 1) { if (i < e->in) return errno_(EEXIST); if (e->in >= NINT) sym_fail("engine: epoll interest"); e->in++; }
  else if (i >= e->in) return errno_(ENOENT);
  if (op == 2) { e->in--; e->ifd[i] = e->ifd[e->in]; e->iev[i] = e->iev[e->in]; e->idata[i] = e->idata[e->in]; e->iarmed[i] = e->iarmed[e->in]; return 0; }
  e->ifd[i] = fi; e->iev[i] = ev->ev; e->idata[i] = ev->data; e->iarmed[i] = 1;
  os_fd_changed(fi);
  return 0;
}
static int epoll_intr;
int m_epoll_wait(int ep, struct epev *out, int max, int timeout) {
  struct fobj *e = os_f(ep); if (!e) return errno_(EBADF);
  m_point();
  u64 dl = timeout < 0 ? NEVER : now + (u64)timeout * 1000000ul;
  if (epoll_intr > 0) { epoll_intr--; if (sym_choose(2, "epoll interrupted")) return errno_(EINTR); }
  for (;;) {
    int n = 0;
    for (int i = 0; i < e->in && n < max; i++) {
      if (!e->iarmed[i]) continue;
      struct fobj *f = F[e->ifd[i]]; if (!f) continue;
      u32 ev = os_events(f) & ((e->iev[i] & 0x201f) | 8 | 16);
      if (!ev) continue;
      out[n].ev = ev; out[n].data = e->idata[i]; n++;
      if (e->iev[i] & (1u << 30)) e->iarmed[i] = 0;
    }
    if (n || now >= dl) return n;
    u64 d = os_ep_deadline(e); if (dl < d) d = dl;
    os_block(W_EPOLL, (u64)(fdt[ep] - 1), d);
  }
}
struct pfd { int fd; short ev, rev; };
int m_poll(struct pfd *p, u64 n, int timeout) {
  u64 dl = timeout < 0 ? NEVER : now + (u64)timeout * 1000000ul;
  for (;;) {
    int k = 0;
    for (u64 i = 0; i < n; i++) { struct fobj *f = os_f(p[i].fd); p[i].rev = f ? (short)(os_events(f) & (((u32)p[i].ev & 0x1f) | 8 | 16)) : 32; if (p[i].rev) k++; }
    if (k || now >= dl) return k;
    os_block(W_FD, (u64)-1l, dl);
  }
}
/* interface for the harness */
void m_would_block(int n) { would_block = n; }
void m_short_io(int n) { short_io = n; }
void m_write_err(int nth) { write_err = nth; }
void m_accept_fault(int n, int e) { accept_err = n; accept_errno = e; }
void m_rcap(int n) { rcap = n; }
void m_fd_limit(int n) { fd_limit = n; }
void m_epoll_intr(int n) { epoll_intr = n; }
int m_open_fds(void) { int n = 0; for (int i = 3; i < NFD; i++) if (fdt[i]) n++; return n; }
int m_open_accepted(void) { int n = 0; for (int i = 0; i < nf; i++) if (F[i] && F[i]->kind == F_SOCK && F[i]->accepted && F[i]->refs > 0) n++; return n; }
int m_backlog(u16 port) { struct fobj *l = os_listener((u16)(port << 8 | port >> 8)); return l ? l->qn : -1; }
int m_listening(u16 port) { return os_listener((u16)(port << 8 | port >> 8)) != 0; }
void m_reset(int fd) { struct fobj *f = os_f(fd); if (f && f->peer >= 0) { F[f->peer]->rst = 1; F[f->peer]->rlen = F[f->peer]->rpos = 0; os_fd_changed(f->self); } }
int m_unread(int fd) { struct fobj *f = os_f(fd); return f ? (int)(f->rlen - f->rpos) : -1; }
int m_peer_closed(int fd) { struct fobj *f = os_f(fd); return f ? f->eof || f->rst : 1; }

/* ---- files ----------------------------------------------------------- */
enum { N_FILE, N_DIR, N_LINK };
#define NN 24
struct node { int type, parent, err; const char *name; u32 nlen; const u8 *data; u64 len; };
static struct node N[NN] = { { N_DIR, 0, 0, "", 0, 0, 0 } };
static int nn = 1, cwd;
int m_fs_add(int parent, int type, const char *name, u64 nlen, const u8 *data, u64 len) {
  if (nn >= NN) sym_fail("engine: too many files");
  N[nn].type = type; N[nn].parent = parent; N[nn].name = name; N[nn].nlen = (u32)nlen; N[nn].data = data; N[nn].len = len; return nn++;
}
void m_fs_err(int node, int e) { N[node].err = e; }
// the call number `after` (from now) that names a path or reads a file fails with e; so do all later ones if `ever`
static int fault_at = -1, fault_e, fault_ever, faults_hit;
void m_fs_fault(int after, int e, int ever) { fault_at = after; fault_e = e; fault_ever = ever; faults_hit = 0; }
int m_fs_faulted(void) { return faults_hit; }
static int os_fault(void) {
  if (fault_at < 0) return 0;
  if (fault_at > 0) { fault_at--; return 0; }
  if (!fault_ever) fault_at = -1;
  faults_hit++; return fault_e;
}
void m_fs_resize(int node, u64 len) { N[node].len = len; }
void m_chdir(int node) { cwd = node; }
static int os_child(int d, const char *s, u64 n) {
  for (int i = 1; i < nn; i++) if (N[i].parent == d && N[i].nlen == n) {
    u8 diff = 0; for (u64 j = 0; j < n; j++) diff |= (u8)(N[i].name[j] ^ s[j]);
    if (!diff) return i;
  }
  return -ENOENT;
}
static int os_walk(int at, const char *p, u64 n, int follow, int depth) {
  u64 i = 0;
  if (n == 0) return -ENOENT;
  if (p[0] == '/') at = 0;
  while (i < n) {
    while (i < n && p[i] == '/') i++;
    if (i >= n) { return N[at].type == N_DIR ? at : -ENOTDIR; }
    u64 s = i;
    while (i < n && p[i] != '/') i++;
    u64 l = i - s;
    if (N[at].type != N_DIR) return -ENOTDIR;
    if (N[at].err) return -N[at].err;
    if (l == 1 && p[s] == '.') continue;
    if (l == 2 && p[s] == '.' && p[s + 1] == '.') { at = N[at].parent; continue; }
    if (l > 255) return -36;
    int c = os_child(at, p + s, l);
    if (c < 0) return c;
    if (N[c].type == N_LINK && (follow || i < n)) {
      if (depth > 8) return -ELOOP;
      c = os_walk(at, (const char *)N[c].data, N[c].len, 1, depth + 1);
      if (c < 0) return c;
    }
    at = c;
  }
  return at;
}
/* every path the program names to the file system, as it gave it */
#define NASK 24
static struct { char s[120]; u32 n; } ask[NASK];
static int nask;
static int os_lookup(const char *p, int follow) {
  u64 n = strlen(p);
  if (nask >= NASK) sym_fail("engine: too many paths asked");
  ask[nask].n = (u32)n;
  for (u64 i = 0; i < n && i < 120; i++) ask[nask].s[i] = p[i];
  nask++;
  int ft = os_fault(); if (ft) return -ft;
  return os_walk(cwd, p, n, follow, 0);
}
int m_asked(void) { return nask; }
u32 m_asked_len(int i) { return ask[i].n; }
const char *m_asked_path(int i) { return ask[i].s; }
static u64 os_path(int n, char *b) {
  if (n == 0) { b[0] = '/'; return 1; }
  u64 l = N[n].parent ? os_path(N[n].parent, b) : 0;
  b[l++] = '/'; memcpy(b + l, N[n].name, N[n].nlen); return l + N[n].nlen;
}
char *m_realpath(const char *p, char *out) {
  int n = os_lookup(p, 1); if (n < 0) { errno_(-n); return 0; }
  if (!out) out = malloc(512);
  out[os_path(n, out)] = 0; return out;
}
char *m_getcwd(char *b, u64 n) { (void)n; b[os_path(cwd, b)] = 0; return b; }
static int last_open = -1;
int m_open64(const char *p, int fl, int mode) {
  (void)mode;
  int n = os_lookup(p, 1); if (n < 0) return errno_(-n);
  if (N[n].err) return errno_(N[n].err);
  if ((fl & 3) && N[n].type == N_DIR) return errno_(EISDIR);
  if ((fl & 0200000) && N[n].type != N_DIR) return errno_(ENOTDIR);
  int f = os_fnew(N[n].type == N_DIR ? F_DIR : F_FILE); F[f]->node = n;
  int fd = os_fdnew(f); if (fd >= 0) last_open = n; else { free(F[f]); F[f] = 0; }
  return fd;
}
int m_last_open(void) { return last_open; }
static i64 os_read_file(struct fobj *f, u8 *b, u64 n) {
  u64 l = N[f->node].len;
  int ft = os_fault(); if (ft) return errno_(ft);
  if (f->pos >= l) return 0;
  if (n > l - f->pos) n = l - f->pos;
  if (n > 1 && short_io > 0) { short_io--; n = 1 + sym_choose(n > 8 ? 8 : (u32)n, "read bytes"); }
  memcpy(b, N[f->node].data + f->pos, n); f->pos += n; return (i64)n;
}
i64 m_lseek64(int fd, i64 off, int wh) { struct fobj *f = os_f(fd); if (!f) return errno_(EBADF); if (f->kind != F_FILE) return errno_(ESPIPE); u64 p = wh == 0 ? 0 : wh == 1 ? f->pos : N[f->node].len; f->pos = p + (u64)off; return (i64)f->pos; }
struct statx_ { u32 mask, blksize; u64 attr; u32 nlink, uid, gid; u16 mode, p1; u64 ino, size, blocks, attrmask; u8 rest[200]; };
static void os_stat(int n, struct statx_ *s) { memset(s, 0, 256); s->mask = 0xfff; s->blksize = 4096; s->nlink = 1; s->mode = N[n].type == N_DIR ? 040755 : N[n].type == N_LINK ? 0120777 : 0100644; s->ino = (u64)n + 1; s->size = N[n].type == N_DIR ? 4096 : N[n].len; }
int m_statx(int dfd, const char *p, int fl, u32 mask, struct statx_ *s) {
  (void)mask; int n;
  if (!p) return errno_(14);
  if (p[0] == 0 && (fl & 0x1000)) { struct fobj *f = os_f(dfd); if (!f) return errno_(EBADF); if (f->node < 0) { memset(s, 0, 256); s->mode = 0140777; s->mask = 0xfff; return 0; } n = f->node; }
  else { n = os_lookup(p, !(fl & 0x100)); if (n < 0) return errno_(-n); }
  os_stat(n, s); return 0;
}
i64 m_readlink(const char *p, char *b, u64 n) { int x = os_lookup(p, 0); if (x < 0) return errno_(-x); if (N[x].type != N_LINK) return errno_(EINVAL); u64 l = N[x].len < n ? N[x].len : n; memcpy(b, N[x].data, l); return (i64)l; }

/* ---- the rest -------------------------------------------------------- */
static int ncpu = 1;
void m_ncpu(int n) { ncpu = n; }
int m_sched_getaffinity(int pid, u64 n, u8 *set) { (void)pid; memset(set, 0, n); for (int i = 0; i < ncpu; i++) set[i / 8] |= (u8)(1 << (i % 8)); return 0; }
i64 m_sysconf(int n) { return n == 30 ? 4096 : n == 84 || n == 83 ? ncpu : -1; }
i64 m_getrandom(u8 *b, u64 n, int fl) { (void)fl; memset(b, 7, n); return (i64)n; }
char *m_getenv(const char *n) { (void)n; return 0; }
void *m_dlsym(void *h, const char *n) { (void)h; (void)n; return 0; }
u64 m_getauxval(u64 t) { return t == 6 ? 4096 : 0; }
int m_sigaltstack(void *a, void *b) { (void)a; (void)b; return 0; }
int m___xpg_strerror_r(int e, char *b, u64 n) { (void)n; b[0] = 'E'; b[1] = (char)('0' + e / 100 % 10); b[2] = (char)('0' + e / 10 % 10); b[3] = (char)('0' + e % 10); b[4] = 0; return 0; }
int m_getaddrinfo(const char *a, const char *b, const void *h, void **o) { (void)a; (void)b; (void)h; (void)o; return -2; }
void m_freeaddrinfo(void *p) { (void)p; }
const char *m_gai_strerror(int e) { (void)e; return "name resolution"; }
int m___res_init(void) { return 0; }
const char *m_gnu_get_libc_version(void) { return "2.39"; }
int m_pause(void) { return 0; }
int m_getpid(void) { return 1; }
void *m_memrchr(const void *p, int c, u64 n) { for (const u8 *b = p; n--; ) if (b[n] == (u8)c) return (void *)(b + n); return 0; }
/* the command line: the function that the standard library has the dynamic linker call */
extern void _RNvNvNtNtNtNtCs8ZKwes1zzDd_3std3sys4args4unix3imp15ARGV_INIT_ARRAY12init_wrapper(int, const char **, const char **);
void m_args(int n, const char **a) { _RNvNvNtNtNtNtCs8ZKwes1zzDd_3std3sys4args4unix3imp15ARGV_INIT_ARRAY12init_wrapper(n, a, 0); }
/* 0: the run ends quietly; 1: it must not happen; 2: it must be a failure, with nothing listening; 3: a failure */
static int on_exit;
void __eng_end(void); void sym_cover(const char *);
void m_on_exit(int n) { on_exit = n; }
int m_isatty(int fd) { (void)fd; return errno_(25); }
void m_exit(int code) {
  if (on_exit == 1) sym_fail("exits");
  if (on_exit >= 2) { if (!code) sym_fail("exits as if nothing were wrong"); if (on_exit == 2 && m_listening(80)) sym_fail("listens before refusing"); sym_cover("refused"); __eng_end(); }
   sym_note("exit", (u64)code); __eng_exit_path(); }
i64 m_syscall(i64 n, i64 a, i64 b, i64 c, i64 d, i64 e, i64 f) {
  switch (n) {
  case 202: return os_futex((u32 *)a, (int)b, (u32)c, (const struct ts *)d, (u32)f);
  case 318: return m_getrandom((u8 *)a, (u64)b, 0);
  case 186: return m_gettid();
  case 332: return m_statx((int)a, (const char *)b, (int)c, (u32)d, (struct statx_ *)e);
  case 283: return m_timerfd_create((int)a, (int)b);
  case 291: return m_epoll_create1((int)a);
  case 290: return m_eventfd((u32)a, (int)b);
  case 286: return m_timerfd_settime((int)a, (int)b, (const struct its *)c, (struct its *)d);
  case 24: return m_sched_yield();
  }
  sym_note("system call", (u64)n); sym_fail("engine: unknown system call");
}
