/* Deterministic simulator runtime for potion.
   The parent is a fork server: it reads a plan, forks, and the child runs the real
   interpreter on a stack and in pages the simulator places, with every system call
   the program makes answered from simulated files, clock, terminal and network.
   All choices are hashes of (seed, class, counter), or, in replay, an explicit list. */
#include <malloc.h>
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <termios.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/ioctl.h>
#include <sys/personality.h>
#include <utime.h>

const char *const class_name[C_MAX] = { "gc", "mmap", "malloc", "open", "read", "write", "close", "stat", "seek",
  "fsync", "meta", "stdin", "stdout", "clock", "net", "loop", "crash", "tty", "dl", "sched" };

/* real functions */
#define REAL(r, n, a) extern r __real_##n a
REAL(int, open, (const char *, int, ...)); REAL(ssize_t, read, (int, void *, size_t)); REAL(int, remove, (const char *)); REAL(int, mkstemp, (char *));
REAL(ssize_t, write, (int, const void *, size_t)); REAL(int, close, (int));
REAL(void *, mmap, (void *, size_t, int, int, int, off_t)); REAL(int, munmap, (void *, size_t));
REAL(void *, malloc, (size_t)); REAL(void *, calloc, (size_t, size_t)); REAL(void *, realloc, (void *, size_t));
REAL(int, fseek, (FILE *, long, int));
REAL(FILE *, fopen, (const char *, const char *));

Result *R;
static u8 *arena; static u64 arena_size = 3ull << 30;
static int in_sim;                        /* set in the child once the program runs */
static u64 seed;
static int explicit_mode;
static FaultRate rates[MAXFAULT]; static int nrates;
static FaultAt *ats; static int nats;
static u32 gc_ppm, gc_major_pct; static u64 gc_from, gc_to = ~0ull; static int gc_site_mask = 3;
static __thread int gc_quiet;
static u64 max_steps = 400000000ull;
static char *knob_name[64]; static i64 knob_val[64]; static int nknobs;
static struct { char *key; u8 *v; size_t len; } texts[256]; static int ntexts;

u64 sim_seed(void) { return seed; }
static inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
u64 sim_hash(u64 cls, u64 n) { return mix(mix(seed + 0x9e3779b97f4a7c15ull * (cls + 1)) + n * 0xd1342543de82ef95ull); }
void sim_trace(u64 a, u64 b) { R->trace = mix(R->trace * 31 + a * 0x9e3779b97f4a7c15ull + b); }
i64 sim_knob(const char *name, i64 d) { for (int i = 0; i < nknobs; i++) if (!strcmp(knob_name[i], name)) return knob_val[i]; return d; }
const char *sim_text(const char *key, int idx, size_t *len) {
  for (int i = 0; i < ntexts; i++) if (!strcmp(texts[i].key, key) && idx-- == 0) { if (len) *len = texts[i].len; return (char *)texts[i].v; }
  return NULL;
}
void *sim_alloc(u64 n) { n = (n + 15) & ~15ull; if (R->used + n > arena_size) { static const char m[] = "arena full\n"; __real_write(2, m, sizeof m - 1); _exit(97); }
  void *p = arena + R->used; R->used += n; return p; }

/* ---- growing logs in the arena: each a fixed window ---- */
#define LOGWIN (16u << 20)
static u8 *outbuf, *errbuf, *viobuf, *logbuf;
static void put(u8 *b, u64 *len, const void *p, size_t n) { if (*len + n > LOGWIN) n = *len >= LOGWIN ? 0 : LOGWIN - *len; memcpy(b + *len, p, n); *len += n; }
void sim_violation(const char *fmt, ...) { char s[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(s, sizeof s - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof s - 2) n = sizeof s - 2; s[n++] = '\n'; if (R->viollen < 65536) put(viobuf, &R->viollen, s, n); }
void sim_log(const char *fmt, ...) { char s[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(s, sizeof s - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof s - 2) n = sizeof s - 2; s[n++] = '\n'; put(logbuf, &R->loglen, s, n); }

static void fire(int cls, u64 n, int kind) {
  R->fired[cls]++;
  if (R->nev < MAXEV) { R->ev[R->nev].cls = cls; R->ev[R->nev].n = n; R->ev[R->nev].kind = kind; R->nev++; } else R->nev_lost++;
  sim_trace(cls * 131 + kind, n);
}
int sim_decide_n(int cls, u64 *np) {
  u64 n = R->cnt[cls]++;
  if (np) *np = n;
  int kind = 0;
  if (explicit_mode) {
    int lo = 0, hi = nats; /* sorted by (cls, n) */
    while (lo < hi) { int m = (lo + hi) / 2; if (ats[m].cls < cls || (ats[m].cls == cls && ats[m].n < n)) lo = m + 1; else hi = m; }
    if (lo < nats && ats[lo].cls == cls && ats[lo].n == n) kind = ats[lo].kind;
  } else {
    for (int i = 0; i < nrates && !kind; i++) if (rates[i].cls == cls && rates[i].ppm) {
      u64 h = sim_hash(cls * 1000 + rates[i].kind, n);
      if (h % 1000000 < rates[i].ppm) kind = rates[i].kind;
    }
    if (!kind && nats) for (int i = 0; i < nats; i++) if (ats[i].cls == cls && ats[i].n == n) kind = ats[i].kind;
  }
  if (kind) fire(cls, n, kind);
  return kind;
}
int sim_decide(int cls) { return sim_decide_n(cls, NULL); }
static void step(void) { if (++R->steps > max_steps) { sim_violation("hang: more than %llu simulated steps", (unsigned long long)max_steps); sim_end(98); } }

/* ---- threads: one holds the token; it passes on where the interpreter allocates or meets a write barrier ---- */
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#define MAXTH 8
static struct { pthread_t t; sem_t go; int done; u8 *out; u64 len, cap; } th[MAXTH]; static int nth, th_cur = -1; static sem_t th_all; static void (*th_fn)(int); static u64 sched_ppm;
/* how long a wait took shows in what its frames leave behind: nothing of them stays for the collector to find */
__attribute__((noinline)) static void scrub(void) { volatile u64 w[512]; for (int i = 0; i < 512; i++) w[i] = 0; }
__attribute__((noinline)) static void th_wait(sem_t *s) { while (sem_wait(s)) ; }
static void th_pass(int to) { int me = th_cur; th_cur = to; sem_post(&th[to].go); if (!th[me].done) { th_wait(&th[me].go); scrub(); } }
static void sched_point(void) {
  if (nth < 2 || th_cur < 0) return;
  u64 n = R->cnt[C_SCHED]; int kind = 0;
  if (explicit_mode || nats) kind = sim_decide(C_SCHED);
  else { R->cnt[C_SCHED]++; u64 h = sim_hash(C_SCHED, n); if (h % 1000000 < sched_ppm) { kind = 1 + (h >> 32) % nth; if (kind - 1 != th_cur && !th[kind - 1].done) fire(C_SCHED, n, kind); else kind = 0; } }
  if (kind && kind <= nth && kind - 1 != th_cur && !th[kind - 1].done) { R->state_hash = R->state_hash * 31 + th_cur * 8 + kind; th_pass(kind - 1); }
}
static void *th_main(void *x) {
  int i = (int)(size_t)x; th_wait(&th[i].go); scrub();
  th_fn(i); fflush(stdout); th[i].done = 1;
  for (int k = 1; k <= nth; k++) { int j = (i + k) % nth; if (!th[j].done) { th_pass(j); goto end; } }
  th_cur = -1; sem_post(&th_all);
end: while (sem_wait(&th[i].go)) ;   /* no thread goes while another runs */
  return 0;
}
void sim_threads(int n, void (*fn)(int)) {
  if (n > MAXTH) n = MAXTH; mallopt(M_ARENA_MAX, 1); setvbuf(stdout, NULL, _IONBF, 0);
  nth = n; th_fn = fn; sched_ppm = sim_knob("schedppm", 0); sem_init(&th_all, 0, 0);
  for (int i = 0; i < n; i++) {
    size_t ss = 16 << 20; void *st = __real_mmap((void *)(0x190000000000ull + ((u64)i << 30)), ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, ss); sem_init(&th[i].go, 0, 0);
    if (st == MAP_FAILED || pthread_create(&th[i].t, &a, th_main, (void *)(size_t)i)) { sim_violation("simulator: no thread"); sim_end(99); }
  }
  th_cur = 0; sem_post(&th[0].go); while (sem_wait(&th_all)) ;
  for (int i = 0; i < n; i++) { sem_post(&th[i].go); pthread_join(th[i].t, NULL); char h[32]; int l = sprintf(h, "== thread %d\n", i); put(outbuf, &R->outlen, h, l); if (th[i].len) put(outbuf, &R->outlen, th[i].out, th[i].len); }
  nth = 0;
}
/* ---- collection hook ---- */
typedef struct Potion_State Potion;
void sim_memmon(Potion *P, int exact);
static int memmon;
int potion_sim_gc(Potion *P, int siz, int site) {
  if (!in_sim) return 0;
  if (++R->steps > max_steps) { sim_violation("hang: more than %llu simulated steps", (unsigned long long)max_steps); sim_end(98); }
  sched_point();
  if (gc_quiet) return 0;
  if (memmon) sim_memmon(P, memmon == 1);
  u64 n = R->cnt[C_GC]++;
  int kind = 0;
  if (explicit_mode) { R->cnt[C_GC]--; kind = sim_decide(C_GC); if (kind) R->gcs++; return kind; }
  if (nats) { R->cnt[C_GC]--; kind = sim_decide(C_GC); if (kind) { R->gcs++; return kind; } }
  if (!gc_ppm || n < gc_from || n >= gc_to || !(gc_site_mask & (1 << site))) return 0;
  u64 h = sim_hash(C_GC, n);
  if (h % 1000000 >= gc_ppm) return 0;
  kind = (h >> 40) % 100 < gc_major_pct ? 2 : 1;
  fire(C_GC, n, kind); R->gcs++; if (kind == 2) R->majors++;
  return kind;
}
int potion_sim_quiet(void) { if (sim_knob("frontend", 0)) return 0; gc_quiet++; return 1; }
void potion_sim_unquiet(int *x) { gc_quiet -= *x; }

/* a process boots in far less than its first page: no collection can strike there */
Potion *__real_potion_create(void *); 
Potion *__wrap_potion_create(void *sp) { gc_quiet++; Potion *P = __real_potion_create(sp); gc_quiet--; return P; }

/* ---- pages ---- */
#define PAGE_BASE 0x200000400000ull
static u64 page_next; 
typedef struct { u64 a, n; int x; } Page; static Page *pages; static int npages;
static void page_account(void) { R->bytes_live = 0; R->pages_live = npages; for (int i = 0; i < npages; i++) R->bytes_live += pages[i].n;
  if (R->bytes_live > R->bytes_peak) R->bytes_peak = R->bytes_live; }
void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (!in_sim) return __real_mmap(addr, len, prot, flags, fd, off);
  step(); R->maps++;
  u64 nth; if (sim_decide_n(C_MMAP, &nth)) { errno = ENOMEM; return MAP_FAILED; }
  u64 cap = sim_knob("memcap", 0), from = sim_knob("mmapfrom", 0);
  if (!explicit_mode && ((cap && R->bytes_live + len > cap) || (from && nth + 1 >= from))) { fire(C_MMAP, nth, 2); errno = ENOMEM; return MAP_FAILED; }
  len = (len + 4095) & ~4095ull;
  u64 a;
  u64 gap = sim_knob("gap", 16);
  a = page_next + 4096 * (sim_hash(C_MMAP + 100, R->maps) % (gap + 1) + 1);
  page_next = a + len;
  void *p = __real_mmap((void *)a, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return p;
  pages[npages].a = a; pages[npages].x = prot & PROT_EXEC; pages[npages++].n = len;
  page_account();
  sim_trace(77, len);
  return p;
}
int __wrap_munmap(void *addr, size_t len) {
  if (!in_sim) return __real_munmap(addr, len);
  step(); R->unmaps++;
  u64 a = (u64)addr, e;
  if (a & 4095) { sim_violation("munmap of unaligned address"); errno = EINVAL; return -1; }
  if (!len) return 0;
  len = (len + 4095) & ~4095ull; e = a + len;
  sim_trace(78, len);
  u64 left = len;
  for (int i = 0; i < npages; i++) {
    u64 pa = pages[i].a, pe = pa + pages[i].n;
    if (pe <= a || pa >= e) continue;
    u64 ca = pa > a ? pa : a, ce = pe < e ? pe : e;
    left -= ce - ca;
    if (ca > pa && ce < pe) { pages[i].n = ca - pa; pages[npages].a = ce; pages[npages].x = pages[i].x; pages[npages++].n = pe - ce; }
    else if (ca > pa) pages[i].n = ca - pa;
    else if (ce < pe) { pages[i].a = ce; pages[i].n = pe - ce; }
    else { pages[i] = pages[--npages]; i--; }
  }
  if (left) sim_violation("munmap of %llu bytes that are not mapped (of %llu)", (unsigned long long)left, (unsigned long long)len);
  page_account();
  return __real_munmap(addr, len);
}
u64 sim_mapped_data(void) { u64 t = 0; for (int i = 0; i < npages; i++) if (!pages[i].x) t += pages[i].n; return t; }
int sim_mapped(u64 a, u64 n) { for (int i = 0; i < npages; i++) if (a >= pages[i].a && a + n <= pages[i].a + pages[i].n) return 1; return 0; }

/* ---- malloc ---- */
static int malloc_on(void) { return in_sim && sim_knob("mallocfault", 0); }
static int malloc_refused(void) {
  if (!malloc_on()) return 0;
  u64 nth, from = sim_knob("mallocfrom", 0);
  if (sim_decide_n(C_MALLOC, &nth)) return 1;
  if (!explicit_mode && from && nth + 1 >= from) { fire(C_MALLOC, nth, 2); return 1; }
  return 0;
}
void *__wrap_malloc(size_t n) { if (malloc_refused()) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (malloc_refused()) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (malloc_refused()) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }

/* ---- simulated files ---- */
static SFile *files; static int *nfilesp;
SFd fds[MAXFD];
static const u8 *stdin_data; static size_t stdin_len, stdin_pos; static int stdin_tty;
/* ordered list of directory operations not yet durable */
typedef struct { int op; int f; int g; } MetaOp; static MetaOp *metas; static int *nmetas;
static char cwd[] = "/work";
static void norm(const char *p, char *o) { /* absolute, without ./ and // */
  static __thread char t[1024]; snprintf(t, sizeof t, "%s%s%s", p[0] == '/' ? "" : cwd, p[0] == '/' ? "" : "/", p);
  char *d = o; const char *s = t;
  while (*s) { while (*s == '/') s++; if (!*s) break; const char *e = strchr(s, '/'); size_t n = e ? (size_t)(e - s) : strlen(s);
    if (n == 1 && s[0] == '.') {} else if (n == 2 && s[0] == '.' && s[1] == '.') { while (d > o && *--d != '/'); }
    else if (d - o + n + 2 < 250) { *d++ = '/'; memcpy(d, s, n); d += n; } s += n; }
  if (d == o) *d++ = '/'; *d = 0; }
static SFile *lookup(const char *p) { static __thread char o[256]; norm(p, o); for (int i = 0; i < *nfilesp; i++) if (files[i].exists && !strcmp(files[i].path, o)) return &files[i]; return NULL; }
static SFile *mkfile(const char *p) { static __thread char o[256]; norm(p, o);
  if (*nfilesp >= MAXFILES) return NULL; SFile *f = &files[(*nfilesp)++]; memset(f, 0, sizeof *f); strcpy(f->path, o); f->exists = 1; f->mode = 0644; return f; }
static void fgrow(u8 **d, i64 *cap, i64 need) { if (need <= *cap) return; i64 c = *cap ? *cap : 4096; while (c < need) c *= 2; u8 *n = sim_alloc(c); if (*d) memcpy(n, *d, *cap); *d = n; *cap = c; }
static i64 fwrite_at(SFile *f, i64 pos, const void *b, i64 n) { if (n == 0) return 0; if (pos + n > (8 << 20)) { errno = EFBIG; return -1; }
  if (pos + n > f->len) { fgrow(&f->data, &f->cap, pos + n); if (pos > f->len) memset(f->data + f->len, 0, pos - f->len); f->len = pos + n; }
  memcpy(f->data + pos, b, n); return n; }
/* directory operations become durable in the order they were made */
static void metas_sync(int upto) { for (int i = 0; i < upto; i++) { if (metas[i].op == 1) files[metas[i].f].durexists = 1; else if (metas[i].op == 2) files[metas[i].f].durexists = 0;
    else { int g = metas[i].g >> 12; files[metas[i].f].durexists = 1; files[metas[i].g & 4095].durexists = 0; if (g) files[g - 1].durexists = 0; } }
  *nmetas -= upto; memmove(metas, metas + upto, *nmetas * sizeof *metas); }
static void fsync_file(SFile *f) { int u = 0; for (int i = 0; i < *nmetas; i++) if (metas[i].op != 2 && metas[i].f == f - files) u = i + 1; if (u) metas_sync(u); fgrow(&f->dur, &f->durcap, f->len); memcpy(f->dur, f->data, f->len); f->durlen = f->len; if (f->exists) f->durexists = 1; }
static i64 disk_used(void) { i64 t = 0; for (int i = 0; i < *nfilesp; i++) if (files[i].exists) t += files[i].len; return t; }

int fd_new(int kind) { static int lim; if (!lim) { lim = sim_knob("maxfd", MAXFD); if (lim > MAXFD) lim = MAXFD; } for (int i = 3; i < lim; i++) if (fds[i].kind == FD_NONE) { memset(&fds[i], 0, sizeof fds[i]); fds[i].kind = kind; return i; } errno = EMFILE; return -1; }
static int okfd(int fd) { if (fd < 0 || fd >= MAXFD || fds[fd].kind == FD_NONE) { errno = EBADF; return 0; } return 1; }

/* fault kinds for I/O classes */
enum { K_EIO = 1, K_SHORT = 2, K_EINTR = 3, K_ENOSPC = 4, K_EACCES = 5, K_ENOENT = 6, K_EMFILE = 7, K_ENOMEM = 8, K_EAGAIN = 9, K_EDQUOT = 10, K_CUT = 11, K_GROWN = 12 /* another process changes the file */ };
static int kerr(int k) { switch (k) { case K_EINTR: return EINTR; case K_ENOSPC: return ENOSPC; case K_EACCES: return EACCES; case K_ENOENT: return ENOENT;
  case K_EMFILE: return EMFILE; case K_ENOMEM: return ENOMEM; case K_EAGAIN: return EAGAIN; case K_EDQUOT: return EDQUOT; } return EIO; }
/* a crash: the program stops dead at this I/O operation */
static void crash_point(void) { if (sim_decide(C_CRASH)) { R->crashed_io = 1; in_sim = 0; _exit(0); } }

static int do_open(const char *p, int flags, int mode) {
  step(); crash_point();
  int k = sim_decide(C_OPEN);
  sim_trace(1, flags);
  if (k && k != K_SHORT) { errno = kerr(k); return -1; }
  SFile *f = lookup(p);
  if (f && f->isdir) { if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } int fd = fd_new(FD_DIR); if (fd >= 0) fds[fd].f = f; return fd; }
  if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (f && !(f->mode & 0444) && (flags & O_ACCMODE) != O_WRONLY) { errno = EACCES; return -1; }
  if (f && !(f->mode & 0222) && (flags & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; }
  if (!f) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    static __thread char o[256]; norm(p, o); char *s = strrchr(o, '/'); if (s != o) { *s = 0; SFile *d = lookup(o); if (!d || !d->isdir) { errno = ENOENT; return -1; } }
    f = mkfile(p); if (!f) { errno = ENOSPC; return -1; }
    metas[*nmetas].op = 1; metas[*nmetas].f = f - files; (*nmetas)++; }
  if (flags & O_TRUNC && (flags & O_ACCMODE) != O_RDONLY) f->len = 0;
  int fd = fd_new(FD_FILE); if (fd < 0) return -1;
  fds[fd].f = f; fds[fd].flags = flags; fds[fd].app = !!(flags & O_APPEND);
  return fd;
}
int __wrap_open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (!in_sim) return __real_open(p, flags, m); return do_open(p, flags, m); }
int __wrap_open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  if (!in_sim) return __real_open(p, flags, m); return do_open(p, flags, m); }

static ssize_t stdin_read(void *b, size_t n) {
  u64 c; 
  int k = sim_decide_n(C_STDIN, &c);
  if (k == K_EINTR || k == K_EIO || k == K_EAGAIN) { errno = kerr(k); return -1; }
  size_t left = stdin_len - stdin_pos; if (n > left) n = left;
  i64 chunk = sim_knob("stdin_chunk", 0);
  if (n > 1 && (k == K_SHORT || chunk)) { size_t m = 1 + sim_hash(C_STDIN + 200, c) % (chunk ? (u64)chunk : n); if (m < n) n = m; }
  memcpy(b, stdin_data + stdin_pos, n); stdin_pos += n; sim_trace(2, n);
  return n;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!in_sim) return __real_read(fd, b, n);
  step(); if (!okfd(fd)) return -1;
  SFd *d = &fds[fd];
  if (d->kind == FD_STDIN) return stdin_read(b, n);
  if (d->kind == FD_DIR) { errno = EISDIR; return -1; }
  if (d->kind >= FD_EPOLL) return net_read(fd, b, n);
  if (d->kind != FD_FILE || (d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  u64 c; int k = sim_decide_n(C_READ, &c);
  if (k == K_CUT && d->f->len > 0) { d->cut = 1 + sim_hash(C_READ + 300, c) % d->f->len; k = 0; } /* for this open file: it is whole again later */
  if (k == K_GROWN) { static const char g[] = "\n\"GROWN\" say\n"; fwrite_at(d->f, d->f->len, g, sizeof g - 1); k = 0; }
  if (k && k != K_SHORT) { errno = kerr(k); return -1; }
  if ((ssize_t)n < 0) { errno = EINVAL; return -1; }
  i64 left = (d->cut ? d->cut - 1 : d->f->len) - d->pos; if (left < 0) left = 0; if ((i64)n > left) n = left;
  if (k == K_SHORT && n > 1) n = 1 + sim_hash(C_READ + 200, c) % (n - 1);
  memcpy(b, d->f->data + d->pos, n); d->pos += n; sim_trace(3, n);
  return n;
}
static ssize_t out_write(int fd, const void *b, size_t n) {
  u64 c; int k = fds[fd].kind == FD_STDOUT ? sim_decide_n(C_STDOUT, &c) : 0;
  if (k && k != K_SHORT) { errno = kerr(k); return -1; }
  if (k == K_SHORT && n > 1) n = 1 + sim_hash(C_STDOUT + 200, c) % (n - 1);
  if (fds[fd].kind == FD_STDOUT && th_cur >= 0) {
    if (th[th_cur].len + n > th[th_cur].cap && th[th_cur].cap < 4 << 20) { th[th_cur].cap = (th[th_cur].len + n) * 2; th[th_cur].out = __real_realloc(th[th_cur].out, th[th_cur].cap); }
    if (th[th_cur].len + n <= th[th_cur].cap) { memcpy(th[th_cur].out + th[th_cur].len, b, n); th[th_cur].len += n; }
  } else if (fds[fd].kind == FD_STDOUT) put(outbuf, &R->outlen, b, n); else put(errbuf, &R->errlen, b, n);
  return n;
}
static ssize_t file_write(int fd, const void *b, size_t n, i64 pos, int usepos) {
  SFd *d = &fds[fd];
  crash_point();
  u64 c; int k = sim_decide_n(C_WRITE, &c);
  if (k && k != K_SHORT) { errno = kerr(k); return -1; }
  if (k == K_SHORT && n > 1) n = 1 + sim_hash(C_WRITE + 200, c) % (n - 1);
  i64 cap = sim_knob("diskcap", 0);
  if (cap) { i64 room = cap - disk_used(); i64 p = usepos ? pos : d->app ? d->f->len : d->pos; i64 grow = p + (i64)n - d->f->len;
    if (grow > 0 && grow > room) { if (room <= 0 || grow - room >= (i64)n) { fire(C_WRITE, c, K_ENOSPC + 100); errno = ENOSPC; return -1; } n -= grow - room; fire(C_WRITE, c, K_SHORT + 100); } }
  i64 p = usepos ? pos : d->app ? d->f->len : d->pos;
  i64 r = fwrite_at(d->f, p, b, n); if (r < 0) return -1;
  if (!usepos) d->pos = p + r;
  sim_trace(4, r); return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!in_sim) return __real_write(fd, b, n);
  step(); if (!okfd(fd)) return -1;
  SFd *d = &fds[fd];
  if ((ssize_t)n < 0) { errno = EINVAL; return -1; }
  if (fd == 1 && R->tty_raw) R->raw_out++;
  if (d->kind == FD_STDOUT || d->kind == FD_STDERR || (d->kind == FD_STDIN && stdin_tty)) return out_write(fd == 0 ? 1 : fd, b, n);
  if (d->kind >= FD_EPOLL) return net_write(fd, b, n);
  if (d->kind != FD_FILE || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  return file_write(fd, b, n, 0, 0);
}
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t pos) {
  step(); if (!okfd(fd)) return -1; SFd *d = &fds[fd];
  u64 c; int k = sim_decide_n(C_READ, &c); if (k && k != K_SHORT) { errno = kerr(k); return -1; }
  i64 left = d->f->len - pos; if (left < 0) left = 0; if ((i64)n > left) n = left;
  if (k == K_SHORT && n > 1) n = 1 + sim_hash(C_READ + 200, c) % (n - 1);
  memcpy(b, d->f->data + pos, n); sim_trace(5, n); return n;
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t pos) { step(); if (!okfd(fd)) return -1; return file_write(fd, b, n, pos, 1); }
int __wrap_close(int fd) {
  if (!in_sim) return __real_close(fd);
  step(); if (!okfd(fd)) return -1;
  if (fds[fd].kind >= FD_EPOLL) return net_close(fd);
  int k = fds[fd].kind == FD_FILE ? sim_decide(C_CLOSE) : 0;
  if (k == K_EINTR && sim_knob("close_eintr_keeps", 0)) { errno = EINTR; return -1; }
  fds[fd].kind = FD_NONE; sim_trace(6, fd);
  if (k) { errno = kerr(k); return -1; }
  return 0;
}
static int do_stat(SFile *f, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = (f->isdir ? S_IFDIR : S_IFREG) | f->mode; st->st_size = f->len; st->st_ino = f - files + 10; st->st_dev = 1; st->st_nlink = 1; st->st_blksize = 4096; return 0; }
static int unexaminable(const char *p) { static __thread char o[256], q[256]; norm(p, o); for (int i = 0; ; i++) { size_t l; const char *t = sim_text("badstat", i, &l); if (!t) return 0; static __thread char b[256]; if (l > 255) l = 255; memcpy(b, t, l); b[l] = 0; norm(b, q); if (!strcmp(o, q)) return 1; } }
static int path_stat(const char *p, struct stat *st) { step(); int k = sim_decide(C_STAT); if (!k && unexaminable(p)) { errno = EACCES; return -1; } if (k && k != K_SHORT) { errno = kerr(k); return -1; } SFile *f = lookup(p); sim_trace(7, f ? 1 : 0);
  if (!f) { errno = ENOENT; return -1; } return do_stat(f, st); }
int __wrap_stat(const char *p, struct stat *st) { return path_stat(p, st); }
int __wrap_stat64(const char *p, struct stat *st) { return path_stat(p, st); }
int __wrap_lstat64(const char *p, struct stat *st) { return path_stat(p, st); }
int __wrap_fstat64(int fd, struct stat *st) { step(); if (!okfd(fd)) return -1; if (!fds[fd].f) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; } int k = sim_decide(C_STAT); if (k && k != K_SHORT) { errno = kerr(k); return -1; } return do_stat(fds[fd].f, st); }
off_t __wrap_lseek(int fd, off_t o, int w) { step(); if (!okfd(fd)) return -1; SFd *d = &fds[fd]; if (d->kind != FD_FILE) { errno = ESPIPE; return -1; }
  if (sim_decide(C_SEEK)) { errno = EIO; return -1; }
  i64 p = w == SEEK_SET ? o : w == SEEK_CUR ? d->pos + o : d->f->len + o; if (p < 0) { errno = EINVAL; return -1; } d->pos = p; return p; }
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); if (!okfd(fd)) return -1;
  switch (cmd) { case F_GETFL: return fds[fd].flags; case F_SETFL: fds[fd].flags = (int)(long)a; return 0; case F_GETFD: return 0; case F_SETFD: return 0;
    case F_SETLK: case F_SETLKW: return 0; case F_GETLK: ((struct flock *)a)->l_type = F_UNLCK; return 0; } errno = EINVAL; return -1; }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return __wrap_fcntl(fd, cmd, a); }
int __wrap_unlink(const char *p);
int __wrap_remove(const char *p) { if (!in_sim) return __real_remove(p); return __wrap_unlink(p); }
int __wrap_mkstemp(char *t) { size_t n = strlen(t); static int c; if (!in_sim) return __real_mkstemp(t); if (n < 6) { errno = EINVAL; return -1; }
  for (int i = 0; i < 1000; i++) { char b[8]; snprintf(b, sizeof b, "s%05d", c++ % 100000); memcpy(t + n - 6, b, 6); if (!lookup(t)) return do_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (errno != ENOENT && !lookup(t)) return -1; }
  errno = EEXIST; return -1; }
int __wrap_access(const char *p, int m) { step(); SFile *f = lookup(p); if (!f) { errno = ENOENT; return -1; } return 0; }
int __wrap_unlink(const char *p) { step(); crash_point(); int k = sim_decide(C_META); if (k) { errno = kerr(k); return -1; } SFile *f = lookup(p); if (!f) { errno = ENOENT; return -1; }
  f->exists = 0; metas[*nmetas].op = 2; metas[*nmetas].f = f - files; (*nmetas)++; sim_trace(8, 0); return 0; }
int __wrap_rename(const char *a, const char *b) { step(); crash_point(); int k = sim_decide(C_META); if (k) { errno = kerr(k); return -1; } SFile *f = lookup(a), *g = lookup(b); if (!f) { errno = ENOENT; return -1; }
  /* the target entry is replaced atomically: a new file object takes the name */
  static __thread char o[256]; norm(b, o); SFile *n = mkfile(b); if (!n) { errno = ENOSPC; return -1; }
  n->data = f->data; n->len = f->len; n->cap = f->cap; n->dur = f->dur; n->durlen = f->durlen; n->durcap = f->durcap; n->mode = f->mode; n->durexists = 0;
  f->exists = 0; f->data = NULL; f->len = f->cap = 0; if (g) g->exists = 0; 
  for (int i = 0; i < MAXFD; i++) if (fds[i].kind == FD_FILE && fds[i].f == f) fds[i].f = n;
  metas[*nmetas].op = 3; metas[*nmetas].f = n - files; metas[*nmetas].g = (f - files) | ((g ? g - files + 1 : 0) << 12); (*nmetas)++; return 0; }
int __wrap_ftruncate64(int fd, off_t n) { step(); crash_point(); if (!okfd(fd)) return -1; int k = sim_decide(C_META); if (k) { errno = kerr(k); return -1; } SFile *f = fds[fd].f; if (n > f->len) { fgrow(&f->data, &f->cap, n); memset(f->data + f->len, 0, n - f->len); } f->len = n; return 0; }
static int do_fsync(int fd) { step(); crash_point(); if (!okfd(fd)) return -1; int k = sim_decide(C_FSYNC); if (k) { errno = kerr(k); return -1; }
  if (fds[fd].kind == FD_DIR) { metas_sync(*nmetas); return 0; }
  if (fds[fd].f) fsync_file(fds[fd].f); sim_trace(9, 0); return 0; }
int __wrap_fsync(int fd) { return do_fsync(fd); }
int __wrap_fdatasync(int fd) { return do_fsync(fd); }
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { errno = lookup(p) ? EINVAL : ENOENT; return -1; }
int __wrap_mkdir(const char *p, mode_t m) { step(); if (lookup(p)) { errno = EEXIST; return -1; } SFile *f = mkfile(p); f->isdir = 1; f->durexists = 1; f->mode = 0755; return 0; }
int __wrap_rmdir(const char *p) { errno = ENOTEMPTY; return -1; }
char *__wrap_getcwd(char *b, size_t n) { strcpy(b, cwd); return b; }
uid_t __wrap_geteuid(void) { return 1000; }
int __wrap_fchmod(int fd, mode_t m) { return 0; }
int __wrap_fchown(int fd, uid_t a, gid_t b) { return 0; }
int __wrap_utime(const char *p, const struct utimbuf *t) { return 0; }
int __wrap_creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* ---- terminal ---- */
static struct termios tty_state;
int __wrap_isatty(int fd) { if (!in_sim) return 0; if (fd == 0 && stdin_tty) return 1; if (fd >= 0 && fd <= 2 && stdin_tty) return 1; errno = ENOTTY; return 0; }
int __wrap_tcgetattr(int fd, struct termios *t) { step(); if (!stdin_tty) { errno = ENOTTY; return -1; } int k = sim_decide(C_TTY); if (k) { errno = EIO; return -1; } *t = tty_state; return 0; }
int __wrap_tcsetattr(int fd, int a, const struct termios *t) { step(); if (!stdin_tty) { errno = ENOTTY; return -1; } int k = sim_decide(C_TTY); if (k) { errno = k == K_EINTR ? EINTR : EIO; return -1; } tty_state = *t;
  R->tty_changes++; R->tty_raw = !(tty_state.c_lflag & ICANON); return 0; }
int __wrap_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap); step();
  if (req == TIOCGWINSZ) { if (sim_knob("tty_cols", 80) < 0) { errno = ENOTTY; return -1; } struct winsize *w = a; memset(w, 0, sizeof *w); w->ws_col = sim_knob("tty_cols", 80); w->ws_row = 24; return 0; }
  if (req == FIONBIO) { if (*(int *)a) fds[fd].flags |= O_NONBLOCK; else fds[fd].flags &= ~O_NONBLOCK; return 0; }
  if (req == FIONREAD) { *(int *)a = 0; return 0; }
  errno = ENOTTY; return -1; }

/* ---- clock ---- */
static void tick(void) { R->now += 1000 + sim_hash(C_CLOCK, R->cnt[C_CLOCK]++) % 2000; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!in_sim) { t->tv_sec = t->tv_nsec = 0; return 0; } step(); tick();
  u64 n = R->now; if (c == CLOCK_REALTIME) n += 1700000000ull * 1000000000ull + sim_knob("wall_skew", 0) * 1000000000ull; else {
    n += sim_knob("mono_base_s", 100000) * 1000000000ull;
    if (sim_knob("stamp", 0)) { char l[48]; fflush(stdout); put(outbuf, &R->outlen, l, sprintf(l, "\x01%llu\n", (unsigned long long)(n / 1000000))); } } /* the event loop read its clock */
  t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; }
pid_t __wrap_getpid(void) { extern pid_t __real_getpid(void); return in_sim ? 4242 : __real_getpid(); }
time_t __wrap_time(time_t *p) { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int __wrap_gettimeofday(struct timeval *v, void *z) { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { step(); R->now += t->tv_sec * 1000000000ull + t->tv_nsec; return 0; }

/* ---- stdio over the simulated files ---- */
typedef struct { int fd; } Ck;
static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read(((Ck *)c)->fd, b, n); }
/* as glibc's own file streams: go on until all is written or a write fails */
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t done = 0; while (done < n) { ssize_t r = __wrap_write(((Ck *)c)->fd, b + done, n - done); if (r < 0) break; done += r; } return done; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = __wrap_lseek(((Ck *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return __wrap_close(((Ck *)c)->fd); }
static struct { FILE *f; int fd; } fmap[256]; static int nfmap;
static FILE *mk_stream(int fd, const char *mode) { Ck *c = __real_malloc(sizeof *c); c->fd = fd; cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE *f = fopencookie(c, mode, io); if (f) { if (fds[fd].kind == FD_STDIN || fds[fd].kind == FD_STDOUT || fds[fd].kind == FD_STDERR) {} 
    for (int i = 0; i < nfmap; i++) if (fmap[i].f == f) { fmap[i].fd = fd; return f; } if (nfmap < 256) { fmap[nfmap].f = f; fmap[nfmap++].fd = fd; } } return f; }
static int mode_flags(const char *m) { int p = strchr(m, '+') != NULL; switch (m[0]) { case 'r': return p ? O_RDWR : O_RDONLY; case 'w': return (p ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; case 'a': return (p ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; } return -1; }
FILE *__wrap_fopen(const char *p, const char *m) { if (!in_sim) return __real_fopen(p, m); int fl = mode_flags(m); if (fl < 0) { errno = EINVAL; return NULL; } int fd = do_open(p, fl, 0666); if (fd < 0) return NULL; if (fds[fd].kind == FD_DIR) { } return mk_stream(fd, m); }
FILE *__wrap_fdopen(int fd, const char *m) { if (!okfd(fd)) return NULL; if (mode_flags(m) < 0) { errno = EINVAL; return NULL; } return mk_stream(fd, m); }
FILE *__wrap_tmpfile(void) { char n[64]; static int k; snprintf(n, sizeof n, "/tmp/sim%d", k++); int fd = do_open(n, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd < 0) return NULL; fds[fd].f->exists = 0; return mk_stream(fd, "w+"); }
int __wrap_fileno(FILE *f) { for (int i = nfmap - 1; i >= 0; i--) if (fmap[i].f == f) { if (fds[fmap[i].fd].kind == FD_NONE) { errno = EBADF; return -1; } return fmap[i].fd; } errno = EBADF; return -1; }
/* glibc's cookie streams lose the position when a relative seek follows a write; its file streams do not */
int __wrap_fseek(FILE *f, long o, int w) { int sim = 0; for (int i = 0; i < nfmap; i++) if (fmap[i].f == f) sim = 1; if (!sim) return __real_fseek(f, o, w);
  if (w == SEEK_CUR) { long p = ftell(f); if (p < 0) return -1; o += p; w = SEEK_SET; } if (fflush(f)) return -1; if (w == SEEK_SET && o < 0) { errno = EINVAL; return -1; } return __real_fseek(f, o, w); }
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { if (f) fclose(f); return __wrap_fopen(p, m); }

/* ---- dynamic libraries: the real ones, linked in, found by file content ---- */
void Potion_Init_readline(Potion *), Potion_Init_buffile(Potion *), Potion_Init_aio(Potion *), Potion_Init_database(Potion *);
static char dlerr[256]; static int dlerr_set;
static void init_probe(Potion *P) { sim_log("probe-init"); fputs("probe loaded\n", stdout); }
void *__wrap_dlopen(const char *p, int fl) { step(); int k = sim_decide(C_DL); SFile *f = k ? NULL : lookup(p);
  sim_log("dlopen %s %s", p, f ? "ok" : "fail");
  if (!f || !(f->mode & 0444) || f->len < 4 || memcmp(f->data, "SIML", 4)) { snprintf(dlerr, sizeof dlerr, "%s: cannot open shared object file", p); dlerr_set = 1; return NULL; } return f; }
void *__wrap_dlsym(void *h, const char *s) { sim_log("dlsym %s", s);
  if (h && !strcmp(s, "Potion_Init_readline")) return Potion_Init_readline; if (h && !strcmp(s, "Potion_Init_buffile")) return Potion_Init_buffile;
  if (h && !strcmp(s, "Potion_Init_aio")) return Potion_Init_aio; if (h && !strcmp(s, "Potion_Init_database")) return Potion_Init_database;
  if (h && !strcmp(s, "Potion_Init_probe")) return init_probe;
  snprintf(dlerr, sizeof dlerr, "undefined symbol: %s", s); dlerr_set = 1; return NULL; }
int __wrap_dlclose(void *h) { return 0; }
char *__wrap_dlerror(void) { if (!dlerr_set) return NULL; dlerr_set = 0; return dlerr; }

/* ---- child ---- */
extern int potion_main(int, char **);
static int c_argc; static char **c_argv; static char *c_mode = "main";
static jmp_buf endjb;
void sim_end(int code) { R->exitcode = code; R->exited = 1; in_sim = 0; _exit(0); }
static int exit_code_seen;
static void at_exit_status(int code, void *x) { R->exitcode = code; R->exited = 1; }
static void run_child(void) {
  int rc;
  if (!strcmp(c_mode, "main")) rc = potion_main(c_argc, c_argv); else rc = work_main(c_mode);
  exit(rc);
}
static void *stack_top;
__attribute__((noinline)) static void on_stack(void) {
  __asm__ volatile("mov %0, %%rsp\n\txor %%ebp, %%ebp\n\tcall *%1\n\tud2" : : "r"(stack_top), "r"(run_child) : "memory");
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static u8 *unhex(char *h, size_t *n) { size_t l = strlen(h) / 2; u8 *b = __real_malloc(l + 1); for (size_t i = 0; i < l; i++) b[i] = hexv(h[2 * i]) << 4 | hexv(h[2 * i + 1]); b[l] = 0; if (n) *n = l; return b; }
static int cls_of(const char *s) { for (int i = 0; i < C_MAX; i++) if (!strcmp(class_name[i], s)) return i; fprintf(stderr, "bad class %s\n", s); _exit(96); }
static int cmp_at(const void *a, const void *b) { const FaultAt *x = a, *y = b; return x->cls != y->cls ? x->cls - y->cls : x->n < y->n ? -1 : x->n > y->n; }
extern char **environ;
static int stack_fill;
static void parse_plan(char *s) {
  static char *argvv[256]; static char *envv[256]; int na = 0, ne = 0; argvv[na++] = "potion";
  ats = __real_malloc(sizeof(FaultAt) * 200000);
  while (*s) { char *e = strchr(s, '\n'); if (e) *e = 0; char *a[6]; int n = 0; char *t = s; while (n < 6 && (a[n] = strsep(&t, " "))) n++;
    if (!n || !*a[0]) {} 
    else if (!strcmp(a[0], "mode")) c_mode = strdup(a[1]);
    else if (!strcmp(a[0], "seed")) seed = strtoull(a[1], 0, 10);
    else if (!strcmp(a[0], "arg")) argvv[na++] = (char *)unhex(n > 1 ? a[1] : "", 0);
    else if (!strcmp(a[0], "env")) envv[ne++] = (char *)unhex(a[1], 0);
    else if (!strcmp(a[0], "text")) { texts[ntexts].key = strdup(a[1]); texts[ntexts].v = unhex(n > 2 ? a[2] : "", &texts[ntexts].len); ntexts++; }
    else if (!strcmp(a[0], "stdin")) { stdin_data = unhex(n > 1 ? a[1] : "", &stdin_len); }
    else if (!strcmp(a[0], "tty")) stdin_tty = atoi(a[1]);
    else if (!strcmp(a[0], "file")) { /* file PATHHEX MODE(octal) DATAHEX [d]  */ char *p = (char *)unhex(a[1], 0); SFile *f = mkfile(p); f->mode = strtol(a[2], 0, 8); size_t l; u8 *d = unhex(n > 3 ? a[3] : "", &l); fwrite_at(f, 0, d, l); fsync_file(f); }
    else if (!strcmp(a[0], "dir")) { SFile *f = mkfile((char *)unhex(a[1], 0)); f->isdir = 1; f->mode = 0755; f->durexists = 1; }
    else if (!strcmp(a[0], "gc")) { gc_ppm = atoi(a[1]); gc_major_pct = atoi(a[2]); if (n > 4) { gc_from = strtoull(a[3], 0, 10); gc_to = strtoull(a[4], 0, 10); } if (n > 5) gc_site_mask = atoi(a[5]); }
    else if (!strcmp(a[0], "fault")) { rates[nrates].cls = cls_of(a[1]); rates[nrates].kind = atoi(a[2]); rates[nrates].ppm = atoi(a[3]); if (nrates < MAXFAULT - 1) nrates++; }
    else if (!strcmp(a[0], "at")) { ats[nats].cls = cls_of(a[1]); ats[nats].n = strtoull(a[2], 0, 10); ats[nats].kind = atoi(a[3]); nats++; }
    else if (!strcmp(a[0], "explicit")) explicit_mode = 1;
    else if (!strcmp(a[0], "steps")) max_steps = strtoull(a[1], 0, 10);
    else if (!strcmp(a[0], "stackfill")) stack_fill = atoi(a[1]);
    else if (!strcmp(a[0], "knob")) { knob_name[nknobs] = strdup(a[1]); knob_val[nknobs++] = strtoll(a[2], 0, 10); }
    else { fprintf(stderr, "bad plan line %s\n", a[0]); _exit(96); }
    if (!e) break; s = e + 1; }
  argvv[na] = NULL; envv[ne] = NULL; c_argc = na; c_argv = argvv; environ = envv;
  qsort(ats, nats, sizeof *ats, cmp_at);
}
static u64 fixed_used;
static void arena_reset(void) {
  R->used = 0; Result *r = sim_alloc(sizeof(Result)); memset(r, 0, sizeof *r); R = r; R->used = sizeof(Result) + 64;
  outbuf = sim_alloc(LOGWIN); errbuf = sim_alloc(LOGWIN); viobuf = sim_alloc(LOGWIN); logbuf = sim_alloc(LOGWIN);
  files = sim_alloc(sizeof(SFile) * MAXFILES); nfilesp = sim_alloc(64); *nfilesp = 0;
  metas = sim_alloc(sizeof(MetaOp) * 4096); nmetas = sim_alloc(64); *nmetas = 0;
  fixed_used = R->used;
}
static void child(char *plan) {
  pages = __real_malloc(sizeof(Page) * 65536); npages = 0; page_next = PAGE_BASE;
  SFile *r = mkfile("/"); r->isdir = 1; r->mode = 0755; r->durexists = 1; r = mkfile("/work"); r->isdir = 1; r->mode = 0755; r->durexists = 1; r = mkfile("/tmp"); r->isdir = 1; r->mode = 0755; r->durexists = 1;
  parse_plan(plan);
  page_next = PAGE_BASE + (sim_knob("layout", 0) << 21);
  memset(fds, 0, sizeof fds); fds[0].kind = FD_STDIN; fds[1].kind = FD_STDOUT; fds[1].flags = O_WRONLY; fds[2].kind = FD_STDERR; fds[2].flags = O_WRONLY;
  memset(&tty_state, 0, sizeof tty_state); tty_state.c_lflag = ICANON | ECHO | ISIG | IEXTEN; tty_state.c_iflag = ICRNL | IXON; tty_state.c_oflag = OPOST;
  stdin = mk_stream(0, "r"); stdout = mk_stream(1, "w"); stderr = mk_stream(2, "w");
  setvbuf(stderr, NULL, _IONBF, 0); if (stdin_tty) setvbuf(stdout, NULL, _IOLBF, BUFSIZ); else { size_t z = sim_knob("outbuf", 4096); setvbuf(stdout, sim_alloc(z), _IOFBF, z); } { size_t z = sim_knob("inbuf", 4096); setvbuf(stdin, sim_alloc(z), _IOFBF, z); }
  on_exit(at_exit_status, NULL);
  size_t ss = 64ull << 20; u8 *st = __real_mmap((void *)(0x180000000000ull + ((u64)sim_knob("stacklayout", 0) << 16)), ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (st == MAP_FAILED) _exit(95);
  if (stack_fill) { u64 *w = (u64 *)(st + ss - (256 << 10)); for (int i = 0; i < (256 << 10) / 8; i++) w[i] = stack_fill == 1 ? 0xaaaaaaaaaaaaaaaaull : stack_fill == 2 ? (sim_hash(999, i) & 0xffff) : stack_fill == 3 ? sim_hash(999, i) | (1ull << 63) : 2 * (u64)i + 1; }
  stack_top = st + ss - 4096 - (sim_knob("stackoff", 0) & ~63ull);
  struct rlimit rl = { 60, 60 }; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 6ull << 30; 
  struct itimerval iv; memset(&iv, 0, sizeof iv); iv.it_value.tv_sec = sim_knob("cpu_s", 10); setitimer(ITIMER_PROF, &iv, NULL);
  memmon = sim_knob("memmon", 0);
  if (sim_knob("perturb", 0)) mallopt(M_PERTURB, sim_knob("perturb", 0));
  in_sim = 1;
  on_stack();
}
static void hexout(FILE *o, const char *tag, const u8 *b, u64 n) { static const char d[] = "0123456789abcdef"; fprintf(o, "%s ", tag); char *t = __real_malloc(2 * n + 2); for (u64 i = 0; i < n; i++) { t[2 * i] = d[b[i] >> 4]; t[2 * i + 1] = d[b[i] & 15]; } t[2 * n] = '\n'; fwrite(t, 1, 2 * n + 1, o); free(t); }
static u64 fnv(u64 h, const void *p, u64 n) { const u8 *b = p; while (n--) h = (h ^ *b++) * 0x100000001b3ull; return h; }
static void report(FILE *o, int status) {
  if (WIFSIGNALED(status)) { int s = WTERMSIG(status); fprintf(o, "end signal %d\n", s); }
  else if (WEXITSTATUS(status) >= 90 && !R->exited) fprintf(o, "end simerror %d\n", WEXITSTATUS(status));
  else if (R->crashed_io) fprintf(o, "end crash 0\n");
  else if (R->exited) fprintf(o, "end exit %d\n", (int)(R->exitcode & 255));
  else fprintf(o, "end exit %d\n", WEXITSTATUS(status));
  hexout(o, "out", outbuf, R->outlen); hexout(o, "err", errbuf, R->errlen);
  hexout(o, "viol", viobuf, R->viollen); hexout(o, "log", logbuf, R->loglen);
  fprintf(o, "stat gcs %llu majors %llu bytes_peak %llu bytes_live %llu maps %llu unmaps %llu steps %llu now %llu tty_raw %d tty_changes %d raw_out %d idle %d evlost %llu\n", (unsigned long long)R->gcs, (unsigned long long)R->majors, (unsigned long long)R->bytes_peak, (unsigned long long)R->bytes_live,
    (unsigned long long)R->maps, (unsigned long long)R->unmaps, (unsigned long long)R->steps, (unsigned long long)R->now, R->tty_raw, R->tty_changes, R->raw_out, R->idle, (unsigned long long)R->nev_lost);
  fprintf(o, "stat memchecks %llu reserved_peak %llu destroyed %llu live_every %llu\n", (unsigned long long)R->memchecks, (unsigned long long)R->reserved_peak, (unsigned long long)R->destroyed, (unsigned long long)R->live_every);
  fprintf(o, "live"); for (u64 i = 0; i < R->nlive; i++) fprintf(o, " %llu", (unsigned long long)R->live[i]); fprintf(o, "\n");
  fprintf(o, "cnt"); for (int i = 0; i < C_MAX; i++) fprintf(o, " %s %llu %llu", class_name[i], (unsigned long long)R->cnt[i], (unsigned long long)R->fired[i]); fprintf(o, "\n");
  fprintf(o, "evs"); for (u64 i = 0; i < R->nev; i++) fprintf(o, " %s:%llu:%u", class_name[R->ev[i].cls], (unsigned long long)R->ev[i].n, R->ev[i].kind); fprintf(o, "\n");
  u64 h = R->trace; h = fnv(h, outbuf, R->outlen); h = fnv(h, errbuf, R->errlen); h = fnv(h, &status, sizeof status); h = fnv(h, R->cnt, sizeof R->cnt);
  for (int i = 0; i < *nfilesp; i++) { SFile *f = &files[i]; if (f->exists && f->isdir) hexout(o, "dir", (u8 *)f->path, strlen(f->path)); }
  for (int i = 0; i < *nfilesp; i++) { SFile *f = &files[i]; if (f->exists && !f->isdir) { h = fnv(h, f->path, strlen(f->path)); h = fnv(h, f->data, f->len); char t[600]; int n = sprintf(t, "file "); for (char *c = f->path; *c; c++) n += sprintf(t + n, "%02x", (u8)*c); hexout(o, t, f->data, f->len); } }
  /* after a crash: one possible surviving image, chosen by the seed */
  if (R->crashed_io) {
    int keep = *nmetas ? sim_hash(C_CRASH + 300, 1) % (*nmetas + 1) : 0; u8 ex[MAXFILES]; for (int i = 0; i < *nfilesp; i++) ex[i] = files[i].durexists;
    for (int i = 0; i < keep; i++) { MetaOp *m = &metas[i]; if (m->op == 1) ex[m->f] = 1; else if (m->op == 2) ex[m->f] = 0; else { ex[m->f] = 1; ex[m->g & 4095] = 0; if (m->g >> 12) ex[(m->g >> 12) - 1] = 0; } }
    for (int i = 0; i < *nfilesp; i++) { SFile *f = &files[i]; if (f->isdir) continue; 
      /* an entry whose creation survives may hold anything between its synced and its written content, sector by sector */
      if (!ex[i]) continue;
      i64 nl = f->durlen; u64 c = sim_hash(C_CRASH + 301, i) % 3; if (c == 1) nl = f->len; else if (c == 2 && f->len > f->durlen) nl = f->durlen + sim_hash(C_CRASH + 302, i) % (f->len - f->durlen + 1);
      u8 *img = __real_malloc(nl + 1); for (i64 p = 0; p < nl; p += 512) { i64 q = p + 512 < nl ? p + 512 : nl; int fresh = sim_hash(C_CRASH + 303 + i * 7, p) & 1; 
        for (i64 j = p; j < q; j++) img[j] = fresh && j < f->len ? f->data[j] : j < f->durlen ? f->dur[j] : fresh || j >= f->len ? 0 : (sim_knob("crash_zero", 0) ? 0 : f->data[j]); }
      char t[600]; int n = sprintf(t, "disk "); for (char *cc = f->path; *cc; cc++) n += sprintf(t + n, "%02x", (u8)*cc); hexout(o, t, img, nl); h = fnv(h, img, nl); free(img); } }
  fprintf(o, "hash %016llx\n", (unsigned long long)h);
}
static int readall(int fd, void *b, size_t n) { u8 *p = b; while (n) { ssize_t r = __real_read(fd, p, n); if (r <= 0) return -1; p += r; n -= r; } return 0; }
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  arena = __real_mmap((void *)0x100000000000ull, arena_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) return 94;
  R = (Result *)arena; memset(R, 0, sizeof *R);
  char *plan = NULL; 
  if (argc > 2 && !strcmp(argv[1], "--plan")) { /* one run, in this fresh process */
    FILE *f = __real_fopen(argv[2], "r"); if (!f) return 93; fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); plan = __real_malloc(n + 1); n = fread(plan, 1, n, f); plan[n] = 0; fclose(f);
    arena_reset();
    if (argc > 3 && !strcmp(argv[3], "--nofork")) { child(plan); }
    pid_t p = fork(); if (!p) { child(plan); } int st; waitpid(p, &st, 0);
    { char *s = strstr(plan, "\nseed "); if (s) seed = strtoull(s + 6, 0, 10); }
    report(stdout, st); return 0;
  }
  plan = __real_malloc(64 << 20);
  for (;;) { u32 n; if (readall(0, &n, 4) || n >= (64 << 20)) return 0; if (readall(0, plan, n)) return 0; plan[n] = 0;
    arena_reset();
    fflush(stdout);
    pid_t p = fork(); if (!p) child(plan); int st; waitpid(p, &st, 0);
    { char *s = strstr(plan, "\nseed "); if (s) seed = strtoull(s + 6, 0, 10); nknobs = 0; char *k = strstr(plan, "knob crash_zero 1"); if (k) { knob_name[0] = "crash_zero"; knob_val[0] = 1; nknobs = 1; } }
    char *buf = NULL; size_t bl = 0; FILE *o = open_memstream(&buf, &bl); report(o, st); fclose(o);
    u32 l = bl; __real_write(1, &l, 4); size_t w = 0; while (w < bl) { ssize_t r = __real_write(1, buf + w, bl - w); if (r <= 0) return 0; w += r; } free(buf);
    /* give back the file area */
    u64 used = R->used; if (used > fixed_used) madvise(arena + ((fixed_used + 4095) & ~4095ull), used - fixed_used, MADV_REMOVE);
  }
}
