/* Event-loop layer under the real libuv: epoll, eventfds, pipes, sockets and the worker pool over a simulated network and the
   simulated clock.  Every arrival time, split, loss, duplicate and the order of ready descriptors comes from the seed. */
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <uv.h>
extern void *__real_malloc(size_t); extern void *__real_realloc(void *, size_t);
enum { K_SHORT = 2, K_EINTR = 3, K_EMFILE = 7, K_ENOMEM = 8, K_EAGAIN = 9, K_RESET = 30, K_LOSS = 31, K_DUP = 32, K_REFUSE = 33, K_PART = 34, K_LATE = 35 };
enum { S_NEW, S_LISTEN, S_CONNECTING, S_CONN, S_DEAD };
#define NS 256
#define NSEG 8192
#define NW 256
typedef struct { int used, fd, fam, dgram, state, bound, peer, err, fin, shut, nodelay; u64 key, pkey; u8 *rx; u32 n, cap; u64 last; int inflight, backlog[64], nback, maxback; int ep_in; } Sock;
typedef struct { u64 at; int used, kind, to, from; u64 key, seq; u32 len; u8 *d; } Seg;     /* kinds: 1 data 2 fin 3 reset 4 datagram 5 connection 6 refusal 7 work */
typedef struct { u64 at; int used; uv_loop_t *loop; struct uv__work *w; void (*work)(struct uv__work *); } Work;
static Sock ss[NS]; static Seg sg[NSEG]; static Work wk[NW]; static u64 seqno, nextport = 40000, nrand;
static struct { int used, ep, fd; struct epoll_event e; } ints[512];
typedef struct { u64 v; u8 b[4096]; int n, other, rd; } Pip; static Pip pp[64]; static int npp;
static u64 rnd(u64 n) { return n ? sim_hash(C_LOOP * 77 + 5, nrand++) % n : 0; }
static u64 delay(void) { u64 m = sim_knob("netdelay_us", 200); return 1000 * (20 + rnd(m)); }
static Sock *sk(int fd) { if (fd < 0 || fd >= MAXFD || fds[fd].kind == FD_NONE) { errno = EBADF; return NULL; } if (fds[fd].kind != FD_SOCK) { errno = ENOTSOCK; return NULL; } return &ss[fds[fd].sock]; }
static u64 akey(const struct sockaddr *a) { if (a->sa_family == AF_INET) return ntohs(((struct sockaddr_in *)a)->sin_port); if (a->sa_family == AF_INET6) return ntohs(((struct sockaddr_in6 *)a)->sin6_port);
  u64 h = 1469598103934665603ull; for (const char *p = ((struct sockaddr_un *)a)->sun_path; *p; p++) h = (h ^ (u8)*p) * 1099511628211ull; return h | 1ull << 40; }
static void aset(Sock *s, u64 key, struct sockaddr *b, socklen_t *c) { struct sockaddr_in a4 = {0}; struct sockaddr_in6 a6 = {0}; const void *p; socklen_t n;
  if (s->fam == AF_INET6) { a6.sin6_family = AF_INET6; a6.sin6_port = htons(key); a6.sin6_addr.s6_addr[15] = 1; p = &a6; n = sizeof a6; }
  else if (s->fam == AF_INET) { a4.sin_family = AF_INET; a4.sin_port = htons(key); a4.sin_addr.s_addr = htonl(INADDR_LOOPBACK); p = &a4; n = sizeof a4; }
  else { static struct sockaddr_un u; u.sun_family = AF_UNIX; p = &u; n = 2; }
  if (b && c) { memcpy(b, p, *c < n ? *c : n); *c = n; } }
static int newsock(int fam, int dgram) { for (int i = 0; i < NS; i++) if (!ss[i].used) { int fd = fd_new(FD_SOCK); if (fd < 0) return -1; u8 *rx = ss[i].rx; u32 cap = ss[i].cap; memset(&ss[i], 0, sizeof ss[i]); ss[i].rx = rx; ss[i].cap = cap;
    ss[i].used = 1; ss[i].fd = fd; ss[i].fam = fam; ss[i].dgram = dgram; ss[i].peer = -1; fds[fd].sock = i; return fd; } errno = ENFILE; return -1; }
static Seg *seg(int kind, int to, int from, u64 at, const void *d, u32 n) { for (int i = 0; i < NSEG; i++) if (!sg[i].used) { Seg *s = &sg[i]; memset(s, 0, sizeof *s); s->used = 1; s->kind = kind; s->to = to; s->from = from; s->at = at; s->seq = seqno++; s->len = n;
    if (n) { s->d = __real_malloc(n); memcpy(s->d, d, n); } sim_trace(300 + kind, at); return s; } sim_violation("simulated network full"); return NULL; }
static u64 order(int to, u64 at) { Sock *s = &ss[to]; if (at <= s->last) at = s->last + 1; s->last = at; return at; } /* a stream's pieces arrive in order */
static void rxput(Sock *s, const void *d, u32 n) { if (s->n + n > s->cap) { s->cap = (s->n + n) * 2 + 256; s->rx = __real_realloc(s->rx, s->cap); } memcpy(s->rx + s->n, d, n); s->n += n; }
static void arrive(Seg *g) {
  Sock *s = &ss[g->to]; sim_trace(320 + g->kind, g->to); if (!s->used) return;
  switch (g->kind) {
  case 1: if (s->state == S_CONN) rxput(s, g->d, g->len); if (s->peer >= 0) ss[s->peer].inflight -= g->len; break;
  case 2: s->fin = 1; break;
  case 3: s->err = ECONNRESET; s->state = S_DEAD; s->n = 0; break;
  case 4: { if (s->n > 200000) break; u32 h[4] = { g->len, (u32)g->key }; rxput(s, h, 16); rxput(s, g->d, g->len); break; }
  case 5: /* a connection reaches the port */
    { Sock *l = NULL; int li = -1; for (int i = 0; i < NS; i++) if (ss[i].used && ss[i].state == S_LISTEN && ss[i].key == s->pkey && !ss[i].dgram) { l = &ss[i]; li = i; }
      if (!l || g->key == K_REFUSE) { s->err = ECONNREFUSED; s->state = S_DEAD; break; }
      if (l->nback >= l->maxback) { Seg *x = seg(5, g->to, 0, R->now + 1000000000ull, NULL, 0); (void)x; break; } /* retried */
      l->backlog[l->nback++] = g->to; (void)li; s->state = S_CONN; if (!s->key) s->key = nextport++;
      /* the accepting end exists from now on */
      int fd = newsock(l->fam, 0); if (fd < 0) { s->err = ECONNREFUSED; s->state = S_DEAD; l->nback--; break; }
      int j = fds[fd].sock; ss[j].state = S_CONN; ss[j].key = l->key; ss[j].pkey = s->key; ss[j].peer = g->to; s->peer = j; l->backlog[l->nback - 1] = j; ss[j].fd = -1; fds[fd].kind = FD_NONE; /* until it is accepted */ }
    break;
  } }
static void run_due(void) {
  for (;;) { Seg *b = NULL; for (int i = 0; i < NSEG; i++) if (sg[i].used && sg[i].at <= R->now && (!b || sg[i].at < b->at || (sg[i].at == b->at && sg[i].seq < b->seq))) b = &sg[i];
    if (!b) break; Seg g = *b; b->used = 0; arrive(&g); if (g.len) free(g.d); }
  for (;;) { Work *b = NULL; for (int i = 0; i < NW; i++) if (wk[i].used && wk[i].at <= R->now && (!b || wk[i].at < b->at)) b = &wk[i];
    if (!b) break; Work w = *b; b->used = 0; w.work(w.w); w.w->work = NULL; struct uv__queue *h = (void *)&w.loop->wq, *q = (void *)&w.w->wq; q->next = h; q->prev = h->prev; h->prev->next = q; h->prev = q; uv_async_send(&w.loop->wq_async); } }
static u64 next_due(void) { u64 t = ~0ull; for (int i = 0; i < NSEG; i++) if (sg[i].used && sg[i].at < t) t = sg[i].at; for (int i = 0; i < NW; i++) if (wk[i].used && wk[i].at < t) t = wk[i].at; return t; }
static int room(Sock *s) { return (int)sim_knob("sndbuf", 65536) - s->inflight; }
static u32 ready(int fd) {
  u32 e = 0; SFd *d = &fds[fd];
  switch (d->kind) {
  case FD_EVENT: if (pp[d->sock].v) e |= EPOLLIN; return e | EPOLLOUT;
  case FD_PIPE: { Pip *p = &pp[d->sock]; if (p->rd) { if (p->n) e |= EPOLLIN; } else e |= EPOLLOUT; return e; }
  case FD_SOCK: { Sock *s = &ss[d->sock];
    if (s->dgram) return (s->n ? EPOLLIN : 0) | EPOLLOUT;
    if (s->state == S_LISTEN) return s->nback ? EPOLLIN : 0;
    if (s->state == S_CONNECTING) return 0;
    if (s->err || s->state == S_DEAD) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
    if (s->state == S_NEW) return EPOLLHUP | EPOLLOUT;
    if (s->n || s->fin) e |= EPOLLIN; if (s->fin) e |= EPOLLRDHUP; if (s->fin && s->shut) e |= EPOLLHUP; if (room(s) > 0) e |= EPOLLOUT; return e; }
  case FD_STDIN: case FD_FILE: return EPOLLIN | EPOLLOUT;
  case FD_STDOUT: case FD_STDERR: return EPOLLOUT; }
  return 0; }
int __wrap_epoll_create1(int f) { return fd_new(FD_EPOLL); }
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) {
  if (fd < 0 || fd >= MAXFD || fds[fd].kind == FD_NONE) { errno = EBADF; return -1; } if (fds[fd].kind == FD_FILE || fds[fd].kind == FD_DIR) { errno = EPERM; return -1; }
  int at = -1, fr = -1; for (int i = 0; i < 512; i++) { if (ints[i].used && ints[i].ep == e && ints[i].fd == fd) at = i; if (!ints[i].used && fr < 0) fr = i; }
  if (op == EPOLL_CTL_ADD) { if (at >= 0) { errno = EEXIST; return -1; } ints[fr].used = 1; ints[fr].ep = e; ints[fr].fd = fd; ints[fr].e = *ev; }
  else if (at < 0) { errno = ENOENT; return -1; } else if (op == EPOLL_CTL_MOD) ints[at].e = *ev; else ints[at].used = 0;
  return 0; }
int __wrap_epoll_pwait(int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *ss_) {
  u64 end = timeout < 0 ? ~0ull : R->now + timeout * 1000000ull; R->steps++; R->now += 2000 + rnd(3000);
  int k = sim_decide(C_LOOP); if (k == K_EINTR) { errno = EINTR; return -1; }
  if (k == K_LATE) R->now += 1000000ull * (1 + rnd(sim_knob("late_ms", 200))); /* the process was not scheduled */
  for (;;) {
    run_due(); int c[512], n = 0;
    for (int i = 0; i < 512; i++) if (ints[i].used && ints[i].ep == ep) { u32 e = ready(ints[i].fd) & (ints[i].e.events | EPOLLERR | EPOLLHUP); if (e) c[n++] = i; }
    if (n) { int m = n; if (sim_knob("netshuffle", 1)) for (int i = n - 1; i > 0; i--) { int j = rnd(i + 1), t = c[i]; c[i] = c[j]; c[j] = t; }
      if (k == K_PART && m > 1) m = 1 + rnd(m); if (m > max) m = max;
      for (int i = 0; i < m; i++) { ev[i] = ints[c[i]].e; ev[i].events = ready(ints[c[i]].fd) & (ints[c[i]].e.events | EPOLLERR | EPOLLHUP); sim_trace(340, ints[c[i]].fd * 65536 + ev[i].events); }
      R->state_hash = R->state_hash * 31 + ints[c[0]].fd * 7 + m; return m; }
    u64 t = next_due(); if (end <= R->now) return 0;
    if (t == ~0ull && end == ~0ull) { sim_log("idle\n"); R->idle = 1; fflush(stdout); sim_end(0); } /* nothing will ever happen again */
    if (t < end) { if (t > R->now) R->now = t; } else { R->now = end; if (sim_knob("oversleep_us", 0)) R->now += 1000 * rnd(sim_knob("oversleep_us", 0)); run_due(); return 0; } } }
int __wrap_eventfd(unsigned i, int f) { if (npp >= 64) { errno = EMFILE; return -1; } int fd = fd_new(FD_EVENT); if (fd < 0) return -1; fds[fd].sock = npp; memset(&pp[npp], 0, sizeof pp[0]); pp[npp++].v = i; return fd; }
int __wrap_pipe2(int *p, int f) { if (npp + 2 > 64) { errno = EMFILE; return -1; } int a = fd_new(FD_PIPE); if (a < 0) return -1; fds[a].sock = npp; int b = fd_new(FD_PIPE); if (b < 0) { fds[a].kind = FD_NONE; return -1; } fds[b].sock = npp + 1;
  memset(&pp[npp], 0, 2 * sizeof pp[0]); pp[npp].rd = 1; pp[npp].other = npp + 1; pp[npp + 1].other = npp; npp += 2; p[0] = a; p[1] = b; return 0; }
int __wrap_pipe(int *p) { return __wrap_pipe2(p, 0); }
static ssize_t rd(Sock *s, u8 *b, size_t n) {
  if (s->dgram) { errno = EINVAL; return -1; } run_due();
  int k = sim_decide(C_NET); if (k == K_EINTR) { errno = EINTR; return -1; } if (k == K_EAGAIN) { errno = EAGAIN; return -1; }
  if (k == K_RESET && s->state == S_CONN) { s->err = ECONNRESET; s->state = S_DEAD; if (s->peer >= 0) seg(3, s->peer, 0, order(s->peer, R->now + delay()), NULL, 0); }
  if (s->err) { errno = s->err; s->err = 0; return -1; } if (s->state == S_DEAD) return 0; if (s->state != S_CONN) { errno = ENOTCONN; return -1; }
  if (!s->n) { if (s->fin) return 0; errno = EAGAIN; return -1; }
  if (n > s->n) n = s->n; if (k == K_SHORT && n > 1 && !s->fin) n = 1 + rnd(n - 1); /* nothing is held back once the end is there */ memcpy(b, s->rx, n); memmove(s->rx, s->rx + n, s->n - n); s->n -= n; return n; }
static ssize_t wr(Sock *s, const u8 *b, size_t n) {
  run_due(); int k = sim_decide(C_NET); if (k == K_EINTR) { errno = EINTR; return -1; } if (k == K_EAGAIN) { errno = EAGAIN; return -1; }
  if (k == K_RESET && s->state == S_CONN) { s->state = S_DEAD; if (s->peer >= 0) seg(3, s->peer, 0, order(s->peer, R->now + delay()), NULL, 0); errno = ECONNRESET; return -1; }
  if (s->err) { errno = s->err; s->err = 0; return -1; } if (s->state == S_CONNECTING) { errno = EAGAIN; return -1; }
  if (s->shut || s->state == S_DEAD || (s->state == S_CONN && (s->peer < 0 || !ss[s->peer].used))) { errno = EPIPE; return -1; } if (s->state != S_CONN) { errno = ENOTCONN; return -1; }
  int r = room(s); if (r <= 0) { errno = EAGAIN; return -1; } if (n > r) n = r; if (k == K_SHORT && n > 1) n = 1 + rnd(n - 1);
  u64 m = sim_knob("netseg", 0); for (size_t o = 0; o < n; ) { size_t c = n - o; if (m && c > 1) { size_t x = 1 + rnd(m); if (x < c) c = x; } seg(1, s->peer, 0, order(s->peer, R->now + delay()), b + o, c); s->inflight += c; o += c; }
  return n; }
ssize_t net_read(int fd, void *b, size_t n) {
  SFd *d = &fds[fd];
  if (d->kind == FD_EVENT) { Pip *p = &pp[d->sock]; if (!p->v) { errno = EAGAIN; return -1; } if (n < 8) { errno = EINVAL; return -1; } memcpy(b, &p->v, 8); p->v = 0; return 8; }
  if (d->kind == FD_PIPE) { Pip *p = &pp[d->sock]; if (!p->n) { errno = EAGAIN; return -1; } if (n > p->n) n = p->n; memcpy(b, p->b, n); memmove(p->b, p->b + n, p->n - n); p->n -= n; return n; }
  Sock *s = sk(fd); return s ? rd(s, b, n) : -1; }
ssize_t net_write(int fd, const void *b, size_t n) {
  SFd *d = &fds[fd];
  if (d->kind == FD_EVENT) { u64 v; memcpy(&v, b, 8); pp[d->sock].v += v; return 8; }
  if (d->kind == FD_PIPE) { Pip *p = &pp[pp[d->sock].other]; if (p->n + n > sizeof p->b) { errno = EAGAIN; return -1; } memcpy(p->b + p->n, b, n); p->n += n; return n; }
  Sock *s = sk(fd); return s ? wr(s, b, n) : -1; }
static void endsock(int i) { Sock *s = &ss[i]; if (s->peer >= 0 && ss[s->peer].used && s->state == S_CONN) { int p = s->peer; if (s->n) seg(3, p, 0, order(p, R->now + delay()), NULL, 0); else if (!s->shut) seg(2, p, 0, order(p, R->now + delay()), NULL, 0); }
  if (s->state == S_LISTEN) for (int j = 0; j < s->nback; j++) endsock(s->backlog[j]);
  s->used = 0; s->n = 0; }
int net_close(int fd) { for (int i = 0; i < 512; i++) if (ints[i].used && (ints[i].fd == fd || ints[i].ep == fd)) ints[i].used = 0;
  if (fds[fd].kind == FD_SOCK) { int i = fds[fd].sock; for (int j = 0; j < NSEG; j++) if (sg[j].used && sg[j].to == i && sg[j].kind >= 4) { sg[j].used = 0; if (sg[j].len) free(sg[j].d); } endsock(i); }
  fds[fd].kind = FD_NONE; sim_trace(301, fd); return 0; }
int __wrap_socket(int a, int b, int c) { if (sim_decide(C_NET) == K_EMFILE) { errno = EMFILE; return -1; } return newsock(a, (b & 15) == SOCK_DGRAM); }
int __wrap_socketpair(int a, int b, int c, int *v) { int x = newsock(AF_UNIX, 0); if (x < 0) return -1; int y = newsock(AF_UNIX, 0); if (y < 0) return -1; Sock *p = sk(x), *q = sk(y); p->state = q->state = S_CONN; p->peer = fds[y].sock; q->peer = fds[x].sock; v[0] = x; v[1] = y; return 0; }
static int taken(Sock *s, u64 key) { for (int i = 0; i < NS; i++) if (ss[i].used && &ss[i] != s && ss[i].bound && ss[i].key == key && ss[i].dgram == s->dgram && (s->dgram || ss[i].state == S_LISTEN)) return 1; return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) { Sock *s = sk(fd); if (!s) return -1; u64 key = akey(a); if (s->bound) { errno = EINVAL; return -1; } if (!key) key = nextport++; if (taken(s, key)) { errno = EADDRINUSE; return -1; } s->key = key; s->bound = 1; return 0; }
int __wrap_listen(int fd, int b) { Sock *s = sk(fd); if (!s) return -1; if (s->dgram) { errno = EOPNOTSUPP; return -1; } if (!s->bound) { s->key = nextport++; s->bound = 1; } if (taken(s, s->key)) { errno = EADDRINUSE; return -1; } s->state = S_LISTEN; s->maxback = b < 1 ? 1 : b > 64 ? 64 : b; return 0; }
int __wrap_accept4(int fd, struct sockaddr *b, socklen_t *c, int f) { Sock *s = sk(fd); if (!s) return -1; if (s->state != S_LISTEN) { errno = EINVAL; return -1; } run_due();
  if (!s->nback) { errno = EAGAIN; return -1; } int k = sim_decide(C_NET); if (k == K_EINTR) { errno = EINTR; return -1; } if (k == K_EAGAIN) { errno = EAGAIN; return -1; } if (k == K_EMFILE) { errno = EMFILE; return -1; }
  int nf = fd_new(FD_SOCK); if (nf < 0) return -1; int j = rnd(1), q = s->backlog[j]; memmove(s->backlog + j, s->backlog + j + 1, (--s->nback - j) * sizeof(int)); fds[nf].sock = q; ss[q].fd = nf; aset(&ss[q], ss[q].pkey, b, c); return nf; }
int __wrap_accept(int fd, struct sockaddr *b, socklen_t *c) { return __wrap_accept4(fd, b, c, 0); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) { Sock *s = sk(fd); if (!s) return -1; if (s->dgram) { s->pkey = akey(a); s->peer = 0; return 0; }
  if (s->state == S_CONNECTING) { errno = EALREADY; return -1; } if (s->state != S_NEW) { errno = EISCONN; return -1; } int k = sim_decide(C_NET); if (k == K_EINTR) { errno = EINTR; return -1; }
  s->pkey = akey(a); s->state = S_CONNECTING; s->bound = 1; Seg *g = seg(5, fds[fd].sock, 0, R->now + delay(), NULL, 0); if (g && k == K_REFUSE) g->key = K_REFUSE; errno = EINPROGRESS; return -1; }
int __wrap_shutdown(int fd, int h) { Sock *s = sk(fd); if (!s) return -1; if (s->state != S_CONN) { errno = ENOTCONN; return -1; } if (!s->shut && s->peer >= 0 && ss[s->peer].used) seg(2, s->peer, 0, order(s->peer, R->now + delay()), NULL, 0); s->shut = 1; return 0; }
int __wrap_getsockname(int fd, struct sockaddr *b, socklen_t *c) { Sock *s = sk(fd); if (!s) return -1; aset(s, s->key, b, c); return 0; }
int __wrap_getpeername(int fd, struct sockaddr *b, socklen_t *c) { Sock *s = sk(fd); if (!s) return -1; if (s->state != S_CONN) { errno = ENOTCONN; return -1; } aset(s, s->pkey, b, c); return 0; }
int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { Sock *s = sk(fd); if (!s) return -1; if (l == SOL_SOCKET && o == SO_ERROR) { run_due(); *(int *)v = s->state == S_CONNECTING ? EINPROGRESS : s->err; s->err = 0; *n = 4; return 0; }
  if (l == SOL_SOCKET && o == SO_TYPE) { *(int *)v = s->dgram ? SOCK_DGRAM : SOCK_STREAM; return 0; } if (l == SOL_SOCKET && o == SO_DOMAIN) { *(int *)v = s->fam; return 0; } *(int *)v = 0; return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { Sock *s = sk(fd); return s ? 0 : -1; }
static size_t flat(const struct iovec *v, int n, u8 **b) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; *b = __real_malloc(t + 1); size_t o = 0; for (int i = 0; i < n; i++) { memcpy(*b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } return t; }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) {
  Sock *s = sk(fd); if (!s) return -1; u8 *b; size_t n = flat(m->msg_iov, m->msg_iovlen, &b); ssize_t r = n; if (!s->dgram) { r = wr(s, b, n); free(b); return r; }
  if (!s->bound) { s->key = nextport++; s->bound = 1; } int k = sim_decide(C_NET); if (k == K_EINTR || k == K_EAGAIN) { free(b); errno = k == K_EINTR ? EINTR : EAGAIN; return -1; }
  u64 to = m->msg_name ? akey(m->msg_name) : s->pkey; if (n > 65507) { free(b); errno = EMSGSIZE; return -1; }
  for (int i = 0; i < NS; i++) if (ss[i].used && ss[i].dgram && ss[i].bound && ss[i].key == to && k != K_LOSS) for (int c = 0; c < (k == K_DUP ? 2 : 1); c++) { Seg *g = seg(4, i, 0, R->now + delay(), b, n); if (g) g->key = s->key; }
  free(b); return r; }
int __wrap_sendmmsg(int fd, struct mmsghdr *m, unsigned n, int f) { for (unsigned i = 0; i < n; i++) { ssize_t r = __wrap_sendmsg(fd, &m[i].msg_hdr, f); if (r < 0) return i ? i : -1; m[i].msg_len = r; } return n; }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f) {
  Sock *s = sk(fd); if (!s) return -1; if (!s->dgram) { m->msg_controllen = 0; m->msg_flags = 0; return m->msg_iovlen ? rd(s, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len) : 0; } run_due();
  if (!s->n) { errno = EAGAIN; return -1; } int k = sim_decide(C_NET); if (k == K_EINTR || k == K_EAGAIN) { errno = k == K_EINTR ? EINTR : EAGAIN; return -1; }
  u32 h[4]; memcpy(h, s->rx, 16); size_t n = h[0], o = 0; for (int i = 0; i < m->msg_iovlen && o < n; i++) { size_t c = m->msg_iov[i].iov_len; if (c > n - o) c = n - o; memcpy(m->msg_iov[i].iov_base, s->rx + 16 + o, c); o += c; }
  m->msg_flags = o < n ? MSG_TRUNC : 0; m->msg_controllen = 0; if (m->msg_name) { socklen_t c = m->msg_namelen; aset(s, h[1], m->msg_name, &c); m->msg_namelen = c; }
  memmove(s->rx, s->rx + 16 + n, s->n - 16 - n); s->n -= 16 + n; return o; }
int __wrap_recvmmsg(int fd, struct mmsghdr *m, unsigned n, int f, struct timespec *t) { for (unsigned i = 0; i < n; i++) { ssize_t r = __wrap_recvmsg(fd, &m[i].msg_hdr, f); if (r < 0) return i ? i : -1; m[i].msg_len = r; } return n; }
extern ssize_t __wrap_write(int, const void *, size_t), __wrap_read(int, void *, size_t);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { u8 *b; size_t t = flat(v, n, &b); ssize_t r = __wrap_write(fd, b, t); int e = errno; free(b); errno = e; return r; }
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if (r < v[i].iov_len) break; } return t; }
long __wrap_syscall(long n, ...) { errno = ENOSYS; return -1; }
void __wrap_uv__work_submit(uv_loop_t *l, struct uv__work *w, int kind, void (*work)(struct uv__work *), void (*done)(struct uv__work *, int)) {
  w->loop = l; w->work = work; w->done = done; for (int i = 0; i < NW; i++) if (!wk[i].used) { wk[i].used = 1; wk[i].loop = l; wk[i].w = w; wk[i].work = work; wk[i].at = R->now + 10 * delay(); return; } sim_violation("simulated worker pool full"); }
