/* Deterministic simulator runtime: shared declarations. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

/* ---- decision classes: one per source of nondeterminism ---- */
enum { C_GC, C_MMAP, C_MALLOC, C_OPEN, C_READ, C_WRITE, C_CLOSE, C_STAT, C_SEEK, C_FSYNC, C_META,
       C_STDIN, C_STDOUT, C_CLOCK, C_NET, C_LOOP, C_CRASH, C_TTY, C_DL, C_SCHED, C_MAX };
extern const char *const class_name[C_MAX];

#define MAXFAULT 64
#define MAXEV 4096
#define MAXFILES 1024
#define MAXFD 128
#define MAXLIVE 512
#define MAXDATA (1 << 20)

typedef struct { int cls, kind; u32 ppm; } FaultRate;
typedef struct { int cls, kind; u64 n; } FaultAt;
typedef struct { u32 cls, kind; u64 n; } Event;

typedef struct {
  char path[256];
  int exists, isdir, mode;      /* mode: permission bits */
  u8 *data; i64 len, cap;       /* what a read sees */
  u8 *dur; i64 durlen, durcap;  /* what a crash leaves at least */
  int durexists;
  int gen;
} SFile;

/* result area, shared with the parent */
typedef struct {
  u64 nev, nev_lost;
  Event ev[MAXEV];
  u64 cnt[C_MAX];               /* decision points met per class */
  u64 fired[C_MAX];
  u64 outlen, errlen, viollen, loglen;
  u64 now;                      /* simulated nanoseconds */
  u64 gcs, majors, pages_live, bytes_live, bytes_peak, maps, unmaps;
  u64 trace;                    /* running hash of every decision and effect */
  u64 state_hash;               /* coarse hash of the interleaving, for coverage */
  i64 exitcode; int exited, crashed_io, tty_raw, tty_changes, raw_out, idle;
  u64 steps;
  u64 memchecks, reserved_peak, destroyed, nlive, live_n, live_every, live[MAXLIVE];
  u64 used;                     /* bump allocator */
} Result;

extern Result *R;
void sim_trace(u64 a, u64 b);
int sim_decide(int cls);                  /* 0: nothing, else kind */
int sim_decide_n(int cls, u64 *n);
u64 sim_hash(u64 cls, u64 n);             /* stateless hash of (seed, class, n) */
i64 sim_knob(const char *name, i64 dflt);
void sim_violation(const char *fmt, ...);
void sim_log(const char *fmt, ...);
void *sim_alloc(u64 n);
void sim_end(int code) __attribute__((noreturn));
u64 sim_seed(void);
const char *sim_text(const char *key, int idx, size_t *len); /* plan `text KEY HEX` lines */

/* file layer, used by simnet.c too */
typedef struct { int kind; SFile *f; i64 pos; int flags; int sock; int app; i64 cut; } SFd;
enum { FD_NONE, FD_FILE, FD_STDIN, FD_STDOUT, FD_STDERR, FD_DIR, FD_EPOLL, FD_EVENT, FD_SOCK, FD_PIPE };
extern SFd fds[MAXFD];
int fd_new(int kind);
ssize_t net_read(int fd, void *b, size_t n);
ssize_t net_write(int fd, const void *b, size_t n);
int net_close(int fd);
int work_main(const char *mode);          /* C workloads (simwork.c) */
#endif
