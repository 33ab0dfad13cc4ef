// wsim: deterministic simulator for the weaver process (LD_PRELOAD).
//
// All threads of the process run one at a time; a seeded scheduler picks who
// runs at every intercepted point.  Time, randomness, directory order, sockets,
// epoll, eventfd, socketpairs, signals and name resolution are simulated; files
// are real but every file operation below the scratch root is a scheduling
// point and can be failed, shortened, interrupted or turned into a crash.
// Peers (OTLP clients, admin clients, HTTP servers, an OTLP collector, a stdio
// JSON-RPC client) are scripted actors that live inside the simulator.
//
// See DESIGN.md for the plan-file language.
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef int64_t i64;

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);

#define EXIT_DEADLOCK 97
#define EXIT_TIMELIMIT 98
#define EXIT_STEPLIMIT 99
#define EXIT_INTERNAL 96
#define EXIT_CRASH 137

static int active = 0;

// ---------------------------------------------------------------- raw syscalls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void die_now(int code);

// ---------------------------------------------------------------- log
static char *logbuf = NULL;
static size_t logcap = 0, logpos = 0;
static void logstr(const char *s, size_t n) {
  if (!logbuf) return;
  if (logpos + n + 64 >= logcap) {
    if (logpos + 64 < logcap) { memcpy(logbuf + logpos, "LOGFULL\n", 8); logpos = logcap; }
    return;
  }
  memcpy(logbuf + logpos, s, n);
  logpos += n;
}
static void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf_(const char *fmt, ...) {
  char b[1400];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  logstr(b, n);
}
static void loghex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  const unsigned char *c = p;
  char b[512];
  while (n) {
    size_t k = n > 256 ? 256 : n;
    for (size_t i = 0; i < k; i++) { b[2 * i] = d[c[i] >> 4]; b[2 * i + 1] = d[c[i] & 15]; }
    logstr(b, 2 * k);
    c += k; n -= k;
  }
}

// ---------------------------------------------------------------- rng
typedef struct { u64 s; } Rng;
static u64 rnd(Rng *r) {  // splitmix64
  u64 z = (r->s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 rndn(Rng *r, u64 n) { return n ? rnd(r) % n : 0; }
static Rng rg_sched, rg_net, rg_fs, rg_rand, rg_futex;

// ---------------------------------------------------------------- plan
static u64 cfg_seed = 1, cfg_hashseed = 1;
static char cfg_root[1024] = "";
static size_t cfg_rootlen = 0;
static int cfg_ncpu = 4;
static int cfg_mode = 1;         // 0 default, 1 random, 2 pct, 3 explicit
static int cfg_pswitch = 50;     // per mille, random mode
static int cfg_malloc = 0;       // mean allocations between preemption points
static int cfg_trace = 0;
static u64 cfg_maxsteps = 200000000ull;
static u64 cfg_maxtime = 3600ull * 1000000000ull;
static u64 cfg_stepns = 1000;
static u64 cfg_lat_lo = 50000, cfg_lat_hi = 400000;  // ns network latency
static int cfg_chunk = 0;        // 0 whole, 1 random, 2 tiny
static int cfg_rdshuffle = 1;    // 0 sorted, 1 shuffled, 2 reverse
static int cfg_spurious = 0;     // per mille spurious futex wakeups
static int cfg_shortio = 0;      // per mille short reads/writes on files
static int cfg_eintr = 0;        // per mille EINTR on file reads/writes/opens
static int cfg_sndbuf = 262144;
static i64 wall_off = 0;         // ns added to realtime clock
static int cfg_pct_n = 0;
static u64 cfg_pct_at[32];
static int cfg_stdio_actor = -1;
static int cfg_fifo = 1;

typedef struct { u64 dec; int tid; } Dev;
static Dev *devs = NULL;
static int ndevs = 0, devpos = 0;

typedef struct {
  int cls;       // op class
  char match[200];
  long nth;      // 1-based among matching
  long until;    // last matching (inclusive); -1 forever
  int err;       // errno, 0 when action
  int action;    // 0 errno, 1 short, 2 crash before, 3 crash after, 4 crash mid, 5 eintr once
  long arg;
  long seen, fired;
} Fault;
enum { C_OPEN, C_CREATE, C_READ, C_WRITE, C_READDIR, C_OPENDIR, C_MKDIR, C_UNLINK, C_RENAME, C_STAT, C_FSYNC,
       C_ACCEPT, C_BIND, C_CONNECT, C_RECV, C_SEND, C_THREAD, C_CLOSE, C_NCLS };
static const char *clsname[] = {"open", "create", "read", "write", "readdir", "opendir", "mkdir", "unlink", "rename", "stat",
                                "fsync", "accept", "bind", "connect", "recv", "send", "thread", "close"};
static long clscount[C_NCLS];
static Fault faults[64];
static int nfaults = 0;

// clock jumps
static struct { u64 at; i64 delta; int done; } jumps[16];
static int njumps = 0;
// a thread that gets no time, or (thread -1) a reader of standard output that reads nothing, for a while
static struct { int tid; u64 from, to; } frz[16];
static int nfrz = 0;

// ---------------------------------------------------------------- time, steps
static u64 now = 0, steps = 0, dec = 0, nswitch = 0;
static u64 ihash = 0xcbf29ce484222325ull;   // interleaving hash
static u64 ehash = 0xcbf29ce484222325ull;   // event hash (all io events)
static void fold(u64 *h, u64 v) { for (int i = 0; i < 8; i++) { *h ^= (v >> (8 * i)) & 255; *h *= 0x100000001b3ull; } }
#define WALL_BASE 1767225600ull

// ---------------------------------------------------------------- threads
enum { T_FREE, T_RUN, T_BLOCK, T_DONE };
enum { W_NONE, W_FUTEX, W_JOIN, W_SLEEP, W_FD, W_EPOLL, W_POLL };
struct Obj;
typedef struct Thr {
  int id, state;
  volatile int gate;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  int wtype;
  void *waddr;
  u32 wbits;
  u64 wseq;
  u64 deadline;  // 0 = none
  int woken, timedout;
  struct Obj *wobj;
  int wev;
  struct pollfd *wpfd;
  int wnpfd;
  struct Thr *wjoin;
  i64 prio;
  u64 allocs, next_preempt;
  int dtor_round;
} Thr;
#define MAXT 512
static Thr thr[MAXT];
static int nthr = 0;
static Thr *cur = NULL;
static __thread Thr *self __attribute__((tls_model("initial-exec"))) = NULL;
static __thread int nopreempt __attribute__((tls_model("initial-exec"))) = 0;
static u64 wseq_ctr = 0;
static pthread_key_t exitkey;
static int in_signal = 0;

static void gate_wait(Thr *t) {
  while (!__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE)) {
    for (int i = 0; i < 200; i++) {
      if (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE)) goto out;
      __builtin_ia32_pause();
    }
    raw6(SYS_futex, (long)&t->gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
out:
  t->gate = 0;
}
static void gate_open(Thr *t) {
  __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- objects
enum { K_EVENTFD = 1, K_STREAM, K_LISTENER, K_EPOLL, K_SOCK };
typedef struct Buf { unsigned char *p; size_t len, cap, off; } Buf;
static void buf_add(Buf *b, const void *p, size_t n) {
  if (b->off && b->off == b->len) b->off = b->len = 0;
  if (b->len + n > b->cap) {
    if (b->off) { memmove(b->p, b->p + b->off, b->len - b->off); b->len -= b->off; b->off = 0; }
    if (b->len + n > b->cap) {
      b->cap = (b->len + n) * 2 + 64;
      b->p = __libc_realloc(b->p, b->cap);
    }
  }
  memcpy(b->p + b->len, p, n);
  b->len += n;
}
static size_t buf_n(Buf *b) { return b->len - b->off; }

struct Conn;
typedef struct EpItem { struct Obj *o; int fd; u32 ev; u64 data; u64 last; int live; } EpItem;
typedef struct Obj {
  int kind, refs, nonblock;
  u64 gen;
  // eventfd
  u64 counter; int semaphore;
  // stream
  Buf rx;
  int rx_eof, rx_rst, tx_shut, dead;
  struct Obj *peer;     // socketpair
  struct Conn *conn;    // actor side
  int connecting; int connerr;
  u64 rcvtimeo, sndtimeo;
  u32 lip, rip; u16 lport, rport;
  // listener
  struct Obj *pend[256]; int npend;
  int domain, bound;
  // epoll
  EpItem *items; int nitems, capitems;
} Obj;
typedef struct { Obj *o; char *path; int inroot; } Fd;
#define MAXFD 8192
static Fd fdt[MAXFD];
static Obj *listeners[64]; static int nlisteners = 0;

typedef struct Conn {
  int actor;           // actor index
  Obj *o;              // weaver-side endpoint (NULL when closed)
  Obj *wo;             // write endpoint for stdio actors (weaver's stdout)
  Buf arx;             // bytes received by actor
  size_t cursor;       // search cursor
  size_t unread;       // bytes counted against the send buffer
  size_t inflight;
  u64 last_to_actor, last_to_weaver;
  int a_eof;           // weaver closed its side
  int established, a_closed;
  int noread;
  int ordinal;         // for servers: n-th accepted connection
  // h2
  size_t tx_pre, tx_left; int tx_nhdr; unsigned char tx_hdr[9]; Buf hold; int is_h2; size_t h2pos; int h2_preface; int h2_maxdone; unsigned char h2done[4096]; int h2ndone; int goaway;
  // http1 server
  size_t h1pos; int h1n;
  int id;
  int resp_ord;
} Conn;
static Conn *conns[1024]; static int nconns = 0;

// ---------------------------------------------------------------- actors
enum { O_SLEEP, O_CONNECT, O_SEND, O_H2WAIT, O_H2WAITN, O_HTTPWAIT, O_RECVWAIT, O_CLOSE, O_RESET, O_SHUTWR, O_SIGNAL, O_MARK,
       O_WAITMARK, O_NOREAD, O_READ, O_WAITEOF, O_STALL, O_WAITIDLE };
typedef struct { int op; i64 a, b; size_t off, len; char s[128]; unsigned char pat[160]; int patlen; i64 tmo; } Op;
typedef struct { int ord; char kind[16]; char path[128]; size_t off, len; i64 cut; char end[16]; i64 delay; int used; char body[64]; } SrvRule;
typedef struct Actor {
  char name[32];
  int type;  // 0 client, 1 server, 2 stdio
  u16 port; u32 ip; int h2;
  Op *ops; int nops, capops;
  int pc; u64 wake; int waiting; u64 opstart;
  int done;
  Conn *conn;
  int naccept, nresp;
  SrvRule *rules; int nrules;
  int refuse_from, refuse_to; // connection ordinals refused
} Actor;
static Actor actors[64]; static int nactors = 0;
static char marks[256][64]; static int nmarks = 0;
static unsigned char *blob = NULL; static size_t bloblen = 0;
static struct { char name[128]; u32 ip; } hosts[64]; static int nhosts = 0;
static struct { int actor; u64 from, to; } parts[16]; static int nparts = 0;
static long n_chunked = 0, n_reset = 0, n_eintr = 0, n_short = 0, n_spur = 0, n_part = 0, n_sig = 0, n_rds = 0, n_jump = 0, n_halfclose = 0, n_stall = 0;

// ---------------------------------------------------------------- events
enum { E_TIMER, E_TO_ACTOR, E_TO_ACTOR_EOF, E_TO_WEAVER, E_TO_WEAVER_EOF, E_TO_WEAVER_RST, E_CONNECT, E_CONNDONE };
typedef struct { u64 t, seq; int type; int actor; Conn *c; Obj *o; unsigned char *p; size_t n; } Ev;
static Ev *evq = NULL; static int nev = 0, capev = 0; static u64 evseq = 0;
static void ev_push(Ev e) {
  if (nev == capev) { capev = capev ? capev * 2 : 256; evq = __libc_realloc(evq, capev * sizeof(Ev)); }
  e.seq = evseq++;
  int i = nev++;
  while (i > 0) {
    int p = (i - 1) / 2;
    if (evq[p].t < e.t || (evq[p].t == e.t && evq[p].seq < e.seq)) break;
    evq[i] = evq[p]; i = p;
  }
  evq[i] = e;
}
static Ev ev_pop(void) {
  Ev r = evq[0], e = evq[--nev];
  int i = 0;
  for (;;) {
    int l = 2 * i + 1;
    if (l >= nev) break;
    if (l + 1 < nev && (evq[l + 1].t < evq[l].t || (evq[l + 1].t == evq[l].t && evq[l + 1].seq < evq[l].seq))) l++;
    if (e.t < evq[l].t || (e.t == evq[l].t && e.seq < evq[l].seq)) break;
    evq[i] = evq[l]; i = l;
  }
  evq[i] = e;
  return r;
}
static u64 latency(void) { return cfg_lat_lo + rndn(&rg_net, cfg_lat_hi - cfg_lat_lo + 1); }
static u64 part_adj(int actor, u64 t) {
  for (int i = 0; i < nparts; i++)
    if ((parts[i].actor < 0 || parts[i].actor == actor) && t >= parts[i].from && t < parts[i].to) { t = parts[i].to + 1000; n_part++; }
  return t;
}

// ---------------------------------------------------------------- forward
static void actor_run(int ai);
static void actors_poke(void);
static void process_events(void);
static void ypoint(int kind);
static int block(int wtype, u64 deadline);

static void obj_touch(Obj *o) { o->gen++; }

static size_t stream_space(Obj *o) {
  if (o->peer) { size_t n = buf_n(&o->peer->rx); return n >= 65536 ? 0 : 65536 - n; }
  Conn *c = o->conn;
  if (!c) return 0;
  size_t used = c->inflight + c->unread;
  return used >= (size_t)cfg_sndbuf ? 0 : cfg_sndbuf - used;
}
static u32 obj_mask(Obj *o) {
  u32 m = 0;
  switch (o->kind) {
    case K_EVENTFD: if (o->counter) m |= EPOLLIN; m |= EPOLLOUT; break;
    case K_STREAM:
      if (o->connecting) return 0;
      if (o->connerr) return EPOLLERR | EPOLLHUP | EPOLLIN | EPOLLOUT;
      if (buf_n(&o->rx) || o->rx_eof || o->rx_rst) m |= EPOLLIN;
      if (o->rx_eof) m |= EPOLLRDHUP;
      if (o->rx_rst) m |= EPOLLERR | EPOLLHUP | EPOLLOUT;
      if ((o->rx_eof && o->tx_shut)) m |= EPOLLHUP;
      if (o->dead || o->tx_shut || stream_space(o) > 0) m |= EPOLLOUT;
      break;
    case K_LISTENER: if (o->npend) m |= EPOLLIN; break;
    case K_SOCK: m |= EPOLLHUP | EPOLLOUT; break;
    case K_EPOLL:
      for (int i = 0; i < o->nitems; i++)
        if (o->items[i].live && (obj_mask(o->items[i].o) & (o->items[i].ev | EPOLLERR | EPOLLHUP))) { m |= EPOLLIN; break; }
      break;
  }
  return m;
}
static int ep_item_ready(EpItem *it) {
  if (!it->live) return 0;
  if ((it->ev & EPOLLET) && it->last == it->o->gen) return 0;
  return (obj_mask(it->o) & (it->ev | EPOLLERR | EPOLLHUP)) != 0;
}
static int ep_ready(Obj *e) {
  for (int i = 0; i < e->nitems; i++) if (ep_item_ready(&e->items[i])) return 1;
  return 0;
}
static Obj *fdobj(int fd) { return (fd >= 0 && fd < MAXFD) ? fdt[fd].o : NULL; }

// ---------------------------------------------------------------- scheduler
static int poll_scan(struct pollfd *p, int n) {
  int r = 0;
  for (int i = 0; i < n; i++) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    Obj *o = fdobj(p[i].fd);
    if (o) {
      u32 m = obj_mask(o);
      p[i].revents = (short)(m & ((u32)p[i].events | POLLERR | POLLHUP));
    } else p[i].revents = p[i].events & (POLLIN | POLLOUT);
    if (p[i].revents) r++;
  }
  return r;
}
static long n_frz = 0;
static u64 frozen(int tid) {
  u64 to = 0;
  for (int i = 0; i < nfrz; i++) if (frz[i].tid == tid && now >= frz[i].from && now < frz[i].to && frz[i].to > to) to = frz[i].to;
  return to;
}
static int thr_ready(Thr *t) {
  if (nfrz && frozen(t->id)) return 0;
  if (t->state == T_RUN) return 1;
  if (t->state != T_BLOCK) return 0;
  switch (t->wtype) {
    case W_FUTEX: if (t->woken) return 1; break;
    case W_JOIN: if (t->wjoin->state == T_DONE) return 1; break;
    case W_FD: if (obj_mask(t->wobj) & (u32)t->wev) return 1; break;
    case W_EPOLL: if (ep_ready(t->wobj)) return 1; break;
    case W_POLL: if (poll_scan(t->wpfd, t->wnpfd)) return 1; break;
  }
  if (t->deadline && t->deadline <= now) { return 2; }
  return 0;
}
static void dump_waits(void) {
  for (int i = 0; i < nthr; i++)
    logf_("THR %d state=%d wtype=%d deadline=%llu\n", i, thr[i].state, thr[i].wtype, (unsigned long long)thr[i].deadline);
  for (int i = 0; i < nactors; i++) logf_("ACT %s pc=%d/%d done=%d\n", actors[i].name, actors[i].pc, actors[i].nops, actors[i].done);
}
static void limit_check(void) {
  if (now > cfg_maxtime) { logf_("TIMELIMIT now=%llu\n", (unsigned long long)now); dump_waits(); die_now(EXIT_TIMELIMIT); }
  if (steps > cfg_maxsteps) { logf_("STEPLIMIT\n"); dump_waits(); die_now(EXIT_STEPLIMIT); }
}
// pick and switch; forced: current cannot continue (blocked/done/yielding)
static void schedule(int forced, int exiting) {
  Thr *me = self;
  int cand[MAXT], rdy[MAXT], n;
  for (;;) {
    process_events();
    n = 0;
    for (int i = 0; i < nthr; i++) {
      int r = thr_ready(&thr[i]);
      if (r) { cand[n] = i; rdy[n] = r; n++; }
    }
    if (n) break;
    u64 t = 0;
    for (int i = 0; i < nthr; i++) {
      u64 d = thr[i].state == T_BLOCK ? thr[i].deadline : 0, f = nfrz && (thr[i].state == T_BLOCK || thr[i].state == T_RUN) ? frozen(i) : 0;
      if (f) d = f;
      if (d && (!t || d < t)) t = d;
    }
    if (nev && (!t || evq[0].t < t)) t = evq[0].t;
    if (!t) { logf_("DEADLOCK now=%llu\n", (unsigned long long)now); dump_waits(); die_now(EXIT_DEADLOCK); }
    if (t > now) now = t;
    steps++;
    limit_check();
  }
  // default choice
  int def = -1, pick;
  int cid = me ? me->id : 0;
  if (!forced) for (int i = 0; i < n; i++) if (cand[i] == cid) def = i;
  if (def < 0) { for (int i = 0; i < n; i++) if (cand[i] > cid) { def = i; break; } if (def < 0) def = 0; }
  pick = def;
  if (n > 1 || forced) {
    switch (cfg_mode) {
      case 1: pick = (int)rndn(&rg_sched, n); break;
      case 2: { i64 best = INT64_MIN; for (int i = 0; i < n; i++) if (thr[cand[i]].prio > best) { best = thr[cand[i]].prio; pick = i; } break; }
      case 3:
        while (devpos < ndevs && devs[devpos].dec < dec) devpos++;
        if (devpos < ndevs && devs[devpos].dec == dec) for (int i = 0; i < n; i++) if (cand[i] == devs[devpos].tid) pick = i;
        break;
    }
  }
  Thr *nx = &thr[cand[pick]];
  if (pick != def) {
    if (cfg_trace) logf_("S %llu %d\n", (unsigned long long)dec, nx->id);
    nswitch++;
  }
  if (nx != me) { fold(&ihash, dec); fold(&ihash, nx->id); }
  if (nx->state == T_BLOCK) { nx->timedout = (rdy[pick] == 2); nx->state = T_RUN; nx->wtype = W_NONE; }
  if (nx == me && !exiting) return;
  cur = nx;
  gate_open(nx);
  if (!exiting) { gate_wait(me); }
}
static void deliver_jumps(void) {
  for (int i = 0; i < njumps; i++)
    if (!jumps[i].done && now >= jumps[i].at) { jumps[i].done = 1; wall_off += jumps[i].delta; n_jump++; logf_("J %llu %lld\n", (unsigned long long)now, (long long)jumps[i].delta); }
}
static void ypoint(int kind) {
  if (!active || !self || in_signal || nopreempt) return;
  int e = errno;
  steps++; dec++;
  now += cfg_stepns;
  if (njumps) deliver_jumps();
  limit_check();
  if (nev && evq[0].t <= now) process_events();
  if (nfrz && frozen(self->id)) { n_frz++; logf_("Z %llu %d\n", (unsigned long long)now, self->id); schedule(1, 0); errno = e; return; }
  int sw = 0;
  switch (cfg_mode) {
    case 1: sw = (int)(rndn(&rg_sched, 1000) < (u64)(kind == 9 ? 700 : cfg_pswitch)); break;
    case 2:
      for (int i = 0; i < cfg_pct_n; i++) if (cfg_pct_at[i] == dec) self->prio = -(i64)i - 1;
      if (kind == 9) { static i64 low = -1000; self->prio = low--; }
      sw = 1;
      break;
    case 3:
      while (devpos < ndevs && devs[devpos].dec < dec) devpos++;
      sw = (devpos < ndevs && devs[devpos].dec == dec) || kind == 9;
      break;
    default: sw = (kind == 9);
  }
  if (sw) schedule(kind == 9 && cfg_mode != 1, 0);
  errno = e;
}
// returns 1 when it timed out
static int block(int wtype, u64 deadline) {
  Thr *t = self;
  t->wtype = wtype; t->deadline = deadline; t->woken = 0; t->timedout = 0; t->state = T_BLOCK;
  t->wseq = ++wseq_ctr;
  steps++; dec++;
  limit_check();
  schedule(1, 0);
  t->deadline = 0;
  return t->timedout;
}
// writing to a standard output nobody reads
static void out_stall(int fd) {
  if (fd != 1 || !nfrz || in_signal || nopreempt) return;
  u64 to = frozen(-1);
  if (to) { n_frz++; logf_("Z %llu -1\n", (unsigned long long)now); block(W_SLEEP, to); }
}
static int simming(void) { return active && self && !in_signal; }

// ---------------------------------------------------------------- faults
static int fault_check(int cls, const char *path, long *arg) {
  clscount[cls]++;
  int act = 0;
  for (int i = 0; i < nfaults; i++) {
    Fault *f = &faults[i];
    if (f->cls != cls) continue;
    if (f->match[0] && (!path || !strstr(path, f->match))) continue;
    f->seen++;
    if (f->seen < f->nth) continue;
    if (f->until >= 0 && f->seen > f->until) continue;
    f->fired++;
    *arg = f->arg;
    act = f->action == 0 ? -f->err : f->action;
    logf_("X %llu fault=%d cls=%s path=%s act=%d\n", (unsigned long long)now, i, clsname[cls], path ? path : "-", act);
  }
  if (act == 2) { logf_("CRASH before %s %s\n", clsname[cls], path ? path : "-"); die_now(EXIT_CRASH); }
  return act;
}

// ---------------------------------------------------------------- actor/net machinery
static void to_weaver(Conn *c, int type, const void *p, size_t n, u64 extra) {
  // split in chunks according to cfg_chunk
  size_t off = 0;
  do {
    size_t k = n - off;
    if (type == E_TO_WEAVER && cfg_chunk && k > 1) {
      size_t mx = cfg_chunk == 2 ? 24 : 1024;
      if (rndn(&rg_net, 4) != 0) { size_t q = 1 + rndn(&rg_net, mx); if (q < k) { k = q; n_chunked++; } }
    }
    u64 t = now + extra + latency();
    if (t <= c->last_to_weaver) t = c->last_to_weaver + 1;
    t = part_adj(c->actor, t);
    c->last_to_weaver = t;
    Ev e = {0};
    e.t = t; e.type = type; e.c = c;
    if (k) { e.p = __libc_malloc(k); memcpy(e.p, (const char *)p + off, k); e.n = k; }
    ev_push(e);
    off += k;
  } while (off < n);
}
// A client's own bytes; automatic HTTP/2 replies are held back while the client is in the middle of a frame.
static void conn_send(Conn *c, const void *p, size_t n) {
  if (n) to_weaver(c, E_TO_WEAVER, p, n, 0);
  if (!c->is_h2 || actors[c->actor].type == 1) return;
  const unsigned char *q = p;
  for (size_t i = 0; i < n;) {
    if (c->tx_pre < 24) { size_t k = n - i < 24 - c->tx_pre ? n - i : 24 - c->tx_pre; c->tx_pre += k; i += k; continue; }
    if (c->tx_left) { size_t k = n - i < c->tx_left ? n - i : c->tx_left; c->tx_left -= k; i += k; continue; }
    c->tx_hdr[c->tx_nhdr++] = q[i++];
    if (c->tx_nhdr == 9) { c->tx_nhdr = 0; c->tx_left = (size_t)c->tx_hdr[0] << 16 | (size_t)c->tx_hdr[1] << 8 | c->tx_hdr[2]; }
  }
  if (c->hold.len && c->tx_pre == 24 && !c->tx_left && !c->tx_nhdr) { to_weaver(c, E_TO_WEAVER, c->hold.p, c->hold.len, 0); c->hold.len = 0; }
}

static void h2_frame(Conn *c, int type, int flags, u32 sid, const void *p, size_t n, u64 extra) {
  unsigned char b[9 + 512];
  b[0] = (unsigned char)(n >> 16); b[1] = (unsigned char)(n >> 8); b[2] = (unsigned char)n; b[3] = (unsigned char)type; b[4] = (unsigned char)flags;
  b[5] = (unsigned char)(sid >> 24); b[6] = (unsigned char)(sid >> 16); b[7] = (unsigned char)(sid >> 8); b[8] = (unsigned char)sid;
  if (n > 512) n = 512;
  memcpy(b + 9, p, n);
  if (actors[c->actor].type != 1 && (c->tx_pre < 24 || c->tx_left || c->tx_nhdr)) { buf_add(&c->hold, b, 9 + n); return; }
  to_weaver(c, E_TO_WEAVER, b, 9 + n, extra);
}
static void h2_server_reply(Conn *c, u32 sid) {
  Actor *a = &actors[c->actor];
  int ord = a->nresp++;
  const char *pol = "ok"; i64 delay = 0;
  for (int i = 0; i < a->nrules; i++)
    if (a->rules[i].ord == ord || a->rules[i].ord < 0) { pol = a->rules[i].kind; delay = a->rules[i].delay; if (a->rules[i].ord == ord) break; }
  logf_("H2SRV %llu actor=%s conn=%d sid=%u ord=%d policy=%s\n", (unsigned long long)now, a->name, c->id, sid, ord, pol);
  static const unsigned char hdr_ok[] = {0x88, 0x00, 0x0c, 'c','o','n','t','e','n','t','-','t','y','p','e', 0x10, 'a','p','p','l','i','c','a','t','i','o','n','/','g','r','p','c'};
  static const unsigned char tr_ok[] = {0x00, 0x0b, 'g','r','p','c','-','s','t','a','t','u','s', 0x01, '0'};
  static const unsigned char tr_14[] = {0x00, 0x0b, 'g','r','p','c','-','s','t','a','t','u','s', 0x02, '1','4'};
  static const unsigned char tr_3[] = {0x00, 0x0b, 'g','r','p','c','-','s','t','a','t','u','s', 0x01, '3'};
  static const unsigned char empty[5] = {0, 0, 0, 0, 0};
  u64 ex = (u64)delay * 1000;
  if (!strcmp(pol, "ok")) {
    h2_frame(c, 1, 4, sid, hdr_ok, sizeof hdr_ok, ex);
    h2_frame(c, 0, 0, sid, empty, 5, ex);
    h2_frame(c, 1, 5, sid, tr_ok, sizeof tr_ok, ex);
  } else if (!strcmp(pol, "unavail") || !strcmp(pol, "invalid")) {
    unsigned char b[128]; size_t n = sizeof hdr_ok;
    memcpy(b, hdr_ok, n);
    if (pol[0] == 'u') { memcpy(b + n, tr_14, sizeof tr_14); n += sizeof tr_14; } else { memcpy(b + n, tr_3, sizeof tr_3); n += sizeof tr_3; }
    h2_frame(c, 1, 5, sid, b, n, ex);
  } else if (!strcmp(pol, "rststream")) {
    unsigned char b[4] = {0, 0, 0, 2};
    h2_frame(c, 3, 0, sid, b, 4, ex);
  } else if (!strcmp(pol, "reset")) {
    to_weaver(c, E_TO_WEAVER_RST, NULL, 0, ex); n_reset++;
  } else if (!strcmp(pol, "close")) {
    to_weaver(c, E_TO_WEAVER_EOF, NULL, 0, ex); n_halfclose++;
  } else { n_stall++; }
}
static void h2_parse(Conn *c) {
  Actor *a = &actors[c->actor];
  size_t base = c->arx.off;
  (void)base;
  unsigned char *p = c->arx.p;
  size_t len = c->arx.len;
  if (a->type == 1 && !c->h2_preface) {
    if (len < 24) return;
    c->h2_preface = 1; c->h2pos = 24;
    h2_frame(c, 4, 0, 0, "", 0, 0);
  }
  while (len - c->h2pos >= 9) {
    unsigned char *f = p + c->h2pos;
    size_t n = ((size_t)f[0] << 16) | ((size_t)f[1] << 8) | f[2];
    if (len - c->h2pos < 9 + n) break;
    int type = f[3], flags = f[4];
    u32 sid = ((u32)f[5] << 24 | (u32)f[6] << 16 | (u32)f[7] << 8 | f[8]) & 0x7fffffff;
    c->h2pos += 9 + n;
    if (type == 4 && !(flags & 1)) h2_frame(c, 4, 1, 0, "", 0, 0);
    if (type == 6 && !(flags & 1) && n == 8) h2_frame(c, 6, 1, 0, f + 9, 8, 0);
    if (type == 7) { c->goaway = 1; }
    if (type == 0 && n > 0) {
      unsigned char w[4] = {(unsigned char)(n >> 24), (unsigned char)(n >> 16), (unsigned char)(n >> 8), (unsigned char)n};
      h2_frame(c, 8, 0, 0, w, 4, 0);
      if (!(flags & 1)) h2_frame(c, 8, 0, sid, w, 4, 0);
    }
    int fin = ((type == 0 || type == 1) && (flags & 1)) || type == 3;
    if (fin && sid < 4096 && sid) {
      if (!c->h2done[sid]) {
        c->h2done[sid] = type == 3 ? 2 : 1; c->h2ndone++;
        logf_("H2DONE %llu actor=%s conn=%d sid=%u type=%d step=%llu\n", (unsigned long long)now, a->name, c->id, sid, type, (unsigned long long)steps);
        if (a->type == 1 && type != 3) h2_server_reply(c, sid);
      }
    }
  }
}
static void h1_server(Conn *c) {
  Actor *a = &actors[c->actor];
  for (;;) {
    unsigned char *p = c->arx.p + c->h1pos;
    size_t n = c->arx.len - c->h1pos;
    unsigned char *e = n >= 4 ? memmem(p, n, "\r\n\r\n", 4) : NULL;
    if (!e) return;
    size_t hl = (size_t)(e - p) + 4;
    char line[512]; size_t k = 0;
    while (k < hl && k < sizeof line - 1 && p[k] != '\r') { line[k] = (char)p[k]; k++; }
    line[k] = 0;
    // the body of the request
    char *cl = NULL, *ck = NULL;
    for (size_t i = 0; i + 2 < hl; i++) if (p[i] == '\n') {
      if (!strncasecmp((char *)p + i + 1, "content-length:", 15)) cl = (char *)p + i + 16;
      if (!strncasecmp((char *)p + i + 1, "transfer-encoding: chunked", 26)) ck = (char *)p + i;
    }
    size_t bl = 0;
    if (ck) {
      unsigned char *z = memmem(p + hl, n - hl, "0\r\n\r\n", 5);
      while (z && !(z == p + hl || z[-1] == '\n')) z = memmem(z + 1, n - (size_t)(z + 1 - p), "0\r\n\r\n", 5);
      if (!z) return;
      bl = (size_t)(z - p) + 5 - hl;
    } else if (cl) { bl = strtoul(cl, NULL, 10); if (n < hl + bl) return; }
    c->h1pos += hl + bl;
    int ord = a->nresp++;
    SrvRule *r = NULL;
    for (int i = 0; i < a->nrules; i++) {
      SrvRule *q = &a->rules[i];
      if (q->ord >= 0 && q->ord != ord) continue;
      if (q->path[0] && strcmp(q->path, "*")) {
        char want[200]; snprintf(want, sizeof want, " %s ", q->path);
        if (!strstr(line, want)) continue;
      }
      if (q->body[0] && !memmem(p + hl, bl, q->body, strlen(q->body))) continue;
      r = q; break;
    }
    logf_("H1SRV %llu actor=%s conn=%d ord=%d rule=%d line=%s\n", (unsigned long long)now, a->name, c->id, ord, r ? (int)(r - a->rules) : -1, line);
    if (!r) { const char *nf = "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"; conn_send(c, nf, strlen(nf)); to_weaver(c, E_TO_WEAVER_EOF, 0, 0, 0); return; }
    size_t len = r->len;
    if (r->cut >= 0 && (size_t)r->cut < len) len = (size_t)r->cut;
    if (!strcmp(r->kind, "gap")) { // the first part at once, the rest after the delay
      if (len) to_weaver(c, E_TO_WEAVER, blob + r->off, len, 0);
      if (len < r->len) to_weaver(c, E_TO_WEAVER, blob + r->off + len, r->len - len, (u64)r->delay * 1000);
      n_stall++;
    }
    else if (len) to_weaver(c, E_TO_WEAVER, blob + r->off, len, (u64)r->delay * 1000);
    if (!strcmp(r->end, "close")) to_weaver(c, E_TO_WEAVER_EOF, 0, 0, (u64)r->delay * 1000);
    else if (!strcmp(r->end, "reset")) { to_weaver(c, E_TO_WEAVER_RST, 0, 0, (u64)r->delay * 1000); n_reset++; }
    else if (!strcmp(r->end, "stall")) { n_stall++; }
  }
}
static int http_done(Conn *c) {
  unsigned char *p = c->arx.p + c->h1pos;
  size_t n = c->arx.len - c->h1pos;
  if (c->a_eof && n) return 1;
  unsigned char *e = n >= 4 ? memmem(p, n, "\r\n\r\n", 4) : NULL;
  if (!e) return c->a_eof;
  size_t hl = (size_t)(e - p) + 4;
  char h[4096]; size_t k = hl < sizeof h - 1 ? hl : sizeof h - 1;
  for (size_t i = 0; i < k; i++) { char ch = (char)p[i]; h[i] = (ch >= 'A' && ch <= 'Z') ? ch + 32 : ch; }
  h[k] = 0;
  char *cl = strstr(h, "content-length:");
  if (cl) { size_t L = strtoul(cl + 15, NULL, 10); if (n >= hl + L) { c->h1pos += hl + L; return 1; } return 0; }
  if (strstr(h, "transfer-encoding: chunked")) {
    unsigned char *z = memmem(p + hl, n - hl, "0\r\n\r\n", 5);
    if (z && (z == p + hl || z[-1] == '\n')) { c->h1pos += (size_t)(z - p) + 5; return 1; }
    return 0;
  }
  return 0;
}

static Obj *obj_new(int kind) { Obj *o = __libc_calloc(1, sizeof *o); o->kind = kind; o->refs = 1; o->gen = 1; return o; }
static Conn *conn_new(int actor, Obj *o) {
  Conn *c = __libc_calloc(1, sizeof *c);
  c->actor = actor; c->o = o; c->id = nconns; if (o) o->conn = c;
  if (nconns < 1024) conns[nconns++] = c;
  return c;
}
static Obj *find_listener(u16 port) {
  for (int i = 0; i < nlisteners; i++) if (listeners[i] && listeners[i]->lport == port) return listeners[i];
  return NULL;
}
static void do_signal(int sig);

static void actor_mark(Actor *a, const char *s) {
  if (nmarks < 256) { snprintf(marks[nmarks], 64, "%s", s); nmarks++; }
  logf_("M %llu %llu actor=%s mark=%s\n", (unsigned long long)now, (unsigned long long)steps, a->name, s);
}
static void actor_run(int ai) {
  Actor *a = &actors[ai];
  if (a->type == 1) return;
  while (a->pc < a->nops) {
    Op *o = &a->ops[a->pc];
    Conn *c = a->conn;
    int done = 0;
    if (!a->waiting) { a->opstart = now; a->waiting = 1;
      if (o->op == O_SLEEP) {
        a->wake = now + (u64)(o->a + (i64)rndn(&rg_net, (u64)o->b + 1)) * 1000;
        Ev e = {0}; e.t = a->wake; e.type = E_TIMER; e.actor = ai; ev_push(e);
      } else if (o->tmo > 0) { Ev e = {0}; e.t = now + (u64)o->tmo * 1000; e.type = E_TIMER; e.actor = ai; ev_push(e); }
    }
    int dead = c && (c->a_closed || (c->a_eof));
    switch (o->op) {
      case O_SLEEP: done = now >= a->wake; break;
      case O_CONNECT:
        if (!c || c->a_closed || (a->ops[a->pc].len == 0)) {
          // start connecting once a listener exists
          Obj *l = find_listener((u16)o->a);
          if (l && !o->len) {
            Obj *s = obj_new(K_STREAM); s->refs = 0;
            s->lport = (u16)o->a; s->rport = (u16)(40000 + nconns); s->lip = htonl(INADDR_LOOPBACK); s->rip = htonl(INADDR_LOOPBACK);
            c = conn_new(ai, s);
            c->is_h2 = (int)o->b;
            a->conn = c;
            o->len = 1;
            Ev e = {0}; e.t = part_adj(ai, now + latency()); e.type = E_CONNECT; e.c = c; e.o = s; e.actor = (int)o->a; ev_push(e);
          }
          done = 0;
        }
        if (o->len && c && c->established) { done = 1; logf_("C %llu actor=%s conn=%d connected\n", (unsigned long long)now, a->name, c->id); }
        break;
      case O_SEND:
        if (c && !c->a_closed) { logf_("TX %llu actor=%s conn=%d len=%zu tag=%s\n", (unsigned long long)now, a->name, c->id, o->len, o->s); conn_send(c, blob + o->off, o->len); }
        else logf_("TXFAIL %llu actor=%s tag=%s\n", (unsigned long long)now, a->name, o->s);
        done = 1; break;
      case O_H2WAIT: done = c && (c->h2done[o->a & 4095] || dead || c->goaway); break;
      case O_H2WAITN: done = c && (c->h2ndone >= o->a || dead); break;
      case O_HTTPWAIT: done = c && http_done(c); if (done) logf_("HTTPDONE %llu actor=%s conn=%d\n", (unsigned long long)now, a->name, c->id); break;
      case O_RECVWAIT:
        if (c) {
          size_t n = c->arx.len - c->cursor;
          unsigned char *q = n ? memmem(c->arx.p + c->cursor, n, o->pat, (size_t)o->patlen) : NULL;
          if (q) { done = 1; if (o->a) c->cursor = (size_t)(q - c->arx.p) + (size_t)o->patlen; }
          else if (dead) done = 1;
        }
        break;
      case O_CLOSE: if (c && !c->a_closed) { c->a_closed = 1; to_weaver(c, E_TO_WEAVER_EOF, 0, 0, 0); Ev e = {0}; e.t = c->last_to_weaver + 1000; e.type = E_TO_WEAVER_RST; e.c = c; e.n = 1; ev_push(e); } done = 1; break;
      case O_RESET: if (c && !c->a_closed) { c->a_closed = 1; n_reset++; to_weaver(c, E_TO_WEAVER_RST, 0, 0, 0); } done = 1; break;
      case O_SHUTWR: if (c && !c->a_closed) { n_halfclose++; to_weaver(c, E_TO_WEAVER_EOF, 0, 0, 0); } done = 1; break;
      case O_SIGNAL: actor_mark(a, o->s); do_signal((int)o->a); done = 1; break;
      case O_MARK: actor_mark(a, o->s); done = 1; a->pc++; a->waiting = 0; actors_poke(); continue;
      case O_WAITMARK: for (int i = 0; i < nmarks; i++) if (!strcmp(marks[i], o->s)) done = 1; break;
      case O_NOREAD: if (c) c->noread = 1; done = 1; break;
      case O_READ: if (c) { c->noread = 0; c->unread = 0; if (c->o) obj_touch(c->o); if (c->wo) obj_touch(c->wo); } done = 1; break;
      case O_WAITEOF: done = !c || dead; break;
      case O_STALL: n_stall++; done = 0; if (a->waiting == 1) a->waiting = 2; break;
      case O_WAITIDLE: done = 1; break;
    }
    if (!done && o->tmo > 0 && now >= a->opstart + (u64)o->tmo * 1000) { done = 1; logf_("OPTIMEOUT %llu actor=%s pc=%d\n", (unsigned long long)now, a->name, a->pc); }
    if (!done) return;
    a->pc++; a->waiting = 0;
  }
  if (!a->done) { a->done = 1; logf_("ADONE %llu actor=%s\n", (unsigned long long)now, a->name); }
}
static int poking = 0, poke_again = 0;
static void actors_poke(void) {
  if (poking) { poke_again = 1; return; }
  poking = 1;
  do { poke_again = 0; for (int i = 0; i < nactors; i++) actor_run(i); } while (poke_again);
  poking = 0;
}
static int processing = 0, draining = 0;
static void process_events(void) {
  if (processing) return;
  processing = 1;
  while (nev && (draining || evq[0].t <= now)) {
    Ev e = ev_pop();
    // At process exit the kernel still delivers what was written; nothing reaches weaver any more.
    if (draining) { if (e.t > now) now = e.t; if (e.type != E_TO_ACTOR && e.type != E_TO_ACTOR_EOF) continue; }
    fold(&ehash, e.t); fold(&ehash, (u64)e.type); fold(&ehash, e.n);
    switch (e.type) {
      case E_TIMER: actor_run(e.actor); break;
      case E_TO_ACTOR: {
        Conn *c = e.c;
        c->inflight -= e.n;
        size_t before = c->arx.len; (void)before;
        buf_add(&c->arx, e.p, e.n);
        logf_("RX %llu actor=%s conn=%d ", (unsigned long long)now, actors[c->actor].name, c->id);
        loghex(e.p, e.n); logstr("\n", 1);
        if (c->noread) c->unread += e.n;
        else { if (c->o) obj_touch(c->o); if (c->wo) obj_touch(c->wo); }
        __libc_free(e.p);
        if (actors[c->actor].type == 1) { if (actors[c->actor].h2) h2_parse(c); else h1_server(c); }
        else if (c->is_h2) h2_parse(c);
        actor_run(c->actor);
        break;
      }
      case E_TO_ACTOR_EOF:
        e.c->a_eof = 1;
        logf_("EOF %llu actor=%s conn=%d\n", (unsigned long long)now, actors[e.c->actor].name, e.c->id);
        actor_run(e.c->actor);
        break;
      case E_TO_WEAVER: {
        Conn *c = e.c;
        if (c->o && !c->o->rx_rst && !c->o->rx_eof) { buf_add(&c->o->rx, e.p, e.n); obj_touch(c->o); }
        __libc_free(e.p);
        break;
      }
      case E_TO_WEAVER_EOF: if (e.c->o) { e.c->o->rx_eof = 1; obj_touch(e.c->o); } break;
      case E_TO_WEAVER_RST: if (e.c->o) { if (e.n != 1) e.c->o->rx_rst = 1; e.c->o->dead = 1; obj_touch(e.c->o); } break;
      case E_CONNECT: {
        Conn *c = e.c; Obj *l = find_listener((u16)e.actor);
        if (l && l->npend < 256) { l->pend[l->npend++] = e.o; e.o->refs = 0; obj_touch(l); c->established = 1; }
        else { c->a_closed = 1; c->established = 1; logf_("REFUSED %llu actor=%s\n", (unsigned long long)now, actors[c->actor].name); }
        actor_run(c->actor);
        break;
      }
      case E_CONNDONE: {
        Obj *o = e.o; o->connecting = 0; o->connerr = (int)e.n;
        if (!e.n && e.c) e.c->established = 1;
        obj_touch(o);
        if (--o->refs == 0) {}
        break;
      }
    }
  }
  processing = 0;
}

// ---------------------------------------------------------------- signals
static struct sigaction sigs[65];
static unsigned char sigset_[65];
static void do_signal(int sig) {
  n_sig++;
  logf_("SIG %llu %d handler=%d\n", (unsigned long long)now, sig, sigset_[sig]);
  void (*h)(int) = sigset_[sig] ? sigs[sig].sa_handler : SIG_DFL;
  if (h == SIG_IGN) return;
  if (h == SIG_DFL) { logf_("KILLED sig=%d\n", sig); die_now(128 + sig); }
  in_signal++;
  int e = errno;
  if (sigs[sig].sa_flags & SA_SIGINFO) {
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig;
    sigs[sig].sa_sigaction(sig, &si, NULL);
  } else h(sig);
  errno = e;
  in_signal--;
}
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
int sigaction(int sig, const struct sigaction *act, struct sigaction *old) {
  if (!real_sigaction) real_sigaction = dlsym(RTLD_NEXT, "sigaction");
  if (!active || (sig != SIGINT && sig != SIGHUP && sig != SIGTERM && sig != SIGQUIT)) return real_sigaction(sig, act, old);
  if (old) { if (sigset_[sig]) *old = sigs[sig]; else { memset(old, 0, sizeof *old); old->sa_handler = SIG_DFL; } }
  if (act) { sigs[sig] = *act; sigset_[sig] = 1; }
  ypoint(1);
  return 0;
}

// ---------------------------------------------------------------- pthread
#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int (*real_pthread_create_)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void thr_exit_dtor(void *v) {
  Thr *t = v;
  if (t->dtor_round < 2) { t->dtor_round++; pthread_setspecific(exitkey, t); return; }
  t->state = T_DONE;
  steps++; dec++;
  schedule(1, 1);
  self = NULL;
}
static void *tramp(void *p) {
  Thr *t = p;
  self = t;
  gate_wait(t);
  pthread_setspecific(exitkey, t);
  return t->fn(t->arg);
}
static u64 preempt_gap(void) { return 1 + rndn(&rg_sched, (u64)cfg_malloc * 2); }
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create_) real_pthread_create_ = dlsym(RTLD_NEXT, "pthread_create");
  if (!simming()) return real_pthread_create_(pt, attr, fn, arg);
  long a;
  int f = fault_check(C_THREAD, "thread", &a);
  if (f < 0) { ypoint(1); return -f; }
  if (nthr >= MAXT) { logf_("INTERNAL too many threads\n"); die_now(EXIT_INTERNAL); }
  Thr *t = &thr[nthr];
  memset(t, 0, sizeof *t);
  t->id = nthr; t->fn = fn; t->arg = arg; t->state = T_RUN;
  t->prio = 1000000 + (i64)rndn(&rg_sched, 1000000);
  t->next_preempt = cfg_malloc ? preempt_gap() : ~0ull;
  int r = real_pthread_create_(&t->pt, attr, tramp, t);
  if (r) { t->state = T_FREE; return r; }
  nthr++;
  *pt = t->pt;
  ypoint(2);
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  REAL(pthread_join);
  if (!simming()) return real_pthread_join(pt, ret);
  Thr *t = NULL;
  for (int i = nthr - 1; i >= 0; i--) if (pthread_equal(thr[i].pt, pt)) { t = &thr[i]; break; }
  ypoint(1);
  if (t) { while (t->state != T_DONE) { self->wjoin = t; block(W_JOIN, 0); } }
  return real_pthread_join(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock);
  if (!simming()) return real_pthread_mutex_lock(m);
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    ypoint(9);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_rdlock);
  if (!simming()) return real_pthread_rwlock_rdlock(m);
  for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; ypoint(9); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_wrlock);
  if (!simming()) return real_pthread_rwlock_wrlock(m);
  for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; ypoint(9); }
}
static int cond_wait_sim(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
  pthread_mutex_unlock(m);
  self->waddr = c; self->wbits = ~0u;
  int to = block(W_FUTEX, deadline);
  pthread_mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
static int futex_wake_sim(void *addr, int n, u32 bits) {
  int woken = 0;
  while (woken < n) {
    Thr *best = NULL; int cnt = 0;
    for (int i = 0; i < nthr; i++) {
      Thr *t = &thr[i];
      if (t->state != T_BLOCK || t->wtype != W_FUTEX || t->woken || t->waddr != addr || !(t->wbits & bits)) continue;
      cnt++;
      if (cfg_fifo) { if (!best || t->wseq < best->wseq) best = t; }
      else if (rndn(&rg_futex, (u64)cnt) == 0) best = t;
    }
    if (!best) break;
    best->woken = 1; woken++;
  }
  return woken;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(pthread_cond_wait);
  if (!simming()) return real_pthread_cond_wait(c, m);
  return cond_wait_sim(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  REAL(pthread_cond_timedwait);
  if (!simming()) return real_pthread_cond_timedwait(c, m, ts);
  i64 d = (i64)ts->tv_sec * 1000000000 + ts->tv_nsec - (i64)(WALL_BASE * 1000000000ull) - wall_off;
  return cond_wait_sim(c, m, d <= 0 ? 1 : (u64)d);
}
int pthread_cond_signal(pthread_cond_t *c) {
  REAL(pthread_cond_signal);
  if (!active) return real_pthread_cond_signal(c);
  futex_wake_sim(c, 1, ~0u); ypoint(3); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL(pthread_cond_broadcast);
  if (!active) return real_pthread_cond_broadcast(c);
  futex_wake_sim(c, MAXT, ~0u); ypoint(3); return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  REAL(pthread_once);
  nopreempt++;
  int r = real_pthread_once(o, f);
  nopreempt--;
  return r;
}
int dl_iterate_phdr(int (*cb)(struct dl_phdr_info *, size_t, void *), void *d) {
  REAL(dl_iterate_phdr);
  nopreempt++;
  int r = real_dl_iterate_phdr(cb, d);
  nopreempt--;
  return r;
}
int sched_yield(void) {
  if (!simming()) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  ypoint(9);
  return 0;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!active) return (int)ret_errno(RAW(SYS_sched_getaffinity, pid, sz, set));
  memset(set, 0, sz);
  for (int i = 0; i < cfg_ncpu; i++) CPU_SET_S(i, sz, set);
  return 0;
}
long sysconf(int n) {
  REAL(sysconf);
  if (active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return cfg_ncpu;
  return real_sysconf(n);
}
pid_t getpid(void) { return active ? 4242 : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// ---------------------------------------------------------------- futex through syscall()
static u64 ts_ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
static void fill_random(void *p, size_t n) {
  unsigned char *c = p;
  while (n) { u64 v = rnd(&rg_rand); size_t k = n < 8 ? n : 8; memcpy(c, &v, k); c += k; n -= k; }
}
pid_t gettid(void) { return active && self ? 4242 + self->id : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!active || !self) return ret_errno(raw6(n, a, b, c, d, e, f));
  if (n == SYS_futex) {
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int r = futex_wake_sim((void *)a, (int)c, op == FUTEX_WAKE_BITSET ? (u32)f : ~0u);
      ypoint(3);
      return r;
    }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (in_signal) { errno = EAGAIN; return -1; }
      ypoint(4);
      if (__atomic_load_n((u32 *)a, __ATOMIC_SEQ_CST) != (u32)c) { errno = EAGAIN; return -1; }
      if (cfg_spurious && rndn(&rg_futex, 1000) < (u64)cfg_spurious) { n_spur++; errno = EINTR; return -1; }
      u64 dl = 0;
      if (d) {
        u64 t = ts_ns((struct timespec *)d);
        if (op == FUTEX_WAIT) dl = now + t;
        else if (b & FUTEX_CLOCK_REALTIME) { i64 x = (i64)t - (i64)(WALL_BASE * 1000000000ull) - wall_off; dl = x <= 0 ? 1 : (u64)x; }
        else dl = t ? t : 1;
        if (dl == 0) dl = 1;
      }
      self->waddr = (void *)a; self->wbits = op == FUTEX_WAIT_BITSET ? (u32)f : ~0u;
      if (block(W_FUTEX, dl)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    logf_("INTERNAL futex op %d\n", op);
  }
  if (n == SYS_getrandom) { fill_random((void *)a, (size_t)b); return b; }
  if (n == SYS_sched_getaffinity) return sched_getaffinity((pid_t)a, (size_t)b, (cpu_set_t *)c);
  if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
  if (n == SYS_gettid) return 4242 + self->id;
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (!active) return ret_errno(RAW(SYS_getrandom, p, n, fl));
  fill_random(p, n);
  return (ssize_t)n;
}
int getentropy(void *p, size_t n) {
  if (!active) return RAW(SYS_getrandom, p, n, 0) < 0 ? -1 : 0;
  fill_random(p, n);
  return 0;
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active) return (int)ret_errno(RAW(SYS_clock_gettime, id, ts, 0));
  if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) { ts->tv_sec = (time_t)(now / 1000000000); ts->tv_nsec = (long)(now % 1000000000); return 0; }
  ypoint(5);
  i64 t = (i64)now;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += (i64)(WALL_BASE * 1000000000ull) + wall_off;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  int r = clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return r;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *rem) {
  if (!simming()) return (int)ret_errno(RAW(SYS_nanosleep, a, rem, 0));
  block(W_SLEEP, now + ts_ns(a) + 1);
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *a, struct timespec *rem) {
  if (!simming()) { long r = raw6(SYS_clock_nanosleep, id, flags, (long)a, (long)rem, 0, 0); return (int)-r; }
  u64 d;
  if (flags & TIMER_ABSTIME) {
    if (id == CLOCK_REALTIME) { i64 x = (i64)ts_ns(a) - (i64)(WALL_BASE * 1000000000ull) - wall_off; d = x <= 0 ? 1 : (u64)x; }
    else d = ts_ns(a) ? ts_ns(a) : 1;
  } else d = now + ts_ns(a) + 1;
  block(W_SLEEP, d);
  return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }

// ---------------------------------------------------------------- malloc preemption
static uintptr_t exe_lo, exe_hi;
static inline void alloc_point(void *ra) {
  if (!active || !self) return;
  Thr *t = self;
  if (((uintptr_t)ra < exe_lo) | ((uintptr_t)ra >= exe_hi)) return;
  t->allocs++;
  now += 30;
  if (t->allocs >= t->next_preempt) {
    t->next_preempt = t->allocs + preempt_gap();
    if (!in_signal && !nopreempt) ypoint(6);
  }
}
void *malloc(size_t n) { alloc_point(__builtin_return_address(0)); return __libc_malloc(n); }
void free(void *p) { __libc_free(p); }
void *calloc(size_t a, size_t b) { alloc_point(__builtin_return_address(0)); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { alloc_point(__builtin_return_address(0)); return __libc_realloc(p, n); }

// ---------------------------------------------------------------- files
static int in_root(const char *p) {
  if (!p || !cfg_rootlen) return 0;
  if (p[0] != '/') return 1;
  return !strncmp(p, cfg_root, cfg_rootlen) && (p[cfg_rootlen] == '/' || p[cfg_rootlen] == 0);
}
static const char *relp(const char *p) {
  if (p && p[0] == '/' && in_root(p)) { p += cfg_rootlen; while (*p == '/') p++; if (!*p) return "."; }
  return p;
}
static void fd_set_path(int fd, const char *p) {
  if (fd < 0 || fd >= MAXFD) return;
  if (fdt[fd].path) { __libc_free(fdt[fd].path); fdt[fd].path = NULL; }
  fdt[fd].inroot = 0;
  if (p) { size_t n = strlen(p); fdt[fd].path = __libc_malloc(n + 1); memcpy(fdt[fd].path, p, n + 1); fdt[fd].inroot = 1; }
}
// Returns 1 when the call must fail with errno already set.
static int fs_pre(int cls, const char *path, int *act, long *arg) {
  ypoint(7);
  *act = fault_check(cls, path, arg);
  fold(&ehash, (u64)cls);
  if (*act < 0) { errno = -*act; return 1; }
  return 0;
}
static void fs_log(int cls, const char *path, long r) {
  logf_("F %s %ld %s %ld\n", clsname[cls], clscount[cls], path ? path : "-", r < 0 ? -(long)errno : r);
}
// ---------------------------------------------------------------- jail
// Changes outside the scratch folder are recorded and refused, so that code that fails to contain its effects reaches nothing real.
static int jail_ok(const char *q, int parent) {
  size_t n = strlen(q);
  if (n >= 10 && !strcmp(q + n - 10, " (deleted)")) return 1;
  if (!strncmp(q, cfg_root, cfg_rootlen) && (q[cfg_rootlen] == '/' || (q[cfg_rootlen] == 0 && parent))) return 1;
  return !strncmp(q, "/dev/", 5) || (parent && !strcmp(q, "/dev")) || !strncmp(q, "/proc/", 6) || !strncmp(q, "pipe:", 5) || !strncmp(q, "socket:", 7);
}
static int fd_name(int fd, char *out, size_t sz) {
  char pr[40];
  snprintf(pr, sizeof pr, "/proc/self/fd/%d", fd);
  long r = RAW(SYS_readlink, pr, out, sz - 1);
  if (r < 0) return -1;
  out[r] = 0;
  return 0;
}
static int jail_stop(const char *op, const char *p) { logf_("ESCAPE %s %s\n", op, p); errno = EACCES; return 1; }
static int jail_depth(const char *op, int dfd, const char *p, int follow, int depth) {
  char par[PATH_MAX], name[PATH_MAX], tgt[PATH_MAX];
  size_t n = p ? strlen(p) : 0;
  if (!n || n >= PATH_MAX - 2 || depth > 8) return 0;
  strcpy(par, p);
  while (n > 1 && par[n - 1] == '/') par[--n] = 0;
  char *sl = strrchr(par, '/');
  const char *base = sl ? p + (sl - par) + 1 : p;
  if (sl == par) par[1] = 0; else if (sl) *sl = 0; else strcpy(par, ".");
  if (!strcmp(base, "..") || !strcmp(base, ".")) { strcpy(par, p); base = NULL; }
  long d = raw6(SYS_openat, dfd, (long)par, O_PATH | O_DIRECTORY | O_CLOEXEC, 0, 0, 0);
  if (d < 0) return 0;
  int bad = 0;
  if (!fd_name((int)d, name, sizeof name)) {
    long l = -1;
    if (base && follow) {
      l = raw6(SYS_readlinkat, (int)d, (long)base, (long)tgt, sizeof tgt - 1, 0, 0);
      if (l >= 0) { tgt[l] = 0; bad = jail_depth(op, (int)d, tgt, 1, depth + 1); }
    }
    if (l < 0 && !jail_ok(name, 1)) bad = jail_stop(op, p);
  }
  RAW(SYS_close, d, 0, 0);
  return bad;
}
static int jail(const char *op, int dfd, const char *p, int follow) {
  if (!active || !self || !cfg_rootlen || in_signal) return 0;
  return jail_depth(op, dfd, p, follow, 0);
}
static int do_openat(int dfd, const char *path, int flags, mode_t mode) {
  if ((flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) && !(flags & O_PATH) && jail("open", dfd, path, !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL))) return -1;
  if (!simming() || !in_root(path) || !strncmp(path, "/dev", 4) || !strncmp(path, "/proc", 5))
    return (int)ret_errno(raw6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
  int cls = (flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) ? C_CREATE : (flags & O_DIRECTORY) ? C_OPENDIR : C_OPEN;
  const char *rp = relp(path);
  int act; long arg;
  if (fs_pre(cls, rp, &act, &arg)) { fs_log(cls, rp, -1); return -1; }
  if (cfg_eintr && rndn(&rg_fs, 1000) < (u64)cfg_eintr) { n_eintr++; errno = EINTR; return -1; }
  long r = ret_errno(raw6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
  fs_log(cls, rp, r < 0 ? -1 : 0);
  if (r >= 0) fd_set_path((int)r, rp);
  if (act == 3) { logf_("CRASH after %s %s\n", clsname[cls], rp); die_now(EXIT_CRASH); }
  return (int)r;
}
#define OPEN_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPEN_MODE return do_openat(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPEN_MODE return do_openat(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { OPEN_MODE return do_openat(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPEN_MODE return do_openat(d, p, flags, mode); }

static ssize_t stream_read(Obj *o, struct iovec *iov, int cnt, int peek, int dontwait);
static ssize_t stream_write(Obj *o, const struct iovec *iov, int cnt, int dontwait);

static size_t iov_len(const struct iovec *v, int n) { size_t s = 0; for (int i = 0; i < n; i++) s += v[i].iov_len; return s; }

static ssize_t file_read(int fd, struct iovec *iov, int cnt, i64 off) {
  const char *p = fdt[fd].path;
  int act = 0; long arg = 0;
  if (fs_pre(C_READ, p, &act, &arg)) { fs_log(C_READ, p, -1); return -1; }
  size_t total = iov_len(iov, cnt);
  if (total && cfg_eintr && rndn(&rg_fs, 1000) < (u64)cfg_eintr) { n_eintr++; errno = EINTR; return -1; }
  struct iovec one; struct iovec *v = iov; int n = cnt;
  size_t lim = total;
  if (act == 1) lim = arg > 0 ? (size_t)arg : 1;
  else if (cfg_shortio && total > 1 && rndn(&rg_fs, 1000) < (u64)cfg_shortio) { lim = 1 + rndn(&rg_fs, total < 64 ? total : 64); n_short++; }
  if (lim < total && cnt) { one = iov[0]; if (lim < one.iov_len) one.iov_len = lim; v = &one; n = 1; }
  ssize_t r;
  if (off >= 0) r = ret_errno(raw6(SYS_preadv, fd, (long)v, n, off, 0, 0));
  else r = ret_errno(RAW(SYS_readv, fd, v, n));
  fs_log(C_READ, p, r);
  if (act == 3) { logf_("CRASH after read %s\n", p); die_now(EXIT_CRASH); }
  return r;
}
static ssize_t file_write(int fd, const struct iovec *iov, int cnt, i64 off) {
  const char *p = fdt[fd].path;
  int act = 0; long arg = 0;
  if (fs_pre(C_WRITE, p, &act, &arg)) { fs_log(C_WRITE, p, -1); return -1; }
  size_t total = iov_len(iov, cnt);
  if (total && cfg_eintr && rndn(&rg_fs, 1000) < (u64)cfg_eintr) { n_eintr++; errno = EINTR; return -1; }
  struct iovec one; const struct iovec *v = iov; int n = cnt;
  size_t lim = total;
  if (act == 1) lim = arg > 0 ? (size_t)arg : 1;
  else if (act == 4) lim = total / 2;
  else if (cfg_shortio && total > 1 && rndn(&rg_fs, 1000) < (u64)cfg_shortio) { lim = 1 + rndn(&rg_fs, total); n_short++; }
  if (lim < total && cnt) {
    one = iov[0];
    for (int i = 0; i < cnt && !one.iov_len; i++) one = iov[i];
    if (lim < one.iov_len) one.iov_len = lim;
    v = &one; n = 1;
  }
  ssize_t r;
  if (off >= 0) r = ret_errno(raw6(SYS_pwritev, fd, (long)v, n, off, 0, 0));
  else r = ret_errno(RAW(SYS_writev, fd, v, n));
  fs_log(C_WRITE, p, r);
  if (act == 3 || act == 4) { logf_("CRASH %s write %s\n", act == 3 ? "after" : "mid", p); die_now(EXIT_CRASH); }
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  if (active && fd >= 0 && fd < MAXFD && self) {
    struct iovec v = {b, n};
    Obj *o = fdt[fd].o;
    if (o) return stream_read(o, &v, 1, 0, 0);
    if (fdt[fd].inroot && !in_signal) return file_read(fd, &v, 1, -1);
  }
  return ret_errno(RAW(SYS_read, fd, b, n));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (active && fd >= 0 && fd < MAXFD && self) {
    Obj *o = fdt[fd].o;
    if (o) return stream_read(o, (struct iovec *)v, c, 0, 0);
    if (fdt[fd].inroot && !in_signal) return file_read(fd, (struct iovec *)v, c, -1);
  }
  return ret_errno(RAW(SYS_readv, fd, v, c));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
  if (active && fd >= 0 && fd < MAXFD && self && fdt[fd].inroot && !in_signal) { struct iovec v = {b, n}; return file_read(fd, &v, 1, off); }
  return ret_errno(raw6(SYS_pread64, fd, (long)b, (long)n, off, 0, 0));
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t write(int fd, const void *b, size_t n) {
  if (active && fd >= 0 && fd < MAXFD && self) {
    out_stall(fd);
    struct iovec v = {(void *)b, n};
    Obj *o = fdt[fd].o;
    if (o) return stream_write(o, &v, 1, 0);
    if (fdt[fd].inroot && !in_signal) return file_write(fd, &v, 1, -1);
  }
  return ret_errno(RAW(SYS_write, fd, b, n));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (active && fd >= 0 && fd < MAXFD && self) {
    out_stall(fd);
    Obj *o = fdt[fd].o;
    if (o) return stream_write(o, v, c, 0);
    if (fdt[fd].inroot && !in_signal) return file_write(fd, v, c, -1);
  }
  return ret_errno(RAW(SYS_writev, fd, v, c));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
  if (active && fd >= 0 && fd < MAXFD && self && fdt[fd].inroot) { struct iovec v = {(void *)b, n}; return file_write(fd, &v, 1, off); }
  return ret_errno(raw6(SYS_pwrite64, fd, (long)b, (long)n, off, 0, 0));
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  (void)a; (void)ao; (void)b; (void)bo; (void)n; (void)f;
  if (active) { errno = ENOSYS; return -1; }
  return ret_errno(raw6(SYS_copy_file_range, a, (long)ao, b, (long)bo, (long)n, f));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (active) { errno = ENOSYS; return -1; }
  return ret_errno(raw6(SYS_sendfile, o, i, (long)off, (long)n, 0, 0));
}
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  if (active) { errno = EINVAL; return -1; }
  return ret_errno(raw6(SYS_splice, a, (long)ao, b, (long)bo, (long)n, f));
}
#define PATHOP(cls, path, call)                                              \
  if (!simming() || !in_root(path)) return (int)ret_errno(call);              \
  const char *rp = relp(path);                                               \
  int act; long arg;                                                         \
  if (fs_pre(cls, rp, &act, &arg)) { fs_log(cls, rp, -1); return -1; }       \
  long r = ret_errno(call);                                                  \
  fs_log(cls, rp, r);                                                        \
  if (act == 3) { logf_("CRASH after %s %s\n", clsname[cls], rp); die_now(EXIT_CRASH); } \
  return (int)r;
int mkdir(const char *p, mode_t m) { if (jail("mkdir", AT_FDCWD, p, 0)) return -1; PATHOP(C_MKDIR, p, RAW(SYS_mkdir, p, m, 0)) }
int rmdir(const char *p) { if (jail("rmdir", AT_FDCWD, p, 0)) return -1; PATHOP(C_UNLINK, p, RAW(SYS_rmdir, p, 0, 0)) }
int unlink(const char *p) { if (jail("unlink", AT_FDCWD, p, 0)) return -1; PATHOP(C_UNLINK, p, RAW(SYS_unlink, p, 0, 0)) }
int unlinkat(int d, const char *p, int f) { if (jail("unlink", d, p, 0)) return -1; PATHOP(C_UNLINK, p, RAW(SYS_unlinkat, d, p, f)) }
int rename(const char *a, const char *p) { if (jail("rename", AT_FDCWD, a, 0) || jail("rename", AT_FDCWD, p, 0)) return -1; PATHOP(C_RENAME, p, RAW(SYS_rename, a, p, 0)) }
int renameat(int d, const char *a, int e, const char *p) { if (jail("rename", d, a, 0) || jail("rename", e, p, 0)) return -1; PATHOP(C_RENAME, p, raw6(SYS_renameat, d, (long)a, e, (long)p, 0, 0)) }
int renameat2(int d, const char *a, int e, const char *p, unsigned f) { if (jail("rename", d, a, 0) || jail("rename", e, p, 0)) return -1; PATHOP(C_RENAME, p, raw6(SYS_renameat2, d, (long)a, e, (long)p, f, 0)) }
int symlink(const char *t, const char *p) { if (jail("symlink", AT_FDCWD, p, 0)) return -1; return (int)ret_errno(RAW(SYS_symlink, t, p, 0)); }
int symlinkat(const char *t, int d, const char *p) { if (jail("symlink", d, p, 0)) return -1; return (int)ret_errno(RAW(SYS_symlinkat, t, d, p)); }
int link(const char *a, const char *p) { if (jail("link", AT_FDCWD, a, 0) || jail("link", AT_FDCWD, p, 0)) return -1; return (int)ret_errno(RAW(SYS_link, a, p, 0)); }
int linkat(int d, const char *a, int e, const char *p, int f) {
  if (jail("link", d, a, f & AT_SYMLINK_FOLLOW) || jail("link", e, p, 0)) return -1;
  return (int)ret_errno(raw6(SYS_linkat, d, (long)a, e, (long)p, f, 0));
}
int chmod(const char *p, mode_t m) { if (jail("chmod", AT_FDCWD, p, 1)) return -1; return (int)ret_errno(RAW(SYS_chmod, p, m, 0)); }
int fchmodat(int d, const char *p, mode_t m, int f) { if (jail("chmod", d, p, 1)) return -1; (void)f; return (int)ret_errno(RAW(SYS_fchmodat, d, p, m)); }
int chown(const char *p, uid_t u, gid_t g) { if (jail("chown", AT_FDCWD, p, 1)) return -1; return (int)ret_errno(RAW(SYS_chown, p, u, g)); }
int lchown(const char *p, uid_t u, gid_t g) { if (jail("chown", AT_FDCWD, p, 0)) return -1; return (int)ret_errno(RAW(SYS_lchown, p, u, g)); }
int truncate64(const char *p, off64_t n) { if (jail("truncate", AT_FDCWD, p, 1)) return -1; return (int)ret_errno(RAW(SYS_truncate, p, n, 0)); }
int utimensat(int d, const char *p, const struct timespec *t, int f) {
  if (p && jail("utimes", d, p, !(f & AT_SYMLINK_NOFOLLOW))) return -1;
  return (int)ret_errno(raw6(SYS_utimensat, d, (long)p, (long)t, f, 0, 0));
}
static int utimes_at(const char *p, const struct timeval *t, int f) {
  struct timespec ts[2];
  if (jail("utimes", AT_FDCWD, p, !f)) return -1;
  if (t) for (int i = 0; i < 2; i++) { ts[i].tv_sec = t[i].tv_sec; ts[i].tv_nsec = t[i].tv_usec * 1000; }
  return (int)ret_errno(raw6(SYS_utimensat, AT_FDCWD, (long)p, (long)(t ? ts : NULL), f, 0, 0));
}
int utimes(const char *p, const struct timeval *t) { return utimes_at(p, t, 0); }
int lutimes(const char *p, const struct timeval *t) { return utimes_at(p, t, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *restrict p0, int fl, unsigned m, struct statx *restrict b) {
  const char *volatile pv = p0; const char *p = pv;
  if (!simming() || !p || !p[0] || !in_root(p)) return (int)ret_errno(raw6(SYS_statx, d, (long)p, fl, m, (long)b, 0));
  const char *rp = relp(p);
  int act; long arg;
  if (fs_pre(C_STAT, rp, &act, &arg)) { fs_log(C_STAT, rp, -1); return -1; }
  return (int)ret_errno(raw6(SYS_statx, d, (long)p, fl, m, (long)b, 0));
}
int fsync(int fd) {
  if (simming() && fd >= 0 && fd < MAXFD && fdt[fd].inroot) { int act; long arg; if (fs_pre(C_FSYNC, fdt[fd].path, &act, &arg)) return -1; if (act == 3) die_now(EXIT_CRASH); }
  return (int)ret_errno(RAW(SYS_fsync, fd, 0, 0));
}
int fdatasync(int fd) { return fsync(fd); }

// directories ------------------------------------------------------------
typedef struct DirL { DIR *d; struct dirent64 *e; int n, pos; char *path; struct DirL *next; } DirL;
static DirL *dirls = NULL;
static DIR *(*real_opendir)(const char *);
static DIR *(*real_fdopendir)(int);
static struct dirent64 *(*real_readdir64)(DIR *);
static int (*real_closedir)(DIR *);
static int dcmp(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static void dir_load(DIR *d, const char *path) {
  DirL *l = __libc_calloc(1, sizeof *l);
  l->d = d;
  size_t n = strlen(path); l->path = __libc_malloc(n + 1); memcpy(l->path, path, n + 1);
  int cap = 0; struct dirent64 *x;
  while ((x = real_readdir64(d))) {
    if (l->n == cap) { cap = cap ? cap * 2 : 32; l->e = __libc_realloc(l->e, (size_t)cap * sizeof *x); }
    memset(&l->e[l->n], 0, sizeof *x);
    memcpy(&l->e[l->n], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
    l->n++;
  }
  qsort(l->e, (size_t)l->n, sizeof *l->e, dcmp);
  if (cfg_rdshuffle == 1 && l->n > 1) {
    // keyed by the directory name so that it does not depend on visit order
    Rng r = {cfg_seed ^ 0x5bd1e995};
    for (const char *q = path; *q; q++) r.s = r.s * 1099511628211ull + (unsigned char)*q;
    for (int i = l->n - 1; i > 0; i--) { int j = (int)rndn(&r, (u64)i + 1); struct dirent64 t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
    n_rds++;
  } else if (cfg_rdshuffle == 2) {
    for (int i = 0, j = l->n - 1; i < j; i++, j--) { struct dirent64 t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
  }
  l->next = dirls; dirls = l;
}
DIR *opendir(const char *p) {
  if (!real_opendir) { real_opendir = dlsym(RTLD_NEXT, "opendir"); real_readdir64 = dlsym(RTLD_NEXT, "readdir64"); }
  if (!simming() || !in_root(p)) return real_opendir(p);
  const char *rp = relp(p);
  int act; long arg;
  if (fs_pre(C_OPENDIR, rp, &act, &arg)) { fs_log(C_OPENDIR, rp, -1); return NULL; }
  DIR *d = real_opendir(p);
  fs_log(C_OPENDIR, rp, d ? 0 : -1);
  if (d) { int e = errno; dir_load(d, rp); errno = e; }
  return d;
}
DIR *fdopendir(int fd) {
  if (!real_fdopendir) { real_fdopendir = dlsym(RTLD_NEXT, "fdopendir"); real_readdir64 = dlsym(RTLD_NEXT, "readdir64"); }
  DIR *d = real_fdopendir(fd);
  if (d && simming() && fd < MAXFD && fdt[fd].inroot) { int e = errno; dir_load(d, fdt[fd].path); errno = e; }
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  if (!real_readdir64) real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  if (active) for (DirL *l = dirls; l; l = l->next) if (l->d == d) {
    int act; long arg;
    if (fs_pre(C_READDIR, l->path, &act, &arg)) { fs_log(C_READDIR, l->path, -1); l->pos = l->n; return NULL; }
    if (l->pos >= l->n) return NULL;
    return &l->e[l->pos++];
  }
  return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  if (!real_closedir) real_closedir = dlsym(RTLD_NEXT, "closedir");
  DirL **pp = &dirls;
  while (*pp) { if ((*pp)->d == d) { DirL *l = *pp; *pp = l->next; __libc_free(l->e); __libc_free(l->path); __libc_free(l); break; } pp = &(*pp)->next; }
  int fd = dirfd(d);
  if (fd >= 0 && fd < MAXFD && fdt[fd].path) fd_set_path(fd, NULL);
  return real_closedir(d);
}

// ---------------------------------------------------------------- fds and sockets
static int reserve_fd(void) { return (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR | O_CLOEXEC, 0, 0, 0); }
static int fd_install(Obj *o) {
  int fd = reserve_fd();
  if (fd < 0 || fd >= MAXFD) { errno = EMFILE; return -1; }
  fdt[fd].o = o; o->refs++;
  return fd;
}
static void ep_forget(Obj *o) {
  // remove from every epoll set (object fully closed)
  for (int f = 0; f < MAXFD; f++) {
    Obj *e = fdt[f].o;
    if (!e || e->kind != K_EPOLL) continue;
    for (int i = 0; i < e->nitems; i++) if (e->items[i].live && e->items[i].o == o) e->items[i].live = 0;
  }
}
static void obj_unref(Obj *o) {
  if (--o->refs > 0) return;
  ep_forget(o);
  if (o->kind == K_LISTENER) for (int i = 0; i < nlisteners; i++) if (listeners[i] == o) listeners[i] = NULL;
  if (o->kind == K_STREAM) {
    if (o->peer) { o->peer->rx_eof = 1; o->peer->dead = 1; obj_touch(o->peer); o->peer->peer = NULL; }
    if (o->conn) {
      Conn *c = o->conn;
      if (c->o == o) c->o = NULL;
      if (c->wo == o) c->wo = NULL;
      Ev e = {0};
      u64 t = now + latency(); if (t <= c->last_to_actor) t = c->last_to_actor + 1;
      c->last_to_actor = e.t = part_adj(c->actor, t); e.type = E_TO_ACTOR_EOF; e.c = c;
      ev_push(e);
    }
  }
  // objects are leaked on purpose: waiters may still hold pointers
}
int close(int fd) {
  if (active && fd >= 0 && fd < MAXFD) {
    if (fdt[fd].o) {
      if (self) ypoint(1);
      Obj *o = fdt[fd].o; fdt[fd].o = NULL; obj_unref(o);
    } else if (fdt[fd].path) {
      if (self && !in_signal) ypoint(1);
      fd_set_path(fd, NULL);
    }
  }
  return (int)ret_errno(RAW(SYS_close, fd, 0, 0));
}
static int dup_obj(int fd, int nfd) { if (nfd >= 0 && nfd < MAXFD && fdt[fd].o) { fdt[nfd].o = fdt[fd].o; fdt[fd].o->refs++; } else if (nfd >= 0 && nfd < MAXFD && fdt[fd].path) fd_set_path(nfd, fdt[fd].path); return nfd; }
int dup(int fd) { int r = (int)ret_errno(RAW(SYS_dup, fd, 0, 0)); if (active && r >= 0 && fd < MAXFD) dup_obj(fd, r); return r; }
static int do_fcntl(int fd, int cmd, long arg) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (o && cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
  if (o && cmd == F_SETFL) { o->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
  int r = (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
  if (active && r >= 0 && fd < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dup_obj(fd, r);
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
  Obj *o = active ? fdobj(fd) : NULL;
  if (o && req == FIONBIO) { o->nonblock = *(int *)a != 0; return 0; }
  if (o && req == FIONREAD) { *(int *)a = (int)buf_n(&o->rx); return 0; }
  if (o) { errno = ENOTTY; return -1; }
  return (int)ret_errno(RAW(SYS_ioctl, fd, req, a));
}
int isatty(int fd) { if (active && fdobj(fd)) { errno = ENOTTY; return 0; } REAL(isatty); return real_isatty(fd); }

int eventfd(unsigned v, int flags) {
  if (!active) return (int)ret_errno(RAW(SYS_eventfd2, v, flags, 0));
  Obj *o = obj_new(K_EVENTFD); o->refs = 0; o->counter = v; o->nonblock = (flags & EFD_NONBLOCK) != 0; o->semaphore = flags & EFD_SEMAPHORE;
  return fd_install(o);
}
int epoll_create1(int fl) {
  if (!active) return (int)ret_errno(RAW(SYS_epoll_create1, fl, 0, 0));
  Obj *o = obj_new(K_EPOLL); o->refs = 0;
  return fd_install(o);
}
int epoll_create(int n) { (void)n; return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  Obj *e = active ? fdobj(ep) : NULL;
  if (!e) return (int)ret_errno(raw6(SYS_epoll_ctl, ep, op, fd, (long)ev, 0, 0));
  Obj *o = fdobj(fd);
  if (!o) { errno = EPERM; return -1; }
  EpItem *it = NULL;
  for (int i = 0; i < e->nitems; i++) if (e->items[i].live && e->items[i].fd == fd && e->items[i].o == o) it = &e->items[i];
  if (op == EPOLL_CTL_DEL) { if (!it) { errno = ENOENT; return -1; } it->live = 0; return 0; }
  if (op == EPOLL_CTL_ADD) {
    if (it) { errno = EEXIST; return -1; }
    for (int i = 0; i < e->nitems; i++) if (!e->items[i].live) { it = &e->items[i]; break; }
    if (!it) {
      if (e->nitems == e->capitems) { e->capitems = e->capitems ? e->capitems * 2 : 16; e->items = __libc_realloc(e->items, (size_t)e->capitems * sizeof(EpItem)); }
      it = &e->items[e->nitems++];
    }
  } else if (!it) { errno = ENOENT; return -1; }
  it->o = o; it->fd = fd; it->ev = ev->events; it->data = ev->data.u64; it->last = 0; it->live = 1;
  if (self && !in_signal) ypoint(1);
  return 0;
}
int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
  Obj *e = active ? fdobj(ep) : NULL;
  if (!e) return (int)ret_errno(raw6(SYS_epoll_wait, ep, (long)evs, max, timeout, 0, 0));
  ypoint(8);
  u64 dl = timeout < 0 ? 0 : now + (u64)timeout * 1000000ull + 1;
  for (;;) {
    int n = 0;
    int start = e->nitems ? (int)rndn(&rg_sched, (u64)e->nitems) : 0;
    if (cfg_mode == 3 || cfg_mode == 0) start = 0;
    for (int k = 0; k < e->nitems && n < max; k++) {
      EpItem *it = &e->items[(start + k) % e->nitems];
      if (!ep_item_ready(it)) continue;
      evs[n].events = obj_mask(it->o) & (it->ev | EPOLLERR | EPOLLHUP);
      evs[n].data.u64 = it->data;
      it->last = it->o->gen;
      n++;
      if (it->ev & EPOLLONESHOT) it->ev = 0;
    }
    if (n || timeout == 0) return n;
    if (dl && now >= dl) return 0;
    self->wobj = e;
    block(W_EPOLL, dl);
  }
}
int epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *s) { (void)s; return epoll_wait(ep, evs, max, timeout); }
int poll(struct pollfd *p, nfds_t n, int timeout) {
  int sim = 0;
  if (active) for (nfds_t i = 0; i < n; i++) if (fdobj(p[i].fd)) sim = 1;
  if (!sim) {
    if (active && self && timeout != 0 && n == 0) { block(W_SLEEP, timeout < 0 ? 0 : now + (u64)timeout * 1000000ull + 1); return 0; }
    return (int)ret_errno(RAW(SYS_poll, p, n, timeout));
  }
  ypoint(8);
  u64 dl = timeout < 0 ? 0 : now + (u64)timeout * 1000000ull + 1;
  for (;;) {
    int r = poll_scan(p, (int)n);
    if (r || timeout == 0) return r;
    if (dl && now >= dl) return 0;
    self->wpfd = p; self->wnpfd = (int)n;
    block(W_POLL, dl);
  }
}
int socket(int dom, int type, int proto) {
  if (!active || (dom != AF_INET && dom != AF_INET6)) return (int)ret_errno(RAW(SYS_socket, dom, type, proto));
  Obj *o = obj_new(K_SOCK); o->refs = 0; o->domain = dom; o->nonblock = (type & SOCK_NONBLOCK) != 0;
  return fd_install(o);
}
int socketpair(int dom, int type, int proto, int sv[2]) {
  if (!active) return (int)ret_errno(raw6(SYS_socketpair, dom, type, proto, (long)sv, 0, 0));
  Obj *a = obj_new(K_STREAM), *b = obj_new(K_STREAM);
  a->refs = b->refs = 0; a->peer = b; b->peer = a; a->domain = b->domain = AF_UNIX;
  a->nonblock = b->nonblock = (type & SOCK_NONBLOCK) != 0;
  sv[0] = fd_install(a); sv[1] = fd_install(b);
  return 0;
}
static u16 sa_port(const struct sockaddr *a) { return a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *)a)->sin6_port) : ntohs(((struct sockaddr_in *)a)->sin_port); }
static u32 sa_ip(const struct sockaddr *a) { return a->sa_family == AF_INET6 ? htonl(INADDR_LOOPBACK) : ((struct sockaddr_in *)a)->sin_addr.s_addr; }
static void sa_fill(Obj *o, u32 ip, u16 port, struct sockaddr *a, socklen_t *l) {
  if (!a || !l) return;
  if (o->domain == AF_UNIX) { struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; socklen_t n = sizeof(sa_family_t); memcpy(a, &u, *l < n ? *l : n); *l = n; return; }
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = ip;
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(RAW(SYS_bind, fd, a, l));
  ypoint(1);
  char nm[32]; snprintf(nm, sizeof nm, "port:%u", sa_port(a));
  long arg; int act = fault_check(C_BIND, nm, &arg);
  logf_("N bind %s act=%d\n", nm, act);
  if (act < 0) { errno = -act; return -1; }
  if (find_listener(sa_port(a))) { errno = EADDRINUSE; return -1; }
  o->lip = sa_ip(a); o->lport = sa_port(a); o->bound = 1;
  return 0;
}
int listen(int fd, int bl) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(RAW(SYS_listen, fd, bl, 0));
  o->kind = K_LISTENER;
  int k = -1;
  for (int i = 0; i < nlisteners; i++) if (!listeners[i]) k = i;
  if (k < 0 && nlisteners < 64) k = nlisteners++;
  if (k >= 0) listeners[k] = o;
  logf_("N listen %u t=%llu\n", o->lport, (unsigned long long)now);
  actors_poke();
  ypoint(1);
  return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(raw6(SYS_accept4, fd, (long)a, (long)l, flags, 0, 0));
  ypoint(8);
  while (!o->npend) { if (o->nonblock) { errno = EAGAIN; return -1; } self->wobj = o; self->wev = EPOLLIN; block(W_FD, 0); }
  char nm[32]; snprintf(nm, sizeof nm, "port:%u", o->lport);
  long arg; int act = fault_check(C_ACCEPT, nm, &arg);
  if (act < 0) { errno = -act; if (-act != EMFILE && -act != ENFILE && -act != ENOBUFS && -act != ENOMEM) { /* connection lost */
    Obj *q = o->pend[0]; q->dead = 1;
    if (q->conn) { Conn *c = q->conn; c->o = NULL; Ev e = {0}; u64 t = now + latency(); if (t <= c->last_to_actor) t = c->last_to_actor + 1; c->last_to_actor = e.t = part_adj(c->actor, t); e.type = E_TO_ACTOR_EOF; e.c = c; ev_push(e); }
    o->npend--; memmove(o->pend, o->pend + 1, sizeof(Obj *) * (size_t)o->npend); } return -1; }
  Obj *s = o->pend[0];
  o->npend--; memmove(o->pend, o->pend + 1, sizeof(Obj *) * (size_t)o->npend);
  s->nonblock = (flags & SOCK_NONBLOCK) != 0; s->domain = AF_INET;
  sa_fill(s, s->rip, s->rport, a, l);
  logf_("N accept %u conn=%d t=%llu\n", o->lport, s->conn ? s->conn->id : -1, (unsigned long long)now);
  return fd_install(s);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(RAW(SYS_connect, fd, a, l));
  ypoint(1);
  if (o->kind == K_STREAM) {
    if (o->connecting) { errno = EALREADY; return -1; }
    if (o->connerr) { errno = o->connerr; o->connerr = 0; return -1; }
    errno = EISCONN; return -1;
  }
  u16 port = sa_port(a); u32 ip = sa_ip(a);
  char nm[48]; snprintf(nm, sizeof nm, "port:%u", port);
  long arg; int act = fault_check(C_CONNECT, nm, &arg);
  Actor *sv = NULL; int si = -1;
  for (int i = 0; i < nactors; i++) if (actors[i].type == 1 && actors[i].port == port && actors[i].ip == ip) { sv = &actors[i]; si = i; }
  int err = 0;
  if (act < 0) err = -act;
  else if (!sv) err = ECONNREFUSED;
  o->kind = K_STREAM; o->rip = ip; o->rport = port; o->lip = htonl(INADDR_LOOPBACK); o->lport = (u16)(50000 + nconns); o->connecting = 1;
  Conn *c = NULL;
  if (!err) {
    c = conn_new(si, o); c->ordinal = sv->naccept++;
    if (c->ordinal >= sv->refuse_from && c->ordinal <= sv->refuse_to) { err = ECONNREFUSED; o->conn = NULL; c->o = NULL; }
  }
  logf_("N connect %s err=%d conn=%d t=%llu\n", nm, err, c ? c->id : -1, (unsigned long long)now);
  Ev e = {0}; e.t = now + latency(); e.type = E_CONNDONE; e.o = o; e.c = c; e.n = (size_t)err; o->refs++;
  if (sv && !sv->h2) e.t = part_adj(si, e.t);
  ev_push(e);
  if (o->nonblock) { errno = EINPROGRESS; return -1; }
  while (o->connecting) { self->wobj = o; self->wev = EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP; block(W_FD, 0); }
  if (o->connerr) { errno = o->connerr; o->connerr = 0; o->kind = K_SOCK; return -1; }
  return 0;
}
int shutdown(int fd, int how) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(RAW(SYS_shutdown, fd, how, 0));
  if (self && !in_signal) ypoint(1);
  if (o->kind != K_STREAM) { errno = ENOTCONN; return -1; }
  if (o->rx_rst) { errno = ENOTCONN; return -1; }
  if (how == SHUT_WR || how == SHUT_RDWR) {
    if (!o->tx_shut) {
      o->tx_shut = 1;
      if (o->peer) { o->peer->rx_eof = 1; obj_touch(o->peer); }
      if (o->conn) { Conn *c = o->conn; Ev e = {0}; u64 t = now + latency(); if (t <= c->last_to_actor) t = c->last_to_actor + 1; c->last_to_actor = e.t = part_adj(c->actor, t); e.type = E_TO_ACTOR_EOF; e.c = c; ev_push(e); }
    }
  }
  if (how == SHUT_RD || how == SHUT_RDWR) o->rx_eof = 1;
  obj_touch(o);
  return 0;
}
int setsockopt(int fd, int lv, int nm, const void *v, socklen_t n) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(raw6(SYS_setsockopt, fd, lv, nm, (long)v, n, 0));
  if (lv == SOL_SOCKET && (nm == SO_RCVTIMEO || nm == SO_SNDTIMEO) && n >= sizeof(struct timeval)) {
    const struct timeval *tv = v; u64 t = (u64)tv->tv_sec * 1000000000ull + (u64)tv->tv_usec * 1000ull;
    if (nm == SO_RCVTIMEO) o->rcvtimeo = t; else o->sndtimeo = t;
  }
  return 0;
}
int getsockopt(int fd, int lv, int nm, void *restrict v, socklen_t *restrict n) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(raw6(SYS_getsockopt, fd, lv, nm, (long)v, (long)n, 0));
  int x = 0;
  if (lv == SOL_SOCKET && nm == SO_ERROR) { x = o->connerr ? o->connerr : (o->rx_rst ? ECONNRESET : 0); o->connerr = 0; }
  else if (lv == SOL_SOCKET && nm == SO_TYPE) x = SOCK_STREAM;
  else if (lv == SOL_SOCKET && (nm == SO_RCVTIMEO || nm == SO_SNDTIMEO)) {
    u64 t = nm == SO_RCVTIMEO ? o->rcvtimeo : o->sndtimeo; struct timeval tv = {(time_t)(t / 1000000000ull), (suseconds_t)(t % 1000000000ull / 1000)};
    memcpy(v, &tv, *n < sizeof tv ? *n : sizeof tv); *n = sizeof tv; return 0;
  }
  memcpy(v, &x, *n < 4 ? *n : 4); *n = 4;
  return 0;
}
int getsockname(int fd, struct sockaddr *restrict a, socklen_t *restrict l) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(RAW(SYS_getsockname, fd, a, l));
  sa_fill(o, o->lip, o->lport, a, l); return 0;
}
int getpeername(int fd, struct sockaddr *restrict a, socklen_t *restrict l) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return (int)ret_errno(RAW(SYS_getpeername, fd, a, l));
  if (o->kind != K_STREAM || o->connecting) { errno = ENOTCONN; return -1; }
  sa_fill(o, o->rip, o->rport, a, l); return 0;
}
// an injected receive/send error: the connection is gone for both sides
static void conn_lost(Obj *o) {
  o->rx_rst = 1; o->dead = 1;
  obj_touch(o);
  if (!o->conn) return;
  Conn *c = o->conn; Ev e = {0}; u64 t = now + latency(); if (t <= c->last_to_actor) t = c->last_to_actor + 1;
  c->last_to_actor = e.t = part_adj(c->actor, t); e.type = E_TO_ACTOR_EOF; e.c = c; ev_push(e);
}
static ssize_t stream_read(Obj *o, struct iovec *iov, int cnt, int peek, int dontwait) {
  if (!in_signal) ypoint(8);
  int nb = o->nonblock || dontwait;
  if (o->kind == K_EVENTFD) {
    while (!o->counter) { if (nb) { errno = EAGAIN; return -1; } self->wobj = o; self->wev = EPOLLIN; block(W_FD, 0); }
    u64 v = o->semaphore ? 1 : o->counter; o->counter -= v; memcpy(iov[0].iov_base, &v, 8); return 8;
  }
  if (o->kind != K_STREAM) { errno = ENOTCONN; return -1; }
  long arg; char nm[32]; snprintf(nm, sizeof nm, "port:%u", o->conn && actors[o->conn->actor].type == 2 ? 0 : (o->conn ? (actors[o->conn->actor].type == 1 ? o->rport : o->lport) : 0));
  int act = (o->conn && !in_signal) ? fault_check(C_RECV, nm, &arg) : 0;
  if (act < 0) { if (act != -EINTR) conn_lost(o); errno = -act; return -1; }
  u64 dl = o->rcvtimeo ? now + o->rcvtimeo : 0;
  for (;;) {
    if (o->connecting) { if (nb) { errno = EAGAIN; return -1; } }
    else {
      if (o->connerr) { errno = o->connerr; return -1; }
      if (o->rx_rst) { errno = ECONNRESET; return -1; }
      size_t n = buf_n(&o->rx);
      if (n) {
        size_t total = iov_len(iov, cnt), k = n < total ? n : total, off = 0;
        size_t full = k;
        if (act == 1 && k > 1) k = 1;
        else if (cfg_chunk && o->conn && k > 1 && rndn(&rg_net, 8) == 0) { k = 1 + rndn(&rg_net, k); n_short++; }
        // a short read means the rest "arrived just after": raise a new edge for it
        if (k < full && !peek) obj_touch(o);
        for (int i = 0; i < cnt && off < k; i++) { size_t q = iov[i].iov_len < k - off ? iov[i].iov_len : k - off; memcpy(iov[i].iov_base, o->rx.p + o->rx.off + off, q); off += q; }
        if (!peek) { o->rx.off += off; if (o->rx.off == o->rx.len) o->rx.off = o->rx.len = 0; if (o->peer) obj_touch(o->peer); }
        return (ssize_t)off;
      }
      if (o->rx_eof) return 0;
      if (iov_len(iov, cnt) == 0) return 0;
    }
    if (nb) { errno = EAGAIN; return -1; }
    self->wobj = o; self->wev = EPOLLIN | EPOLLHUP | EPOLLERR;
    if (block(W_FD, dl) && dl) { errno = EAGAIN; return -1; }
  }
}
static ssize_t stream_write(Obj *o, const struct iovec *iov, int cnt, int dontwait) {
  if (!in_signal) ypoint(8);
  int nb = o->nonblock || dontwait;
  if (o->kind == K_EVENTFD) { u64 v; memcpy(&v, iov[0].iov_base, 8); o->counter += v; obj_touch(o); if (!in_signal) ypoint(3); return 8; }
  if (o->kind != K_STREAM) { errno = EPIPE; return -1; }
  long arg; char nm[32]; snprintf(nm, sizeof nm, "port:%u", o->conn && actors[o->conn->actor].type == 2 ? 1 : (o->conn ? (actors[o->conn->actor].type == 1 ? o->rport : o->lport) : 0));
  int act = (o->conn && !in_signal) ? fault_check(C_SEND, nm, &arg) : 0;
  if (act < 0) { if (act != -EINTR) conn_lost(o); errno = -act; return -1; }
  for (;;) {
    if (o->connecting) { if (nb) { errno = EAGAIN; return -1; } self->wobj = o; self->wev = EPOLLOUT | EPOLLERR | EPOLLHUP; block(W_FD, 0); continue; }
    if (o->connerr) { errno = o->connerr; return -1; }
    if (o->rx_rst || o->dead || o->tx_shut) { errno = EPIPE; return -1; }
    size_t total = iov_len(iov, cnt), sp = stream_space(o);
    if (total == 0) return 0;
    if (sp) {
      size_t k = total < sp ? total : sp;
      if (act == 1 && k > 1) k = 1;
      else if (cfg_chunk && o->conn && k > 1 && rndn(&rg_net, 8) == 0) { k = 1 + rndn(&rg_net, k); n_short++; }
      unsigned char *tmp = __libc_malloc(k); size_t off = 0;
      for (int i = 0; i < cnt && off < k; i++) { size_t q = iov[i].iov_len < k - off ? iov[i].iov_len : k - off; memcpy(tmp + off, iov[i].iov_base, q); off += q; }
      if (o->peer) { buf_add(&o->peer->rx, tmp, k); obj_touch(o->peer); __libc_free(tmp); }
      else if (o->conn) {
        Conn *c = o->conn; c->inflight += k;
        Ev e = {0}; u64 t = now + latency(); if (t <= c->last_to_actor) t = c->last_to_actor + 1; t = part_adj(c->actor, t);
        c->last_to_actor = e.t = t; e.type = E_TO_ACTOR; e.c = c; e.p = tmp; e.n = k; ev_push(e);
      } else __libc_free(tmp);
      if (!in_signal) ypoint(3);
      return (ssize_t)k;
    }
    if (nb) { errno = EAGAIN; return -1; }
    self->wobj = o; self->wev = EPOLLOUT | EPOLLHUP | EPOLLERR;
    block(W_FD, 0);
  }
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return ret_errno(raw6(SYS_recvfrom, fd, (long)b, (long)n, fl, 0, 0));
  struct iovec v = {b, n};
  return stream_read(o, &v, 1, fl & MSG_PEEK, fl & MSG_DONTWAIT);
}
ssize_t recvfrom(int fd, void *restrict b, size_t n, int fl, struct sockaddr *restrict a, socklen_t *restrict l) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return ret_errno(raw6(SYS_recvfrom, fd, (long)b, (long)n, fl, (long)a, (long)l));
  return recv(fd, b, n, fl);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return ret_errno(raw6(SYS_sendto, fd, (long)b, (long)n, fl, 0, 0));
  struct iovec v = {(void *)b, n};
  return stream_write(o, &v, 1, fl & MSG_DONTWAIT);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return ret_errno(RAW(SYS_sendmsg, fd, m, fl));
  return stream_write(o, m->msg_iov, (int)m->msg_iovlen, fl & MSG_DONTWAIT);
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
  Obj *o = active ? fdobj(fd) : NULL;
  if (!o) return ret_errno(RAW(SYS_recvmsg, fd, m, fl));
  m->msg_controllen = 0; m->msg_flags = 0;
  return stream_read(o, m->msg_iov, (int)m->msg_iovlen, fl & MSG_PEEK, fl & MSG_DONTWAIT);
}
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **res) {
  REAL(getaddrinfo);
  if (!active) return real_getaddrinfo(node, svc, hints, res);
  ypoint(8);
  u32 ip = 0; int ok = 0; struct in_addr ia;
  if (node && inet_pton(AF_INET, node, &ia) == 1) { ip = ia.s_addr; ok = 1; }
  if (!ok && node) for (int i = 0; i < nhosts; i++) if (!strcasecmp(hosts[i].name, node)) { ip = hosts[i].ip; ok = 1; }
  logf_("N resolve %s ok=%d\n", node ? node : "-", ok);
  if (!ok) return EAI_NONAME;
  struct addrinfo *a = __libc_calloc(1, sizeof *a + sizeof(struct sockaddr_in));
  struct sockaddr_in *s = (struct sockaddr_in *)(a + 1);
  s->sin_family = AF_INET; s->sin_addr.s_addr = ip; s->sin_port = htons((u16)(svc ? atoi(svc) : 0));
  a->ai_family = AF_INET; a->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
  a->ai_addrlen = sizeof *s; a->ai_addr = (struct sockaddr *)s;
  *res = a;
  return 0;
}
void freeaddrinfo(struct addrinfo *a) {
  if (!active) { REAL(freeaddrinfo); real_freeaddrinfo(a); return; }
  while (a) { struct addrinfo *n = a->ai_next; __libc_free(a); a = n; }
}

// ---------------------------------------------------------------- plan parsing and start
static int unhex(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int cls_of(const char *s) { for (int i = 0; i < C_NCLS; i++) if (!strcmp(s, clsname[i])) return i; return -1; }
static char *slurp(const char *path, size_t *n) {
  int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)path, O_RDONLY | O_CLOEXEC, 0, 0, 0);
  if (fd < 0) return NULL;
  size_t cap = 1 << 16, len = 0; char *b = __libc_malloc(cap + 1);
  for (;;) {
    long r = RAW(SYS_read, fd, b + len, cap - len);
    if (r <= 0) break;
    len += (size_t)r;
    if (len == cap) { cap *= 2; b = __libc_realloc(b, cap + 1); }
  }
  RAW(SYS_close, fd, 0, 0);
  b[len] = 0;
  if (n) *n = len;
  return b;
}
static Op *add_op(Actor *a, int op) {
  if (a->nops == a->capops) { a->capops = a->capops ? a->capops * 2 : 16; a->ops = __libc_realloc(a->ops, (size_t)a->capops * sizeof(Op)); }
  Op *o = &a->ops[a->nops++];
  memset(o, 0, sizeof *o);
  o->op = op;
  return o;
}
static void parse_plan(char *s) {
  Actor *a = NULL;
  char *save = NULL;
  for (char *ln = strtok_r(s, "\n", &save); ln; ln = strtok_r(NULL, "\n", &save)) {
    char k[32] = "", r1[256] = "", r2[256] = "", r3[256] = "", r4[256] = "", r5[256] = "", r6[256] = "", r7[256] = "", r8[256] = "-";
    int nf = sscanf(ln, "%31s %255s %255s %255s %255s %255s %255s %255s %255s", k, r1, r2, r3, r4, r5, r6, r7, r8);
    if (nf < 1 || k[0] == '#') continue;
#define IS(x) (!strcmp(k, x))
    if (IS("seed")) cfg_seed = strtoull(r1, 0, 10);
    else if (IS("hashseed")) cfg_hashseed = strtoull(r1, 0, 10);
    else if (IS("root")) { snprintf(cfg_root, sizeof cfg_root, "%s", r1); cfg_rootlen = strlen(cfg_root); }
    else if (IS("ncpu")) cfg_ncpu = atoi(r1);
    else if (IS("mode")) cfg_mode = atoi(r1);
    else if (IS("pswitch")) cfg_pswitch = atoi(r1);
    else if (IS("malloc")) cfg_malloc = atoi(r1);
    else if (IS("trace")) cfg_trace = atoi(r1);
    else if (IS("maxsteps")) cfg_maxsteps = strtoull(r1, 0, 10);
    else if (IS("maxtime_us")) cfg_maxtime = strtoull(r1, 0, 10) * 1000;
    else if (IS("stepns")) cfg_stepns = strtoull(r1, 0, 10);
    else if (IS("latency_us")) { cfg_lat_lo = strtoull(r1, 0, 10) * 1000; cfg_lat_hi = strtoull(r2, 0, 10) * 1000; }
    else if (IS("chunk")) cfg_chunk = atoi(r1);
    else if (IS("readdir")) cfg_rdshuffle = atoi(r1);
    else if (IS("spurious")) cfg_spurious = atoi(r1);
    else if (IS("shortio")) cfg_shortio = atoi(r1);
    else if (IS("eintr")) cfg_eintr = atoi(r1);
    else if (IS("sndbuf")) cfg_sndbuf = atoi(r1);
    else if (IS("fifo")) cfg_fifo = atoi(r1);
    else if (IS("pct")) { if (cfg_pct_n < 32) cfg_pct_at[cfg_pct_n++] = strtoull(r1, 0, 10); }
    else if (IS("dev")) { if ((ndevs & 1023) == 0) devs = __libc_realloc(devs, (size_t)(ndevs + 1024) * sizeof(Dev)); devs[ndevs].dec = strtoull(r1, 0, 10); devs[ndevs++].tid = atoi(r2); }
    else if (IS("jump")) { if (njumps < 16) { jumps[njumps].at = strtoull(r1, 0, 10) * 1000; jumps[njumps].delta = strtoll(r2, 0, 10) * 1000; njumps++; } }
    else if (IS("freeze")) { if (nfrz < 16) { frz[nfrz].tid = atoi(r1); frz[nfrz].from = strtoull(r2, 0, 10) * 1000; frz[nfrz].to = strtoull(r3, 0, 10) * 1000; nfrz++; } }
    else if (IS("host")) { if (nhosts < 64) { snprintf(hosts[nhosts].name, 128, "%s", r1); inet_pton(AF_INET, r2, &hosts[nhosts].ip); nhosts++; } }
    else if (IS("blob")) { blob = (unsigned char *)slurp(r1, &bloblen); }
    else if (IS("fault")) {  // fault cls match|- nth until action arg
      if (nfaults < 64 && cls_of(r1) >= 0) {
        Fault *f = &faults[nfaults++];
        f->cls = cls_of(r1);
        if (strcmp(r2, "-")) snprintf(f->match, sizeof f->match, "%s", r2);
        f->nth = atol(r3); f->until = atol(r4); f->arg = atol(r6);
        if (!strcmp(r5, "short")) f->action = 1;
        else if (!strcmp(r5, "crash")) f->action = 2;
        else if (!strcmp(r5, "crash_after")) f->action = 3;
        else if (!strcmp(r5, "crash_mid")) f->action = 4;
        else { f->action = 0; f->err = atoi(r5); }
      }
    }
    else if (IS("partition")) {
      if (nparts < 16) { parts[nparts].actor = -1; for (int i = 0; i < nactors; i++) if (!strcmp(actors[i].name, r1)) parts[nparts].actor = i; parts[nparts].from = strtoull(r2, 0, 10) * 1000; parts[nparts].to = strtoull(r3, 0, 10) * 1000; nparts++; }
    }
    else if (IS("actor")) {
      if (nactors < 64) {
        a = &actors[nactors++]; memset(a, 0, sizeof *a);
        snprintf(a->name, sizeof a->name, "%s", r1); a->refuse_from = 1; a->refuse_to = 0;
        if (!strcmp(r2, "server")) { a->type = 1; a->port = (u16)atoi(r3); inet_pton(AF_INET, r4, &a->ip); a->h2 = !strcmp(r5, "h2"); }
        else if (!strcmp(r2, "stdio")) { a->type = 2; cfg_stdio_actor = nactors - 1; }
      }
    }
    else if (IS("rule") && a) {  // rule ord kind path off len cut:end delay
      a->rules = __libc_realloc(a->rules, (size_t)(a->nrules + 1) * sizeof(SrvRule));
      SrvRule *q = &a->rules[a->nrules++]; memset(q, 0, sizeof *q);
      q->ord = atoi(r1); snprintf(q->kind, sizeof q->kind, "%s", r2); snprintf(q->path, sizeof q->path, "%s", r3);
      q->off = strtoul(r4, 0, 10); q->len = strtoul(r5, 0, 10);
      char *col = strchr(r6, ':'); q->cut = atol(r6); snprintf(q->end, sizeof q->end, "%s", col ? col + 1 : "close");
      q->delay = atol(r7);
      if (strcmp(r8, "-")) snprintf(q->body, sizeof q->body, "%s", r8);
    }
    else if (IS("refuse") && a) { a->refuse_from = atoi(r1); a->refuse_to = atoi(r2); }
    else if (IS("op") && a) {
      if (!strcmp(r1, "sleep")) { Op *o = add_op(a, O_SLEEP); o->a = atoll(r2); o->b = atoll(r3); }
      else if (!strcmp(r1, "connect")) { Op *o = add_op(a, O_CONNECT); o->a = atoi(r2); o->b = !strcmp(r3, "h2"); }
      else if (!strcmp(r1, "send")) { Op *o = add_op(a, O_SEND); o->off = strtoul(r2, 0, 10); o->len = strtoul(r3, 0, 10); snprintf(o->s, sizeof o->s, "%s", r4); }
      else if (!strcmp(r1, "h2wait")) { Op *o = add_op(a, O_H2WAIT); o->a = atoi(r2); o->tmo = atoll(r3); }
      else if (!strcmp(r1, "h2waitn")) { Op *o = add_op(a, O_H2WAITN); o->a = atoi(r2); o->tmo = atoll(r3); }
      else if (!strcmp(r1, "httpwait")) { Op *o = add_op(a, O_HTTPWAIT); o->tmo = atoll(r2); }
      else if (!strcmp(r1, "recvwait")) { Op *o = add_op(a, O_RECVWAIT); o->patlen = (int)strlen(r2) / 2; for (int i = 0; i < o->patlen && i < 160; i++) o->pat[i] = (unsigned char)(unhex(r2[2 * i]) * 16 + unhex(r2[2 * i + 1])); o->tmo = atoll(r3); o->a = atoi(r4); }
      else if (!strcmp(r1, "close")) add_op(a, O_CLOSE);
      else if (!strcmp(r1, "reset")) add_op(a, O_RESET);
      else if (!strcmp(r1, "shutwr")) add_op(a, O_SHUTWR);
      else if (!strcmp(r1, "signal")) { Op *o = add_op(a, O_SIGNAL); o->a = atoi(r2); snprintf(o->s, sizeof o->s, "%s", r3); }
      else if (!strcmp(r1, "mark")) { Op *o = add_op(a, O_MARK); snprintf(o->s, sizeof o->s, "%s", r2); }
      else if (!strcmp(r1, "waitmark")) { Op *o = add_op(a, O_WAITMARK); snprintf(o->s, sizeof o->s, "%s", r2); o->tmo = atoll(r3); }
      else if (!strcmp(r1, "noread")) add_op(a, O_NOREAD);
      else if (!strcmp(r1, "read")) add_op(a, O_READ);
      else if (!strcmp(r1, "waiteof")) { Op *o = add_op(a, O_WAITEOF); o->tmo = atoll(r2); }
      else if (!strcmp(r1, "stall")) { Op *o = add_op(a, O_STALL); o->tmo = atoll(r2); }
    }
  }
}
static int phdr_cb(struct dl_phdr_info *i, size_t s, void *d) {
  (void)s; (void)d;
  if (i->dlpi_name && i->dlpi_name[0]) return 0;
  exe_lo = ~0ull; exe_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
    if (lo < exe_lo) exe_lo = lo;
    if (hi > exe_hi) exe_hi = hi;
  }
  return 1;
}
static int finished = 0;
static void die_now(int code) {
  if (!finished) {
    finished = 1;
    u64 exit_now = now;
    if (code != EXIT_INTERNAL && code != EXIT_DEADLOCK && code != EXIT_TIMELIMIT && code != EXIT_STEPLIMIT) {
      logf_("EXIT %llu code=%d\n", (unsigned long long)now, code);
      processing = 0; draining = 1; process_events();
    }
    now = exit_now;
    logf_("CNT");
    for (int i = 0; i < C_NCLS; i++) logf_(" %s=%ld", clsname[i], clscount[i]);
    logf_("\nFLT");
    for (int i = 0; i < nfaults; i++) logf_(" %d:%ld/%ld", i, faults[i].fired, faults[i].seen);
    logf_("\nENV chunked=%ld reset=%ld eintr=%ld short=%ld spurious=%ld partition=%ld signal=%ld readdir=%ld jump=%ld halfclose=%ld stall=%ld freeze=%ld\n",
          n_chunked, n_reset, n_eintr, n_short, n_spur, n_part, n_sig, n_rds, n_jump, n_halfclose, n_stall, n_frz);
    logf_("END code=%d now=%llu steps=%llu dec=%llu switches=%llu ihash=%016llx ehash=%016llx threads=%d\n", code, (unsigned long long)now,
          (unsigned long long)steps, (unsigned long long)dec, (unsigned long long)nswitch, (unsigned long long)ihash, (unsigned long long)ehash, nthr);
  }
  active = 0;
  raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
  for (;;) {}
}
void _exit(int code) { if (active) die_now(code); raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); for (;;) {} }
void _Exit(int code) { _exit(code); }
// exit(): run the atexit handlers under the scheduler, then log.
static void last_exit(int code, void *arg) { (void)arg; if (active) die_now(code); }

__attribute__((constructor)) static void init(void) {
  const char *pl = getenv("WSIM_PLAN");
  if (!pl) return;
  size_t n;
  char *s = slurp(pl, &n);
  if (!s) { RAW(SYS_write, 2, "wsim: no plan\n", 14); raw6(SYS_exit_group, EXIT_INTERNAL, 0, 0, 0, 0, 0); }
  const char *lp = getenv("WSIM_LOG");
  if (lp) {
    int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)lp, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644, 0, 0);
    logcap = 96u << 20;
    if (fd >= 0 && RAW(SYS_ftruncate, fd, logcap, 0) == 0) {
      logbuf = mmap(NULL, logcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (logbuf == MAP_FAILED) logbuf = NULL;
    }
    RAW(SYS_close, fd, 0, 0);
  }
  parse_plan(s);
  dl_iterate_phdr(phdr_cb, NULL);
  rg_sched.s = cfg_seed * 0x9E3779B97F4A7C15ull + 11; rg_net.s = cfg_seed * 0x9E3779B97F4A7C15ull + 22;
  rg_fs.s = cfg_seed * 0x9E3779B97F4A7C15ull + 33; rg_futex.s = cfg_seed * 0x9E3779B97F4A7C15ull + 44;
  rg_rand.s = cfg_hashseed * 0xD1B54A32D192ED03ull + 55;
  pthread_key_create(&exitkey, thr_exit_dtor);
  real_pthread_create_ = dlsym(RTLD_NEXT, "pthread_create");
  real_sigaction = dlsym(RTLD_NEXT, "sigaction");
  on_exit(last_exit, NULL);
  unsetenv("LD_PRELOAD"); unsetenv("WSIM_PLAN"); unsetenv("WSIM_LOG");
  thr[0].id = 0; thr[0].state = T_RUN; thr[0].pt = pthread_self(); thr[0].prio = 1500000;
  thr[0].next_preempt = cfg_malloc ? preempt_gap() : ~0ull;
  nthr = 1; self = &thr[0]; cur = self;
  fd_set_path(0, "<stdin>"); fd_set_path(1, "<stdout>"); fd_set_path(2, "<stderr>");
  if (cfg_stdio_actor >= 0) {
    Obj *i = obj_new(K_STREAM), *o = obj_new(K_STREAM);
    Conn *c = conn_new(cfg_stdio_actor, i);
    o->conn = c; c->wo = o; c->established = 1;
    actors[cfg_stdio_actor].conn = c;
    fdt[0].o = i; i->refs = 1; fdt[1].o = o; o->refs = 1;
    fd_set_path(0, NULL); fd_set_path(1, NULL);
  }
  active = 1;
  actors_poke();
}
