// libsim: deterministic simulator for one process, loaded with LD_PRELOAD.
//
// The real ludtwig binary (built from /repo with edge instrumentation) runs
// unmodified on top of this library.  Every source of nondeterminism goes
// through it:
//   * threads      all pthreads exist for real, but exactly one holds the
//                  baton; who runs next is decided here, at every libc call
//                  and at every n-th executed basic-block edge
//   * futexes      simulated (wait queues, time-outs, spurious wake-ups)
//   * clock        simulated, advances with executed edges and operations
//   * file system  in memory, with errors, short and interrupted transfers,
//                  full disk, kill and power loss with un-synced data
//   * stdio        captured, with errors and short writes
//   * randomness, pid, cpu count, directory order: given by the scenario
//
// A fork server reads scenarios from fd 0, runs each in a forked child and
// writes results to fd 1.

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <algorithm>
#include <map>
#include <set>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
using std::string;
using std::vector;
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef uint8_t u8;

// ---------------------------------------------------------------- raw calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall"
               : "=a"(ret)
               : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static void raw_write_all(int fd, const void *p, size_t n) {
  const char *c = (const char *)p;
  while (n) {
    long r = RAW(SYS_write, fd, c, n);
    if (r == -EINTR) continue;
    if (r <= 0) RAW(SYS_exit_group, 97);
    c += r;
    n -= r;
  }
}
static bool raw_read_all(int fd, void *p, size_t n) {
  char *c = (char *)p;
  while (n) {
    long r = RAW(SYS_read, fd, c, n);
    if (r == -EINTR) continue;
    if (r <= 0) return false;
    c += r;
    n -= r;
  }
  return true;
}
static void fwait(int *w, int v) { RAW(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(int *w) { RAW(SYS_futex, w, FUTEX_WAKE_PRIVATE, INT_MAX, 0, 0, 0); }

// ---------------------------------------------------------------- utilities
static inline u64 mix(u64 z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Rng {
  u64 s = 1;
  u64 next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance16(u32 p) { return (next() & 0xffff) < p; }
};
static u64 hash_str(u64 h, const string &s) {
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
  return mix(h ^ s.size());
}

// ---------------------------------------------------------------- scenario
enum ModeKind { M_FIFO = 0, M_RANDOM = 1, M_PCT = 2, M_STARVE = 3, M_FOCUS = 4 };
enum FaultAct { F_ERRNO = 0, F_SHORT = 1, F_SLOW = 2 };
enum ExtAct { X_WRITE = 0, X_REMOVE = 1, X_CHMOD = 2, X_MKDIR = 3, X_REPLACE = 4, X_CREATE = 5 };
enum CrashKind { C_NONE = 0, C_KILL = 1, C_POWER = 2 };

struct NodeSpec { string path; u8 type; u32 mode; u32 uid; string data; };
struct Entry { u8 kind; u32 tid; u64 key; u64 val; };
struct Fault { string op, path; u32 nth; u8 act; i64 arg; u64 hits; u32 seen = 0; };
struct Ext { string op, path; u32 nth; u8 act; string tpath, data; i64 arg; bool done; };

struct Scenario {
  vector<string> argv, env;
  string cwd;
  vector<NodeSpec> nodes;
  u32 ncpu = 1, uid = 1000, pid = 4242;
  u64 hash_seed = 1, dir_seed = 0;
  u8 dt_unknown = 0, tty = 0;
  i64 disk_free = -1;
  u8 mode = 0;
  u64 sched_seed = 1, p1 = 0, p2 = 0;
  vector<Entry> entries;
  vector<Fault> faults;
  u64 noise_seed = 0;
  u32 noise_p = 0, noise_mask = 0;
  u8 crash_kind = 0;
  u64 crash_at = 0;
  i64 crash_partial = -1;
  u64 crash_seed = 0;
  vector<Ext> exts;
  u64 max_edges = 0, max_ops = 0;
  u64 fd_limit = 256;  // files a process may have open at once
  u8 want_ops = 1;
};
static Scenario S;

struct Reader {
  const char *p, *e;
  bool bad = false;
  u64 u() {
    if (e - p < 8) { bad = true; return 0; }
    u64 v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  }
  string s() {
    u64 n = u();
    if ((u64)(e - p) < n) { bad = true; return ""; }
    string r(p, n);
    p += n;
    return r;
  }
};
static bool parse_scenario(const char *p, size_t n) {
  Reader r{p, p + n};
  if (r.u() != 0x4c53494d0001ull) return false;
  u64 c = r.u();
  for (u64 i = 0; i < c; i++) S.argv.push_back(r.s());
  c = r.u();
  for (u64 i = 0; i < c; i++) S.env.push_back(r.s());
  S.cwd = r.s();
  c = r.u();
  for (u64 i = 0; i < c && !r.bad; i++) {
    NodeSpec s;
    s.path = r.s();
    s.type = r.u();
    s.mode = r.u();
    s.uid = r.u();
    s.data = r.s();
    S.nodes.push_back(s);
  }
  S.ncpu = r.u();
  S.uid = r.u();
  S.pid = r.u();
  S.hash_seed = r.u();
  S.dir_seed = r.u();
  S.dt_unknown = r.u();
  S.tty = r.u();
  S.disk_free = (i64)r.u();
  S.mode = r.u();
  S.sched_seed = r.u();
  S.p1 = r.u();
  S.p2 = r.u();
  c = r.u();
  for (u64 i = 0; i < c && !r.bad; i++) {
    Entry e;
    e.kind = r.u();
    e.tid = r.u();
    e.key = r.u();
    e.val = r.u();
    S.entries.push_back(e);
  }
  c = r.u();
  for (u64 i = 0; i < c && !r.bad; i++) {
    Fault f;
    f.op = r.s();
    f.path = r.s();
    f.nth = r.u();
    f.act = r.u();
    f.arg = (i64)r.u();
    f.hits = 0;
    S.faults.push_back(f);
  }
  S.noise_seed = r.u();
  S.noise_p = r.u();
  S.noise_mask = r.u();
  S.crash_kind = r.u();
  S.crash_at = r.u();
  S.crash_partial = (i64)r.u();
  S.crash_seed = r.u();
  c = r.u();
  for (u64 i = 0; i < c && !r.bad; i++) {
    Ext x;
    x.op = r.s();
    x.path = r.s();
    x.nth = r.u();
    x.act = r.u();
    x.tpath = r.s();
    x.data = r.s();
    x.arg = (i64)r.u();
    x.done = false;
    S.exts.push_back(x);
  }
  S.max_edges = r.u();
  S.max_ops = r.u();
  S.fd_limit = r.u();
  S.want_ops = r.u();
  return !r.bad && r.p == r.e;
}

// ---------------------------------------------------------------- results
enum Status { R_EXIT = 0, R_CRASHED = 1, R_ABORT = 2, R_DEADLOCK = 3, R_STEPCAP = 4, R_HARNESS = 5 };
struct OpRec { u32 tid; const char *op; string path; i64 res; u64 arg; u64 mut; };
struct StreamRec { u8 stream; u32 tid; u64 len; };
static const size_t SHM_SIZE = 256u << 20;
static char *shm;  // [0..8) length, rest data
static vector<OpRec> oplog;
static string stream_data[3];
static vector<StreamRec> stream_recs;
static vector<Fault> fired;
static vector<Entry> decisions;
static vector<string> warnings;
static u64 total_edges, total_ops, mut_ops, n_switches, n_preempts, n_spurious, n_jumps;
static u64 trace_hash = 1, il_hash = 1;
static u64 sim_ns;  // idle jumps and operation costs; edges are added on top

static bool active = false;  // the simulated program is running
static int fin_status = -1, fin_code;
static string fin_msg;
static int fin_word = 0;

static void warn_once(const string &s) {
  for (auto &w : warnings)
    if (w == s) return;
  warnings.push_back(s);
}

// ---------------------------------------------------------------- threads
enum TState { T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct Dtor { void (*fn)(void *); void *obj; };
struct Thr {
  u32 id;
  pthread_t real;
  bool have_real = false;
  int go = 0;
  TState st = T_RUN;
  u32 *faddr = nullptr;
  u32 fbits = 0;
  u64 fseq = 0;
  u64 deadline = 0;  // 0 = none
  bool timedout = false;
  u32 join_target = 0;
  u64 edges = 0, ops = 0, decs = 0;
  u64 slow = 0;  // the last operation takes this long (ns)
  u64 prio = 0;
  vector<Dtor> dtors;
  std::map<u32, void *> keys;
  void *(*start)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
};
static vector<Thr *> thrs;
static Thr *cur = nullptr;
static __thread Thr *self_thr = nullptr;
static u64 fseq_counter = 0;
static Rng srng, nrng, hrng;
static const u64 SLICE = 300000;

extern "C" {
long g_budget = LONG_MAX;
}
static long g_chunk = LONG_MAX;
static u64 slice_used = 0;
static bool pre_armed = false;   // a random preemption point lies ahead
static u64 pre_at = 0;           // local edge count of it
static std::unordered_map<u64, vector<Entry>> rep;   // tid -> sorted 'e' entries
static std::unordered_map<u64, u64> rep_at;          // hash(kind,tid,key) -> val
static std::unordered_map<u64, size_t> rep_pos;
static vector<u64> pct_points;  // global edge counts of priority changes
static size_t pct_next = 0;
static u64 pct_low = 1ull << 40;  // never runs out: equal priorities would starve

static u64 now_ns() { return 1000000000ull + sim_ns + total_edges; }
static u64 ekey(u8 k, u32 t, u64 key) { return mix(mix(k * 1000003ull + t) ^ key); }

[[noreturn]] static void park_forever() {
  for (;;) RAW(SYS_pause);
}
[[noreturn]] static void finish(int status, int code, const string &msg) {
  if (fin_status < 0) {
    fin_status = status;
    fin_code = code;
    fin_msg = msg;
    __atomic_store_n(&fin_word, 1, __ATOMIC_SEQ_CST);
    fwake(&fin_word);
  }
  park_forever();
}

static void account() {
  u64 used = (u64)(g_chunk - g_budget);
  total_edges += used;
  slice_used += used;
  if (cur) cur->edges += used;
  g_chunk = g_budget;
}
// set the budget to the distance to the next interesting edge
static void arm() {
  long b = slice_used < SLICE ? (long)(SLICE - slice_used) : 1;
  if (!S.entries.empty()) {
    auto it = rep.find(cur->id);
    if (it != rep.end()) {
      size_t &pos = rep_pos[cur->id];
      while (pos < it->second.size() && it->second[pos].key <= cur->edges) pos++;
      if (pos < it->second.size()) b = std::min<long>(b, (long)(it->second[pos].key - cur->edges));
    }
  }
  if (pre_armed && pre_at > cur->edges) b = std::min<long>(b, (long)(pre_at - cur->edges));
  if (S.mode == M_PCT && pct_next < pct_points.size()) {
    u64 p = pct_points[pct_next];
    b = std::min<long>(b, p > total_edges ? (long)(p - total_edges) : 1);
  }
  g_chunk = g_budget = b;
}
static void new_preempt() {
  pre_armed = false;
  if ((S.mode == M_RANDOM || S.mode == M_STARVE) && S.p2) {
    double u = ((double)(srng.next() >> 11) + 1.0) / 9007199254740993.0;
    u64 d = 1 + (u64)(-(double)S.p2 * log(u));
    pre_armed = true;
    pre_at = cur->edges + d;
  }
}
static bool runnable(Thr *t) { return t->st == T_RUN; }

static void expire_deadlines() {
  u64 n = now_ns();
  for (Thr *t : thrs)
    if ((t->st == T_FUTEX || t->st == T_SLEEP) && t->deadline && t->deadline <= n) {
      t->timedout = true;
      t->st = T_RUN;
      t->deadline = 0;
    }
}
static void switch_to(Thr *t) {
  if (t == cur) return;
  Thr *me = cur;
  n_switches++;
  trace_hash = mix(trace_hash ^ (u64)t->id * 7919 ^ total_edges);
  cur = t;
  slice_used = 0;
  new_preempt();
  arm();
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  fwake(&t->go);
  if (me->st == T_DONE) park_forever();
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) fwait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
}
static Thr *rr_next(Thr *after) {
  size_t n = thrs.size();
  for (size_t i = 1; i <= n; i++) {
    Thr *t = thrs[(after->id + i) % n];
    if (t != after && runnable(t)) return t;
  }
  return nullptr;
}
static Thr *pick_random(Thr *except) {
  vector<Thr *> c;
  Thr *victim = nullptr;
  for (Thr *t : thrs)
    if (t != except && runnable(t)) {
      if (S.mode == M_STARVE && t->id == S.p1 && !srng.chance16(60)) {
        victim = t;
        continue;
      }
      c.push_back(t);
    }
  if (c.empty()) return victim;
  return c[srng.below(c.size())];
}
static Thr *pick_prio() {
  Thr *b = nullptr;
  for (Thr *t : thrs)
    if (runnable(t) && (!b || t->prio > b->prio)) b = t;
  return b;
}
static void log_dec(u8 k, u32 tid, u64 key, u64 val) { decisions.push_back({k, tid, key, val}); }

// kinds: 'o' before an operation (default: stay), 'e' at an edge (default:
// stay), 'b' current thread cannot continue, 'y' it yields, 's' its slice
// ended (defaults: next thread in turn)
static void reschedule(u8 kind, u64 key) {
  Thr *me = cur;
  Thr *def = (kind == 'o' || kind == 'e') ? me : rr_next(me);
  if (!def) def = me;  // only for y/s, where the thread stays runnable
  Thr *c = def;
  if (!S.entries.empty()) {
    auto it = rep_at.find(ekey(kind, me->id, key));
    if (it != rep_at.end() && it->second < thrs.size() && runnable(thrs[it->second])) c = thrs[it->second];
  } else
    switch (S.mode) {
      case M_RANDOM:
      case M_STARVE:
      case M_FOCUS:
        if (kind == 'o') {
          bool go = S.mode == M_STARVE ? (me->id == S.p1 || srng.chance16(6000)) : srng.chance16((u32)S.p1);
          if (go) {
            Thr *t = pick_random(me);
            if (t) c = t;
          }
        } else {
          Thr *t = pick_random(me);
          if (t) c = t;
        }
        break;
      case M_PCT: {
        if (kind == 'y' || kind == 's') me->prio = pct_low ? pct_low-- : 0;
        Thr *t = pick_prio();
        if (t) c = t;
        break;
      }
      default:
        break;
    }
  if (c != def) log_dec(kind, me->id, key, c->id);
  if (c != me) {
    if (kind == 'e') n_preempts++;
    switch_to(c);
  }
}

static void check_caps() {
  if (total_edges > S.max_edges) finish(R_STEPCAP, 0, "edge limit reached");
  if (total_ops > S.max_ops) finish(R_STEPCAP, 0, "operation limit reached");
}

// called when g_budget runs out
static void edge_slow() {
  if (!active || self_thr != cur || !cur) {
    g_chunk = g_budget = LONG_MAX;
    return;
  }
  account();
  check_caps();
  expire_deadlines();
  bool done = false;
  if (!S.entries.empty()) {
    if (rep_at.count(ekey('e', cur->id, cur->edges))) {
      reschedule('e', cur->edges);
      done = true;
    }
  } else if (pre_armed && pre_at == cur->edges) {
    u64 k = cur->edges;
    pre_armed = false;
    if (S.mode == M_RANDOM || S.mode == M_STARVE) new_preempt();
    reschedule('e', k);
    done = true;
  } else if (S.mode == M_PCT && pct_next < pct_points.size() && total_edges >= pct_points[pct_next]) {
    pct_next++;
    cur->prio = pct_low ? pct_low-- : 0;
    u64 k = cur->edges;
    reschedule('e', k);
    done = true;
  }
  if (!done && slice_used >= SLICE) {
    slice_used = 0;
    reschedule('s', cur->edges);
  }
  arm();
}
EXPORT void __sanitizer_cov_trace_pc(void) {
  if (__builtin_expect(--g_budget <= 0, 0)) edge_slow();
}
// before every store of the workspace's own crates, so that a thread can also be
// stopped between reading and writing back a shared value
#define STORE(n) EXPORT void __sanitizer_cov_store##n(void *) { if (__builtin_expect(--g_budget <= 0, 0)) edge_slow(); }
STORE(1) STORE(2) STORE(4) STORE(8) STORE(16)

// the running thread cannot continue: hand over, or jump the clock
static void block_current() {
  Thr *me = cur;
  u64 key = ++me->decs;
  expire_deadlines();
  for (;;) {
    bool any = false;
    for (Thr *t : thrs)
      if (runnable(t)) any = true;
    if (any) break;
    u64 best = 0;
    for (Thr *t : thrs)
      if ((t->st == T_FUTEX || t->st == T_SLEEP) && t->deadline && (!best || t->deadline < best)) best = t->deadline;
    if (!best) {
      string d = "no thread can run:";
      for (Thr *t : thrs) {
        if (t->st == T_DONE) continue;
        d += " t" + std::to_string(t->id) + (t->st == T_FUTEX ? " waits on a futex" : t->st == T_JOIN ? " joins t" + std::to_string(t->join_target) : " ?") + ";";
      }
      finish(R_DEADLOCK, 0, d);
    }
    n_jumps++;
    if (best > now_ns()) sim_ns += best - now_ns();
    expire_deadlines();
  }
  if (me->st == T_RUN) return;  // woken by its own time-out
  reschedule('b', key);
}

// every interposed call passes here first
static bool on_sim() { return active && self_thr && self_thr == cur; }
static void block_current();
static void point(const char *op) {
  account();
  if (cur->slow) {
    // the operation before this one was slow: everything else goes on meanwhile
    Thr *me = cur;
    me->st = T_SLEEP;
    me->timedout = false;
    me->deadline = now_ns() + me->slow;
    me->slow = 0;
    block_current();
    me->timedout = false;
    account();
  }
  total_ops++;
  sim_ns += 400;
  Thr *me = cur;
  me->ops++;
  check_caps();
  expire_deadlines();
  u64 key = me->ops;
  if (thrs.size() > 1) reschedule('o', key);
  if (S.mode == M_FOCUS && S.entries.empty() && srng.chance16((u32)S.p2)) {
    account();
    pre_armed = true;
    pre_at = me->edges + 1 + srng.below(srng.chance16(20000) ? 3000 : 200);
  }
  account();
  trace_hash = mix(trace_hash ^ me->edges * 31 ^ me->id);
  il_hash = mix(il_hash ^ me->id);
  for (const char *p = op; *p; p++) trace_hash = (trace_hash ^ *p) * 0x100000001b3ull;
  arm();
}
static void rec(const char *op, const string &path, i64 res, u64 arg = 0, u64 mut = 0) {
  trace_hash = hash_str(trace_hash ^ (u64)res * 131 ^ arg, path);
  il_hash = hash_str(il_hash ^ op[0] * 7 ^ op[1], path);
  if (S.want_ops) oplog.push_back({cur ? cur->id : 0, op, path, res, arg, mut});
}

// ---------------------------------------------------------------- futex
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 val3) {
  int cmd = op & 0x7f;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point("futex_wait");
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    Thr *me = cur;
    // spurious wake-up, a legal result of the call
    bool spur = false;
    if (S.noise_p && (S.noise_mask & 32) && nrng.chance16(S.noise_p)) {
      spur = true;
      Fault f{"futex", "t" + std::to_string(me->id), (u32)me->ops, F_ERRNO, 0, 1};
      fired.push_back(f);
    } else
      for (auto &f : S.faults)
        if (f.op == "futex" && f.nth == me->ops && f.path == "t" + std::to_string(me->id)) {
          spur = true;
          f.hits++;
          fired.push_back(f);
        }
    if (spur) {
      n_spurious++;
      return 0;
    }
    me->st = T_FUTEX;
    me->faddr = addr;
    me->fbits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
    me->fseq = ++fseq_counter;
    me->timedout = false;
    me->deadline = 0;
    if (ts) {
      u64 t = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) t += now_ns();
      else if (op & FUTEX_CLOCK_REALTIME) t -= 1700000000ull * 1000000000ull;
      me->deadline = t ? t : 1;
    }
    block_current();
    me->faddr = nullptr;
    account();
    arm();
    if (me->timedout) {
      me->timedout = false;
      return -ETIMEDOUT;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point("futex_wake");
    u32 bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
    long n = 0;
    while (n < (long)(int)val) {
      Thr *b = nullptr;
      for (Thr *t : thrs)
        if (t->st == T_FUTEX && t->faddr == addr && (t->fbits & bits) && (!b || t->fseq < b->fseq)) b = t;
      if (!b) break;
      b->st = T_RUN;
      b->deadline = 0;
      b->timedout = false;
      n++;
    }
    return n;
  }
  warn_once("unsupported futex operation " + std::to_string(cmd));
  finish(R_HARNESS, 0, "unsupported futex operation " + std::to_string(cmd));
}

// ---------------------------------------------------------------- file system
struct Inode {
  u64 ino;
  u8 type;  // 0 file 1 dir 2 symlink
  u32 mode, uid, gid, nlink = 0;
  string data;  // content or link target
  std::map<string, u64> ent;
  u64 parent = 0;
  u64 mtime = 0;
};
struct FS {
  std::map<u64, Inode> in;
  u64 next = 2;
};
static FS fs, fs0;
static u64 cwd_ino = 1;
static string cwd_path;
static u32 sim_umask = 022;
static i64 disk_free = -1;

enum LogKind { L_DIR, L_INO };
struct LogRec {
  LogKind k;
  bool durable = false;
  u64 ino = 0;  // inode (L_INO) or directory (L_DIR)
  int what;     // L_DIR: 0 add 1 del 2 rename; L_INO: 0 data 1 truncate 2 chmod 3 chown
  string name, name2, data;
  u64 a = 0, b = 0;
  Inode proto;  // for add: inode at creation
};
static vector<LogRec> plog;

static Inode *I(u64 i) {
  auto it = fs.in.find(i);
  return it == fs.in.end() ? nullptr : &it->second;
}
static u64 new_inode(u8 type, u32 mode, u32 uid) {
  u64 n = fs.next++;
  Inode x;
  x.ino = n;
  x.type = type;
  x.mode = mode;
  x.uid = uid;
  x.gid = uid;
  x.mtime = now_ns();
  fs.in[n] = x;
  return n;
}
static bool may(const Inode *n, int want) {  // want: 4 r, 2 w, 1 x
  if (S.uid == 0) return true;
  u32 m = n->uid == S.uid ? n->mode >> 6 : n->mode;
  return (m & want) == (u32)want;
}
struct Res { u64 parent = 0, ino = 0; string name; int err = 0; bool slash = false; };
static Res resolve(u64 base, const string &path, bool follow, int depth = 0) {
  Res r;
  if (path.empty()) { r.err = ENOENT; return r; }
  if (path.size() > 4095) { r.err = ENAMETOOLONG; return r; }
  u64 at = path[0] == '/' ? 1 : base;
  size_t i = 0;
  vector<string> comps;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') i++;
    size_t j = i;
    while (j < path.size() && path[j] != '/') j++;
    if (j > i) comps.push_back(path.substr(i, j - i));
    i = j;
  }
  bool trailing = path.back() == '/';
  r.slash = trailing;
  if (comps.empty()) { r.parent = 1; r.ino = 1; r.name = "."; return r; }
  for (size_t k = 0; k < comps.size(); k++) {
    Inode *d = I(at);
    bool last = k + 1 == comps.size();
    if (!d || d->type != 1) { r.err = ENOTDIR; return r; }
    if (!may(d, 1)) { r.err = EACCES; return r; }
    const string &c = comps[k];
    if (c.size() > 255) { r.err = ENAMETOOLONG; return r; }
    u64 nx;
    if (c == ".") nx = at;
    else if (c == "..") nx = d->parent ? d->parent : 1;
    else {
      auto it = d->ent.find(c);
      if (it == d->ent.end()) {
        if (last) { r.parent = at; r.name = c; r.ino = 0; r.err = 0; return r; }
        r.err = ENOENT;
        return r;
      }
      nx = it->second;
    }
    Inode *n = I(nx);
    if (n->type == 2 && (!last || follow || trailing)) {
      if (depth > 39) { r.err = ELOOP; return r; }
      string rest = n->data;
      for (size_t q = k + 1; q < comps.size(); q++) rest += "/" + comps[q];
      if (trailing) rest += "/";
      return resolve(at, rest, follow, depth + 1);
    }
    if (last) {
      if (trailing && n->type != 1) { r.err = ENOTDIR; return r; }
      r.parent = at;
      r.name = c;
      r.ino = nx;
      return r;
    }
    at = nx;
  }
  return r;
}
static string path_of_dir(u64 ino) {
  if (ino == 1) return "/";
  string s;
  while (ino != 1) {
    Inode *d = I(ino);
    if (!d || !d->parent) return "(unlinked)";
    Inode *p = I(d->parent);
    string nm = "?";
    for (auto &e : p->ent)
      if (e.second == ino) nm = e.first;
    s = "/" + nm + s;
    ino = d->parent;
  }
  return s;
}
static string path_of(const Res &r, const string &given, u64 base) {
  if (r.err || !r.parent) {
    if (!given.empty() && given[0] == '/') return given;
    return path_of_dir(base) + "/" + given;
  }
  if (r.ino && I(r.ino)->type == 1) return path_of_dir(r.ino);
  string d = path_of_dir(r.parent);
  return (d == "/" ? "" : d) + "/" + r.name;
}
static bool is_real_dev(const string &p) { return p == "/dev/null"; }

// --- fault lookup -------------------------------------------------------
static std::map<string, u32> op_counts;
static std::set<string> initial_paths;
static std::set<string> created_paths;
static std::set<u64> ext_made;
static bool inj_creating = false;   // the operation at hand makes its path
struct Inj { int err = 0; i64 shrt = -1; };
static void fs_load_node(const string &path, u8 type, u32 mode, u32 uid, const string &data);
static void ext_remove(const string &p);

static Inj inject(const char *op, const string &path, int noise_class) {
  Inj r;
  if (inj_creating || !strcmp(op, "mkdir") || !strcmp(op, "symlink") || !strcmp(op, "link")) created_paths.insert(path);
  u32 n = ++op_counts[string(op) + "\n" + path];
  for (auto &x : S.exts)
    if (!x.done && x.op == op && x.path == path && x.nth == n) {
      x.done = true;
      // another process acts at this moment
      i64 there = resolve(1, x.tpath, true).ino ? 1 : 0;
      switch (x.act) {
        case X_WRITE: {
          Res q = resolve(1, x.tpath, true);
          if (q.ino) { I(q.ino)->data = x.data; }
          else fs_load_node(x.tpath, 0, x.arg ? (u32)x.arg : 0644, S.uid, x.data);
          break;
        }
        case X_REMOVE: {  // arg 1: only what it made itself
          Res q = resolve(1, x.tpath, false);
          if (!x.arg || ext_made.count(q.ino)) ext_remove(x.tpath);
          break;
        }
        case X_CHMOD: {
          Res q = resolve(1, x.tpath, true);
          if (q.ino) I(q.ino)->mode = (u32)x.arg;
          break;
        }
        case X_MKDIR: fs_load_node(x.tpath, 1, 0755, S.uid, ""); break;
        case X_REPLACE:  // a complete new file renamed over the old one
          ext_remove(x.tpath);
          fs_load_node(x.tpath, 0, x.arg ? (u32)x.arg : 0644, S.uid, x.data);
          break;
        case X_CREATE:
          if (!there) {
            fs_load_node(x.tpath, 0, x.arg ? (u32)x.arg : 0644, S.uid, x.data);
            ext_made.insert(resolve(1, x.tpath, true).ino);
          }
          break;
      }
      Fault f{string("ext:") + op, path, n, x.act, there, 1};
      fired.push_back(f);
    }
  for (auto &f : S.faults) {
    u32 n = op_counts[string(op) + "\n" + path];
    if (f.op != op) continue;
    size_t pl = f.path.size();
    if (pl > 4 && !f.path.compare(pl - 4, 4, "?new")) {
      // any path of that directory which this run makes
      if (path.compare(0, pl - 4, f.path, 0, pl - 4) || path.find('/', pl - 4) != string::npos ||
          initial_paths.count(path) || !created_paths.count(path))
        continue;
      n = ++f.seen;
    } else if (f.path != path)
      continue;
    if (f.nth == 0 || f.nth == n || (f.nth >= 1000000 && n >= f.nth - 1000000)) {
      f.hits++;
      if (f.act == F_SLOW) {
        cur->slow += (u64)f.arg;
        Fault g = f;
        g.nth = n;
        fired.push_back(g);
        continue;
      }
      if (f.act == F_ERRNO) r.err = (int)f.arg;
      else r.shrt = f.arg;
      Fault g = f;
      g.nth = n;
      fired.push_back(g);
      return r;
    }
  }
  if (S.noise_p && (S.noise_mask & 64) && nrng.chance16(S.noise_p / 2)) {
    static i64 left = 10'000'000'000;  // threads that wait by polling make long stalls expensive
    i64 ns = nrng.chance16(16384) ? 3'500'000'000 + (i64)nrng.below(2'500'000'000) : 1000000ll << nrng.below(10);
    if (ns > left) ns = left;
    left -= ns;
    if (ns) {
      cur->slow += (u64)ns;
      fired.push_back({op, path, n, F_SLOW, ns, 1});
    }
  }
  if (S.noise_p && noise_class) {
    u32 m = S.noise_mask & noise_class;
    // classes: 1 EINTR on files, 2 short read, 4 short write, 8 short stream
    // write, 16 EINTR on streams
    if (m && nrng.chance16(S.noise_p)) {
      vector<int> opts;
      for (int b : {1, 2, 4, 8, 16})
        if (m & b) opts.push_back(b);
      int o = opts[nrng.below(opts.size())];
      Fault f{op, path, n, F_ERRNO, 0, 1};
      if (o == 1 || o == 16) {
        r.err = EINTR;
        f.arg = EINTR;
      } else {
        i64 k = 1 + (i64)nrng.below(nrng.chance16(32768) ? 3 : 400);
        r.shrt = k;
        f.act = F_SHORT;
        f.arg = k;
      }
      fired.push_back(f);
    }
  }
  return r;
}

// --- crash --------------------------------------------------------------
static void power_loss();
// Called before every operation that changes the file system.  For writes,
// `len` bytes are about to be stored; returns how many bytes to store before
// the crash (or -1: no crash here).
static i64 mutating(i64 len) {
  u64 k = mut_ops++;
  if (S.crash_kind && k == S.crash_at) {
    if (S.crash_partial >= 0 && len > 0) return std::min<i64>(S.crash_partial, len);
    if (S.crash_kind == C_POWER) power_loss();
    finish(R_CRASHED, 0, "crash");
  }
  return -1;
}
static void crash_now() {
  if (S.crash_kind == C_POWER) power_loss();
  finish(R_CRASHED, 0, "crash");
}
static void apply_log(FS &f, const LogRec &r, size_t data_len) {
  if (r.k == L_DIR) {
    auto d = f.in.find(r.ino);
    if (d == f.in.end()) return;
    if (r.what == 0) {
      if (!f.in.count(r.a)) {
        f.in[r.a] = r.proto;
        if (f.next <= r.a) f.next = r.a + 1;
      }
      d->second.ent[r.name] = r.a;
    } else if (r.what == 1) {
      d->second.ent.erase(r.name);
    } else {
      d->second.ent.erase(r.name);
      auto d2 = f.in.find(r.b);
      if (d2 != f.in.end() && f.in.count(r.a)) d2->second.ent[r.name2] = r.a;
    }
    return;
  }
  auto it = f.in.find(r.ino);
  if (it == f.in.end()) return;
  Inode &n = it->second;
  if (r.what == 0) {
    size_t end = r.a + r.data.size();
    if (n.data.size() < end) n.data.resize(end, '\0');  // size reached, blocks may not have
    memcpy(&n.data[r.a], r.data.data(), std::min(data_len, r.data.size()));
  } else if (r.what == 1)
    n.data.resize(r.a, '\0');
  else if (r.what == 2)
    n.mode = (u32)r.a;
  else {
    n.uid = (u32)r.a;
    n.gid = (u32)r.b;
  }
}
static void power_loss() {
  Rng g;
  g.s = S.crash_seed;
  // directory changes survive up to some point in order
  size_t last = 0;
  vector<size_t> dirs;
  for (size_t i = 0; i < plog.size(); i++)
    if (plog[i].k == L_DIR) {
      dirs.push_back(i);
      if (plog[i].durable) last = dirs.size();
    }
  size_t keep = last + g.below(dirs.size() - last + 1);
  if (g.below(3) == 0) keep = dirs.size();
  std::map<u64, int> stop;  // inode -> its later un-synced changes are lost
  FS f = fs0;
  size_t seen = 0;
  for (auto &r : plog) {
    if (r.k == L_DIR) {
      if (seen++ < keep) apply_log(f, r, 0);
      continue;
    }
    if (r.durable) {
      // may belong to an inode whose directory entry got lost
      if (f.in.count(r.ino)) apply_log(f, r, r.data.size());
      continue;
    }
    if (stop[r.ino]) continue;
    if (r.what == 0) {
      u64 c = g.below(4);
      if (c == 0) stop[r.ino] = 1;                                       // lost
      else if (c == 1) { apply_log(f, r, 0); }                           // size only
      else if (c == 2) { apply_log(f, r, g.below(r.data.size() + 1)); }  // torn
      else apply_log(f, r, r.data.size());
    } else {
      if (g.below(4) == 0) stop[r.ino] = 1;
      else apply_log(f, r, 0);
    }
  }
  fs = f;
}
static void plog_ino(u64 ino, int what, u64 a, u64 b, const string &d) {
  if (S.crash_kind != C_POWER) return;
  LogRec r;
  r.k = L_INO;
  r.ino = ino;
  r.what = what;
  r.a = a;
  r.b = b;
  r.data = d;
  plog.push_back(r);
}
static void plog_dir(u64 dir, int what, const string &name, u64 a, u64 b = 0, const string &name2 = "") {
  if (S.crash_kind != C_POWER) return;
  LogRec r;
  r.k = L_DIR;
  r.ino = dir;
  r.what = what;
  r.name = name;
  r.name2 = name2;
  r.a = a;
  r.b = b;
  if (what == 0) {
    r.proto = *I(a);
  }
  plog.push_back(r);
}
static void make_durable(u64 ino) {
  bool dir = I(ino) && I(ino)->type == 1;
  if (!dir) {
    for (auto &r : plog)
      if (r.k == L_INO && r.ino == ino) r.durable = true;
    return;
  }
  // directory changes are journalled in order: everything up to the last
  // change of this directory is durable
  size_t lastd = 0;
  bool any = false;
  for (size_t i = 0; i < plog.size(); i++)
    if (plog[i].k == L_DIR && (plog[i].ino == ino || plog[i].b == ino)) { lastd = i; any = true; }
  if (any)
    for (size_t i = 0; i <= lastd; i++)
      if (plog[i].k == L_DIR) plog[i].durable = true;
}

static void fs_load_node(const string &path, u8 type, u32 mode, u32 uid, const string &data) {
  u64 at = 1;
  vector<string> comps;
  size_t i = 0;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') i++;
    size_t j = path.find('/', i);
    if (j == string::npos) j = path.size();
    if (j > i) comps.push_back(path.substr(i, j - i));
    i = j;
  }
  for (size_t k = 0; k < comps.size(); k++) {
    bool last = k + 1 == comps.size();
    Inode *d = I(at);
    auto it = d->ent.find(comps[k]);
    if (it != d->ent.end()) {
      at = it->second;
      if (last) {
        Inode *n = I(at);
        n->mode = mode;
        n->uid = uid;
        if (type != 1) n->data = data;
      }
      continue;
    }
    if (last && type == 3) {  // hard link to an existing path
      Res r = resolve(1, data, false);
      if (r.ino) {
        I(at)->ent[comps[k]] = r.ino;
        I(r.ino)->nlink++;
      }
      return;
    }
    u64 n = new_inode(last ? type : 1, last ? mode : 0755, last ? uid : S.uid);
    Inode *x = I(n);
    x->parent = at;
    x->nlink = 1;
    if (last && type != 1) x->data = data;
    I(at)->ent[comps[k]] = n;
    at = n;
  }
}
static void ext_remove(const string &p) {
  Res r = resolve(1, p, false);
  if (r.err || !r.ino) return;
  I(r.parent)->ent.erase(r.name);
}

// --- descriptors --------------------------------------------------------
struct OpenFile {
  int kind = 0;  // 0 closed 1 stream 2 file/dir 3 null
  int stream = 0;
  u64 ino = 0, off = 0;
  int flags = 0;
  string path;
  int refs = 0;
};
struct SimDir { u32 magic; int fd; vector<std::pair<string, u64>> list; bool listed; bool again; size_t pos; struct dirent64 de; string path; };
static vector<OpenFile *> fds;
static OpenFile *F(int fd) { return fd >= 0 && (size_t)fd < fds.size() ? fds[fd] : nullptr; }
static u64 open_fds, peak_fds, n_emfile;
static bool fds_full() {
  if (open_fds < S.fd_limit) return false;
  n_emfile++;
  return true;
}
static int fd_alloc(OpenFile *f, int from = 0) {
  if (++open_fds > peak_fds) peak_fds = open_fds;
  for (size_t i = from; i < fds.size(); i++)
    if (!fds[i]) {
      fds[i] = f;
      f->refs++;
      return (int)i;
    }
  while (fds.size() < (size_t)from) fds.push_back(nullptr);
  fds.push_back(f);
  f->refs++;
  return (int)fds.size() - 1;
}
static const char *stream_name(int s) { return s == 0 ? "<stdin>" : s == 1 ? "<stdout>" : "<stderr>"; }

static long e_open(u64 base, const char *cpath, int flags, u32 mode) {
  string path = cpath;
  point("open");
  if (is_real_dev(path)) {
    OpenFile *f = new OpenFile;
    f->kind = 3;
    f->path = path;
    return fd_alloc(f);
  }
  bool follow = !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL));
  Res r = resolve(base, path, follow);
  string p = path_of(r, path, base);
  inj_creating = (flags & O_CREAT) && !r.ino;
  Inj j = inject("open", p, 1);
  inj_creating = false;
  // EINTR on open only happens before anything was done
  if (j.err) { rec("open", p, -j.err, flags); return -j.err; }
  r = resolve(base, path, follow);
  auto fail = [&](int e) { rec("open", p, -e, flags); return (long)-e; };
  if (fds_full()) return fail(EMFILE);
  if (r.err) return fail(r.err);
  int acc = flags & O_ACCMODE;
  if ((flags & O_TMPFILE) == O_TMPFILE) return fail(EOPNOTSUPP);
  bool created = false;
  if (!r.ino) {
    if (!(flags & O_CREAT)) return fail(ENOENT);
    if (r.slash) return fail(EISDIR);
    Inode *d = I(r.parent);
    if (!may(d, 2) || !may(d, 1)) return fail(EACCES);
    if (mutating(0) >= 0) {}
    u64 n = new_inode(0, mode & 07777 & ~sim_umask, S.uid);
    I(n)->nlink = 1;
    I(n)->parent = r.parent;
    I(r.parent)->ent[r.name] = n;
    plog_dir(r.parent, 0, r.name, n);
    r.ino = n;
    created = true;
  } else if ((flags & O_CREAT) && (flags & O_EXCL))
    return fail(EEXIST);
  Inode *n = I(r.ino);
  if (n->type == 2) return fail(ELOOP);
  if (n->type == 1 && (acc != O_RDONLY || (flags & O_CREAT))) return fail(EISDIR);
  if ((flags & O_DIRECTORY) && n->type != 1) return fail(ENOTDIR);
  if (!created && !(flags & O_PATH)) {
    if ((acc == O_RDONLY || acc == O_RDWR) && !may(n, 4)) return fail(EACCES);
    if ((acc == O_WRONLY || acc == O_RDWR) && !may(n, 2)) return fail(EACCES);
  }
  u64 mut = created ? mut_ops : 0;
  if ((flags & O_TRUNC) && n->type == 0 && acc != O_RDONLY && !n->data.empty()) {
    mutating(0);
    mut = mut_ops;
    if (disk_free >= 0) disk_free += n->data.size();
    n->data.clear();
    n->mtime = now_ns();
    plog_ino(n->ino, 1, 0, 0, "");
  }
  OpenFile *f = new OpenFile;
  f->kind = 2;
  f->ino = r.ino;
  f->flags = flags;
  f->path = p;
  int fd = fd_alloc(f, 3);
  rec("open", p, fd, flags | (created ? 1ull << 40 : 0), mut);
  return fd;
}
static u64 base_of(int dirfd, const char *path, int *err) {
  *err = 0;
  if (path[0] == '/' || dirfd == AT_FDCWD) return cwd_ino;
  OpenFile *f = F(dirfd);
  if (!f || f->kind != 2) { *err = EBADF; return 0; }
  return f->ino;
}
static long e_close(int fd) {
  OpenFile *f = F(fd);
  if (!f) return -EBADF;
  point("close");
  Inj j = inject("close", f->kind == 1 ? stream_name(f->stream) : f->path, 0);
  fds[fd] = nullptr;
  open_fds--;
  rec("close", f->kind == 1 ? stream_name(f->stream) : f->path, -j.err);
  if (--f->refs == 0) delete f;
  return -j.err;
}
static long e_read_at(int fd, void *buf, size_t n, i64 off) {
  OpenFile *f = F(fd);
  if (!f) return -EBADF;
  point("read");
  if (f->kind == 1) { rec("read", stream_name(f->stream), 0); return 0; }
  if (f->kind == 3) return 0;
  Inode *x = I(f->ino);
  Inj j = inject("read", f->path, 1 | 2);
  if (j.err) { rec("read", f->path, -j.err); return -j.err; }
  if (x->type == 1) { rec("read", f->path, -EISDIR); return -EISDIR; }
  if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  u64 o = off >= 0 ? (u64)off : f->off;
  size_t av = o < x->data.size() ? x->data.size() - o : 0;
  size_t m = std::min(av, n);
  if (j.shrt >= 0 && m > (size_t)j.shrt) m = j.shrt > 0 ? j.shrt : 1;
  memcpy(buf, x->data.data() + (m ? o : 0), m);
  if (off < 0) f->off += m;
  rec("read", f->path, m);
  return m;
}
// what the kernel leaves of the mode when a file is written by somebody ordinary or gets another owner
static u32 without_setid(Inode *x) {
  if (x->type != 0) return x->mode;
  u32 m = x->mode & ~04000u;
  return m & 010 ? m & ~02000u : m;
}
static long store(OpenFile *f, const char *buf, size_t n, u64 o) {
  Inode *x = I(f->ino);
  i64 grow = (i64)(o + n) - (i64)x->data.size();
  if (grow > 0 && disk_free >= 0) {
    if (grow > disk_free) {
      size_t can = (size_t)std::max<i64>(0, (i64)n - (grow - disk_free));
      if (can == 0) return -ENOSPC;
      n = can;
      grow = disk_free;
    }
    disk_free -= grow;
  }
  i64 part = mutating((i64)n);
  if (part >= 0) n = (size_t)part;
  if (n) {
    if (x->data.size() < o + n) x->data.resize(o + n, '\0');
    memcpy(&x->data[o], buf, n);
    x->mtime = now_ns();
    plog_ino(x->ino, 0, o, 0, string(buf, n));
    if (S.uid && without_setid(x) != x->mode) {
      x->mode = without_setid(x);
      plog_ino(x->ino, 2, x->mode, 0, "");
    }
  }
  if (part >= 0) crash_now();
  return (long)n;
}
static long e_write_at(int fd, const void *buf, size_t n, i64 off) {
  OpenFile *f = F(fd);
  if (!f) return -EBADF;
  point("write");
  if (f->kind == 3) return n;
  if (f->kind == 1) {
    const char *nm = stream_name(f->stream);
    Inj j = inject("write", nm, 8 | 16);
    if (j.err) { rec("write", nm, -j.err); return -j.err; }
    size_t m = n;
    if (j.shrt >= 0 && m > (size_t)j.shrt) m = j.shrt > 0 ? j.shrt : 1;
    stream_data[f->stream].append((const char *)buf, m);
    stream_recs.push_back({(u8)f->stream, cur->id, m});
    trace_hash = hash_str(trace_hash, string((const char *)buf, m));
    rec("write", nm, m);
    return m;
  }
  if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  Inj j = inject("write", f->path, 1 | 4);
  if (j.err) { rec("write", f->path, -j.err); return -j.err; }
  size_t m = n;
  if (j.shrt >= 0 && m > (size_t)j.shrt) m = j.shrt > 0 ? j.shrt : 1;
  u64 o = off >= 0 ? (u64)off : (f->flags & O_APPEND) ? I(f->ino)->data.size() : f->off;
  long w = m ? store(f, (const char *)buf, m, o) : 0;
  if (w > 0 && off < 0) f->off = o + w;
  rec("write", f->path, w, m, mut_ops);
  return w;
}
static long e_writev(int fd, const struct iovec *iov, int cnt) {
  string s;
  for (int i = 0; i < cnt; i++) s.append((const char *)iov[i].iov_base, iov[i].iov_len);
  return e_write_at(fd, s.data(), s.size(), -1);
}
static long e_lseek(int fd, i64 off, int wh) {
  OpenFile *f = F(fd);
  if (!f) return -EBADF;
  point("lseek");
  if (f->kind != 2) return -ESPIPE;
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->off : wh == SEEK_END ? (i64)I(f->ino)->data.size() : -1;
  if (b < 0 || b + off < 0) return -EINVAL;
  f->off = b + off;
  rec("lseek", f->path, f->off);
  return f->off;
}
static void fill_stat(const Inode *n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 1;
  st->st_ino = n->ino;
  st->st_mode = (n->type == 0 ? S_IFREG : n->type == 1 ? S_IFDIR : S_IFLNK) | (n->type == 2 ? 0777 : n->mode);
  u32 links = 0;
  if (n->type == 1) links = 2;
  else if (fs.in.size() > 5000) links = 1;  // counting them takes too long
  else
    for (auto &d : fs.in)
      if (d.second.type == 1)
        for (auto &e : d.second.ent)
          if (e.second == n->ino) links++;
  st->st_nlink = links;
  st->st_uid = n->uid;
  st->st_gid = n->gid;
  st->st_size = n->type == 1 ? 4096 : (i64)n->data.size();
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  u64 t = n->mtime;
  st->st_mtim.tv_sec = st->st_atim.tv_sec = st->st_ctim.tv_sec = 1700000000 + t / 1000000000;
  st->st_mtim.tv_nsec = st->st_atim.tv_nsec = st->st_ctim.tv_nsec = t % 1000000000;
}
static long stat_fd(OpenFile *f, struct stat *st) {
  if (f->kind == 2) { fill_stat(I(f->ino), st); return 0; }
  memset(st, 0, sizeof *st);
  st->st_dev = 2;
  st->st_ino = 100 + f->stream;
  st->st_mode = (f->kind == 3 ? S_IFCHR : S_IFIFO) | 0600;
  st->st_nlink = 1;
  st->st_blksize = 4096;
  return 0;
}
static long e_fstat(int fd, struct stat *st) {
  OpenFile *f = F(fd);
  if (!f) return -EBADF;
  point("fstat");
  string nm = f->kind == 1 ? stream_name(f->stream) : f->path;
  Inj j = inject("fstat", nm, 0);
  rec("fstat", nm, -j.err);
  if (j.err) return -j.err;
  return stat_fd(f, st);
}
static long e_statat(u64 base, const char *cpath, bool follow, struct stat *st) {
  point("stat");
  string path = cpath;
  if (is_real_dev(path)) {
    OpenFile f;
    f.kind = 3;
    return stat_fd(&f, st);
  }
  Res r = resolve(base, path, follow);
  string p = path_of(r, path, base);
  const char *op = follow ? "stat" : "lstat";
  Inj j = inject(op, p, 0);
  if (j.err) { rec(op, p, -j.err); return -j.err; }
  r = resolve(base, path, follow);
  int e = r.err ? r.err : r.ino ? 0 : ENOENT;
  rec(op, p, -e);
  if (e) return -e;
  fill_stat(I(r.ino), st);
  return 0;
}
static void st_to_statx(const struct stat *s, struct statx *x) {
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_blksize = s->st_blksize;
  x->stx_nlink = s->st_nlink;
  x->stx_uid = s->st_uid;
  x->stx_gid = s->st_gid;
  x->stx_mode = s->st_mode;
  x->stx_ino = s->st_ino;
  x->stx_size = s->st_size;
  x->stx_blocks = s->st_blocks;
  x->stx_atime.tv_sec = s->st_atim.tv_sec;
  x->stx_atime.tv_nsec = s->st_atim.tv_nsec;
  x->stx_mtime.tv_sec = s->st_mtim.tv_sec;
  x->stx_mtime.tv_nsec = s->st_mtim.tv_nsec;
  x->stx_ctime.tv_sec = s->st_ctim.tv_sec;
  x->stx_ctime.tv_nsec = s->st_ctim.tv_nsec;
  x->stx_dev_minor = s->st_dev;
}
static long e_statx(int dirfd, const char *path, int flags, struct statx *x) {
  struct stat st;
  long r;
  if (!path || !x) return -EFAULT;
  if ((!*path && (flags & AT_EMPTY_PATH))) {
    r = e_fstat(dirfd, &st);
  } else {
    int err;
    u64 b = base_of(dirfd, path, &err);
    if (err) return -err;
    r = e_statat(b, path, !(flags & AT_SYMLINK_NOFOLLOW), &st);
  }
  if (r == 0) st_to_statx(&st, x);
  return r;
}
// directory of a name, with write permission, for changes
static long need_dir(const Res &r) {
  Inode *d = I(r.parent);
  if (!may(d, 2) || !may(d, 1)) return -EACCES;
  return 0;
}
static long e_rename(u64 b1, const char *from, u64 b2, const char *to, u32 flags) {
  point("rename");
  Res a = resolve(b1, from, false), b = resolve(b2, to, false);
  string pa = path_of(a, from, b1), pb = path_of(b, to, b2);
  Inj j = inject("rename", pb, 0);
  auto fin = [&](long r, u64 m = 0) { rec("rename", pa + " -> " + pb, r, 0, m); return r; };
  if (j.err) return fin(-j.err);
  a = resolve(b1, from, false);
  b = resolve(b2, to, false);
  if (a.err) return fin(-a.err);
  if (b.err) return fin(-b.err);
  if (!a.ino) return fin(-ENOENT);
  if (long e = need_dir(a)) return fin(e);
  if (long e = need_dir(b)) return fin(e);
  if (b.ino && (flags & 1 /*NOREPLACE*/)) return fin(-EEXIST);
  if (flags & ~1u) return fin(-EINVAL);
  if (a.ino == b.ino) return fin(0);
  Inode *na = I(a.ino), *nb = b.ino ? I(b.ino) : nullptr;
  if (nb) {
    if (nb->type == 1 && na->type != 1) return fin(-EISDIR);
    if (nb->type != 1 && na->type == 1) return fin(-ENOTDIR);
    if (nb->type == 1 && !nb->ent.empty()) return fin(-ENOTEMPTY);
  }
  mutating(0);
  I(a.parent)->ent.erase(a.name);
  I(b.parent)->ent[b.name] = a.ino;
  na->parent = b.parent;
  plog_dir(a.parent, 2, a.name, a.ino, b.parent, b.name);
  return fin(0, mut_ops);
}
static long e_unlink(u64 base, const char *path, bool dir) {
  const char *op = dir ? "rmdir" : "unlink";
  point(op);
  Res r = resolve(base, path, false);
  string p = path_of(r, path, base);
  Inj j = inject(op, p, 0);
  auto fin = [&](long e, u64 m = 0) { rec(op, p, e, 0, m); return e; };
  if (j.err) return fin(-j.err);
  r = resolve(base, path, false);
  if (r.err) return fin(-r.err);
  if (!r.ino) return fin(-ENOENT);
  if (long e = need_dir(r)) return fin(e);
  Inode *n = I(r.ino);
  if (dir && n->type != 1) return fin(-ENOTDIR);
  if (!dir && n->type == 1) return fin(-EISDIR);
  if (dir && !n->ent.empty()) return fin(-ENOTEMPTY);
  mutating(0);
  if (disk_free >= 0 && n->type == 0) disk_free += n->data.size();
  I(r.parent)->ent.erase(r.name);
  plog_dir(r.parent, 1, r.name, r.ino);
  return fin(0, mut_ops);
}
static long e_mk(u64 base, const char *path, u8 type, u32 mode, const string &data) {
  const char *op = type == 1 ? "mkdir" : "symlink";
  point(op);
  Res r = resolve(base, path, false);
  string p = path_of(r, path, base);
  Inj j = inject(op, p, 0);
  auto fin = [&](long e, u64 m = 0) { rec(op, p, e, 0, m); return e; };
  if (j.err) return fin(-j.err);
  r = resolve(base, path, false);
  if (r.err) return fin(-r.err);
  if (r.ino) return fin(-EEXIST);
  if (long e = need_dir(r)) return fin(e);
  mutating(0);
  u64 n = new_inode(type, mode & 07777 & ~sim_umask, S.uid);
  I(n)->parent = r.parent;
  I(n)->data = data;
  I(r.parent)->ent[r.name] = n;
  plog_dir(r.parent, 0, r.name, n);
  return fin(0, mut_ops);
}
static long e_link(u64 b1, const char *from, u64 b2, const char *to, bool follow) {
  point("link");
  Res a = resolve(b1, from, follow), b = resolve(b2, to, false);
  string pb = path_of(b, to, b2);
  Inj j = inject("link", pb, 0);
  auto fin = [&](long e, u64 m = 0) { rec("link", pb, e, 0, m); return e; };
  if (j.err) return fin(-j.err);
  a = resolve(b1, from, follow);
  b = resolve(b2, to, false);
  if (a.err) return fin(-a.err);
  if (b.err) return fin(-b.err);
  if (!a.ino) return fin(-ENOENT);
  if (b.ino) return fin(-EEXIST);
  if (I(a.ino)->type == 1) return fin(-EPERM);
  if (long e = need_dir(b)) return fin(e);
  mutating(0);
  I(b.parent)->ent[b.name] = a.ino;
  plog_dir(b.parent, 0, b.name, a.ino);
  return fin(0, mut_ops);
}
static long chmod_ino(u64 ino, const string &p, u32 mode) {
  Inj j = inject("chmod", p, 0);
  auto fin = [&](long e, u64 m = 0) { rec("chmod", p, e, mode, m); return e; };
  if (j.err) return fin(-j.err);
  Inode *n = I(ino);
  if (S.uid && n->uid != S.uid) return fin(-EPERM);
  if (n->mode == (mode & 07777)) return fin(0);
  mutating(0);
  n->mode = mode & 07777;
  plog_ino(ino, 2, n->mode, 0, "");
  return fin(0, mut_ops);
}
static long chown_ino(u64 ino, const string &p, u32 uid, u32 gid) {
  Inj j = inject("chown", p, 0);
  auto fin = [&](long e, u64 m = 0) { rec("chown", p, e, 0, m); return e; };
  if (j.err) return fin(-j.err);
  Inode *n = I(ino);
  bool same = (uid == (u32)-1 || uid == n->uid) && (gid == (u32)-1 || gid == n->gid);
  if (S.uid && (!same || n->uid != S.uid)) return fin(-EPERM);
  bool named = uid != (u32)-1 || gid != (u32)-1;
  u32 mode = named ? without_setid(n) : n->mode;
  if (same && mode == n->mode) return fin(0);
  mutating(0);
  if (mode != n->mode) {
    n->mode = mode;
    plog_ino(ino, 2, mode, 0, "");
  }
  if (same) return fin(0, mut_ops);
  if (uid != (u32)-1) n->uid = uid;
  if (gid != (u32)-1) n->gid = gid;
  plog_ino(ino, 3, n->uid, n->gid, "");
  return fin(0, mut_ops);
}
static long trunc_ino(u64 ino, const string &p, i64 len) {
  Inj j = inject("truncate", p, 1);
  auto fin = [&](long e, u64 m = 0) { rec("truncate", p, e, len, m); return e; };
  if (j.err) return fin(-j.err);
  Inode *n = I(ino);
  if (len < 0 || n->type != 0) return fin(-EINVAL);
  if ((size_t)len == n->data.size()) return fin(0);
  i64 grow = len - (i64)n->data.size();
  if (disk_free >= 0) disk_free -= grow < 0 ? grow : 0;
  mutating(0);
  n->data.resize(len, '\0');
  plog_ino(ino, 1, len, 0, "");
  return fin(0, mut_ops);
}

// ---------------------------------------------------------------- exported API
#define RET(expr)                  \
  do {                             \
    long r_ = (expr);              \
    if (r_ < 0) {                  \
      errno = (int)-r_;            \
      return -1;                   \
    }                              \
    return r_;                     \
  } while (0)
#define NOSIM(raw)                                       \
  if (!on_sim()) {                                       \
    long r_ = (raw);                                     \
    if (r_ < 0) { errno = (int)-r_; return -1; }         \
    return r_;                                           \
  }

EXPORT int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  u32 mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0;
  va_end(ap);
  NOSIM(RAW(SYS_openat, AT_FDCWD, p, flags, mode))
  RET(e_open(cwd_ino, p, flags, mode));
}
EXPORT int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  u32 mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0;
  va_end(ap);
  return open64(p, flags, mode);
}
EXPORT int creat(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int openat64(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  u32 mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0;
  va_end(ap);
  NOSIM(RAW(SYS_openat, d, p, flags, mode))
  int e;
  u64 b = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_open(b, p, flags, mode));
}
EXPORT int openat(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  u32 mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, u32) : 0;
  va_end(ap);
  return openat64(d, p, flags, mode);
}
EXPORT int close(int fd) {
  NOSIM(RAW(SYS_close, fd))
  RET(e_close(fd));
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  NOSIM(RAW(SYS_read, fd, b, n))
  RET(e_read_at(fd, b, n, -1));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  NOSIM(RAW(SYS_pread64, fd, b, n, o))
  RET(e_read_at(fd, b, n, o));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  NOSIM(RAW(SYS_readv, fd, v, c))
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) RET(e_read_at(fd, v[i].iov_base, v[i].iov_len, -1));
  return 0;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  NOSIM(RAW(SYS_write, fd, b, n))
  RET(e_write_at(fd, b, n, -1));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  NOSIM(RAW(SYS_pwrite64, fd, b, n, o))
  RET(e_write_at(fd, b, n, o));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  NOSIM(RAW(SYS_writev, fd, v, c))
  RET(e_writev(fd, v, c));
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) {
  NOSIM(RAW(SYS_lseek, fd, o, w))
  RET(e_lseek(fd, o, w));
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

EXPORT int fstat64(int fd, struct stat64 *st) {
  NOSIM(RAW(SYS_fstat, fd, st))
  RET(e_fstat(fd, (struct stat *)st));
}
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
EXPORT int stat64(const char *p, struct stat64 *st) {
  NOSIM(RAW(SYS_newfstatat, AT_FDCWD, p, st, 0))
  RET(e_statat(cwd_ino, p, true, (struct stat *)st));
}
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) {
  NOSIM(RAW(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW))
  RET(e_statat(cwd_ino, p, false, (struct stat *)st));
}
EXPORT int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
  NOSIM(RAW(SYS_newfstatat, d, p, st, fl))
  if (!*p && (fl & AT_EMPTY_PATH)) RET(e_fstat(d, (struct stat *)st));
  int e;
  u64 b = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_statat(b, p, !(fl & AT_SYMLINK_NOFOLLOW), (struct stat *)st));
}
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { return fstatat64(d, p, (struct stat64 *)st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
  NOSIM(RAW(SYS_statx, d, p, fl, mask, x))
  asm volatile("" : "+r"(p), "+r"(x));  // declared nonnull, but null is passed to probe
  RET(e_statx(d, p, fl, x));
}
static long e_access(u64 b, const char *p, int m) {
  struct stat st;
  long r = e_statat(b, p, true, &st);
  if (r < 0) return r;
  Inode *n = I(st.st_ino);
  if (n && m && !may(n, m)) return -EACCES;
  return 0;
}
EXPORT int access(const char *p, int m) {
  NOSIM(RAW(SYS_access, p, m))
  RET(e_access(cwd_ino, p, m));
}
EXPORT int faccessat(int d, const char *p, int m, int fl) {
  NOSIM(RAW(SYS_faccessat, d, p, m))
  int e;
  u64 b = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_access(b, p, m));
}
EXPORT int euidaccess(const char *p, int m) { return access(p, m); }
EXPORT int eaccess(const char *p, int m) { return access(p, m); }

EXPORT DIR *fdopendir(int fd) {
  OpenFile *f = F(fd);
  if (!on_sim() || !f || f->kind != 2 || I(f->ino)->type != 1) { errno = ENOTDIR; return nullptr; }
  SimDir *d = new SimDir();
  d->magic = 0x51d1;
  d->fd = fd;
  d->listed = false;
  d->pos = 0;
  d->path = f->path;
  return (DIR *)d;
}
static long e_opendir(const char *cp) {
  string path = cp;
  point("opendir");
  Res r = resolve(cwd_ino, path, true);
  string p = path_of(r, path, cwd_ino);
  Inj j = inject("opendir", p, 0);
  r = resolve(cwd_ino, path, true);
  int e = j.err ? j.err : r.err ? r.err : !r.ino ? ENOENT : I(r.ino)->type != 1 ? ENOTDIR : !may(I(r.ino), 4) ? EACCES : fds_full() ? EMFILE : 0;
  rec("opendir", p, -e);
  if (e) return -e;
  OpenFile *f = new OpenFile;
  f->kind = 2;
  f->ino = r.ino;
  f->flags = O_RDONLY | O_DIRECTORY;
  f->path = p;
  return fd_alloc(f, 3);
}
EXPORT DIR *opendir(const char *p) {
  if (!on_sim()) { errno = ENOENT; return nullptr; }
  long r = e_opendir(p);
  if (r < 0) { errno = -r; return nullptr; }
  return fdopendir((int)r);
}
EXPORT struct dirent64 *readdir64(DIR *dp) {
  SimDir *d = (SimDir *)dp;
  point("readdir");
  OpenFile *f = F(d->fd);
  if (!d->listed) {
    d->listed = true;
    vector<std::pair<u64, std::pair<string, u64>>> v;
    Inode *n = I(f->ino);
    for (auto &e : n->ent) v.push_back({S.dir_seed ? hash_str(S.dir_seed, e.first) : 0, e});
    v.push_back({S.dir_seed ? hash_str(S.dir_seed, ".") : 0, {".", f->ino}});
    v.push_back({S.dir_seed ? hash_str(S.dir_seed, "..") : 0, {"..", n->parent ? n->parent : 1}});
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first != b.first ? a.first < b.first : a.second.first < b.second.first; });
    for (auto &e : v) d->list.push_back(e.second);
  }
  Inj j = inject("readdir", d->path, 0);
  if (j.err) {
    rec("readdir", d->path, -j.err);
    errno = j.err;
    return nullptr;
  }
  if (d->pos >= d->list.size() && !d->again && S.dir_seed && hash_str(S.dir_seed, d->path) % 3) {
    // entries made while the listing was in progress may turn up in it
    d->again = true;
    vector<std::pair<u64, std::pair<string, u64>>> v;
    for (auto &e : I(f->ino)->ent) {
      bool had = false;
      for (auto &l : d->list) had |= l.first == e.first;
      if (!had) v.push_back({hash_str(S.dir_seed, e.first), e});
    }
    std::sort(v.begin(), v.end());
    for (auto &e : v) d->list.push_back(e.second);
  }
  if (d->pos >= d->list.size()) { rec("readdir", d->path, 0); return nullptr; }
  auto &e = d->list[d->pos++];
  memset(&d->de, 0, offsetof(struct dirent64, d_name));
  d->de.d_ino = e.second;
  d->de.d_off = d->pos;
  d->de.d_reclen = sizeof d->de;
  Inode *n = I(e.second);
  d->de.d_type = S.dt_unknown || !n ? DT_UNKNOWN : n->type == 0 ? DT_REG : n->type == 1 ? DT_DIR : DT_LNK;
  strncpy(d->de.d_name, e.first.c_str(), 255);
  d->de.d_name[255] = 0;
  rec("readdir", d->path, 1);
  return &d->de;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int readdir64_r(DIR *d, struct dirent64 *e, struct dirent64 **out) {
  errno = 0;
  struct dirent64 *r = readdir64(d);
  if (!r) { *out = nullptr; return errno; }
  *e = *r;
  *out = e;
  return 0;
}
EXPORT int closedir(DIR *dp) {
  SimDir *d = (SimDir *)dp;
  int fd = d->fd;
  delete d;
  return close(fd);
}
EXPORT int dirfd(DIR *dp) { return ((SimDir *)dp)->fd; }
EXPORT void rewinddir(DIR *dp) { ((SimDir *)dp)->pos = 0; ((SimDir *)dp)->listed = false; ((SimDir *)dp)->list.clear(); }

EXPORT int rename(const char *a, const char *b) { NOSIM(-EIO) RET(e_rename(cwd_ino, a, cwd_ino, b, 0)); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) {
  NOSIM(-EIO)
  int e1, e2;
  u64 b1 = base_of(d1, a, &e1), b2 = base_of(d2, b, &e2);
  if (e1 || e2) { errno = EBADF; return -1; }
  RET(e_rename(b1, a, b2, b, fl));
}
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return renameat2(d1, a, d2, b, 0); }
EXPORT int unlink(const char *p) { NOSIM(-EIO) RET(e_unlink(cwd_ino, p, false)); }
EXPORT int rmdir(const char *p) { NOSIM(-EIO) RET(e_unlink(cwd_ino, p, true)); }
EXPORT int remove(const char *p) {
  NOSIM(-EIO)
  long r = e_unlink(cwd_ino, p, false);
  if (r == -EISDIR) r = e_unlink(cwd_ino, p, true);
  RET(r);
}
EXPORT int unlinkat(int d, const char *p, int fl) {
  NOSIM(-EIO)
  int e;
  u64 b = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_unlink(b, p, fl & AT_REMOVEDIR));
}
EXPORT int mkdir(const char *p, mode_t m) { NOSIM(-EIO) RET(e_mk(cwd_ino, p, 1, m, "")); }
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  NOSIM(-EIO)
  int e;
  u64 b = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_mk(b, p, 1, m, ""));
}
EXPORT int symlink(const char *t, const char *p) { NOSIM(-EIO) RET(e_mk(cwd_ino, p, 2, 0777, t)); }
EXPORT int symlinkat(const char *t, int d, const char *p) {
  NOSIM(-EIO)
  int e;
  u64 b = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_mk(b, p, 2, 0777, t));
}
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int fl) {
  NOSIM(-EIO)
  int e1, e2;
  u64 b1 = base_of(d1, a, &e1), b2 = base_of(d2, b, &e2);
  if (e1 || e2) { errno = EBADF; return -1; }
  RET(e_link(b1, a, b2, b, fl & AT_SYMLINK_FOLLOW));
}
EXPORT int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
static long find(u64 b, const char *p, bool follow, Res *out, string *path) {
  *out = resolve(b, p, follow);
  *path = path_of(*out, p, b);
  if (out->err) return -out->err;
  return out->ino ? 0 : -ENOENT;
}
EXPORT int chmod(const char *p, mode_t m) {
  NOSIM(-EIO)
  point("chmod");
  Res r;
  string s;
  if (long e = find(cwd_ino, p, true, &r, &s)) { rec("chmod", s, e); RET(e); }
  RET(chmod_ino(r.ino, s, m));
}
EXPORT int fchmodat(int d, const char *p, mode_t m, int) {
  NOSIM(-EIO)
  point("chmod");
  int e0;
  u64 b = base_of(d, p, &e0);
  if (e0) { errno = e0; return -1; }
  Res r;
  string s;
  if (long e = find(b, p, true, &r, &s)) { rec("chmod", s, e); RET(e); }
  RET(chmod_ino(r.ino, s, m));
}
EXPORT int fchmod(int fd, mode_t m) {
  NOSIM(-EIO)
  point("chmod");
  OpenFile *f = F(fd);
  if (!f || f->kind != 2) { errno = EBADF; return -1; }
  RET(chmod_ino(f->ino, f->path, m));
}
EXPORT int fchown(int fd, uid_t u, gid_t g) {
  NOSIM(-EIO)
  point("chown");
  OpenFile *f = F(fd);
  if (!f || f->kind != 2) { errno = EBADF; return -1; }
  RET(chown_ino(f->ino, f->path, u, g));
}
EXPORT int chown(const char *p, uid_t u, gid_t g) {
  NOSIM(-EIO)
  point("chown");
  Res r;
  string s;
  if (long e = find(cwd_ino, p, true, &r, &s)) RET(e);
  RET(chown_ino(r.ino, s, u, g));
}
EXPORT int lchown(const char *p, uid_t u, gid_t g) {
  NOSIM(-EIO)
  point("chown");
  Res r;
  string s;
  if (long e = find(cwd_ino, p, false, &r, &s)) RET(e);
  RET(chown_ino(r.ino, s, u, g));
}
EXPORT int ftruncate64(int fd, off64_t n) {
  NOSIM(-EIO)
  point("truncate");
  OpenFile *f = F(fd);
  if (!f || f->kind != 2) { errno = EBADF; return -1; }
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
  RET(trunc_ino(f->ino, f->path, n));
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int truncate64(const char *p, off64_t n) {
  NOSIM(-EIO)
  point("truncate");
  Res r;
  string s;
  if (long e = find(cwd_ino, p, true, &r, &s)) RET(e);
  if (!may(I(r.ino), 2)) { errno = EACCES; return -1; }
  RET(trunc_ino(r.ino, s, n));
}
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
static long e_fsync(int fd) {
  OpenFile *f = F(fd);
  if (!f) return -EBADF;
  point("fsync");
  if (f->kind != 2) return -EINVAL;
  Inj j = inject("fsync", f->path, 0);
  rec("fsync", f->path, -j.err);
  if (j.err) return -j.err;
  make_durable(f->ino);
  return 0;
}
EXPORT int fsync(int fd) { NOSIM(-EIO) RET(e_fsync(fd)); }
EXPORT int fdatasync(int fd) { NOSIM(-EIO) RET(e_fsync(fd)); }
EXPORT int syncfs(int) {
  NOSIM(-EIO)
  point("sync");
  for (auto &r : plog) r.durable = true;
  return 0;
}
EXPORT void sync(void) {
  if (!on_sim()) return;
  point("sync");
  for (auto &r : plog) r.durable = true;
}
EXPORT int flock(int fd, int op) {
  NOSIM(0)
  point("flock");
  rec("flock", F(fd) ? F(fd)->path : "?", 0, op);
  return 0;  // one process: never contended with itself across descriptors here
}
EXPORT int posix_fadvise64(int, off64_t, off64_t, int) { return 0; }
EXPORT int posix_fadvise(int, off_t, off_t, int) { return 0; }
EXPORT int posix_fallocate64(int, off64_t, off64_t) { return EOPNOTSUPP; }
EXPORT int fallocate64(int, int, off64_t, off64_t) { errno = EOPNOTSUPP; return -1; }
EXPORT int futimens(int, const struct timespec[2]) { return 0; }
EXPORT int utimensat(int, const char *, const struct timespec[2], int) { return 0; }
EXPORT ssize_t copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned) { errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int, int, off64_t *, size_t) { errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile(int, int, off_t *, size_t) { errno = ENOSYS; return -1; }
EXPORT ssize_t splice(int, off64_t *, int, off64_t *, size_t, unsigned) { errno = EINVAL; return -1; }

EXPORT char *realpath(const char *p, char *out) {
  if (!on_sim()) { errno = ENOENT; return nullptr; }
  point("realpath");
  Res r = resolve(cwd_ino, p, true);
  string s = path_of(r, p, cwd_ino);
  Inj j = inject("realpath", s, 0);
  int e = j.err ? j.err : r.err ? r.err : r.ino ? 0 : ENOENT;
  rec("realpath", s, -e);
  if (e) { errno = e; return nullptr; }
  if (!out) out = (char *)malloc(PATH_MAX);
  strncpy(out, s.c_str(), PATH_MAX - 1);
  out[PATH_MAX - 1] = 0;
  return out;
}
static long e_readlink(u64 b, const char *p, char *buf, size_t n) {
  point("readlink");
  Res r;
  string s;
  long e = find(b, p, false, &r, &s);
  Inj j = inject("readlink", s, 0);
  if (j.err) e = -j.err;
  if (!e && I(r.ino)->type != 2) e = -EINVAL;
  rec("readlink", s, e);
  if (e) return e;
  size_t m = std::min(n, I(r.ino)->data.size());
  memcpy(buf, I(r.ino)->data.data(), m);
  return m;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  NOSIM(RAW(SYS_readlink, p, b, n))
  RET(e_readlink(cwd_ino, p, b, n));
}
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) {
  NOSIM(RAW(SYS_readlinkat, d, p, b, n))
  int e;
  u64 base = base_of(d, p, &e);
  if (e) { errno = e; return -1; }
  RET(e_readlink(base, p, b, n));
}
EXPORT char *getcwd(char *b, size_t n) {
  if (!on_sim()) { errno = ENOENT; return nullptr; }
  point("getcwd");
  Inj j = inject("getcwd", "", 0);
  string s = path_of_dir(cwd_ino);
  rec("getcwd", s, -j.err);
  if (j.err) { errno = j.err; return nullptr; }
  if (!b) b = (char *)malloc(n = n ? n : PATH_MAX);
  if (s.size() + 1 > n) { errno = ERANGE; return nullptr; }
  memcpy(b, s.c_str(), s.size() + 1);
  return b;
}
EXPORT int chdir(const char *p) {
  NOSIM(-EIO)
  point("chdir");
  Res r;
  string s;
  if (long e = find(cwd_ino, p, true, &r, &s)) RET(e);
  if (I(r.ino)->type != 1) { errno = ENOTDIR; return -1; }
  cwd_ino = r.ino;
  return 0;
}
EXPORT int dup(int fd) {
  NOSIM(RAW(SYS_dup, fd))
  OpenFile *f = F(fd);
  if (!f) { errno = EBADF; return -1; }
  point("dup");
  if (fds_full()) { errno = EMFILE; return -1; }
  return fd_alloc(f);
}
EXPORT int dup2(int a, int b) {
  NOSIM(RAW(SYS_dup2, a, b))
  OpenFile *f = F(a);
  if (!f || b < 0 || b > 1000) { errno = EBADF; return -1; }
  point("dup");
  while (fds.size() <= (size_t)b) fds.push_back(nullptr);
  if (fds[b] == f) return b;
  if (fds[b]) e_close(b);
  fds[b] = f;
  if (++open_fds > peak_fds) peak_fds = open_fds;
  f->refs++;
  return b;
}
EXPORT int dup3(int a, int b, int) { return dup2(a, b); }
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  NOSIM(RAW(SYS_fcntl, fd, cmd, a))
  OpenFile *f = F(fd);
  if (!f) { errno = EBADF; return -1; }
  point("fcntl");
  switch (cmd) {
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_GETFL: return f->kind == 1 ? O_RDWR : f->flags;
    case F_SETFL: return 0;
    case F_DUPFD:
    case F_DUPFD_CLOEXEC:
      if (fds_full()) { errno = EMFILE; return -1; }
      return fd_alloc(f, (int)a);
    case F_SETLK: case F_SETLKW: return 0;
    default: errno = EINVAL; return -1;
  }
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return fcntl64(fd, cmd, a);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  long a = va_arg(ap, long);
  va_end(ap);
  NOSIM(RAW(SYS_ioctl, fd, req, a))
  errno = ENOTTY;
  return -1;
}
EXPORT int isatty(int fd) {
  if (!on_sim()) { errno = ENOTTY; return 0; }
  OpenFile *f = F(fd);
  point("isatty");
  if (!f) { errno = EBADF; return 0; }
  if (f->kind == 1 && (S.tty >> f->stream & 1)) return 1;
  errno = ENOTTY;
  return 0;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int) {
  NOSIM(RAW(SYS_poll, p, n, 0))
  point("poll");
  int c = 0;
  for (nfds_t i = 0; i < n; i++) {
    OpenFile *f = F(p[i].fd);
    p[i].revents = f ? (p[i].events & (POLLOUT | POLLIN)) : POLLNVAL;
    if (p[i].revents) c++;
  }
  return c;
}
EXPORT mode_t umask(mode_t m) {
  mode_t o = sim_umask;
  sim_umask = m & 0777;
  return o;
}
EXPORT int statfs64(const char *, struct statfs64 *) { errno = ENOSYS; return -1; }
EXPORT int statvfs64(const char *, struct statvfs64 *) { errno = ENOSYS; return -1; }
EXPORT int mkstemp64(char *) { errno = ENOSYS; return -1; }
EXPORT int mkstemp(char *) { errno = ENOSYS; return -1; }
EXPORT char *mkdtemp(char *) { errno = ENOSYS; return nullptr; }
EXPORT int fputs(const char *s, FILE *f) {
  if (!on_sim()) {
    raw_write_all(2, s, strlen(s));
    return 1;
  }
  e_write_at(f == stdout ? 1 : 2, s, strlen(s), -1);
  return 1;
}
// things the simulated program must not do for real
EXPORT pid_t fork(void) { errno = ENOSYS; return -1; }
EXPORT pid_t vfork(void) { errno = ENOSYS; return -1; }
EXPORT int execve(const char *, char *const *, char *const *) { errno = ENOSYS; return -1; }
EXPORT int execvp(const char *, char *const *) { errno = ENOSYS; return -1; }
EXPORT int posix_spawn(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { return ENOSYS; }
EXPORT int posix_spawnp(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { return ENOSYS; }
EXPORT int kill(pid_t, int sig) {
  if (on_sim() && sig) finish(R_ABORT, sig, "kill");
  return 0;
}
EXPORT int raise(int sig) {
  if (on_sim()) finish(R_ABORT, sig, "raise");
  return 0;
}
EXPORT int socket(int, int, int) { errno = EAFNOSUPPORT; return -1; }
EXPORT int pipe2(int *, int) { errno = EMFILE; return -1; }
EXPORT int pipe(int *) { errno = EMFILE; return -1; }
EXPORT int eventfd(unsigned, int) { errno = EMFILE; return -1; }
EXPORT int epoll_create1(int) { errno = EMFILE; return -1; }
EXPORT int inotify_init1(int) { errno = EMFILE; return -1; }
EXPORT int memfd_create(const char *, unsigned) { errno = EMFILE; return -1; }

// identity, machine
EXPORT pid_t getpid(void) { return active ? (pid_t)S.pid : (pid_t)RAW(SYS_getpid); }
EXPORT pid_t getppid(void) { return active ? 1 : (pid_t)RAW(SYS_getppid); }
EXPORT pid_t gettid(void) { return active && self_thr ? (pid_t)(S.pid + self_thr->id) : (pid_t)RAW(SYS_gettid); }
EXPORT uid_t getuid(void) { return S.uid; }
EXPORT uid_t geteuid(void) { return S.uid; }
EXPORT gid_t getgid(void) { return S.uid; }
EXPORT gid_t getegid(void) { return S.uid; }
EXPORT int getpwuid_r(uid_t, struct passwd *, char *, size_t, struct passwd **res) { *res = nullptr; return 0; }
EXPORT int gethostname(char *b, size_t n) { if (n) { strncpy(b, "sim", n); b[n - 1] = 0; } return 0; }
EXPORT int sched_getaffinity(pid_t, size_t n, cpu_set_t *m) {
  memset(m, 0, n);
  for (u32 i = 0; i < S.ncpu && i < n * 8; i++) CPU_SET_S(i, n, m);
  return 0;
}
EXPORT int sched_getcpu(void) { return 0; }
EXPORT long sysconf(int name) {
  static long (*real)(int);
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return S.ncpu;
  return real(name);
}
EXPORT int sysinfo(struct sysinfo *i) {
  memset(i, 0, sizeof *i);
  i->totalram = 8ul << 30;
  i->freeram = 4ul << 30;
  i->mem_unit = 1;
  return 0;
}
EXPORT int getrusage(int, struct rusage *r) {
  memset(r, 0, sizeof *r);
  return 0;
}
EXPORT int getloadavg(double *, int) { return -1; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned) {
  u8 *p = (u8 *)b;
  for (size_t i = 0; i < n; i++) p[i] = (u8)hrng.next();
  return n;
}
EXPORT int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  u64 t;
  if (on_sim()) {
    account();
    arm();
    sim_ns += 50;
    t = now_ns();
  } else
    t = 1000000000ull;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000ull * 1000000000ull;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static int sim_sleep(u64 ns) {
  point("sleep");
  // waiting by polling is not progress that could run away, unless it goes on for ever
  static u32 naps = 0;
  if (++naps % 16) total_ops--;
  Thr *me = cur;
  me->st = T_SLEEP;
  me->timedout = false;
  if (S.mode != M_FIFO && S.entries.empty()) ns += mix(S.sched_seed ^ me->ops) % (ns / 2 + 1);
  else if (!S.entries.empty()) ns += mix(S.sched_seed ^ me->ops) % (ns / 2 + 1);
  me->deadline = now_ns() + (ns ? ns : 1);
  block_current();
  me->timedout = false;
  account();
  arm();
  return 0;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *) {
  if (!on_sim()) return 0;
  return sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t, int fl, const struct timespec *ts, struct timespec *) {
  if (!on_sim()) return 0;
  u64 t = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (fl & TIMER_ABSTIME) t = t > now_ns() ? t - now_ns() : 0;
  return sim_sleep(t);
}
EXPORT int usleep(useconds_t u) { return on_sim() ? sim_sleep((u64)u * 1000) : 0; }
EXPORT unsigned sleep(unsigned s) { if (on_sim()) sim_sleep((u64)s * 1000000000ull); return 0; }
EXPORT int sched_yield(void) {
  if (!on_sim()) return 0;
  point("yield");
  u64 key = ++cur->decs;
  reschedule('y', key);
  account();
  arm();
  return 0;
}
EXPORT int pause(void) {
  if (on_sim()) {
    cur->st = T_JOIN;
    cur->join_target = cur->id;
    block_current();
  }
  return 0;
}

// threads
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void wait_go(Thr *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) fwait(&t->go, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}
struct KeyDef { void (*dtor)(void *); bool live; };
static vector<KeyDef> keydefs = {{nullptr, false}};
static void run_dtors(Thr *t) {
  for (int round = 0; round < 8; round++) {
    bool any = false;
    while (!t->dtors.empty()) {
      Dtor d = t->dtors.back();
      t->dtors.pop_back();
      any = true;
      d.fn(d.obj);
    }
    for (size_t k = 0; k < keydefs.size(); k++) {
      auto it = t->keys.find((u32)k);
      if (it == t->keys.end() || !it->second || !keydefs[k].live || !keydefs[k].dtor) continue;
      void *v = it->second;
      it->second = nullptr;
      any = true;
      keydefs[k].dtor(v);
    }
    if (!any) break;
  }
}
static void *trampoline(void *p) {
  Thr *t = (Thr *)p;
  self_thr = t;
  wait_go(t);
  void *r = t->start(t->arg);
  run_dtors(t);
  point("thread_end");
  rec("thread_end", "", 0);
  t->ret = r;
  t->st = T_DONE;
  for (Thr *o : thrs)
    if (o->st == T_JOIN && o->join_target == t->id) o->st = T_RUN;
  block_current();
  park_forever();
}
static Thr *new_thr() {
  Thr *t = new Thr;
  t->id = (u32)thrs.size();
  t->prio = (1ull << 41) + (S.mode == M_PCT ? srng.below(1u << 30) : 0);
  thrs.push_back(t);
  return t;
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!on_sim()) return EAGAIN;
  point("thread_create");
  if (Inj j = inject("thread_create", "<thread>", 0); j.err) {
    rec("thread_create", "<thread>", -j.err);
    return j.err;
  }
  Thr *t = new_thr();
  t->start = fn;
  t->arg = arg;
  int r = real_pthread_create(&t->real, attr, trampoline, t);
  if (r) finish(R_HARNESS, 0, "real pthread_create failed");
  t->have_real = true;
  *out = t->real;
  rec("thread_create", "", t->id);
  return 0;
}
EXPORT int pthread_join(pthread_t h, void **ret) {
  if (!on_sim()) return EINVAL;
  point("join");
  Thr *t = nullptr;
  for (Thr *x : thrs)
    if (x->have_real && pthread_equal(x->real, h)) t = x;
  if (!t) return ESRCH;
  if (t->st != T_DONE) {
    cur->st = T_JOIN;
    cur->join_target = t->id;
    block_current();
    account();
    arm();
  }
  if (ret) *ret = t->ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t) { return 0; }
EXPORT int pthread_setname_np(pthread_t, const char *) { return 0; }
EXPORT void pthread_exit(void *) { finish(R_HARNESS, 0, "pthread_exit"); }
EXPORT int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  keydefs.push_back({d, true});
  *k = (pthread_key_t)(keydefs.size() - 1);
  return 0;
}
EXPORT int pthread_key_delete(pthread_key_t k) {
  if (k < keydefs.size()) keydefs[k].live = false;
  return 0;
}
static std::map<u32, void *> init_keys;  // before the simulated main starts
EXPORT int pthread_setspecific(pthread_key_t k, const void *v) {
  if (self_thr) self_thr->keys[k] = (void *)v;
  else init_keys[k] = (void *)v;
  return 0;
}
EXPORT void *pthread_getspecific(pthread_key_t k) {
  auto &m = self_thr ? self_thr->keys : init_keys;
  auto it = m.find(k);
  return it == m.end() ? nullptr : it->second;
}
EXPORT int __cxa_thread_atexit_impl(void (*fn)(void *), void *obj, void *) {
  if (self_thr) self_thr->dtors.push_back({fn, obj});
  return 0;
}

EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  long r;
  if (n == SYS_futex && on_sim()) r = sim_futex((u32 *)a[0], (int)a[1], (u32)a[2], (const struct timespec *)a[3], (u32)a[5]);
  else if (n == SYS_getrandom) return getrandom((void *)a[0], a[1], 0);
  else if (n == SYS_gettid) return gettid();
  else if (n == SYS_getpid) return getpid();
  else if (n == SYS_sched_yield) return sched_yield();
  else if (n == SYS_open && on_sim()) return open64((const char *)a[0], (int)a[1], (u32)a[2]);
  else if (n == SYS_openat && on_sim()) return openat64((int)a[0], (const char *)a[1], (int)a[2], (u32)a[3]);
  else if (n == SYS_read && on_sim()) return read((int)a[0], (void *)a[1], a[2]);
  else if (n == SYS_write && on_sim()) return write((int)a[0], (void *)a[1], a[2]);
  else if (n == SYS_close && on_sim()) return close((int)a[0]);
  else if (n == SYS_access && on_sim()) return access((const char *)a[0], (int)a[1]);
  else if (n == SYS_statx && on_sim()) return statx((int)a[0], (const char *)a[1], (int)a[2], (unsigned)a[3], (struct statx *)a[4]);
  else if (n == SYS_renameat2 && on_sim()) return renameat2((int)a[0], (const char *)a[1], (int)a[2], (const char *)a[3], (unsigned)a[4]);
  else if (n == SYS_mbind || n == SYS_getcpu || n == SYS_copy_file_range || n == SYS_openat2 || n == SYS_close_range || n == SYS_membarrier || n == 448 || n == 439 || n == SYS_memfd_create || n == SYS_pidfd_open || n == SYS_clone3) r = -ENOSYS;
  else if (!on_sim() && (n == SYS_open || n == SYS_openat || n == SYS_access)) r = -ENOENT;
  else if (!on_sim() && (n == SYS_read || n == SYS_close)) r = -EBADF;
  else {
    warn_once("unmodelled system call " + std::to_string(n));
    r = -ENOSYS;
  }
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// end of the program
EXPORT void exit(int code) {
  if (!active) RAW(SYS_exit_group, code);
  point("exit");
  rec("exit", "", code);
  // the machine goes down right after the end of the program
  if (S.crash_kind == C_POWER && S.crash_at == mut_ops) crash_now();
  finish(R_EXIT, code & 0xff, "");
}
EXPORT void _exit(int code) {
  if (!active) RAW(SYS_exit_group, code);
  finish(R_EXIT, code & 0xff, "");
}
EXPORT void _Exit(int code) { _exit(code); }
EXPORT void quick_exit(int code) { _exit(code); }
EXPORT void abort(void) {
  if (!active) RAW(SYS_exit_group, 134);
  finish(R_ABORT, SIGABRT, "abort");
}

// ---------------------------------------------------------------- result blob
struct Writer {
  char *p, *e;
  bool over = false;
  void raw(const void *d, size_t n) {
    if ((size_t)(e - p) < n) { over = true; return; }
    memcpy(p, d, n);
    p += n;
  }
  void u(u64 v) { raw(&v, 8); }
  void s(const string &x) {
    u(x.size());
    raw(x.data(), x.size());
  }
};
static void dump_dir(Writer &w, u64 ino, const string &path, u64 &count, int depth) {
  Inode *d = I(ino);
  if (!d || depth > 64) return;
  for (auto &e : d->ent) {
    Inode *n = I(e.second);
    if (!n) continue;
    string p = path + "/" + e.first;
    count++;
    w.s(p);
    w.u(n->type);
    w.u(n->mode);
    w.u(n->uid);
    w.s(n->type == 1 ? string() : n->data);
    w.u(n->ino);
    if (n->type == 1) dump_dir(w, e.second, p, count, depth + 1);
  }
}
static void serialize() {
  Writer w{shm + 8, shm + SHM_SIZE};
  w.u(fin_status);
  w.u((u64)(i64)fin_code);
  w.s(fin_msg);
  w.u(total_edges);
  w.u(total_ops);
  w.u(mut_ops);
  w.u(now_ns());
  w.u(thrs.size());
  w.u(n_switches);
  w.u(n_preempts);
  w.u(n_spurious);
  w.u(n_jumps);
  w.u(peak_fds);
  w.u(n_emfile);
  w.u(trace_hash);
  w.u(il_hash);
  w.s(stream_data[1]);
  w.s(stream_data[2]);
  w.u(stream_recs.size());
  for (auto &r : stream_recs) {
    w.u(r.stream);
    w.u(r.tid);
    w.u(r.len);
  }
  char *cp = w.p;
  w.u(0);
  u64 count = 0;
  dump_dir(w, 1, "", count, 0);
  if (!w.over) memcpy(cp, &count, 8);
  w.u(oplog.size());
  for (auto &o : oplog) {
    w.u(o.tid);
    w.s(o.op);
    w.s(o.path);
    w.u((u64)o.res);
    w.u(o.arg);
    w.u(o.mut);
  }
  w.u(fired.size());
  for (auto &f : fired) {
    w.s(f.op);
    w.s(f.path);
    w.u(f.nth);
    w.u(f.act);
    w.u((u64)f.arg);
  }
  w.u(decisions.size());
  for (auto &e : decisions) {
    w.u(e.kind);
    w.u(e.tid);
    w.u(e.key);
    w.u(e.val);
  }
  w.u(warnings.size());
  for (auto &x : warnings) w.s(x);
  u64 n = w.over ? 0 : (u64)(w.p - shm - 8);
  memcpy(shm, &n, 8);
}
static void *finalizer(void *) {
  while (!__atomic_load_n(&fin_word, __ATOMIC_SEQ_CST)) fwait(&fin_word, 0);
  serialize();
  RAW(SYS_exit_group, 0);
  return nullptr;
}

// ---------------------------------------------------------------- start-up
static int (*user_main)(int, char **, char **);
static int g_argc;
static char **g_argv;
static void *main_thread(void *) {
  int r = user_main(g_argc, g_argv, environ);
  run_dtors(self_thr);
  exit(r);
  return nullptr;
}
static int sim_main(int, char **, char **) {
  // build the world
  Inode root;
  root.ino = 1;
  root.type = 1;
  root.mode = 0755;
  root.uid = 0;
  root.gid = 0;
  root.parent = 1;
  fs.in[1] = root;
  for (auto &n : S.nodes) {
    fs_load_node(n.path, n.type, n.mode, n.uid, n.data);
    initial_paths.insert(n.path);
  }
  Res c = resolve(1, S.cwd, true);
  if (c.err || !c.ino) finish(R_HARNESS, 0, "bad working directory");
  cwd_ino = c.ino;
  disk_free = S.disk_free;
  fs0 = fs;
  for (int i = 0; i < 3; i++) {
    OpenFile *f = new OpenFile;
    f->kind = 1;
    f->stream = i;
    fd_alloc(f);
  }
  for (auto &e : S.entries) {
    rep_at[ekey(e.kind, e.tid, e.key)] = e.val;
    if (e.kind == 'e') rep[e.tid].push_back(e);
  }
  for (auto &r : rep) std::sort(r.second.begin(), r.second.end(), [](const Entry &a, const Entry &b) { return a.key < b.key; });
  srng.s = S.sched_seed;
  nrng.s = S.noise_seed;
  if (S.mode == M_PCT) {
    for (u64 i = 0; i < S.p1; i++) pct_points.push_back(1 + srng.below(S.p2 ? S.p2 : 1000000));
    std::sort(pct_points.begin(), pct_points.end());
  }
  pthread_t ft;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (real_pthread_create(&ft, &at, finalizer, nullptr)) RAW(SYS_exit_group, 98);
  Thr *t = new_thr();
  t->keys = init_keys;
  t->start = main_thread;
  pthread_attr_setstacksize(&at, 8 << 20);
  cur = t;
  new_preempt();
  arm();
  active = true;
  t->go = 1;
  if (real_pthread_create(&t->real, &at, trampoline, t)) RAW(SYS_exit_group, 98);
  t->have_real = true;
  park_forever();
}

typedef int (*lsm_t)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rfini)(void), void *stack_end) {
  lsm_t real = (lsm_t)dlsym(RTLD_NEXT, "__libc_start_main");
  real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  auto real_fork = (pid_t(*)(void))dlsym(RTLD_NEXT, "fork");
  user_main = m;
  if (const char *c = getenv("SIMCPU")) {
    unsigned long m[16] = {};
    int k = atoi(c);
    m[k / 64 % 16] = 1ul << (k % 64);
    RAW(SYS_sched_setaffinity, 0, sizeof m, m);
  }
  sysconf(_SC_PAGESIZE);
  signal(SIGPIPE, SIG_DFL);
  shm = (char *)RAW(SYS_mmap, 0, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((long)shm < 0) RAW(SYS_exit_group, 96);
  static string blob;
  for (;;) {
    u64 len;
    if (!raw_read_all(0, &len, 8)) RAW(SYS_exit_group, 0);
    if (len > (512u << 20)) RAW(SYS_exit_group, 95);
    blob.resize(len);
    if (!raw_read_all(0, &blob[0], len)) RAW(SYS_exit_group, 0);
    memset(shm, 0, 8);
    long pid = real_fork();
    if (pid == 0) break;
    if (pid < 0) RAW(SYS_exit_group, 94);
    int st = 0;
    while (RAW(SYS_wait4, pid, &st, 0, 0) == -EINTR) {}
    u64 n;
    memcpy(&n, shm, 8);
    u64 hdr[2] = {n, (u64)(unsigned)st};
    raw_write_all(1, hdr, 16);
    raw_write_all(1, shm + 8, n);
    if (n > (1u << 20)) RAW(SYS_madvise, shm, SHM_SIZE, MADV_REMOVE);
  }
  // in the child
  struct itimerval it = {{0, 0}, {120, 0}};
  RAW(SYS_setitimer, ITIMER_REAL, &it, 0);
  if (!parse_scenario(blob.data(), blob.size())) RAW(SYS_exit_group, 93);
  hrng.s = S.hash_seed;
  g_argc = (int)S.argv.size();
  g_argv = (char **)calloc(S.argv.size() + 1, sizeof(char *));
  for (size_t i = 0; i < S.argv.size(); i++) g_argv[i] = (char *)S.argv[i].c_str();
  char **ev = (char **)calloc(S.env.size() + 1, sizeof(char *));
  for (size_t i = 0; i < S.env.size(); i++) ev[i] = (char *)S.env[i].c_str();
  environ = ev;
  return real(sim_main, g_argc, g_argv, init, fini, rfini, stack_end);
}
