// Deterministic simulation runtime for benfred/implicit.
//
// Every simulated thread (OpenMP worker, Python caller thread) is a real pthread, but only one of
// them runs at a time: the "baton" is handed over explicitly at yield points, and a seeded
// scheduler decides who gets it.  Yield points are
//   * every memory access of the instrumented extension modules (compiled with -fsanitize=thread,
//     linked against this file instead of libtsan),
//   * every OpenMP runtime call (this file replaces libgomp), every GIL transition, lock, malloc,
//     memcpy... of those modules (linker --wrap),
//   * Python line / instruction / call events (called from sys.monitoring callbacks).
// Every decision is recorded as (thread key, thread-local step, target key) in a shared buffer, and
// a recorded list of decisions can be replayed instead of the seeded strategy.
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <new>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

typedef uint64_t u64;
typedef uint32_t u32;

enum Kind { K_MEM = 0, K_SYNC = 1, K_PY = 2, K_BLOCK = 3 };
enum St { READY = 0, BLOCKED = 1, DONE = 2 };
enum Mode { M_RANDOM = 0, M_PCT = 1, M_RR = 2, M_SERIAL = 3, M_REPLAY = 4 };
enum EvType { E_SWITCH = 1, E_FORCED = 2, E_TEAM = 3 };

struct Ws {  // one work-sharing construct instance of a team
  bool init = false;
  bool ull = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  u64 unext = 0, uend = 0, uincr = 1, uchunk = 1;
  bool up = true;
  bool guided = false;
  long nsections = 0, cur_section = 0;
  int arrived = 0;
  void *copyprivate = nullptr;
};

struct Team {
  int n = 1;
  int remaining = 0;
  int barrier_count = 0;
  u64 barrier_gen = 0;
  std::map<u32, Ws *> ws;
  Team *parent = nullptr;
  ~Team() {
    for (auto &p : ws) delete p.second;
  }
};

struct Rp {
  u64 step, target;
  u32 type;
};

struct Thr {
  u64 key = 0;
  u64 steps = 0;
  u64 trig = ~0ull;
  St st = READY;
  bool needs_gil = false;
  std::atomic<int> go{0};
  Team *team = nullptr;
  int tnum = 0;
  u32 ws_idx = 0;
  u32 regions = 0;
  u32 children = 0;
  const void *wait = nullptr;
  u64 prio = 0;
  u64 stalled_until = 0;
  std::vector<Rp> rp;
  size_t rpi = 0;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  Thr *master = nullptr;
  u32 idx = 0;
  bool attached = false;
  bool gil = false;  // holds the GIL (maintained at the wrapped transitions)
};

struct Worker {
  pthread_t th;
  std::atomic<int> sig{0};
  Thr *job = nullptr;
};

struct Header {  // shared with the supervising process
  u64 status;    // 0 running, 1 finished, 2 deadlock, 3 step budget
  u64 n_entries;
  u64 total;
  u64 truncated;
  u64 session;
  u64 cur_key;
  u64 cur_step;
  u64 pad;
};
struct Entry {
  u64 type_session;
  u64 key, step, target;
};

static __thread Thr *me = nullptr;

struct Sim {
  bool active = false;
  int mode = M_SERIAL;
  u64 rng = 1;
  int max_threads = 4;
  u64 total = 0, mem = 0, sync = 0, py = 0, chunks = 0;
  u64 mem_trig = ~0ull, py_trig = ~0ull;
  double p_mem = 0, p_sync = 0, p_py = 0, p_conf = 0, p_stall = 0, p_team = 0;
  u64 stall_len = 0;
  int pct_depth = 0;
  u64 pct_k = 10000;
  std::vector<u64> pct_points;
  size_t pct_i = 0;
  u64 pct_low = 0;
  u64 quantum = 0;
  u64 max_steps = 0;
  u64 switches = 0, forced = 0, stalls = 0, teams_cut = 0, teams = 0, hash = 0, blocked_waits = 0, gil_parked = 0, conflicts = 0;
  u32 session = 0;
  std::vector<Thr *> thr;
  Thr *gil_owner = nullptr;
  std::vector<Worker *> pool;   // idle workers
  std::unordered_map<u64, std::vector<Rp>> replay;
  std::map<std::pair<u64, u64>, u64> replay_team;
  int threads_seen = 0;
  int max_alive = 0;
} S;

static Header *H = nullptr;
static Entry *E = nullptr;
static u64 E_cap = 0;

// ---------------------------------------------------------------- small helpers
static inline u64 rnd() {
  u64 z = (S.rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
static u64 geom(double p) {
  if (p <= 0) return ~0ull >> 2;
  if (p >= 1) return 1;
  // fixed-point arithmetic free of libm differences: sum of bernoulli in coarse steps
  double u = rnd01();
  if (u < 1e-12) u = 1e-12;
  u64 n = 1;
  double q = 1.0;
  // exponential search on (1-p)^n using repeated squaring
  double base = 1.0 - p;
  double pw[48];
  pw[0] = base;
  int k = 0;
  while (k < 47 && pw[k] > 1e-13) {
    pw[k + 1] = pw[k] * pw[k];
    k++;
  }
  u64 add = 0;
  for (int i = k; i >= 0; --i) {
    if (q * pw[i] > u) {
      q *= pw[i];
      add += 1ull << i;
    }
  }
  return n + add;
}

static void futex_wait(std::atomic<int> *a) {
  for (int i = 0; i < 100; i++) {
    if (a->load(std::memory_order_acquire)) return;
    __builtin_ia32_pause();
  }
  while (!a->load(std::memory_order_acquire))
    syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
static void futex_set(std::atomic<int> *a) {
  a->store(1, std::memory_order_release);
  syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void record(u32 type, u64 key, u64 step, u64 target) {
  S.hash = mix(mix(mix(S.hash, key), step), target ^ type);
  if (!E) return;
  u64 n = H->n_entries;
  if (n >= E_cap) {
    H->truncated = 1;
    return;
  }
  E[n].type_session = ((u64)S.session << 8) | type;
  E[n].key = key;
  E[n].step = step;
  E[n].target = target;
  H->n_entries = n + 1;
}

static void die(int status) {
  if (H) {
    H->status = status;
    H->total = S.total;
    H->cur_key = me ? me->key : 0;
    H->cur_step = me ? me->steps : 0;
  }
  _exit(90 + status);
}

// ---------------------------------------------------------------- scheduler
static inline bool runnable(Thr *t) {
  return t->st == READY && !(t->needs_gil && S.gil_owner && S.gil_owner != t);
}
static Thr *first_runnable(Thr *exclude) {
  for (Thr *t : S.thr)
    if (t != exclude && runnable(t)) return t;
  return nullptr;
}
static Thr *by_key(u64 key) {
  for (Thr *t : S.thr)
    if (t->key == key && t->st != DONE) return t;
  return nullptr;
}

// the strategy's choice; cur is a candidate iff cur_ok
static Thr *choose(Thr *cur, bool cur_ok) {
  static std::vector<Thr *> c;
  c.clear();
  for (int pass = 0; pass < 2 && c.empty(); ++pass)
    for (Thr *t : S.thr)
      if ((t != cur || cur_ok) && runnable(t) && (pass || t->stalled_until <= S.total)) c.push_back(t);
  if (c.empty()) return nullptr;
  if (S.mode == M_PCT || S.mode == M_SERIAL) {
    Thr *b = c[0];
    for (Thr *t : c)
      if (t->prio > b->prio) b = t;
    return b;
  }
  if (S.mode == M_RR) {
    u32 ci = cur ? cur->idx : 0;
    for (Thr *t : c)
      if (t->idx > ci) return t;
    return c[0];
  }
  return c[rnd() % c.size()];
}

static void arm(Thr *t) {
  t->trig = t->rpi < t->rp.size() ? t->rp[t->rpi].step : ~0ull;
}

static void new_thr(Thr *t) {
  t->idx = (u32)S.thr.size();
  S.thr.push_back(t);
  S.threads_seen++;
  int alive = 0;
  for (Thr *x : S.thr) alive += x->st != DONE;
  if (alive > S.max_alive) S.max_alive = alive;
  t->prio = rnd() | (1ull << 40);
  if (S.mode == M_REPLAY) {
    auto it = S.replay.find(t->key);
    if (it != S.replay.end()) t->rp = it->second;
    arm(t);
  }
}

// give the baton to `t`, then wait for our own turn (unless we are finished)
static void park(Thr *self) {
  futex_wait(&self->go);
  self->go.store(0, std::memory_order_relaxed);
}

enum GilHow { G_NONE, G_PY, G_KEEP };

static void transfer(Thr *t, GilHow how) {
  Thr *self = me;
  if (how == G_PY) {
    self->needs_gil = true;
    PyThreadState *ts = PyEval_SaveThread();
    futex_set(&t->go);
    park(self);
    self->needs_gil = false;
    PyEval_RestoreThread(ts);
  } else {
    if (how == G_KEEP) {
      S.gil_owner = self;
      S.gil_parked++;
    }
    futex_set(&t->go);
    park(self);
    if (how == G_KEEP) S.gil_owner = nullptr;
  }
}

static bool have_gil() { return Py_IsInitialized() && PyGILState_Check(); }

// voluntary preemption of the running thread in favour of `t`
static void preempt_to(Thr *t, int kind) {
  Thr *self = me;
  if (!t || t == self) return;
  GilHow how = G_NONE;
  if (kind == K_PY)
    how = G_PY;
  else if (have_gil())
    how = G_KEEP;
  if (how == G_KEEP && t->needs_gil) return;
  S.switches++;
  record(E_SWITCH, self->key, self->steps, t->key);
  transfer(t, how);
}

static void __attribute__((noinline)) decide(int kind, bool want) {
  Thr *self = me;
  if (S.total > S.max_steps) die(3);
  if (S.mode == M_REPLAY) {
    while (self->rpi < self->rp.size() && self->rp[self->rpi].step <= self->steps) {
      Rp r = self->rp[self->rpi++];
      arm(self);
      if (r.step == self->steps && r.type == E_SWITCH) {
        Thr *t = by_key(r.target);
        if (t && runnable(t)) {
          preempt_to(t, kind);
          return;
        }
      }
    }
    return;
  }
  if (S.mode == M_PCT) {
    while (S.pct_i < S.pct_points.size() && S.total >= S.pct_points[S.pct_i]) {
      S.pct_i++;
      self->prio = --S.pct_low;
      want = true;
    }
    if (!want && kind == K_MEM) return;
  } else if (!want)
    return;
  if (S.p_stall > 0 && rnd01() < S.p_stall) {
    self->stalled_until = S.total + 1 + rnd() % (S.stall_len + 1);
    S.stalls++;
  }
  // while the GIL is held by C code only threads that do not need it can run
  Thr *saved = S.gil_owner;
  bool keep = kind != K_PY && have_gil();
  if (keep) S.gil_owner = self;
  Thr *t = choose(self, true);
  S.gil_owner = saved;
  preempt_to(t, kind);
}

static inline void next_mem_trig() {
  if (S.mode == M_RANDOM)
    S.mem_trig = S.mem + geom(S.p_mem);
  else if (S.mode == M_RR)
    S.mem_trig = S.quantum ? S.mem + S.quantum : ~0ull;
  else if (S.mode == M_PCT)
    S.mem_trig = S.pct_i < S.pct_points.size() ? S.mem + (S.pct_points[S.pct_i] > S.total ? S.pct_points[S.pct_i] - S.total : 1) : ~0ull;
  else
    S.mem_trig = ~0ull;
  // the step budget must be noticed even if nothing else triggers
  u64 left = S.max_steps > S.total ? S.max_steps - S.total + 1 : 1;
  if (S.mem_trig - S.mem > left) S.mem_trig = S.mem + left;
}

// conflict-directed preemption: which thread touched an address last.  Heap addresses are not part of the
// seed, so nothing may depend on which block malloc recycles: an allocation forgets its range, Python code
// (which allocates all the time) and a new parallel region forget everything, and accesses of a thread that
// holds the GIL do not count.
struct Cell {
  uintptr_t a;
  u32 thr;
  u32 write;
  u32 epoch;
};
static Cell *conf_tab = nullptr;
static u32 conf_used = 0, conf_epoch = 1;
static const u32 CONF_N = 1u << 16;
static inline void conf_forget() {
  conf_epoch++;
  conf_used = 0;
}
static inline u32 conf_hash(uintptr_t a) { return (u32)((a * 0x9E3779B97F4A7C15ull) >> 48) & (CONF_N - 1); }
static void conf_forget_range(void *p, size_t n) {
  if (!(S.p_conf > 0) || !conf_tab) return;
  if (n > 8192) return conf_forget();
  for (uintptr_t x = (uintptr_t)p >> 2; x <= ((uintptr_t)p + n) >> 2; x++) {
    uintptr_t a = x | 1ull << 62;
    u32 h = conf_hash(a);
    for (u32 i = 0; i < CONF_N; i++, h = (h + 1) & (CONF_N - 1)) {
      Cell &c = conf_tab[h];
      if (c.epoch != conf_epoch) break;
      if (c.a == a) {
        c.thr = 0;
        c.write = 0;
        break;
      }
    }
  }
}
static bool conflict(uintptr_t a, bool w) {
  if (me->gil) return false;
  a = (a >> 2) | 1ull << 62;
  u32 h = conf_hash(a);
  for (u32 i = 0; i < CONF_N; i++, h = (h + 1) & (CONF_N - 1)) {
    Cell &c = conf_tab[h];
    if (c.epoch != conf_epoch) {
      if (conf_used > CONF_N / 2) return false;
      conf_used++;
      c.a = a;
      c.thr = (u32)me->key;
      c.write = w;
      c.epoch = conf_epoch;
      return false;
    }
    if (c.a == a) {
      bool r = c.thr && c.thr != (u32)me->key && (c.write || w);
      if (c.thr != (u32)me->key) {
        c.thr = (u32)me->key;
        c.write = w;
      } else
        c.write |= w;
      return r;
    }
  }
  return false;
}

static void __attribute__((noinline)) mem_slow(bool want) {
  if (S.mem >= S.mem_trig) {
    want = want || S.mode == M_RANDOM || S.mode == M_RR;
    next_mem_trig();
  }
  decide(K_MEM, want);
}

// ---------------------------------------------------------------- forbidden memory (see iofault.c)
static const uint8_t *shadow = nullptr;
struct Oob {
  u64 n = 0;
  bool write = false;
  int size = 0, what = 0;
  long dist = 0;
  void *pc = nullptr;
} oob;

static __attribute__((noinline)) void oob_slow(uintptr_t a, size_t n, bool w, void *pc) {
  if (!a || a >> 47) return;
  uintptr_t bad = 0;
  int v = 0;
  for (uintptr_t x = a; x < a + n; ++x) {
    uint8_t s = shadow[x >> 3];
    if (s && (s >= 8 || (x & 7) >= s)) {
      bad = x;
      v = s;
      break;
    }
  }
  if (!bad || oob.n++) return;
  oob.write = w;
  oob.size = (int)n;
  oob.what = v < 8 ? 0xfb : v;
  oob.pc = pc;
  // distance to the block it belongs to
  if (oob.what == 0xfb)
    for (long d = 1; d < 8192; ++d) {
      uint8_t s = shadow[(bad - d) >> 3];
      if (!s || (s < 8 && ((bad - d) & 7) < s)) {
        oob.dist = d;
        break;
      }
    }
  else if (oob.what == 0xfa)
    for (long d = 1; d < 8192; ++d) {
      uint8_t s = shadow[(bad + d) >> 3];
      if (s < 8) {
        oob.dist = -d;
        break;
      }
    }
}
static inline void oob_check(const volatile void *p, size_t n, bool w, void *pc) {
  uintptr_t a = (uintptr_t)p;
  if (UNLIKELY((a >> 47) != 0)) return;
  if (UNLIKELY(shadow[a >> 3] | shadow[(a + n - 1) >> 3])) oob_slow(a, n, w, pc);
}
#define OOB(a, n, w)                                                                        \
  if (UNLIKELY(shadow != nullptr) && (n)) oob_check(a, n, w, __builtin_return_address(0))
static void oob_range(const void *p, size_t n, bool w, void *pc) {
  if (!shadow || !n) return;
  const char *c = (const char *)p;
  for (size_t i = 0; i < n; i += 8) oob_check(c + i, n - i < 8 ? n - i : 8, w, pc);
}

static inline void mem_access(const volatile void *a, bool w) {
  Thr *t = me;
  if (LIKELY(!t)) return;
  t->steps++;
  S.total++;
  S.mem++;
  bool want = false;
  if (UNLIKELY(S.p_conf > 0) && S.mode != M_REPLAY && conflict((uintptr_t)a, w)) {
    S.conflicts++;
    if (rnd01() < S.p_conf) want = true;
  }
  if (UNLIKELY(want || S.mem >= S.mem_trig || t->steps >= t->trig)) mem_slow(want);
}

static void point(int kind) {
  Thr *t = me;
  if (!t) return;
  t->steps++;
  S.total++;
  bool want = false;
  if (kind == K_PY) {
    conf_forget();
    S.py++;
    if (S.py >= S.py_trig) {
      want = true;
      S.py_trig = S.py + geom(S.p_py);
    }
    if (S.mode == M_RR && S.quantum && (S.py % (1 + S.quantum / 8)) == 0) want = true;
  } else {
    S.sync++;
    if (S.mode == M_RANDOM || S.mode == M_RR) want = S.p_sync > 0 && rnd01() < S.p_sync;
    if (S.mode == M_PCT) want = true;
  }
  if (S.mode == M_SERIAL) want = false;
  decide(kind, want);
}

// the running thread cannot continue (st already BLOCKED / DONE / needs the GIL): run someone else
static void forced(Thr *self, GilHow how) {
  self->steps++;
  S.total++;
  S.forced++;
  if (how == G_KEEP) S.gil_owner = self;
  Thr *def = first_runnable(self);
  Thr *t = nullptr;
  if (!def) die(2);
  if (S.mode == M_REPLAY) {
    while (self->rpi < self->rp.size() && self->rp[self->rpi].step <= self->steps) {
      Rp r = self->rp[self->rpi++];
      if (r.step == self->steps && r.type == E_FORCED) {
        Thr *c = by_key(r.target);
        if (c && c != self && runnable(c)) t = c;
      }
    }
    arm(self);
    if (!t) t = def;
  } else {
    t = choose(self, false);
    if (!t) die(2);
  }
  if (t != def || S.mode == M_REPLAY) {
    if (t != def) record(E_FORCED, self->key, self->steps, t->key);
  }
  S.hash = mix(S.hash, t->key);
  if (self->st == DONE) {
    futex_set(&t->go);
    return;
  }
  transfer(t, how);
}

static void block_on(const void *chan, GilHow how) {
  Thr *self = me;
  self->st = BLOCKED;
  self->wait = chan;
  S.blocked_waits++;
  forced(self, how);
  self->wait = nullptr;
}
// block in C code: the GIL, if held, stays held
static void block_c(const void *chan) { block_on(chan, have_gil() ? G_KEEP : G_NONE); }
static void wake(const void *chan) {
  for (Thr *t : S.thr)
    if (t->st == BLOCKED && t->wait == chan) t->st = READY;
}

// ---------------------------------------------------------------- OpenMP runtime
static void *worker_main(void *arg) {
  Worker *w = (Worker *)arg;
  for (;;) {
    futex_wait(&w->sig);
    w->sig.store(0);
    Thr *t = w->job;
    me = t;
    park(t);
    t->fn(t->data);
    point(K_SYNC);
    // finished: everything below happens while we still hold the baton
    t->st = DONE;
    Team *team = t->team;
    if (--team->remaining == 0) wake(team);
    S.pool.push_back(w);
    me = nullptr;
    {
      Thr *self = t;
      // `me` is already cleared, forced() only uses self for a finished thread
      forced(self, G_NONE);
    }
  }
  return nullptr;
}

static Worker *get_worker() {
  if (!S.pool.empty()) {
    Worker *w = S.pool.back();
    S.pool.pop_back();
    return w;
  }
  Worker *w = new Worker();
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 8 << 20);
  if (pthread_create(&w->th, &at, worker_main, w)) {
    fprintf(stderr, "simrt: pthread_create failed\n");
    _exit(99);
  }
  return w;
}

static Team *cur_team() { return me ? me->team : nullptr; }

static unsigned decide_team(unsigned want) {
  Thr *self = me;
  unsigned n = want ? want : (unsigned)S.max_threads;
  if (n < 1) n = 1;
  if (n > 64) n = 64;
  u64 region = ++self->regions;
  S.teams++;
  if (S.mode == M_REPLAY) {
    auto it = S.replay_team.find({self->key, region});
    if (it != S.replay_team.end() && it->second >= 1 && it->second < n) {
      n = (unsigned)it->second;
      S.teams_cut++;
      record(E_TEAM, self->key, region, n);
    }
  } else if (S.p_team > 0 && n > 1 && rnd01() < S.p_team) {
    n = 1 + (unsigned)(rnd() % (n - 1));
    S.teams_cut++;
    record(E_TEAM, self->key, region, n);
  }
  return n;
}

static void run_team(void (*fn)(void *), void *data, unsigned n, Ws *ws0) {
  Thr *self = me;
  if (!self) {  // simulator inactive: a team of one
    Team t;
    Thr tmp;
    tmp.team = &t;
    tmp.key = 0;
    // no simulation: keep `me` null but remember the team for the loop functions
    extern thread_local Team *idle_team;
    extern thread_local u32 idle_ws;
    Team *sv = idle_team;
    u32 svw = idle_ws;
    idle_team = &t;
    idle_ws = 0;
    if (ws0) {
      t.ws[0] = ws0;
      idle_ws = 1;
    }
    fn(data);
    idle_team = sv;
    idle_ws = svw;
    return;
  }
  Team *team = new Team();
  team->n = (int)n;
  team->parent = self->team;
  team->remaining = (int)n - 1;
  if (ws0) team->ws[0] = ws0;
  Team *saved_team = self->team;
  int saved_tnum = self->tnum;
  u32 saved_ws = self->ws_idx;
  conf_forget();
  for (unsigned i = 1; i < n; i++) {
    Thr *t = new Thr();
    t->key = mix(mix(self->key, self->regions), i) | 1;
    t->team = team;
    t->tnum = (int)i;
    t->ws_idx = ws0 ? 1 : 0;
    t->fn = fn;
    t->data = data;
    t->master = self;
    new_thr(t);
    Worker *w = get_worker();
    w->job = t;
    futex_set(&w->sig);
  }
  self->team = team;
  self->tnum = 0;
  self->ws_idx = ws0 ? 1 : 0;
  point(K_SYNC);
  fn(data);
  point(K_SYNC);
  while (team->remaining > 0) block_c(team);
  self->team = saved_team;
  self->tnum = saved_tnum;
  self->ws_idx = saved_ws;
  // drop finished workers of this team
  for (size_t i = 0; i < S.thr.size();) {
    if (S.thr[i]->st == DONE && S.thr[i]->team == team) {
      Thr *t = S.thr[i];
      S.thr.erase(S.thr.begin() + i);
      delete t;
    } else
      i++;
  }
  for (size_t i = 0; i < S.thr.size(); i++) S.thr[i]->idx = (u32)i;
  delete team;
}

thread_local Team *idle_team = nullptr;
thread_local u32 idle_ws = 0;

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  run_team(fn, data, me ? decide_team(n) : 1, nullptr);
}

static Ws *mk(long s, long e, long inc, long chunk, bool guided) {
  Ws *w = new Ws();
  w->init = true;
  w->next = s;
  w->end = e;
  w->incr = inc;
  w->chunk = chunk > 0 ? chunk : 1;
  w->guided = guided;
  return w;
}

static Ws *my_ws(bool &fresh) {  // the next work-sharing construct of this thread
  Team *t = me ? me->team : idle_team;
  u32 idx = me ? me->ws_idx++ : idle_ws++;
  static thread_local Team orphan;
  if (!t) {
    t = &orphan;
    orphan.ws.clear();
  }
  auto it = t->ws.find(idx);
  if (it == t->ws.end()) {
    Ws *w = new Ws();
    t->ws[idx] = w;
    fresh = true;
    return w;
  }
  fresh = false;
  return it->second;
}
static Ws *cur_ws() {
  Team *t = me ? me->team : idle_team;
  u32 idx = (me ? me->ws_idx : idle_ws) - 1;
  if (!t) return nullptr;
  auto it = t->ws.find(idx);
  return it == t->ws.end() ? nullptr : it->second;
}

static bool take(Ws *w, long *is, long *ie) {
  point(K_SYNC);
  if (!w) return false;
  S.chunks++;
  long left = w->incr > 0 ? w->end - w->next : w->next - w->end;
  if (left <= 0) return false;
  long ai = w->incr > 0 ? w->incr : -w->incr;
  long iters = (left + ai - 1) / ai;
  long c = w->chunk;
  if (w->guided) {
    int n = me && me->team ? me->team->n : 1;
    long g = (iters + n - 1) / n;
    if (g > c) c = g;
  }
  if (c > iters) c = iters;
  *is = w->next;
  long nx = w->next + c * w->incr;
  if ((w->incr > 0 && nx > w->end) || (w->incr < 0 && nx < w->end)) nx = w->end;
  *ie = nx;
  w->next = nx;
  return true;
}

static bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie, bool guided) {
  bool fresh;
  Ws *w = my_ws(fresh);
  if (fresh) {
    w->init = true;
    w->next = s;
    w->end = e;
    w->incr = inc;
    w->chunk = chunk > 0 ? chunk : 1;
    w->guided = guided;
  }
  return take(w, is, ie);
}
static bool loop_next(long *is, long *ie) { return take(cur_ws(), is, ie); }

#define LOOP(kind, g)                                                                                        \
  EXPORT bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) {                 \
    return loop_start(s, e, i, c, is, ie, g);                                                                \
  }                                                                                                          \
  EXPORT bool GOMP_loop_##kind##_next(long *is, long *ie) { return loop_next(is, ie); }                      \
  EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,     \
                                        long c, unsigned) {                                                  \
    run_team(fn, d, me ? decide_team(n) : 1, mk(s, e, i, c, g));                                             \
  }
LOOP(dynamic, false)
LOOP(nonmonotonic_dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_guided, true)
LOOP(static, false)
#define LOOPR(kind)                                                                                          \
  EXPORT bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) {                         \
    return loop_start(s, e, i, 1, is, ie, false);                                                            \
  }                                                                                                          \
  EXPORT bool GOMP_loop_##kind##_next(long *is, long *ie) { return loop_next(is, ie); }                      \
  EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,     \
                                        unsigned) {                                                          \
    run_team(fn, d, me ? decide_team(n) : 1, mk(s, e, i, 1, false));                                         \
  }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)

static bool utake(Ws *w, u64 *is, u64 *ie) {
  point(K_SYNC);
  if (!w) return false;
  S.chunks++;
  u64 left = w->up ? (w->uend > w->unext ? w->uend - w->unext : 0) : (w->unext > w->uend ? w->unext - w->uend : 0);
  if (!left) return false;
  u64 ai = w->up ? w->uincr : (u64)(-(int64_t)w->uincr);
  u64 iters = (left + ai - 1) / ai, c = w->uchunk;
  if (w->guided) {
    int n = me && me->team ? me->team->n : 1;
    u64 g = (iters + n - 1) / n;
    if (g > c) c = g;
  }
  if (c > iters) c = iters;
  *is = w->unext;
  if (c == iters)
    *ie = w->unext = w->uend;
  else
    *ie = w->unext = w->unext + c * w->uincr;
  return true;
}
#define ULOOP(kind, g)                                                                                       \
  EXPORT bool GOMP_loop_ull_##kind##_start(bool up, u64 s, u64 e, u64 i, u64 c, u64 *is, u64 *ie) {          \
    bool fresh;                                                                                              \
    Ws *w = my_ws(fresh);                                                                                    \
    if (fresh) {                                                                                             \
      w->ull = true;                                                                                         \
      w->up = up;                                                                                            \
      w->unext = s;                                                                                          \
      w->uend = e;                                                                                           \
      w->uincr = i;                                                                                          \
      w->uchunk = c ? c : 1;                                                                                 \
      w->guided = g;                                                                                         \
    }                                                                                                        \
    return utake(w, is, ie);                                                                                 \
  }                                                                                                          \
  EXPORT bool GOMP_loop_ull_##kind##_next(u64 *is, u64 *ie) { return utake(cur_ws(), is, ie); }
ULOOP(dynamic, false)
ULOOP(nonmonotonic_dynamic, false)
ULOOP(guided, true)
ULOOP(nonmonotonic_guided, true)
ULOOP(static, false)

static void barrier() {
  point(K_SYNC);
  Team *t = cur_team();
  if (!t || t->n == 1) return;
  u64 gen = t->barrier_gen;
  if (++t->barrier_count == t->n) {
    t->barrier_count = 0;
    t->barrier_gen++;
    wake((char *)t + 1);
  } else {
    while (t->barrier_gen == gen) block_c((char *)t + 1);
  }
}
EXPORT void GOMP_barrier() { barrier(); }
EXPORT bool GOMP_barrier_cancel() {
  barrier();
  return false;
}
EXPORT void GOMP_loop_end() { barrier(); }
EXPORT bool GOMP_loop_end_cancel() {
  barrier();
  return false;
}
EXPORT void GOMP_loop_end_nowait() { point(K_SYNC); }
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }

// locks ----------------------------------------------------------------
struct Lk {
  Thr *owner = nullptr;
  int depth = 0;
  bool held = false;
};
static std::map<const void *, Lk> &locks() {
  static std::map<const void *, Lk> *m = new std::map<const void *, Lk>();
  return *m;
}
static void lk_acquire(const void *a, bool recursive) {
  point(K_SYNC);
  Lk &l = locks()[a];
  if (!me) {
    l.held = true;
    return;
  }
  if (l.held && recursive && l.owner == me) {
    l.depth++;
    return;
  }
  while (l.held) block_c(a);
  l.held = true;
  l.owner = me;
  l.depth = 1;
}
static bool lk_try(const void *a) {
  point(K_SYNC);
  Lk &l = locks()[a];
  if (l.held) return false;
  l.held = true;
  l.owner = me;
  l.depth = 1;
  return true;
}
static void lk_release(const void *a) {
  Lk &l = locks()[a];
  if (l.depth > 1) {
    l.depth--;
    return;
  }
  l.held = false;
  l.owner = nullptr;
  l.depth = 0;
  wake(a);
  point(K_SYNC);
}
static char crit_default, atomic_lock;
EXPORT void GOMP_critical_start() { lk_acquire(&crit_default, false); }
EXPORT void GOMP_critical_end() { lk_release(&crit_default); }
EXPORT void GOMP_critical_name_start(void **p) { lk_acquire(p, false); }
EXPORT void GOMP_critical_name_end(void **p) { lk_release(p); }
EXPORT void GOMP_atomic_start() { lk_acquire(&atomic_lock, false); }
EXPORT void GOMP_atomic_end() { lk_release(&atomic_lock); }
EXPORT void omp_init_lock(void *l) { locks().erase(l); }
EXPORT void omp_destroy_lock(void *l) { locks().erase(l); }
EXPORT void omp_set_lock(void *l) { lk_acquire(l, false); }
EXPORT void omp_unset_lock(void *l) { lk_release(l); }
EXPORT int omp_test_lock(void *l) { return lk_try(l); }
EXPORT void omp_init_nest_lock(void *l) { locks().erase(l); }
EXPORT void omp_destroy_nest_lock(void *l) { locks().erase(l); }
EXPORT void omp_set_nest_lock(void *l) { lk_acquire(l, true); }
EXPORT void omp_unset_nest_lock(void *l) { lk_release(l); }

EXPORT bool GOMP_single_start() {
  point(K_SYNC);
  bool fresh;
  my_ws(fresh);
  return fresh;
}
EXPORT void *GOMP_single_copy_start() {
  point(K_SYNC);
  bool fresh;
  Ws *w = my_ws(fresh);
  if (fresh) return nullptr;
  barrier();
  return w->copyprivate;
}
EXPORT void GOMP_single_copy_end(void *d) {
  Ws *w = cur_ws();
  if (w) w->copyprivate = d;
  barrier();
}
static unsigned section_next(Ws *w) {
  point(K_SYNC);
  if (!w || w->cur_section >= w->nsections) return 0;
  return (unsigned)++w->cur_section;
}
EXPORT unsigned GOMP_sections_start(unsigned n) {
  bool fresh;
  Ws *w = my_ws(fresh);
  if (fresh) w->nsections = n;
  return section_next(w);
}
EXPORT unsigned GOMP_sections_next() { return section_next(cur_ws()); }
EXPORT void GOMP_sections_end() { barrier(); }
EXPORT void GOMP_sections_end_nowait() { point(K_SYNC); }
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) {
  Ws *w = new Ws();
  w->nsections = count;
  run_team(fn, d, me ? decide_team(n) : 1, w);
}
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size, long align, bool,
                      unsigned, void **, int, void *) {
  point(K_SYNC);
  if (cpyfn) {
    char *buf = (char *)malloc(size + align);
    char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    cpyfn(arg, data);
    fn(arg);
    free(buf);
  } else
    fn(data);
  point(K_SYNC);
}
EXPORT void GOMP_taskwait() { point(K_SYNC); }
EXPORT void GOMP_taskyield() { point(K_SYNC); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}
EXPORT void GOMP_ordered_start() {}
EXPORT void GOMP_ordered_end() {}

EXPORT int omp_get_thread_num() { return me ? me->tnum : 0; }
EXPORT int omp_get_num_threads() { return me && me->team ? me->team->n : 1; }
EXPORT int omp_get_max_threads() { return me ? S.max_threads : 1; }
EXPORT int omp_get_num_procs() { return S.max_threads; }
EXPORT int omp_in_parallel() { return me && me->team && me->team->n > 1; }
EXPORT int omp_get_level() { return me && me->team ? 1 : 0; }
EXPORT int omp_get_active_level() { return omp_in_parallel(); }
EXPORT int omp_get_thread_limit() { return 64; }
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT void omp_set_num_threads(int n) {
  if (n > 0) S.max_threads = n;
}
EXPORT void omp_get_schedule(int *k, int *c) {
  *k = 2;
  *c = 1;
}
EXPORT void omp_set_schedule(int, int) {}
EXPORT double omp_get_wtime() { return S.total * 1e-6; }
EXPORT double omp_get_wtick() { return 1e-6; }

// ---------------------------------------------------------------- TSan entry points
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
#define RW(n)                                                                    \
  EXPORT void __tsan_read##n(void *a) { OOB(a, n, false); mem_access(a, false); }                  \
  EXPORT void __tsan_write##n(void *a) { OOB(a, n, true); mem_access(a, true); }                  \
  EXPORT void __tsan_unaligned_read##n(void *a) { OOB(a, n, false); mem_access(a, false); }        \
  EXPORT void __tsan_unaligned_write##n(void *a) { OOB(a, n, true); mem_access(a, true); }        \
  EXPORT void __tsan_volatile_read##n(void *a) { OOB(a, n, false); mem_access(a, false); }         \
  EXPORT void __tsan_volatile_write##n(void *a) { OOB(a, n, true); mem_access(a, true); }         \
  EXPORT void __tsan_read##n##_pc(void *a, void *) { OOB(a, n, false); mem_access(a, false); }     \
  EXPORT void __tsan_write##n##_pc(void *a, void *) { OOB(a, n, true); mem_access(a, true); }     \
  EXPORT void __tsan_unaligned_volatile_read##n(void *a) { OOB(a, n, false); mem_access(a, false); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void *a) { OOB(a, n, true); mem_access(a, true); } \
  EXPORT void __tsan_read_write##n(void *a) {                                    \
    OOB(a, n, true);                                                             \
    mem_access(a, false);                                                        \
    mem_access(a, true);                                                         \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void **a, void *) { mem_access(a, true); }
EXPORT void __tsan_vptr_read(void **a) { mem_access(a, false); }
EXPORT void __tsan_read_range(void *a, unsigned long n) {
  oob_range(a, n, false, __builtin_return_address(0));
  mem_access(a, false);
}
EXPORT void __tsan_write_range(void *a, unsigned long n) {
  oob_range(a, n, true, __builtin_return_address(0));
  mem_access(a, true);
}

#define AT(bits, T)                                                                                            \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int) {                                              \
    mem_access(a, false);                                                                                      \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                            \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                           \
    mem_access(a, true);                                                                                       \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                           \
    mem_access(a, true);                                                                                       \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                          \
    mem_access(a, true);                                                                                       \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                          \
    mem_access(a, true);                                                                                       \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                          \
    mem_access(a, true);                                                                                       \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                           \
    mem_access(a, true);                                                                                       \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                          \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                                          \
    mem_access(a, true);                                                                                       \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {              \
    mem_access(a, true);                                                                                       \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
  }                                                                                                            \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                \
    mem_access(a, true);                                                                                       \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
  }                                                                                                            \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                     \
    mem_access(a, true);                                                                                       \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
    return c;                                                                                                  \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { point(K_SYNC); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- wrapped libc / CPython calls
extern "C" {
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) {
  oob_range(s, n, false, __builtin_return_address(0));
  oob_range(d, n, true, __builtin_return_address(0));
  if (me) {
    mem_access(s, false);
    // a copy is not atomic either: do it in two halves with a yield point in between
    size_t h = (n / 2) & ~(size_t)7;
    if (h) {
      memcpy(d, s, h);
      mem_access((char *)d + h, true);
      memcpy((char *)d + h, (const char *)s + h, n - h);
      return d;
    }
    mem_access(d, true);
  }
  return memcpy(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n) {
  oob_range(d, n, true, __builtin_return_address(0));
  if (me) {
    mem_access(d, true);
    size_t h = (n / 2) & ~(size_t)7;
    if (h) {
      memset(d, c, h);
      mem_access((char *)d + h, true);
      memset((char *)d + h, c, n - h);
      return d;
    }
  }
  return memset(d, c, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) {
  oob_range(s, n, false, __builtin_return_address(0));
  oob_range(d, n, true, __builtin_return_address(0));
  if (me) {
    mem_access(s, false);
    mem_access(d, true);
  }
  return memmove(d, s, n);
}
EXPORT void *__wrap_malloc(size_t n) {
  if (me) point(K_SYNC);
  void *p = malloc(n);
  if (p && me) {
    memset(p, 0xB5, n);  // what a recycled block may contain
    conf_forget_range(p, n);
  }
  return p;
}
EXPORT void __wrap_free(void *p) {
  if (me) point(K_SYNC);
  free(p);
}
static void *sim_new(size_t n) {
  if (me) point(K_SYNC);
  void *p = ::operator new(n);
  if (me) {
    memset(p, 0xB5, n);
    conf_forget_range(p, n);
  }
  return p;
}
static void sim_delete(void *p) {
  if (me) point(K_SYNC);
  ::operator delete(p);
}
EXPORT void *__wrap__Znwm(size_t n) { return sim_new(n); }
EXPORT void *__wrap__Znam(size_t n) { return sim_new(n); }
EXPORT void __wrap__ZdlPv(void *p) { sim_delete(p); }
EXPORT void __wrap__ZdaPv(void *p) { sim_delete(p); }
EXPORT void __wrap__ZdlPvm(void *p, size_t) { sim_delete(p); }
EXPORT void __wrap__ZdaPvm(void *p, size_t) { sim_delete(p); }
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!me) return pthread_mutex_lock(m);
  lk_acquire(m, true);
  return 0;
}
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!me) return pthread_mutex_trylock(m);
  return lk_try(m) ? 0 : EBUSY;
}
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!me) return pthread_mutex_unlock(m);
  lk_release(m);
  return 0;
}
static void need_gil() {
  Thr *t = me;
  if (!t) return;
  point(K_SYNC);
  while (S.gil_owner && S.gil_owner != t) {
    t->needs_gil = true;
    forced(t, G_NONE);
    t->needs_gil = false;
  }
}
EXPORT PyGILState_STATE __wrap_PyGILState_Ensure() {
  if (me && !PyGILState_Check()) need_gil();
  PyGILState_STATE s = PyGILState_Ensure();
  if (me) {
    me->gil = true;
    conf_forget();
  }
  return s;
}
EXPORT void __wrap_PyGILState_Release(PyGILState_STATE s) {
  PyGILState_Release(s);
  if (me && !PyGILState_Check()) {
    me->gil = false;
    point(K_SYNC);
  }
}
EXPORT PyThreadState *__wrap_PyEval_SaveThread() {
  PyThreadState *ts = PyEval_SaveThread();
  if (me) {
    me->gil = false;
    point(K_SYNC);
  }
  return ts;
}
EXPORT void __wrap_PyEval_RestoreThread(PyThreadState *ts) {
  need_gil();
  PyEval_RestoreThread(ts);
  if (me) me->gil = true;
}
}

// ---------------------------------------------------------------- Python interface
static double dget(PyObject *d, const char *k, double def) {
  PyObject *o = PyDict_GetItemString(d, k);
  if (!o || o == Py_None) return def;
  return PyFloat_AsDouble(o);
}
static u64 uget(PyObject *d, const char *k, u64 def) {
  PyObject *o = PyDict_GetItemString(d, k);
  if (!o || o == Py_None) return def;
  return PyLong_AsUnsignedLongLongMask(o);
}

static PyObject *py_buffer(PyObject *, PyObject *arg) {
  Py_buffer b;
  if (PyObject_GetBuffer(arg, &b, PyBUF_WRITABLE)) return nullptr;
  H = (Header *)b.buf;
  E = (Entry *)((char *)b.buf + sizeof(Header));
  E_cap = (b.len - sizeof(Header)) / sizeof(Entry);
  memset(H, 0, sizeof(Header));
  // the buffer is intentionally kept exported for the lifetime of the process
  Py_RETURN_NONE;
}

static PyObject *py_start(PyObject *, PyObject *args) {
  PyObject *d;
  if (!PyArg_ParseTuple(args, "O!", &PyDict_Type, &d)) return nullptr;
  if (S.active) {
    PyErr_SetString(PyExc_RuntimeError, "simulation already active");
    return nullptr;
  }
  S.mode = (int)uget(d, "mode", M_SERIAL);
  S.rng = uget(d, "seed", 1) * 0x9E3779B97F4A7C15ull + 12345;
  S.max_threads = (int)uget(d, "max_threads", 4);
  S.p_mem = dget(d, "p_mem", 0);
  S.p_sync = dget(d, "p_sync", 0);
  S.p_py = dget(d, "p_py", 0);
  S.p_conf = dget(d, "p_conf", 0);
  S.p_stall = dget(d, "p_stall", 0);
  S.stall_len = uget(d, "stall_len", 1000);
  S.p_team = dget(d, "p_team", 0);
  S.pct_depth = (int)uget(d, "pct_depth", 0);
  S.pct_k = uget(d, "pct_k", 10000);
  S.quantum = uget(d, "quantum", 0);
  S.max_steps = uget(d, "max_steps", 200000000ull);
  S.session = (u32)uget(d, "session", 0);
  if (PyErr_Occurred()) return nullptr;
  S.total = S.mem = S.sync = S.py = S.chunks = 0;
  S.switches = S.forced = S.stalls = S.teams_cut = S.teams = S.blocked_waits = S.gil_parked = S.conflicts = 0;
  S.hash = 0;
  S.threads_seen = S.max_alive = 0;
  S.pct_points.clear();
  S.pct_i = 0;
  S.pct_low = 1ull << 20;
  if (S.mode == M_PCT) {
    for (int i = 0; i < S.pct_depth; i++) S.pct_points.push_back(1 + rnd() % (S.pct_k ? S.pct_k : 1));
    std::sort(S.pct_points.begin(), S.pct_points.end());
  }
  S.replay.clear();
  S.replay_team.clear();
  PyObject *rp = PyDict_GetItemString(d, "replay");
  if (rp && rp != Py_None) {
    PyObject *it = PyObject_GetIter(rp);
    if (!it) return nullptr;
    PyObject *o;
    while ((o = PyIter_Next(it))) {
      unsigned long long ty, ke, stp, tg;
      if (!PyArg_ParseTuple(o, "KKKK", &ty, &ke, &stp, &tg)) {
        Py_DECREF(o);
        Py_DECREF(it);
        return nullptr;
      }
      Py_DECREF(o);
      if (ty == E_TEAM)
        S.replay_team[{ke, stp}] = tg;
      else
        S.replay[ke].push_back(Rp{stp, tg, (u32)ty});
    }
    Py_DECREF(it);
    for (auto &p : S.replay)
      std::stable_sort(p.second.begin(), p.second.end(), [](const Rp &a, const Rp &b) { return a.step < b.step; });
  }
  if (!conf_tab) conf_tab = (Cell *)calloc(CONF_N, sizeof(Cell));
  memset(conf_tab, 0, CONF_N * sizeof(Cell));
  conf_used = 0;
  conf_epoch = 1;
  locks().clear();
  S.gil_owner = nullptr;
  Thr *t = new Thr();
  t->key = mix(0x6d61696e, S.session) | 1;
  t->gil = true;
  new_thr(t);
  S.py_trig = S.mode == M_RANDOM ? geom(S.p_py) : ~0ull;
  if (S.mode == M_PCT) S.py_trig = 1;
  if (S.mode == M_PCT) S.p_py = 1.0;
  next_mem_trig();
  S.active = true;
  me = t;
  if (H) H->session = S.session;
  Py_RETURN_NONE;
}

static PyObject *py_stop(PyObject *, PyObject *) {
  if (!S.active || !me) {
    PyErr_SetString(PyExc_RuntimeError, "not the simulation's main thread");
    return nullptr;
  }
  for (Thr *t : S.thr)
    if (t != me && t->st != DONE) {
      PyErr_SetString(PyExc_RuntimeError, "threads still alive at stop");
      return nullptr;
    }
  for (Thr *t : S.thr) delete t;
  S.thr.clear();
  me = nullptr;
  S.active = false;
  return Py_BuildValue(
      "{s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:K,s:i,s:i}", "steps", S.total, "mem", S.mem, "sync", S.sync, "py",
      S.py, "chunks", S.chunks, "switches", S.switches, "forced", S.forced, "stalls", S.stalls, "teams_cut", S.teams_cut, "teams",
      S.teams, "hash", S.hash, "blocked", S.blocked_waits, "gil_parked", S.gil_parked, "conflicts", S.conflicts, "threads",
      S.threads_seen, "max_alive", S.max_alive);
}

static PyObject *py_point(PyObject *, PyObject *) {
  point(K_PY);
  Py_RETURN_NONE;
}
static PyObject *py_active(PyObject *, PyObject *) { return PyBool_FromLong(me != nullptr); }
static PyObject *py_steps(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(S.total); }
static PyObject *py_ident(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(me ? me->key : 0); }
static PyObject *py_rnd(PyObject *, PyObject *) { return PyLong_FromUnsignedLongLong(rnd()); }

static PyObject *py_spawn(PyObject *, PyObject *) {  // -> handle of a new simulated thread
  if (!me) {
    PyErr_SetString(PyExc_RuntimeError, "simulation not active");
    return nullptr;
  }
  Thr *t = new Thr();
  t->key = mix(mix(me->key, 0x7079), ++me->children) | 1;
  t->needs_gil = true;
  t->gil = true;
  new_thr(t);
  return PyLong_FromVoidPtr(t);
}
static PyObject *py_attach(PyObject *, PyObject *arg) {  // called in the new thread; waits for its first turn
  Thr *t = (Thr *)PyLong_AsVoidPtr(arg);
  if (!t) return nullptr;
  me = t;
  t->attached = true;
  PyThreadState *ts = PyEval_SaveThread();
  park(t);
  t->needs_gil = false;
  PyEval_RestoreThread(ts);
  Py_RETURN_NONE;
}
static PyObject *py_detach(PyObject *, PyObject *) {
  Thr *t = me;
  if (!t) Py_RETURN_NONE;
  t->st = DONE;
  wake(t);
  me = nullptr;
  forced(t, G_NONE);
  Py_RETURN_NONE;
}
static PyObject *py_join(PyObject *, PyObject *arg) {
  Thr *t = (Thr *)PyLong_AsVoidPtr(arg);
  if (!t) return nullptr;
  if (me) {
    point(K_PY);
    while (t->st != DONE) block_on(t, G_PY);
  }
  Py_RETURN_NONE;
}
static PyObject *py_block(PyObject *, PyObject *arg) {
  void *c = PyLong_AsVoidPtr(arg);
  if (!c && PyErr_Occurred()) return nullptr;
  if (!me) {
    PyErr_SetString(PyExc_RuntimeError, "would block forever outside the simulation");
    return nullptr;
  }
  block_on(c, G_PY);
  Py_RETURN_NONE;
}
static PyObject *py_wake(PyObject *, PyObject *arg) {
  void *c = PyLong_AsVoidPtr(arg);
  if (!c && PyErr_Occurred()) return nullptr;
  wake(c);
  Py_RETURN_NONE;
}
static PyObject *py_finish(PyObject *, PyObject *) {
  if (H) {
    H->status = 1;
    H->total = S.total;
  }
  Py_RETURN_NONE;
}

static PyObject *py_oob(PyObject *, PyObject *) {
  if (!oob.n) Py_RETURN_NONE;
  Dl_info di;
  const char *mod = "?";
  long off = 0;
  if (dladdr(oob.pc, &di) && di.dli_fname) {
    const char *sl = strrchr(di.dli_fname, '/');
    mod = sl ? sl + 1 : di.dli_fname;
    off = (char *)oob.pc - (char *)di.dli_fbase;
  }
  PyObject *r = Py_BuildValue("(Ksiilsl)", oob.n, oob.write ? "write" : "read", oob.size, oob.what, oob.dist, mod, off);
  oob = Oob();
  return r;
}
static PyObject *py_guarded(PyObject *, PyObject *) { return PyBool_FromLong(shadow != nullptr); }
static PyMethodDef methods[] = {{"buffer", py_buffer, METH_O, ""},      {"start", py_start, METH_VARARGS, ""},
                                {"stop", py_stop, METH_NOARGS, ""},     {"point", py_point, METH_NOARGS, ""},
                                {"active", py_active, METH_NOARGS, ""}, {"steps", py_steps, METH_NOARGS, ""},
                                {"ident", py_ident, METH_NOARGS, ""},   {"rnd", py_rnd, METH_NOARGS, ""},
                                {"spawn", py_spawn, METH_NOARGS, ""},   {"attach", py_attach, METH_O, ""},
                                {"detach", py_detach, METH_NOARGS, ""}, {"join", py_join, METH_O, ""},
                                {"block", py_block, METH_O, ""},        {"wake", py_wake, METH_O, ""},
                                {"finish", py_finish, METH_NOARGS, ""}, {"oob", py_oob, METH_NOARGS, ""},
                                {"guarded", py_guarded, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef moddef = {PyModuleDef_HEAD_INIT, "simrt", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
PyMODINIT_FUNC PyInit_simrt(void) {
  if (void *g = dlsym(RTLD_DEFAULT, "iof_on_oob"))
    ((void (*)(void (*)(uintptr_t, size_t, int, void *)))g)([](uintptr_t a, size_t n, int w, void *pc) { oob_slow(a, n, w, pc); });
  void *(*f)(void) = (void *(*)(void))dlsym(RTLD_DEFAULT, "iof_shadow");
  if (f) shadow = (const uint8_t *)f();
  return PyModule_Create(&moddef);
}
