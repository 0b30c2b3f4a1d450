#include "core.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {
Config cfg;
Shared *sh;
thread_local int self_tid = 0;

extern Event *ev;
extern char *strs;
extern Decision *decs;
Event *ev;
char *strs;
Decision *decs;

static uint64_t rng[K_NKINDS + 1];
static uint32_t cnt[K_NKINDS];
static std::unordered_map<uint64_t, int64_t> replay;

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t rnd(int k) { return mix(rng[k]++); }

struct Th {
  std::atomic<int> go{0};
  bool live = false, done = false;
  Pred pred = nullptr;
  void *arg = nullptr;
  int64_t deadline = -1;
  bool timedout = false;
  int64_t prio = 0;
  void (*fn)(void *) = nullptr;
  void *farg = nullptr;
  pthread_t pt;
};
static const int MAXT = 64;
static Th th[MAXT];
static int nth = 1;
static int64_t clk, walloff;
static std::vector<uint64_t> pctpts;
static size_t pctnext;
static int64_t pctlow = 0;

static void fwait(std::atomic<int> &w) {
  while (w.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, (int *)&w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  w.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int> &w) {
  w.store(1, std::memory_order_release);
  syscall(SYS_futex, (int *)&w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

int64_t now() { return clk; }

static void hashin(uint64_t &h, uint64_t x) { h = (h ^ x) * 0x100000001b3ull; h ^= h >> 29; }

void finish(int status, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  sh->status = status;
  sh->simns = clk;
  fflush(stdout);
  _exit(0);
}

void logev(uint32_t k, int64_t a, int64_t b, int64_t c, const char *s, size_t n) {
  if (sh->nevents >= MAX_EVENTS || sh->nstr + n >= MAX_STR) finish(ST_LOGFULL, "event log full");
  Event &e = ev[sh->nevents];
  e.tid = self_tid; e.k = k; e.t = clk; e.a = a; e.b = b; e.c = c;
  e.soff = sh->nstr; e.slen = n;
  if (n) { memcpy(strs + sh->nstr, s, n); sh->nstr += n; }
  sh->nevents++;
  hashin(sh->hash, k); hashin(sh->hash, self_tid); hashin(sh->hash, a); hashin(sh->hash, b);
  hashin(sh->hash, c); hashin(sh->hash, clk);
  for (size_t i = 0; i < n; i++) hashin(sh->hash, (unsigned char)s[i]);
}

static void record(int kind, uint32_t idx, int64_t val) {
  sh->fired[kind]++;
  if (sh->ndec < MAX_DEC) decs[sh->ndec++] = {(uint32_t)kind, idx, val};
  hashin(sh->hash, kind * 1000003ull + idx); hashin(sh->hash, val);
}

// A decision whose value is computed by the random strategy only when not replaying.
template <class F> static int64_t decision(int kind, F f) {
  uint32_t idx = cnt[kind]++;
  sh->counts[kind]++;
  int64_t v = 0;
  if (cfg.replay) {
    auto it = replay.find(((uint64_t)kind << 32) | idx);
    if (it != replay.end()) v = it->second;
  } else {
    auto &k = cfg.kind[kind];
    if (idx >= k.from && sh->fired[kind] < k.max) v = f(idx);
  }
  if (v) record(kind, idx, v);
  return v;
}

int64_t decide(int kind, int64_t forced) {
  return decision(kind, [&](uint32_t) -> int64_t {
    auto &k = cfg.kind[kind];
    if (!k.prob) return 0;
    uint64_t r = rnd(kind);
    if ((r & 0xffff) >= k.prob) return 0;
    int64_t range = forced ? forced : k.range;
    return 1 + (int64_t)((r >> 16) % (uint64_t)range);
  });
}

int64_t choose(int n) {
  if (n <= 1) return 0;
  int64_t v = decision(K_RT, [&](uint32_t) -> int64_t {
    auto &k = cfg.kind[K_RT];
    if (!k.prob) return 0;
    uint64_t r = rnd(K_RT);
    if ((r & 0xffff) >= k.prob) return 0;
    return (int64_t)((r >> 16) % n);
  });
  return v < 0 ? 0 : v % n;
}

static bool runnable(int i) {
  Th &t = th[i];
  if (!t.live || t.done) return false;
  if (!t.pred && t.deadline < 0) return true;
  if (t.pred && t.pred(t.arg)) return true;
  if (t.deadline >= 0 && clk >= t.deadline) return true;
  return false;
}

static void wakeup(int i) { // about to run thread i
  Th &t = th[i];
  if (t.pred || t.deadline >= 0) {
    bool ok = t.pred && t.pred(t.arg);
    t.timedout = !ok;
    t.pred = nullptr;
    t.deadline = -1;
  }
}

static void transfer(int to) {
  int me = self_tid;
  sh->switches++;
  hashin(sh->ihash, (uint64_t)to * 31 + me);
  wakeup(to);
  if (to == me) return;
  fwake(th[to].go);
  fwait(th[me].go);
}

// Pick the next thread when the current one cannot continue.
static int pick() {
  for (;;) {
    int r[MAXT], n = 0;
    for (int i = 0; i < nth; i++)
      if (runnable(i)) r[n++] = i;
    if (n) {
      if (n == 1) return r[0];
      int64_t v = decision(K_PICK, [&](uint32_t) -> int64_t {
        if (cfg.strat == 1) {
          int b = r[0];
          for (int i = 1; i < n; i++)
            if (th[r[i]].prio > th[b].prio) b = r[i];
          return b == r[0] ? 0 : b + 1;
        }
        int x = r[rnd(K_PICK) % n];
        return x == r[0] ? 0 : x + 1;
      });
      if (v > 0)
        for (int i = 0; i < n; i++)
          if (r[i] == v - 1) return r[i];
      return r[0];
    }
    int64_t best = INT64_MAX;
    for (int i = 0; i < nth; i++)
      if (th[i].live && !th[i].done && th[i].deadline >= 0 && th[i].deadline < best) best = th[i].deadline;
    if (best == INT64_MAX) {
      char b[300];
      int o = 0;
      for (int i = 0; i < nth && o < 250; i++)
        o += snprintf(b + o, sizeof b - o, " t%d:%s", i, !th[i].live || th[i].done ? "idle" : "blocked");
      finish(ST_DEADLOCK, "no thread can make progress:%s", b);
    }
    if (best > clk) clk = best;
  }
}

bool block(Pred pred, void *arg, int64_t deadline) {
  if (pred && pred(arg)) return true;
  Th &t = th[self_tid];
  t.pred = pred;
  t.arg = arg;
  t.deadline = deadline < 0 ? -1 : deadline;
  if (!pred && deadline < 0) t.deadline = INT64_MAX - 1;
  if (++sh->yields > cfg.budget) finish(ST_BUDGET, "step budget exhausted");
  clk += cfg.tick;
  transfer(pick());
  return !th[self_tid].timedout;
}

static int best_prio() {
  int b = -1;
  for (int i = 0; i < nth; i++)
    if (runnable(i) && (b < 0 || th[i].prio > th[b].prio)) b = i;
  return b;
}

void yield(int) {
  if (++sh->yields > cfg.budget) finish(ST_BUDGET, "step budget exhausted");
  clk += cfg.tick;
  if (nth == 1) { cnt[K_SWITCH]++; sh->counts[K_SWITCH]++; return; }
  if (cfg.kind[K_STALL].prob || cfg.replay) {
    int64_t s = decide(K_STALL);
    if (s) {
      th[self_tid].deadline = clk + s;
      transfer(pick());
      return;
    }
  }
  int64_t v = decision(K_SWITCH, [&](uint32_t idx) -> int64_t {
    if (cfg.strat == 2) return 0;
    if (cfg.strat == 1) {
      while (pctnext < pctpts.size() && idx >= pctpts[pctnext]) { th[self_tid].prio = --pctlow; pctnext++; }
      int b = best_prio();
      return b >= 0 && b != self_tid ? b + 1 : 0;
    }
    uint64_t r = rnd(K_SWITCH);
    if ((r & 0xffff) >= cfg.swprob) return 0;
    int c[MAXT], n = 0;
    for (int i = 0; i < nth; i++)
      if (i != self_tid && runnable(i)) c[n++] = i;
    if (!n) return 0;
    return c[(r >> 16) % n] + 1;
  });
  if (v > 0 && v <= nth && v - 1 != self_tid && runnable(v - 1)) transfer(v - 1);
}

static void *tmain(void *p) {
  Th *t = (Th *)p;
  self_tid = t - th;
  fwait(t->go);
  t->fn(t->farg);
  t->done = true;
  int nx = pick();
  wakeup(nx);
  fwake(th[nx].go);
  for (;;) pause();
}

int spawn(void (*fn)(void *), void *arg) {
  if (nth >= MAXT) finish(ST_ASSERT, "too many threads");
  int i = nth++;
  sh->nthreads = nth;
  th[i].fn = fn;
  th[i].farg = arg;
  th[i].live = true;
  th[i].prio = cfg.strat == 1 ? (int64_t)(rnd(K_NKINDS) % 1000000) + 1 : 0;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 4 << 20);
  if (pthread_create(&th[i].pt, &a, tmain, &th[i])) finish(ST_ASSERT, "pthread_create failed");
  return i;
}

void init() {
  for (int i = 0; i <= K_NKINDS; i++) { rng[i] = mix(cfg.seed * 1000003ull + i) ; if (i < K_NKINDS) cnt[i] = 0; }
  replay.clear();
  for (auto &d : cfg.dec) replay[((uint64_t)d.kind << 32) | d.idx] = d.val;
  clk = cfg.mono0;
  walloff = cfg.wall0;
  th[0].live = true;
  th[0].prio = (int64_t)(rnd(K_NKINDS) % 1000000) + 1;
  pctpts.clear();
  pctnext = 0;
  if (cfg.strat == 1) {
    for (int i = 0; i < cfg.pctdepth; i++) pctpts.push_back(rnd(K_NKINDS) % (cfg.pctlen ? cfg.pctlen : 1));
    for (size_t i = 0; i < pctpts.size(); i++)
      for (size_t j = i + 1; j < pctpts.size(); j++)
        if (pctpts[j] < pctpts[i]) std::swap(pctpts[i], pctpts[j]);
  }
  sh->hash = 0xcbf29ce484222325ull;
  sh->ihash = 0xcbf29ce484222325ull;
  sh->nthreads = 1;
  self_tid = 0;
}

int64_t wall() {
  int64_t j = decision(K_WALL, [&](uint32_t) -> int64_t {
    auto &k = cfg.kind[K_WALL];
    if (!k.prob) return 0;
    uint64_t r = rnd(K_WALL);
    if ((r & 0xffff) >= k.prob) return 0;
    int64_t m = (int64_t)((r >> 17) % (uint64_t)k.range) + 1;
    return (r & 0x10000) ? m : -m;
  });
  walloff += j;
  clk += 50;
  return clk + walloff;
}
} // namespace sim
