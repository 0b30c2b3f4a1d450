// A simulated OpenMP runtime: the entry points codon-generated code calls, on simulator threads.
// Semantics follow LLVM's libomp; every choice libomp leaves to timing or tuning is a K_RT decision.
#include "core.h"
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <map>
#define GC_THREADS
#include <gc.h>

using sim::block;
using sim::choose;
using sim::self_tid;

typedef int (*gc_setup_callback)(GC_stack_base *);
typedef void (*gc_roots_callback)(void *, void *);
static gc_setup_callback cb_base, cb_reg;
static gc_roots_callback cb_add, cb_del;

// event codes >= 9000 are runtime notes
enum { EV_TEAM = 9001, EV_LOOP = 9002, EV_REDUCE = 9003, EV_TASK = 9004, EV_GTID = 9005, EV_ENDTEAM = 9006 };

namespace {
struct TaskGroup;
struct Task {
  TaskGroup *group;
  Task *parent;
  int children = 0;
  int (*routine)(int, void *);
  void *ktask; // kmp_task_t*, GC-visible because Task itself is allocated uncollectable
  bool done = false;
};
struct RedItem {
  void *shar, *orig;
  size_t size;
  void *init, *fini, *comb;
  unsigned flags;
};
struct TaskGroup {
  TaskGroup *up;
  int count = 0;
  int nred = 0;
  RedItem *red = nullptr;
  char **priv = nullptr; // shared by the team
};
struct Loop {
  int64_t lb, ub, st, chunk, next, trip;
  int sched;
  bool ordered;
  int64_t ordered_iter = 0;
  int served = 0, finished = 0;
};
struct Team {
  int n;
  Team *parent;
  void *microtask;
  void *arg;
  int *tids; // simulator tids (gtid) of members
  int running = 0;
  // barrier
  int bar_count = 0;
  int64_t bar_gen = 0;
  // worksharing
  std::map<int, Loop> loops;
  std::map<int, int> singles;
  struct Red { int method = -1; int arrived = 0; int order = 0; bool open = false; void **data; char *seen; bool released = false; };
  std::map<int, Red> reds;
  // tasks
  Task **queue; int qn = 0, qcap = 0;
  int outstanding = 0;
  // task reduction
  char **tr_priv = nullptr; int tr_num = 0; int tr_fini = 0; int tr_init = 0; size_t *tr_sz = nullptr;
};
struct Ctx { // per thread, per team
  Team *team;
  int id;
  Ctx *up;
  int loopno = 0, singleno = 0, redno = 0;
  int curloop = -1;
  int64_t ord_lower = 0, ord_upper = 0;
  int ord_bumped = 0;
  TaskGroup *tg = nullptr;
  Task *cur = nullptr;
  Task implicit{};
  int redmethod = 0;
  Team::Red *red = nullptr;
};
thread_local Ctx *ctx = nullptr;
Team *serialTeam() {
  static Team *t = nullptr;
  if (!t) { t = new (GC_MALLOC_UNCOLLECTABLE(sizeof(Team))) Team(); t->n = 1; t->tids = new int[1]{0}; }
  return t;
}
Ctx *me() {
  if (!ctx) {
    ctx = new (GC_MALLOC_UNCOLLECTABLE(sizeof(Ctx))) Ctx();
    ctx->team = serialTeam(); ctx->id = 0; ctx->up = nullptr; ctx->cur = &ctx->implicit;
  }
  return ctx;
}
int icv_threads = 0, pushed = 0, run_kind = 1, run_chunk = 0;
int maxThreads() { return icv_threads > 0 ? icv_threads : sim::cfg.threads; }

// ---- worker pool
struct Worker { int tid; Team *team = nullptr; int id; bool busy = false; int *quit; };
std::vector<Worker *> pool;
void barrier(Team *t);
void runMember(Team *t, int id) {
  Ctx *c = new (GC_MALLOC_UNCOLLECTABLE(sizeof(Ctx))) Ctx();
  c->team = t; c->id = id; c->up = ctx; c->cur = &c->implicit;
  ctx = c;
  int32_t g = self_tid, b = id;
  ((void (*)(int32_t *, int32_t *, void *))t->microtask)(&g, &b, t->arg);
  barrier(t); // implicit barrier at the end of the region, executes remaining tasks
  ctx = c->up;
  // the context stays allocated: deferred tasks may still refer to its task groups
}
void workerMain(void *p) {
  Worker *w = (Worker *)p;
  GC_stack_base sb;
  if (!cb_base || !cb_reg) sim::finish(sim::ST_ASSERT, "worker started before GC callbacks were set");
  cb_base(&sb);
  int r = cb_reg(&sb);
  if (r != GC_SUCCESS) sim::finish(sim::ST_ASSERT, "GC_register_my_thread returned %d", r);
  for (;;) {
    block([](void *q) { return ((Worker *)q)->team != nullptr; }, w);
    Team *t = w->team;
    runMember(t, w->id);
    w->team = nullptr;
    w->busy = false;
    t->running--;
  }
}

// ---- tasks
void execTask(Task *t) {
  Ctx *c = me();
  Task *sc = c->cur; TaskGroup *sg = c->tg;
  c->cur = t; c->tg = t->group;
  sim::yield(6);
  t->routine(self_tid, t->ktask);
  sim::yield(6);
  c->cur = sc; c->tg = sg;
  t->done = true;
  if (t->parent) t->parent->children--;
  if (t->group) t->group->count--;
  c->team->outstanding--;
}
bool popRun(Team *t) {
  if (!t->qn) return false;
  int i = (int)choose(t->qn);
  Task *x = t->queue[i];
  for (int j = i; j + 1 < t->qn; j++) t->queue[j] = t->queue[j + 1];
  t->qn--;
  t->queue[t->qn] = nullptr;
  execTask(x);
  return true;
}
template <class P> void helpUntil(Team *t, P done) {
  while (!done()) {
    if (popRun(t)) continue;
    struct A { Team *t; P *p; } a{t, &done};
    block([](void *q) { A *a = (A *)q; return (*a->p)() || a->t->qn > 0; }, &a);
  }
}
void barrier(Team *t) {
  sim::yield(7);
  if (t->n == 1) { helpUntil(t, [&] { return t->outstanding == 0; }); return; }
  int64_t g = t->bar_gen;
  t->bar_count++;
  // everyone arrived and no task left: release
  helpUntil(t, [&] {
    if (t->bar_gen != g) return true;
    if (t->bar_count == t->n && t->outstanding == 0) { t->bar_count = 0; t->bar_gen++; return true; }
    return false;
  });
}
} // namespace

extern "C" {
void __kmpc_set_gc_callbacks(gc_setup_callback a, gc_setup_callback b, gc_roots_callback c, gc_roots_callback d) {
  cb_base = a; cb_reg = b; cb_add = c; cb_del = d;
}
void __kmpc_push_num_threads(void *, int32_t, int32_t n) { pushed = n; }
void __kmpc_fork_call(void *, int32_t argc, void *microtask, ...) {
  va_list ap;
  va_start(ap, microtask);
  void *arg = argc ? va_arg(ap, void *) : nullptr;
  va_end(ap);
  Ctx *c = me();
  int n = pushed > 0 ? pushed : maxThreads();
  pushed = 0;
  bool nested = c->up != nullptr;
  if (nested) n = 1; // libomp default: one active level
  if (n > 32) n = 32;
  Team *t = new (GC_MALLOC_UNCOLLECTABLE(sizeof(Team))) Team();
  t->n = n; t->parent = c->team; t->microtask = microtask; t->arg = arg;
  t->tids = new int[n];
  t->queue = (Task **)GC_MALLOC_UNCOLLECTABLE(sizeof(Task *) * 4096);
  t->qcap = 4096;
  t->running = n - 1;
  t->tids[0] = self_tid;
  sim::logev(EV_TEAM, n, nested);
  std::vector<Worker *> used;
  for (int i = 1; i < n; i++) {
    Worker *w = nullptr;
    for (auto *x : pool) if (!x->busy) { w = x; break; }
    if (!w) {
      w = new (GC_MALLOC_UNCOLLECTABLE(sizeof(Worker))) Worker();
      w->tid = sim::spawn(workerMain, w);
      pool.push_back(w);
    }
    w->busy = true; w->id = i; t->tids[i] = w->tid;
    used.push_back(w);
  }
  for (auto *w : used) w->team = t;
  sim::yield(7);
  runMember(t, 0);
  block([](void *q) { return ((Team *)q)->running == 0; }, t);
  sim::logev(EV_ENDTEAM, n);
}

// ---- worksharing loops
void __kmpc_for_static_init_8(void *, int32_t gtid, int32_t sched, int32_t *last, int64_t *lo, int64_t *up,
                              int64_t *st, int64_t incr, int64_t chunk) {
  Ctx *c = me();
  sim::yield(7);
  if (gtid != self_tid) sim::logev(EV_GTID, gtid, self_tid);
  int s = sched & ~(3 << 29);
  int64_t lower = *lo, upper = *up;
  if (incr > 0 ? upper < lower : lower < upper) { if (last) *last = 0; *st = incr; return; }
  int n = c->team->n, id = c->id;
  int64_t trip = incr > 0 ? (upper - lower) / incr + 1 : (lower - upper) / (-incr) + 1;
  sim::logev(EV_LOOP, s, trip, chunk);
  if (n == 1) { if (last) *last = 1; *st = incr > 0 ? upper - lower + 1 : -(lower - upper + 1); return; }
  if (s == 33) {
    if (chunk < 1) chunk = 1; else if (chunk > trip) chunk = trip;
    int64_t span = chunk * incr;
    *st = span * n;
    *lo = lower + span * id;
    *up = *lo + span - incr;
    if (last) *last = id == ((trip - 1) / chunk) % n;
    return;
  }
  if (s != 34) sim::finish(sim::ST_ASSERT, "static_init called with schedule %d", s);
  *st = trip;
  if (trip < n) {
    if (id < trip) { *lo = *up = lower + id * incr; }
    else { *lo = upper + incr; *up = upper; }
    if (last) *last = id == trip - 1;
    return;
  }
  if (choose(2) == 0 || true) { // balanced
    int64_t small = trip / n, extra = trip % n;
    *lo = lower + incr * (id * small + (id < extra ? id : extra));
    *up = *lo + small * incr - (id < extra ? 0 : incr);
    if (last) *last = id == n - 1;
  }
}
void __kmpc_for_static_fini(void *, int32_t) { sim::yield(7); }

void __kmpc_dispatch_init_8(void *, int32_t gtid, int32_t sched, int64_t lb, int64_t ub, int64_t st, int64_t chunk) {
  Ctx *c = me();
  sim::yield(7);
  if (gtid != self_tid) sim::logev(EV_GTID, gtid, self_tid);
  c->curloop = c->loopno++;
  c->ord_bumped = 0;
  auto it = c->team->loops.find(c->curloop);
  if (it != c->team->loops.end()) return;
  Loop &L = c->team->loops[c->curloop];
  int s = sched & ~(3 << 29);
  L.ordered = s >= 64;
  if (L.ordered) s -= 32;
  if (s == 37) { // runtime schedule
    static const int km[] = {34, 34, 35, 36, 38};
    s = km[run_kind & 7]; 
    if (s == 34 && run_chunk > 0) s = 33;
    chunk = run_chunk;
  }
  L.lb = lb; L.ub = ub; L.st = st; L.chunk = chunk < 1 ? 1 : chunk; L.sched = s;
  L.trip = st > 0 ? (ub >= lb ? (ub - lb) / st + 1 : 0) : (lb >= ub ? (lb - ub) / -st + 1 : 0);
  L.next = 0;
  if (s != 33 && s != 34 && s != 35 && s != 36 && s != 38)
    sim::finish(sim::ST_ASSERT, "dispatch_init called with schedule %d", sched);
  sim::logev(EV_LOOP, s, L.trip, chunk);
}
int32_t __kmpc_dispatch_next_8(void *, int32_t gtid, int32_t *last, int64_t *lo, int64_t *up, int64_t *st) {
  Ctx *c = me();
  sim::yield(7);
  Loop &L = c->team->loops[c->curloop];
  if (L.next >= L.trip) {
    if (last) *last = 0;
    return 0;
  }
  int64_t left = L.trip - L.next, k = L.chunk;
  int n = c->team->n;
  if (L.sched == 36) { k = left / (2 * n); if (k < L.chunk) k = L.chunk; }           // guided
  else if (L.sched == 34) { k = (L.trip + n - 1) / n; }                              // static via dispatch
  else if (L.sched == 38) { k = 1 + choose((int)(left < 8 ? left : 8)); }            // auto: any partition
  if (k > left) k = left;
  int64_t a = L.next, b = a + k - 1;
  L.next += k;
  *lo = L.lb + a * L.st;
  *up = L.lb + b * L.st;
  *st = L.st;
  if (last) *last = L.next >= L.trip;
  c->ord_lower = a; c->ord_upper = b; c->ord_bumped = 0;
  return 1;
}
struct OrdWait { Loop *l; int64_t lower; };
void __kmpc_dispatch_fini_8(void *, int32_t) {
  Ctx *c = me();
  Loop &L = c->team->loops[c->curloop];
  if (!L.ordered) return;
  if (c->ord_bumped) { c->ord_bumped = 0; return; }
  OrdWait w{&L, c->ord_lower};
  block([](void *q) { auto *w = (OrdWait *)q; return w->l->ordered_iter >= w->lower; }, &w);
  L.ordered_iter++;
}
void __kmpc_ordered(void *, int32_t) {
  Ctx *c = me();
  sim::yield(7);
  if (c->curloop < 0) return;
  Loop &L = c->team->loops[c->curloop];
  if (!L.ordered) return;
  OrdWait w{&L, c->ord_lower};
  block([](void *q) { auto *w = (OrdWait *)q; return w->l->ordered_iter >= w->lower; }, &w);
}
void __kmpc_end_ordered(void *, int32_t) {
  Ctx *c = me();
  sim::yield(7);
  if (c->curloop < 0) return;
  Loop &L = c->team->loops[c->curloop];
  if (!L.ordered) return;
  c->ord_bumped++;
  L.ordered_iter++;
}

// ---- mutual exclusion
static std::map<void *, int> crit; // lock -> owner+1
void __kmpc_critical(void *, int32_t, void *lck) {
  me();
  sim::yield(7);
  struct W { void *l; } w{lck};
  block([](void *q) { return crit[((W *)q)->l] == 0; }, &w);
  crit[lck] = self_tid + 1;
}
void __kmpc_end_critical(void *, int32_t, void *lck) {
  if (crit[lck] != self_tid + 1) sim::finish(sim::ST_ASSERT, "critical section released by a thread that does not hold it");
  crit[lck] = 0;
  sim::yield(7);
}
int32_t __kmpc_single(void *, int32_t) {
  Ctx *c = me();
  sim::yield(7);
  int k = c->singleno++;
  int r = c->team->singles[k]++ == 0;
  return r;
}
void __kmpc_end_single(void *, int32_t) { sim::yield(7); }
int32_t __kmpc_master(void *, int32_t) { return me()->id == 0; }
void __kmpc_end_master(void *, int32_t) {}
void __kmpc_barrier(void *, int32_t) { barrier(me()->team); }
void __kmpc_flush(void *) { sim::yield(7); }

// ---- reductions
static int32_t reduceImpl(void *loc, int32_t gtid, void *data, void *func, void *lck) {
  Ctx *c = me();
  Team *t = c->team;
  sim::yield(7);
  if (gtid != self_tid) sim::logev(EV_GTID, gtid, self_tid);
  if (t->n == 1) { c->redmethod = 3; return 1; }
  int k = c->redno++;
  auto &R = t->reds[k];
  if (R.method < 0) {
    int flags = ((int32_t *)loc)[1];
    bool atomic = flags & 0x10;
    int opts[3], n = 0;
    opts[n++] = 0;
    if (atomic) opts[n++] = 1;
    if (data && func) opts[n++] = 2;
    R.method = opts[choose(n)];
    R.data = (void **)GC_MALLOC_UNCOLLECTABLE(sizeof(void *) * t->n);
    R.seen = (char *)calloc(t->n, 1);
    sim::logev(EV_REDUCE, R.method, t->n);
  }
  c->red = &R;
  c->redmethod = R.method;
  if (R.method == 0) { __kmpc_critical(loc, gtid, lck); return 1; }
  if (R.method == 1) return 2;
  R.data[c->id] = data;
  R.seen[c->id] = 1;
  R.arrived++;
  if (c->id != 0) { // worker: its data stays alive until the master has finished
    block([](void *q) { return ((Team::Red *)q)->released; }, &R);
    return 0;
  }
  struct W { Team::Red *r; int n; } w{&R, t->n};
  block([](void *q) { auto *w = (W *)q; return w->r->arrived == w->n; }, &w);
  std::vector<void *> rest(R.data, R.data + t->n); // combine in some tree order rooted at the master
  while (rest.size() > 1) {
    int i = (int)choose((int)rest.size() - 1);
    ((void (*)(void *, void *))func)(rest[i], rest[i + 1]);
    rest.erase(rest.begin() + i + 1);
    sim::yield(7);
  }
  return 1;
}
static void endReduce(void *loc, int32_t gtid, void *lck, bool) {
  Ctx *c = me();
  sim::yield(7);
  if (c->redmethod == 0) __kmpc_end_critical(loc, gtid, lck);
  else if (c->redmethod == 2 && c->id == 0) c->red->released = true;
}
int32_t __kmpc_reduce_nowait(void *loc, int32_t gtid, int32_t, size_t, void *data, void *func, void *lck) {
  return reduceImpl(loc, gtid, data, func, lck);
}
void __kmpc_end_reduce_nowait(void *loc, int32_t gtid, void *lck) { endReduce(loc, gtid, lck, false); }
int32_t __kmpc_reduce(void *loc, int32_t gtid, int32_t, size_t, void *data, void *func, void *lck) {
  return reduceImpl(loc, gtid, data, func, lck);
}
void __kmpc_end_reduce(void *loc, int32_t gtid, void *lck) {
  endReduce(loc, gtid, lck, true);
  barrier(me()->team);
}
#define ATOMIC(NAME, T, EXPR)                                                                            \
  void NAME(void *, int32_t, T *a, T b) {                                                                \
    sim::yield(3);                                                                                       \
    T x = *a;                                                                                            \
    *a = EXPR;                                                                                           \
  }
ATOMIC(__kmpc_atomic_fixed8_mul, int64_t, x * b)
ATOMIC(__kmpc_atomic_float8_add, double, x + b)
ATOMIC(__kmpc_atomic_float8_mul, double, x *b)
ATOMIC(__kmpc_atomic_float8_min, double, b < x ? b : x)
ATOMIC(__kmpc_atomic_float8_max, double, b > x ? b : x)
ATOMIC(__kmpc_atomic_float4_add, float, x + b)
ATOMIC(__kmpc_atomic_float4_mul, float, x *b)
ATOMIC(__kmpc_atomic_float4_min, float, b < x ? b : x)
ATOMIC(__kmpc_atomic_float4_max, float, b > x ? b : x)

// ---- tasks
struct KTask { void *shareds; int (*routine)(int, void *); int32_t flags; void *x, *y; };
static const size_t HDR = 128;
size_t __kmpc_omp_task_alloc_size(size_t task, size_t shareds) { return HDR + ((task + 15) & ~15ull) + shareds + 64; }
void *__kmpc_omp_task_alloc(void *, int32_t, int32_t flags, size_t task, size_t shareds, int (*entry)(int, void *), void *mem) {
  Ctx *c = me();
  KTask *k = (KTask *)((char *)mem + HDR);
  k->shareds = shareds ? (char *)k + ((task + 15) & ~15ull) : nullptr;
  k->routine = entry;
  k->flags = flags;
  *(Team **)mem = c->team;
  return k;
}
int32_t __kmpc_omp_task(void *, int32_t, void *kt) {
  Ctx *c = me();
  sim::yield(7);
  KTask *k = (KTask *)kt;
  Task *t = new (GC_MALLOC_UNCOLLECTABLE(sizeof(Task))) Task();
  t->group = c->tg; t->parent = c->cur; t->routine = k->routine; t->ktask = kt;
  if (t->parent) t->parent->children++;
  if (t->group) t->group->count++;
  c->team->outstanding++;
  Team *T = c->team;
  bool now = T->n == 1 || T->qn >= T->qcap || choose(3) == 1;
  sim::logev(EV_TASK, now);
  if (now) execTask(t);
  else T->queue[T->qn++] = t;
  sim::yield(7);
  return 0;
}
int32_t __kmpc_omp_taskwait(void *, int32_t) {
  Ctx *c = me();
  Task *t = c->cur;
  helpUntil(c->team, [&] { return t->children == 0; });
  return 0;
}
void __kmpc_taskgroup(void *, int32_t) {
  Ctx *c = me();
  TaskGroup *g = new (GC_MALLOC_UNCOLLECTABLE(sizeof(TaskGroup))) TaskGroup();
  g->up = c->tg;
  c->tg = g;
}
void __kmpc_end_taskgroup(void *, int32_t) {
  Ctx *c = me();
  TaskGroup *g = c->tg;
  sim::yield(7);
  helpUntil(c->team, [&] { return g->count == 0; });
  Team *t = c->team;
  if (g->red && g->priv == t->tr_priv) {
    if (++t->tr_fini == t->n) { // last thread through combines every private copy into its own shared copy
      for (int i = 0; i < g->nred; i++)
        for (int j = 0; j < t->n; j++)
          ((void (*)(void *, void *))g->red[i].comb)(g->red[i].shar, g->priv[i] + j * g->red[i].size);
      t->tr_priv = nullptr; t->tr_fini = 0; t->tr_init = 0;
    }
  }
  c->tg = g->up;
}
void *__kmpc_taskred_modifier_init(void *loc, int32_t gtid, int32_t, int32_t num, void *data) {
  Ctx *c = me();
  Team *t = c->team;
  sim::yield(7);
  __kmpc_taskgroup(loc, gtid);
  TaskGroup *g = c->tg;
  if (t->n == 1) return g;
  g->nred = num;
  g->red = (RedItem *)GC_MALLOC_UNCOLLECTABLE(sizeof(RedItem) * (num ? num : 1));
  for (int i = 0; i < num; i++) {
    char *p = (char *)data + i * 56;
    memcpy(&g->red[i], p, sizeof(RedItem));
  }
  // the first thread to arrive initialises the private copies (user code, may be pre-empted); the others wait for it
  if (!t->tr_priv && t->tr_init) block([](void *q) { return ((Team *)q)->tr_priv != nullptr; }, t);
  if (!t->tr_priv) {
    t->tr_init = 1;
    t->tr_num = num;
    char **pv = (char **)GC_MALLOC_UNCOLLECTABLE(sizeof(char *) * (num ? num : 1));
    for (int i = 0; i < num; i++) {
      size_t sz = g->red[i].size = (g->red[i].size + 63) & ~63ull;
      pv[i] = (char *)GC_MALLOC_UNCOLLECTABLE(sz * t->n + 64);
      for (int j = 0; j < t->n; j++) {
        if (g->red[i].init)
          ((void (*)(void *, void *))g->red[i].init)(pv[i] + j * sz, g->red[i].orig ? g->red[i].orig : g->red[i].shar);
      }
    }
    t->tr_priv = pv;
  } else {
    if (t->tr_num != num) sim::finish(sim::ST_ASSERT, "task reduction arrays differ between threads");
    for (int i = 0; i < num; i++) g->red[i].size = (g->red[i].size + 63) & ~63ull;
  }
  g->priv = t->tr_priv;
  return g;
}
void __kmpc_task_reduction_modifier_fini(void *loc, int32_t gtid, int32_t) { __kmpc_end_taskgroup(loc, gtid); }
void *__kmpc_task_reduction_get_th_data(int32_t gtid, void *, void *data) {
  Ctx *c = me();
  Team *t = c->team;
  int id = -1;
  for (int i = 0; i < t->n; i++) if (t->tids[i] == gtid) id = i;
  if (id < 0) sim::finish(sim::ST_ASSERT, "task reduction data requested for gtid %d outside the team", gtid);
  if (t->n == 1) return data;
  for (TaskGroup *g = c->tg; g; g = g->up)
    for (int i = 0; i < g->nred; i++) {
      char *p = g->priv[i];
      size_t sz = g->red[i].size;
      if (data == g->red[i].shar || data == g->red[i].orig ||
          ((char *)data >= p && (char *)data < p + sz * t->n))
        return p + id * sz;
    }
  sim::finish(sim::ST_ASSERT, "task reduction data requested for an unregistered item");
}

// ---- queries
int omp_get_num_threads() { return me()->team->n; }
int omp_get_thread_num() { return me()->id; }
int omp_get_max_threads() { return maxThreads(); }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int n) { if (n > 0) icv_threads = n; }
int omp_in_parallel() { Ctx *c = me(); for (; c; c = c->up) if (c->team->n > 1) return 1; return 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_cancellation() { return 0; }
void omp_set_schedule(int k, int c) { run_kind = k; run_chunk = c; }
void omp_get_schedule(int *k, int *c) { *k = run_kind; *c = run_chunk; }
int omp_get_thread_limit() { return 2147483647; }
static int mal = 1;
void omp_set_max_active_levels(int n) { mal = n; }
int omp_get_max_active_levels() { return mal; }
int omp_get_level() { int n = 0; for (Ctx *c = me(); c->up; c = c->up) n++; return n; }
int omp_get_active_level() { int n = 0; for (Ctx *c = me(); c; c = c->up) n += c->team->n > 1; return n; }
int omp_get_ancestor_thread_num(int l) { Ctx *c = me(); int n = omp_get_level(); if (l < 0 || l > n) return -1; while (n-- > l) c = c->up; return c->id; }
int omp_get_team_size(int l) { Ctx *c = me(); int n = omp_get_level(); if (l < 0 || l > n) return -1; while (n-- > l) c = c->up; return c->team->n; }
int omp_in_final() { return 0; }
int omp_get_proc_bind() { return 0; }
void omp_set_default_device(int) {}
int omp_get_default_device() { return 0; }
int omp_get_num_devices() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_is_initial_device() { return 1; }
double omp_get_wtime() { return sim::now() / 1e9; }
double omp_get_wtick() { return 1e-9; }
}
