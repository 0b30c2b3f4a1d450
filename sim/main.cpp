// simrun: loads a compiled workload and executes it many times, one forked child per run, under the simulator.
#include "core.h"
#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#define GC_THREADS
#include <gc.h>
#include <gc/gc_mark.h>
#include "disk.h"

using namespace sim;
namespace sim {
extern Event *ev;
extern char *strs;
extern Decision *decs;
} // namespace sim

static bool active = false; // inside a simulated run

// ---------------------------------------------------------------- seams of the runtime library
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static int simLock(pthread_mutex_t *m, int64_t deadline) {
  sim::yield(8);
  struct W { pthread_mutex_t *m; } w{m};
  for (;;) {
    int r = __real_pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    // woken when the mutex looks free; the winner among the woken threads is a scheduling decision
    bool ok = sim::block(
        [](void *q) {
          auto *mm = ((W *)q)->m;
          return mm->__data.__owner == 0;
        },
        &w, deadline);
    if (!ok) return __real_pthread_mutex_trylock(m) == 0 ? 0 : ETIMEDOUT;
  }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active) return __real_pthread_mutex_lock(m);
  return simLock(m, -1);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (active) sim::yield(8);
  return __real_pthread_mutex_trylock(m);
}
static int64_t ns(const timespec *t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t) {
  int64_t d = ns(t);
  if (c == CLOCK_REALTIME) d = sim::now() + (d - sim::wall()); // converted when the wait starts
  return simLock(m, d < 0 ? 0 : d);
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) {
  return __wrap_pthread_mutex_clocklock(m, CLOCK_REALTIME, t);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  if (active) sim::yield(8);
  return r;
}
// condition variables (also those used from inside libstdc++, by symbol interposition)
struct CondWaiter { pthread_cond_t *c; bool woken; CondWaiter *next; };
static CondWaiter *condq = nullptr; // in arrival order
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
  CondWaiter w{c, false, nullptr};
  CondWaiter **p = &condq;
  while (*p) p = &(*p)->next;
  *p = &w;
  __real_pthread_mutex_unlock(m);
  bool ok = sim::block([](void *q) { return ((CondWaiter *)q)->woken; }, &w, deadline);
  for (p = &condq; *p; p = &(*p)->next)
    if (*p == &w) { *p = w.next; break; }
  simLock(m, -1);
  return ok || w.woken ? 0 : ETIMEDOUT;
}
static void condWake(pthread_cond_t *c, bool all) {
  int n = 0;
  for (CondWaiter *w = condq; w; w = w->next) n += w->c == c && !w->woken;
  int pick = !all && n > 1 ? (int)sim::choose(n) : 0, i = 0;
  for (CondWaiter *w = condq; w; w = w->next)
    if (w->c == c && !w->woken && (i++ == pick || all)) w->woken = true;
  sim::yield(8);
}
#define REAL(f) ((decltype(&f))dlvsym(RTLD_NEXT, #f, "GLIBC_2.3.2"))
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto real = REAL(pthread_cond_wait);
  if (!active) return real(c, m);
  return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
  static auto real = REAL(pthread_cond_timedwait);
  if (!active) return real(c, m, t);
  return condWait(c, m, sim::now() + (ns(t) - sim::wall()));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) {
  int64_t d = ns(t);
  return condWait(c, m, k == CLOCK_REALTIME ? sim::now() + (d - sim::wall()) : d);
}
int pthread_cond_signal(pthread_cond_t *c) {
  static auto real = REAL(pthread_cond_signal);
  if (!active) return real(c);
  condWake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  static auto real = REAL(pthread_cond_broadcast);
  if (!active) return real(c);
  condWake(c, true);
  return 0;
}
int sched_yield() {
  if (active) sim::yield(8);
  return 0;
}
static void simSleep(int64_t d) {
  sim::block(nullptr, nullptr, sim::now() + (d < 0 ? 0 : d));
}
int __wrap_nanosleep(const timespec *a, timespec *) {
  if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; }
  simSleep(a->tv_sec > 9000000000ll ? LLONG_MAX / 4 : ns(a));
  return 0;
}
int __wrap_clock_nanosleep(clockid_t, int fl, const timespec *a, timespec *) {
  simSleep(fl ? ns(a) - sim::now() : ns(a));
  return 0;
}
time_t __wrap_time(time_t *o) {
  time_t t = sim::wall() / 1000000000ll;
  if (o) *o = t;
  return t;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return sim::wall(); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return sim::now(); }

// ---------------------------------------------------------------- interface for workloads
typedef struct { int64_t len; const char *str; } sstr;
void sim_log(int64_t k, int64_t a, int64_t b, int64_t c) { sim::logev((uint32_t)k, a, b, c); }
void sim_logs(int64_t k, sstr s) { sim::logev((uint32_t)k, s.len, 0, 0, s.str, s.len > 0 ? s.len : 0); }
void sim_logf(int64_t k, int64_t i, double x) {
  int64_t b;
  memcpy(&b, &x, 8);
  sim::logev((uint32_t)k, i, x != x ? 7 : b, x != x);
}
int64_t sim_nargs() { return (int64_t)cfg.args.size(); }
int64_t sim_arg(int64_t i) { return i >= 0 && i < (int64_t)cfg.args.size() ? cfg.args[i] : 0; }
int64_t sim_point(int64_t) { return sim::decide(K_POINT); }
int64_t sim_now() { return sim::now(); }
int64_t sim_tid() { return self_tid; }
void sim_stall(int64_t d) { simSleep(d); }
void sim_yield(int32_t k) { sim::yield(k); }
void sim_gc() { GC_gcollect(); }

// allocation seams: the workload's seq_alloc* calls are renamed to these by simc
void *seq_alloc(size_t);
void *seq_alloc_atomic(size_t);
void *seq_alloc_uncollectable(size_t);
void *seq_alloc_atomic_uncollectable(size_t);
void *seq_realloc(void *, size_t, size_t);
void seq_free(void *);
static int64_t gcpoint() {
  sim::yield(5);
  int64_t v = sim::decide(K_GC, 2);
  if (!v) return 0;
  GC_gcollect();
  if (v == 2) { // reuse every free cell of the common sizes, so that a freed live object is overwritten
    for (int pass = 0; pass < 2; pass++)
      for (size_t n = 16; n <= 512; n += 16)
        for (int i = 0; i < (n <= 128 ? 64 : 12); i++) {
          void *p = pass ? GC_malloc(n) : GC_malloc_atomic(n);
          if (p) memset(p, 0xa5, n);
        }
  }
  return v;
}
// memory without pointers comes with arbitrary contents
static void *dirty(int64_t v, void *p, size_t n) {
  if (v == 2 && p) memset(p, 0xa5, n);
  return p;
}
void *sim_seq_alloc(size_t n) { gcpoint(); return seq_alloc(n); }
void *sim_seq_alloc_atomic(size_t n) { int64_t v = gcpoint(); return dirty(v, seq_alloc_atomic(n), n); }
void *sim_seq_alloc_uncollectable(size_t n) { gcpoint(); return seq_alloc_uncollectable(n); }
void *sim_seq_alloc_atomic_uncollectable(size_t n) {
  int64_t v = gcpoint();
  return dirty(v, seq_alloc_atomic_uncollectable(n), n);
}
// memory given back is overwritten at once: nobody may look at it any more
void sim_seq_free(void *p) {
  if (p && GC_is_heap_ptr(p) && GC_base(p) == p) memset(p, 0xa5, GC_size(p));
  seq_free(p);
}
void *sim_seq_realloc(void *p, size_t n, size_t o) {
  int64_t v = gcpoint();
  size_t have = 0;
  int kind = p && GC_is_heap_ptr(p) && GC_base(p) == p ? GC_get_kind_and_size(p, &have) : -1;
  if (v != 2 || (kind != 0 && kind != 1) || n == 0) return seq_realloc(p, n, o);
  void *q = kind == 0 ? dirty(v, seq_alloc_atomic(n), n) : seq_alloc(n); // always move
  memcpy(q, p, have < n ? have : n);
  sim_seq_free(p);
  return q;
}
}

// ---------------------------------------------------------------- one run
static std::string outbuf;
static int outfd = -1;

static bool parseKV(const std::string &line, std::string &err) {
  cfg = Config();
  size_t i = 0;
  while (i < line.size()) {
    size_t e = line.find(' ', i);
    if (e == std::string::npos) e = line.size();
    std::string tok = line.substr(i, e - i);
    i = e + 1;
    if (tok.empty()) continue;
    size_t q = tok.find('=');
    if (q == std::string::npos) { err = "bad token " + tok; return false; }
    std::string k = tok.substr(0, q), v = tok.substr(q + 1);
    auto num = [&](const char *p) { return strtoll(p, nullptr, 10); };
    if (k == "seed") cfg.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "budget") cfg.budget = num(v.c_str());
    else if (k == "strat") cfg.strat = num(v.c_str());
    else if (k == "swprob") cfg.swprob = num(v.c_str());
    else if (k == "pctdepth") cfg.pctdepth = num(v.c_str());
    else if (k == "pctlen") cfg.pctlen = num(v.c_str());
    else if (k == "threads") cfg.threads = num(v.c_str());
    else if (k == "tick") cfg.tick = num(v.c_str());
    else if (k == "wall0") cfg.wall0 = num(v.c_str());
    else if (k == "replay") cfg.replay = num(v.c_str());
    else if (k == "args") {
      char *p = (char *)v.c_str();
      while (*p) { cfg.args.push_back(strtoll(p, &p, 10)); if (*p == ',') p++; else break; }
    } else if (k == "dec") {
      char *p = (char *)v.c_str();
      while (*p) {
        Decision d;
        d.kind = strtoul(p, &p, 10); if (*p == ':') p++;
        d.idx = strtoul(p, &p, 10); if (*p == ':') p++;
        d.val = strtoll(p, &p, 10); if (*p == ',') p++;
        cfg.dec.push_back(d);
      }
    } else if (k == "kind") { // kind:prob:max:range:from
      char *p = (char *)v.c_str();
      unsigned x = strtoul(p, &p, 10);
      if (x >= K_NKINDS) { err = "bad kind"; return false; }
      KindCfg &c = cfg.kind[x];
      if (*p == ':') c.prob = strtoul(p + 1, &p, 10);
      if (*p == ':') c.max = strtoul(p + 1, &p, 10);
      if (*p == ':') c.range = strtoll(p + 1, &p, 10);
      if (*p == ':') c.from = strtoul(p + 1, &p, 10);
    } else if (k == "files") cfg.files = v;
    else { err = "unknown key " + k; return false; }
  }
  return true;
}

static size_t put(const void *p, size_t n) { return fwrite(p, 1, n, stdout); }

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR_DONE")) {
    personality(ADDR_NO_RANDOMIZE);
    setenv("SIM_NOASLR_DONE", "1", 1);
    setenv("GC_MARKERS", "1", 1);
    setenv("MALLOC_ARENA_MAX", "1", 1);
    execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 2;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  pid_t self = getpid();
  sim::diskInit();
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  auto wmain = (int (*)(int, char **))dlsym(h, "sim_workload_main");
  if (!wmain) { fprintf(stderr, "no sim_workload_main\n"); return 2; }
  size_t tot = sizeof(Shared) + MAX_EVENTS * sizeof(Event) + MAX_STR + MAX_DEC * sizeof(Decision);
  char *base = (char *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh = (Shared *)base;
  ev = (Event *)(base + sizeof(Shared));
  decs = (Decision *)((char *)ev + MAX_EVENTS * sizeof(Event));
  strs = (char *)decs + MAX_DEC * sizeof(Decision);
  int fds[2] = {memfd_create("out", 0), memfd_create("err", 0)};
  double limit = getenv("SIM_WALL_LIMIT") ? atof(getenv("SIM_WALL_LIMIT")) : 60;
  signal(SIGPIPE, SIG_IGN);
  char *line = nullptr;
  size_t cap = 0;
  ssize_t ln;
  setvbuf(stdin, nullptr, _IOFBF, 1 << 20);
  while ((ln = getline(&line, &cap, stdin)) > 0) {
    while (ln && (line[ln - 1] == '\n')) line[--ln] = 0;
    if (!ln) continue;
    std::string err;
    if (!parseKV(line, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    memset(sh, 0, sizeof *sh);
    for (int f : fds) { if (ftruncate(f, 0)) {} lseek(f, 0, SEEK_SET); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); // a run never outlives its server
      if (getppid() != self) _exit(9);
      dup2(fds[0], 1);
      dup2(fds[1], 2);
      int nul = open("/dev/null", O_RDONLY);
      dup2(nul, 0);
      signal(SIGPIPE, SIG_DFL);
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 3ull << 30;
      setrlimit(RLIMIT_DATA, &rl);
      static char ob[1 << 16];
      setvbuf(stdout, ob, _IOFBF, sizeof ob);
      sim::init();
      sim::diskStart();
      active = true;
      char *av[] = {(char *)"sim", nullptr};
      int r = wmain(1, av);
      active = false;
      sh->exitcode = r;
      sh->simns = sim::now();
      sim::diskEnd();
      fflush(stdout);
      fflush(stderr);
      sh->status = ST_DONE;
      _exit(0);
    }
    int st = 0;
    bool hung = false;
    int pfd = syscall(SYS_pidfd_open, pid, 0);
    struct pollfd pf{pfd, POLLIN, 0};
    if (poll(&pf, 1, (int)(limit * 1000)) == 0) { hung = true; kill(pid, SIGKILL); }
    waitpid(pid, &st, 0);
    close(pfd);
    // response: header line, then raw events, decisions, strings, stdout, stderr
    off_t lo = lseek(fds[0], 0, SEEK_END), le = lseek(fds[1], 0, SEEK_END);
    if (lo > (64 << 20)) lo = 64 << 20;
    printf("{\"status\":%lu,\"hung\":%d,\"sig\":%d,\"exit\":%d,\"ret\":%ld,\"nev\":%lu,\"nstr\":%lu,\"ndec\":%lu,"
           "\"yields\":%lu,\"switches\":%lu,\"simns\":%lu,\"hash\":\"%016lx\",\"ihash\":\"%016lx\",\"nthreads\":%lu,\"out\":%ld,"
           "\"err\":%ld,\"counts\":[",
           sh->status, hung, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1, (long)sh->exitcode,
           sh->nevents, sh->nstr, sh->ndec, sh->yields, sh->switches, sh->simns, sh->hash, sh->ihash, sh->nthreads,
           (long)lo, (long)le);
    for (int i = 0; i < K_NKINDS; i++) printf("%s%lu", i ? "," : "", sh->counts[i]);
    printf("],\"fired\":[");
    for (int i = 0; i < K_NKINDS; i++) printf("%s%lu", i ? "," : "", sh->fired[i]);
    printf("],\"msg\":\"");
    for (char *p = sh->msg; *p; p++) if (*p >= 32 && *p < 127 && *p != '"' && *p != '\\') putchar(*p);
    printf("\"}\n");
    put(ev, sh->nevents * sizeof(Event));
    put(decs, sh->ndec * sizeof(Decision));
    put(strs, sh->nstr);
    char buf[65536];
    for (int i = 0; i < 2; i++) {
      lseek(fds[i], 0, SEEK_SET);
      off_t left = i ? le : lo;
      while (left > 0) {
        ssize_t r = read(fds[i], buf, left < (off_t)sizeof buf ? left : sizeof buf);
        if (r <= 0) break;
        put(buf, r);
        left -= r;
      }
    }
    fflush(stdout);
  }
  return 0;
}
