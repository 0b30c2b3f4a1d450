// Simulator core: threads released one at a time, simulated clock, recorded decisions, event log.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace sim {

// Decision kinds. Every nondeterministic choice of a run is one of these; default is always 0.
enum Kind {
  K_SWITCH = 0, // pre-empt the running thread at a yield point; value = tid + 1
  K_PICK,       // which runnable thread continues when the running one blocks; value = tid + 1
  K_STALL,      // the running thread sleeps value ns of simulated time at a yield point
  K_WALL,       // the wall clock jumps by value ns when read
  K_GC,         // forced collection at an allocation; 1 = collect, 2 = collect and overwrite free cells
  K_POINT,      // user fault point (sim_point); value = action
  K_RT,         // free choice of the OpenMP runtime (reduction method, task placement, ...)
  K_READ,       // disk read: 1 = short, 2 = EINTR, 3 = EIO
  K_WRITE,      // disk write: 1 = short, 2 = EINTR, 3 = EIO, 4 = ENOSPC (sticky)
  K_OPEN,       // open: 1 = EACCES/EMFILE
  K_CLOSE,      // close: 1 = EIO reported at close
  K_SEEK,       // seek: 1 = EIO
  K_ALLOC,      // allocation failure
  K_SPUR,       // spurious: timed lock times out early is not allowed; reserved
  K_NKINDS
};

struct KindCfg {
  uint32_t prob = 0; // per 65536
  uint32_t max = 1u << 30;
  int64_t range = 1; // values 1..range (or ns bound)
  uint32_t from = 0; // indices before this never fire
};

struct Decision { uint32_t kind; uint32_t idx; int64_t val; };

struct Event {
  uint32_t tid, k;
  int64_t t, a, b, c;
  uint32_t soff, slen;
};

struct Shared { // survives the child
  uint64_t status; // 0 = running, see ST_*
  uint64_t nevents, nstr, ndec;
  uint64_t yields, switches, simns, hash, ihash, nthreads;
  uint64_t counts[K_NKINDS], fired[K_NKINDS];
  int64_t exitcode;
  char msg[512];
};
enum { ST_RUNNING = 0, ST_DONE = 1, ST_DEADLOCK = 2, ST_BUDGET = 3, ST_ABORT = 4, ST_LOGFULL = 5, ST_ASSERT = 6 };

static const uint64_t MAX_EVENTS = 1 << 19, MAX_STR = 32 << 20, MAX_DEC = 1 << 18;

struct Config {
  uint64_t seed = 1;
  uint64_t budget = 2000000;
  int strat = 0;      // 0 random, 1 PCT, 2 run-until-block
  uint32_t swprob = 2000; // per 65536, strat 0
  int pctdepth = 3;
  uint64_t pctlen = 2000;
  int threads = 4;
  int64_t tick = 100;
  bool replay = false;
  int64_t wall0 = 1700000000ll * 1000000000ll;
  int64_t mono0 = 1000000000ll;
  KindCfg kind[K_NKINDS];
  std::vector<Decision> dec;
  std::vector<int64_t> args;
  std::string files; // directory with initial files of the simulated disk
};

extern Config cfg;
extern Shared *sh;
extern thread_local int self_tid;

uint64_t rnd(int kind);
int64_t decide(int kind, int64_t forced_range = 0); // one decision of that kind
int64_t choose(int n);                              // K_RT: 0..n-1
void yield(int kind);
typedef bool (*Pred)(void *);
// Park the calling thread until pred(arg) or the deadline (ns of simulated time, <0 none).
// Returns false when it woke because of the deadline.
bool block(Pred pred, void *arg, int64_t deadline = -1);
int64_t now();
int64_t wall();
void logev(uint32_t k, int64_t a = 0, int64_t b = 0, int64_t c = 0, const char *s = nullptr, size_t n = 0);
int spawn(void (*fn)(void *), void *arg); // new simulated thread, returns tid
[[noreturn]] void finish(int status, const char *fmt, ...);
void init();
} // namespace sim
