// Deterministic simulation core.  Compiled WITHOUT -fsanitize=thread.
// See sim.h for the model.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <dlfcn.h>
#include <malloc.h>
#include <errno.h>
#include <fcntl.h>
#include <glog/logging.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

// ------------------------------------------------------------ configuration
constexpr int kMaxThreads = 16;
constexpr int kMaxSched = 1 << 15;
constexpr uint64_t kStepCap = 600ull * 1000 * 1000;
constexpr uint64_t kSliceCap = 400000;
constexpr int kSpinCap = 200;  // accesses to one and the same address in a row: a thread that waits for another
constexpr size_t kArenaSize = 1ull << 31;
constexpr uintptr_t kArenaBase = 0x500000000000ull;
constexpr uintptr_t kShadowBase = 0x520000000000ull;
constexpr uintptr_t kStackBase = 0x540000000000ull;
constexpr size_t kStackSize = 1 << 20;
constexpr int kMaxFiles = 20;
constexpr size_t kFileCap = 1 << 24;
constexpr int kMaxFds = 64;
constexpr size_t kArea = 1 << 16;
constexpr int kFdBase = 1000000;
constexpr int kExitViolation = 70, kExitCheck = 71, kExitException = 72, kExitCrash = 73, kExitDone = 74;

struct Counter { char name[40]; uint64_t n; };
struct SimFile { char name[128]; bool exists; size_t size; };
struct Shared {
  // result
  volatile int violated;
  char cls[64];
  char msg[2048];
  int done;
  int mayAbort;
  int allocDidFire;
  long slots[16];
  uint64_t evHash, schedHash, steps, switches, accesses, allocs, sharedAcc;
  double simSeconds;
  long evCount;
  // coverage
  int nCounters;
  Counter counters[96];      // probes
  int nFaults;
  Counter faults[64];
  int nStates;
  uint64_t states[512];
  // schedule record
  int nSched;
  sim::SchedEnt sched[kMaxSched];
  // event text
  size_t evLen;
  char evText[1 << 16];
  // disk
  SimFile files[kMaxFiles];
  long fsCalls;
  int fsFired[32];
  int fsHard;
};

Shared* S = nullptr;
uint64_t* areaData = nullptr;  // kArea numbers, shared by a run's processes
char* diskData = nullptr;  // kMaxFiles * kFileCap, shared
bool g_running = false;    // inside a simulated run
bool g_verbose = false;
volatile bool g_multi = false;  // simulated threads exist

// ------------------------------------------------------------------ threads
enum TState { T_UNUSED, T_RUN, T_BLOCK, T_SLEEP, T_DONE };
struct Thr {
  TState st;
  int futex;
  uint64_t n;         // yield points passed
  const void* wait;   // what it is blocked on
  const void* cond;   // condition variable it waits for
  bool signalled;
  double deadline;
  bool timed;
  std::function<void()>* body;
  void* (*start)(void*);
  void* startArg;
  void* retval;
  pthread_t pt;
  bool inSutAtStart;
  uintptr_t lastAddr; // spinning?
  int same;
  int prio;
  size_t cur;         // replay cursor
  std::vector<std::pair<uint64_t, int>>* rep;
};
Thr T[kMaxThreads];
int nT = 1;  // 0 is the main thread
int cur = 0;
uint64_t slice = 0;
double g_clock = 0;  // simulated seconds since run start
const sim::Plan* P = nullptr;
sim::Rng* SR = nullptr;
uint64_t nextSwitchAt = 0;
std::vector<uint64_t>* pctPoints = nullptr;
int switchBudget = 6000;

thread_local int t_sut __attribute__((tls_model("initial-exec"))) = 0;
thread_local int t_tid __attribute__((tls_model("initial-exec"))) = 0;

// conflict table
constexpr int kConfBits = 16;
struct Conf { uintptr_t g; uint16_t rd, wr; };
Conf* conf = nullptr;

void futexWait(int* f, int v) { syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futexWake(int* f) { syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] void vViolation(const char* cls, const char* msg) {
  if (!S->violated) {
    S->violated = 1;
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", msg);
  }
  _exit(kExitViolation);
}

void park(int me) {
  while (__atomic_load_n(&T[me].futex, __ATOMIC_ACQUIRE) == 0) futexWait(&T[me].futex, 0);
  __atomic_store_n(&T[me].futex, 0, __ATOMIC_RELAXED);
}
void unpark(int t) {
  __atomic_store_n(&T[t].futex, 1, __ATOMIC_RELEASE);
  futexWake(&T[t].futex);
}

void recordSwitch(int from, uint64_t n, int to) {
  if (S->nSched < kMaxSched) S->sched[S->nSched++] = sim::SchedEnt{from, n, to};
  uint64_t v[3] = {(uint64_t)from, n, (uint64_t)to};
  S->schedHash = sim::hashBytes(v, sizeof v, S->schedHash);
  S->switches++;
}

void switchTo(int to) {  // current thread stays runnable (or blocked), hands over
  int me = t_tid;
  slice = 0;
  cur = to;
  int saved = errno;
  unpark(to);
  park(me);
  errno = saved;
}

int runnableCount(int except) {
  int c = 0;
  for (int i = 1; i < nT; i++) if (i != except && T[i].st == T_RUN) c++;
  return c;
}
int nthRunnable(int k, int except) {
  for (int i = 1; i < nT; i++)
    if (i != except && T[i].st == T_RUN && k-- == 0) return i;
  return -1;
}
int nextRunnableAfter(int me) {
  for (int d = 1; d < nT; d++) {
    int i = 1 + ((me - 1 + d) % (nT - 1));
    if (i != me && T[i].st == T_RUN) return i;
  }
  return -1;
}
int replayTarget(int me) {
  Thr& t = T[me];
  if (!t.rep) return -1;
  while (t.cur < t.rep->size() && (*t.rep)[t.cur].first < t.n) t.cur++;
  if (t.cur < t.rep->size() && (*t.rep)[t.cur].first == t.n) return (*t.rep)[t.cur++].second;
  return -1;
}

// wake sleepers whose time has come; if nothing is runnable jump the clock
bool wakeTimed(bool jump) {
  double best = 1e300;
  for (int i = 1; i < nT; i++)
    if ((T[i].st == T_SLEEP || (T[i].st == T_BLOCK && T[i].timed)) && T[i].deadline < best) best = T[i].deadline;
  if (best > 1e299) return false;
  if (jump && best > g_clock) { S->simSeconds += best - g_clock; g_clock = best; }
  bool any = false;
  for (int i = 1; i < nT; i++)
    if ((T[i].st == T_SLEEP || (T[i].st == T_BLOCK && T[i].timed)) && T[i].deadline <= g_clock) { T[i].st = T_RUN; T[i].timed = false; any = true; }
  return any;
}

// choose who runs when the current thread cannot continue
int chooseForced(int me) {
  if (!runnableCount(me)) {
    if (!wakeTimed(true) || (!runnableCount(me) && T[me].st != T_RUN)) return -1;
  }
  int c = runnableCount(me);
  if (!c) return T[me].st == T_RUN ? me : -1;
  int to = -1;
  if (P->replay) {
    to = replayTarget(me);
    if (to < 1 || to >= nT || to == me || T[to].st != T_RUN) to = nthRunnable(0, me);
  } else if (P->policy == 3) {
    for (int i = 1; i < nT; i++) if (i != me && T[i].st == T_RUN && (to < 0 || T[i].prio > T[to].prio)) to = i;
  } else {
    to = nthRunnable((int)SR->below(c), me);
  }
  recordSwitch(me, T[me].n, to);
  return to;
}

void deadlock() {
  char m[256]; int k = 0;
  for (int i = 1; i < nT; i++) k += snprintf(m + k, sizeof m - k, " t%d=%s", i, T[i].st == T_DONE ? "done" : T[i].st == T_BLOCK ? "blocked" : "?");
  char mm[320]; snprintf(mm, sizeof mm, "no thread can make progress:%s", m);
  vViolation("deadlock", mm);
}

void blockSelf(const void* on) {
  int me = t_tid;
  T[me].st = T_BLOCK; T[me].wait = on; T[me].n++;
  int to = chooseForced(me);
  if (to < 0) deadlock();
  if (to != me) switchTo(to);
}
void wakeAll(const void* on) {
  for (int i = 1; i < nT; i++)
    if (T[i].st == T_BLOCK && T[i].wait == on) { T[i].st = T_RUN; T[i].timed = false; }
}

void stepCheck() {
  if (++S->steps > kStepCap) vViolation("no-progress", "step cap exceeded: an operation did not finish within 600 million steps");
}

void rotate() {
  int me = t_tid;
  int to = nextRunnableAfter(me);
  if (to < 0) { slice = 0; wakeTimed(true); to = nextRunnableAfter(me); }
  if (to > 0) switchTo(to);
  slice = 0;
}

void yieldPoint(uintptr_t addr, bool wr) {
  int me = t_tid;
  if (!me) return;
  Thr& t = T[me];
  t.n++;
  g_clock += 2e-8;
  if (addr && addr == t.lastAddr) {
    if (++t.same > kSpinCap) {
      t.same = 0;
      for (int i = 1; i < nT; i++) t.prio = std::min(t.prio, T[i].prio - 1);
      rotate();
      return;
    }
  } else { t.lastAddr = addr; t.same = 0; }
  if (++slice > kSliceCap) { rotate(); return; }
  int to = -1;
  if (P->replay) {
    to = replayTarget(me);
    if (to < 1 || to >= nT || to == me || T[to].st != T_RUN) return;
    recordSwitch(me, t.n, to);
    switchTo(to);
    return;
  }
  if (S->switches >= (uint64_t)switchBudget) return;
  switch (P->policy) {
    case 1:
      if (S->steps < nextSwitchAt) return;
      nextSwitchAt = S->steps + 1 + (uint64_t)(-__builtin_log(1.0 - SR->unit()) / P->p);
      break;
    case 2: {
      if (!addr) { if (!SR->chance(0.5)) return; break; }
      uintptr_t g = addr >> 3;
      Conf* c = nullptr;
      uint64_t h = (g * 0x9E3779B97F4A7C15ull) >> (64 - kConfBits);
      for (int k = 0; k < 16; k++) {
        Conf* e = &conf[(h + k) & ((1 << kConfBits) - 1)];
        if (e->g == g || e->g == 0) { c = e; break; }
      }
      if (!c) return;
      if (!c->g) c->g = g;
      uint16_t bit = 1 << me;
      bool others = ((c->rd | c->wr) & ~bit) != 0;
      bool conflict = others && (wr || c->wr);
      if (wr) c->wr |= bit; else c->rd |= bit;
      if (!others) return;
      S->sharedAcc++;
      if (!SR->chance(conflict ? P->p : P->p * 0.02)) return;
      break;
    }
    case 3: {
      for (auto& pp : *pctPoints) if (pp == S->steps) { int lo = 0; for (int i = 1; i < nT; i++) lo = std::min(lo, T[i].prio); t.prio = lo - 1; }
      for (int i = 1; i < nT; i++) if (i != me && T[i].st == T_RUN && T[i].prio > t.prio && (to < 0 || T[i].prio > T[to].prio)) to = i;
      if (to < 0) return;
      recordSwitch(me, t.n, to);
      switchTo(to);
      return;
    }
    default: return;
  }
  int c = runnableCount(me);
  if (!c) return;
  to = nthRunnable((int)SR->below(c), me);
  recordSwitch(me, t.n, to);
  switchTo(to);
}

inline bool ownStack(uintptr_t a) {
  int me = t_tid;
  uintptr_t lo = kStackBase + (uintptr_t)me * kStackSize * 2;
  return me && a >= lo && a < lo + kStackSize;
}

// --------------------------------------------------------------------- heap
struct Hdr { uint64_t size; uint64_t magic; };
constexpr uint64_t kLive = 0xA11CA7EDull, kFreed = 0xDEADF4EEull;
size_t arenaTop = 64;
long liveBlocks = 0, liveBytes = 0;  // allocated by code under test and not freed
long allocNth = 0, allocCount = 0;  // armed if allocNth>0 (countdown) or active
bool allocActive = false;
bool arenaReady = false;
void countFault(const char* name, uint64_t n);

inline bool inArena(const void* p) { return (uintptr_t)p >= kArenaBase && (uintptr_t)p < kArenaBase + kArenaSize; }
inline uint8_t* shadowOf(uintptr_t a) { return (uint8_t*)(kShadowBase + ((a - kArenaBase) >> 3)); }

bool allocShouldFail() {
  S->allocs++;
  if (allocActive) { if (allocCount < 0) return true; if (allocCount-- > 0) return true; allocActive = false; return false; }
  if (allocNth > 0 && --allocNth == 0) { allocActive = true; S->allocDidFire = 1; return allocCount < 0 ? true : (allocCount-- > 0); }
  return false;
}

void* arenaAlloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  if (n > (64u << 20)) { errno = ENOMEM; return nullptr; }
  size_t off = arenaTop + sizeof(Hdr);
  off = (off + align - 1) & ~(align - 1);
  size_t end = off + ((n + 7) & ~7ull) + 24;
  if (end >= kArenaSize) { errno = ENOMEM; return nullptr; }
  char* p = (char*)kArenaBase + off;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n; h->magic = kLive;
  arenaTop = (end + 15) & ~15ull;
  liveBlocks++; liveBytes += (long)n;
  uint8_t* s = shadowOf((uintptr_t)p);
  memset(s, 8, n >> 3);
  if (n & 7) s[n >> 3] = n & 7;
  memset(p, 0xCB, n < 4096 ? n : 4096);
  return p;
}
void arenaFree(void* p) {
  Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
  if (h->magic != kLive) vViolation("memory", h->magic == kFreed ? "memory freed twice" : "free of an address that was not allocated");
  h->magic = kFreed;
  size_t n = h->size;
  liveBlocks--; liveBytes -= (long)n;
  memset(shadowOf((uintptr_t)p), 0xFD, (n + 7) >> 3);
  memset(p, 0xDB, n < 4096 ? n : 4096);
}

inline void shadowCheck(uintptr_t a, size_t n, bool wr) {
  uintptr_t e = a + n;
  for (uintptr_t x = a; x < e;) {
    uint8_t s = *shadowOf(x);
    size_t in = x & 7;
    size_t upto = std::min<size_t>(8, in + (e - x));
    if (s == 0xFD) vViolation("memory", wr ? "write to freed memory" : "read of freed memory");
    if (upto > s) vViolation("memory", wr ? "write outside an allocated block" : "read outside an allocated block");
    x += upto - in;
  }
}

inline void access(void* p, size_t n, bool wr) {
  if (!t_sut || !g_running) return;
  uintptr_t a = (uintptr_t)p;
  S->accesses++;
  stepCheck();
  if (a >= kArenaBase && a < kArenaBase + kArenaSize) shadowCheck(a, n, wr);
  if (g_multi && !ownStack(a)) { int sv = t_sut; t_sut = 0; yieldPoint(a, wr); t_sut = sv; }
}

void countIn(Counter* tab, int& n, int cap, const char* name, uint64_t k) {
  for (int i = 0; i < n; i++) if (!strcmp(tab[i].name, name)) { tab[i].n += k; return; }
  if (n < cap) { snprintf(tab[n].name, sizeof tab[n].name, "%s", name); tab[n].n = k; n++; }
}
void countFault(const char* name, uint64_t n) { countIn(S->faults, S->nFaults, 64, name, n); }

}  // namespace

// =========================================================== public interface
namespace sim {

uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
bool verbose() { return g_verbose; }
Sut::Sut() { t_sut++; }
Sut::~Sut() { t_sut--; }
NotSut::NotSut() : saved(t_sut) { t_sut = 0; }
NotSut::~NotSut() { t_sut = saved; }
int self() { return t_tid; }
uint64_t steps() { return S->steps; }

void violation(const char* cls, const char* fmt, ...) {
  t_sut = 0;
  char m[2000];
  va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  vViolation(cls, m);
}
void event(const char* fmt, ...) {
  NotSut ns;
  char m[512];
  int k = snprintf(m, 16, "[%d] ", t_tid);
  va_list ap; va_start(ap, fmt); k += vsnprintf(m + k, sizeof m - k - 2, fmt, ap); va_end(ap);
  if (k > (int)sizeof m - 2) k = sizeof m - 2;
  m[k++] = '\n';
  S->evHash = hashBytes(m, k, S->evHash);
  S->evCount++;
  if (S->evLen + k < sizeof S->evText) { memcpy(S->evText + S->evLen, m, k); S->evLen += k; }
}
void eventHash(uint64_t h) { S->evHash = hashBytes(&h, sizeof h, S->evHash); }
void state(uint64_t h) { if (S->nStates < 512) S->states[S->nStates++] = h; }
void probe(const char* name, uint64_t n) { countIn(S->counters, S->nCounters, 96, name, n); }
void faultFired(const char* name, uint64_t n) { countFault(name, n); }
void simTime(double s) { S->simSeconds += s; }

void armAlloc(long nth, long count) { allocNth = nth; allocCount = count; allocActive = false; S->allocDidFire = 0; }
void disarmAlloc() {
  if (S->allocDidFire) countFault("alloc_failure", 1);
  allocNth = 0; allocActive = false; S->allocDidFire = 0;
}
bool allocFired() { return S->allocDidFire; }

const char* outcomeName(Outcome o) {
  switch (o) { case OUT_OK: return "ok"; case OUT_CHECK: return "check-failed"; case OUT_EXCEPTION: return "exception"; case OUT_CRASH: return "crash"; case OUT_SIGNAL: return "signal"; default: return "exit"; }
}

Outcome incarnation(const std::function<void()>& body) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { _exit(99); }
  if (pid == 0) {
    try { body(); } catch (...) { _exit(kExitException); }
    _exit(kExitDone);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (S->violated) _exit(kExitViolation);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? OUT_CHECK : OUT_SIGNAL;
  switch (WEXITSTATUS(st)) {
    case kExitDone: return OUT_OK;
    case kExitCheck: return OUT_CHECK;
    case kExitException: return OUT_EXCEPTION;
    case kExitCrash: return OUT_CRASH;
    default: return OUT_EXIT;
  }
}

uint64_t* area(size_t n) { if (n > kArea) violation("harness", "shared area too small"); return areaData; }
long& slot(int i) { return S->slots[i & 15]; }
void mayAbort(bool on) { S->mayAbort = on; }

void randomPolicy(Plan& plan, Rng& rng) {
  double u = rng.unit();
  plan.pseed = rng.next() | 1;
  if (u < 0.50) { plan.policy = 2; plan.p = rng.chance(0.5) ? rng.uni(0.05, 0.6) : rng.uni(0.005, 0.05); }
  else if (u < 0.72) { plan.policy = 1; double e = rng.uni(-3.5, -0.7); plan.p = __builtin_pow(10.0, e); }
  else if (u < 0.95) { plan.policy = 3; plan.depth = rng.range(1, 5); plan.horizon = (uint64_t)__builtin_pow(10.0, rng.uni(1.5, 4.7)); }
  else { plan.policy = 0; }
}

static void threadFinish(int me) {
  T[me].st = T_DONE;
  T[me].n++;
  wakeAll(&T[me]);
  bool all = true;
  for (int i = 1; i < nT; i++) if (T[i].st != T_DONE) all = false;
  if (all) { cur = 0; unpark(0); return; }
  int to = chooseForced(me);
  if (to < 0) deadlock();
  slice = 0; cur = to; unpark(to);
}

// Runs after the destructors of the thread's thread_local objects. The thread
// then stays parked: what the C library does at its exit would run beside the
// thread that is given the baton.
static pthread_key_t endKey;
static void threadEnd(void*) {
  t_sut = 0;
  threadFinish(t_tid);
  for (;;) pause();
}
static void* threadMain(void* arg) {
  int me = (int)(intptr_t)arg;
  t_tid = me;
  pthread_setspecific(endKey, arg);
  park(me);
  try {
    if (T[me].body) (*T[me].body)();
    else { t_sut = T[me].inSutAtStart ? 1 : 0; T[me].retval = T[me].start(T[me].startArg); t_sut = 0; }
  } catch (const std::exception& e) {
    t_sut = 0;
    violation("exception", "exception escaped from a thread: %s", e.what());
  }
  t_sut = 0;
  return nullptr;
}

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
static int (*real_pthread_join)(pthread_t, void**) = nullptr;

static int newThread() {
  if (nT >= kMaxThreads) violation("threads", "too many threads");
  int me = nT;
  Thr& t = T[me];
  memset(&t, 0, sizeof t);
  t.st = T_RUN;
  t.prio = SR ? (int)(SR->next() % 1000) + 1 : 1;
  if (P->replay) {
    t.rep = new std::vector<std::pair<uint64_t, int>>();
    for (auto& e : P->sched) if (e.tid == me) t.rep->push_back({e.n, e.to});
  }
  void* stk = mmap((void*)(kStackBase + (uintptr_t)me * kStackSize * 2), kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (stk == MAP_FAILED) { perror("stack"); _exit(98); }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, stk, kStackSize);
  nT++;
  if (real_pthread_create(&t.pt, &at, threadMain, (void*)(intptr_t)me)) { perror("pthread_create"); _exit(98); }
  return me;
}

void runThreads(const std::vector<std::function<void()>>& bodies) {
  std::vector<std::function<void()>> b = bodies;
  conf = (Conf*)mmap(nullptr, sizeof(Conf) << kConfBits, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  nT = 1; cur = 0; slice = 0;
  Rng r(P->pseed);
  SR = &r;
  std::vector<uint64_t> pts;
  for (int i = 0; i < P->depth; i++) pts.push_back(S->steps + 1 + r.below(P->horizon ? P->horizon : 1));
  pctPoints = &pts;
  nextSwitchAt = 0;
  if (b.empty()) return;
  for (auto& f : b) { int i = newThread(); T[i].body = &f; }
  g_multi = true;
  // the first thread is a scheduling decision, too
  T[0].n = 1;
  T[0].rep = nullptr; T[0].cur = 0;
  std::vector<std::pair<uint64_t, int>> rep0;
  if (P->replay) { for (auto& e : P->sched) if (e.tid == 0) rep0.push_back({e.n, e.to}); T[0].rep = &rep0; }
  int to = chooseForced(0);
  cur = to;
  unpark(to);
  park(0);
  g_multi = false;
  SR = nullptr; pctPoints = nullptr;
  nT = 1;
}

}  // namespace sim

// ============================================================ tsan interface
#define TS extern "C" __attribute__((visibility("default")))
TS void __tsan_init() {}
TS void __tsan_func_entry(void*) {}
TS void __tsan_func_exit(void*) {}
#define RW(n) \
  TS void __tsan_read##n(void* p) { access(p, n, false); } \
  TS void __tsan_write##n(void* p) { access(p, n, true); } \
  TS void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
  TS void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  TS void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
  TS void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  TS void __tsan_read_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
TS void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
TS void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
TS void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
TS void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define AT(bits, T_) \
  TS T_ __tsan_atomic##bits##_load(const volatile T_* p, int) { access((void*)p, sizeof(T_), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  TS void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_fetch_add(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_fetch_sub(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_fetch_and(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_fetch_or(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_fetch_xor(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_fetch_nand(volatile T_* p, T_ v, int) { access((void*)p, sizeof(T_), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  TS int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* p, T_* e, T_ v, int, int) { access((void*)p, sizeof(T_), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  TS int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* p, T_* e, T_ v, int, int) { access((void*)p, sizeof(T_), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  TS T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* p, T_ e, T_ v, int, int) { access((void*)p, sizeof(T_), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
TS void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
TS void __tsan_atomic_signal_fence(int) {}

// ============================================================ heap interposer
TS void* malloc(size_t n) {
  if (t_sut && g_running) { if (allocShouldFail()) { errno = ENOMEM; return nullptr; } return arenaAlloc(n, 16); }
  return __libc_malloc(n);
}
TS void free(void* p) {
  if (!p) return;
  if (inArena(p)) { arenaFree(p); return; }
  __libc_free(p);
}
TS void* calloc(size_t a, size_t b) {
  if (t_sut && g_running) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || allocShouldFail()) { errno = ENOMEM; return nullptr; }
    void* p = arenaAlloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
  }
  return __libc_calloc(a, b);
}
TS void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (inArena(p)) {
    size_t old = ((Hdr*)((char*)p - sizeof(Hdr)))->size;
    void* q;
    if (t_sut && g_running) { if (allocShouldFail()) { errno = ENOMEM; return nullptr; } q = arenaAlloc(n, 16); }
    else q = __libc_malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    arenaFree(p);
    return q;
  }
  return __libc_realloc(p, n);
}
TS void* memalign(size_t al, size_t n) {
  if (t_sut && g_running) { if (allocShouldFail()) { errno = ENOMEM; return nullptr; } return arenaAlloc(n, al); }
  return __libc_memalign(al, n);
}
TS void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
TS int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
TS size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (inArena(p)) return ((Hdr*)((char*)p - sizeof(Hdr)))->size;
  static size_t (*real)(void*) = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
  return real(p);
}

// ================================================= synchronisation interposer
template <class F> static F realFn(F& cache, const char* name) {
  if (!cache) cache = (F)dlsym(RTLD_NEXT, name);
  return cache;
}
#define REAL(ret, name, ...) static ret (*p_##name)(__VA_ARGS__) = nullptr; ret (*f_##name)(__VA_ARGS__) = realFn(p_##name, #name)
// Registering the destructor of a thread_local object allocates inside the C
// library, which aborts the process when that fails: not a place to inject a fault.
TS int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  REAL(int, __cxa_thread_atexit, void (*)(void*), void*, void*);
  sim::NotSut ns;
  return f___cxa_thread_atexit(fn, obj, dso);
}
namespace {
struct Lk { const void* a; int owner; int count; int readers; uint16_t rmask; };
Lk lks[4096];
Lk* lk(const void* a) {
  uint64_t h = ((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 52;
  for (int k = 0; k < 4096; k++) {
    Lk* e = &lks[(h + k) & 4095];
    if (e->a == a) return e;
    if (!e->a) { e->a = a; return e; }
  }
  vViolation("locks", "too many locks");
}
inline bool simThr() { return g_multi && t_tid > 0; }
inline void syncYield() { if (t_sut) { stepCheck(); yieldPoint(0, true); } }

int simLock(const void* m, int kind, bool try_, bool timed, double deadline) {
  syncYield();
  Lk* e = lk(m);
  int me = t_tid;
  if (e->owner == me && e->count > 0) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { e->count++; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (try_) return EBUSY;
  }
  while (e->count > 0 || e->readers > 0) {
    if (try_) return EBUSY;
    if (timed && deadline <= g_clock) return ETIMEDOUT;
    T[me].timed = timed; T[me].deadline = deadline;
    sim::probe("lock_contended");
    blockSelf(m);
  }
  e->owner = me; e->count = 1;
  return 0;
}
int simUnlock(const void* m) {
  Lk* e = lk(m);
  if (e->readers > 0 && e->count == 0) {
    e->readers--;
    if (!e->readers) wakeAll(m);
  } else if (--e->count <= 0) {
    e->count = 0; e->owner = 0;
    wakeAll(m);
  }
  syncYield();
  return 0;
}
int simRdLock(const void* m, bool try_) {
  syncYield();
  Lk* e = lk(m);
  while (e->count > 0) {
    if (try_) return EBUSY;
    blockSelf(m);
  }
  e->readers++;
  return 0;
}
double absToSim(const struct timespec* ts);
}  // namespace

TS int pthread_mutex_lock(pthread_mutex_t* m) {
  if (simThr()) return simLock(m, m->__data.__kind & 3, false, false, 0);
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  return f_pthread_mutex_lock(m);
}
TS int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (simThr()) return simLock(m, m->__data.__kind & 3, true, false, 0);
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  return f_pthread_mutex_trylock(m);
}
TS int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (simThr()) return simLock(m, m->__data.__kind & 3, false, true, absToSim(ts));
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
  return f_pthread_mutex_timedlock(m, ts);
}
TS int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (simThr()) return simLock(m, m->__data.__kind & 3, false, true, absToSim(ts));
  REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
  return f_pthread_mutex_clocklock(m, c, ts);
}
TS int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (simThr()) return simUnlock(m);
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  return f_pthread_mutex_unlock(m);
}
TS int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (simThr()) { Lk* e = lk(m); e->count = e->readers = 0; return 0; }
  REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
  return f_pthread_mutex_destroy(m);
}
TS int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (simThr()) return simRdLock(m, false);
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  return f_pthread_rwlock_rdlock(m);
}
TS int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (simThr()) return simRdLock(m, true);
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
  return f_pthread_rwlock_tryrdlock(m);
}
TS int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (simThr()) return simLock(m, 0, false, false, 0);
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  return f_pthread_rwlock_wrlock(m);
}
TS int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (simThr()) return simLock(m, 0, true, false, 0);
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
  return f_pthread_rwlock_trywrlock(m);
}
TS int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (simThr()) return simUnlock(m);
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  return f_pthread_rwlock_unlock(m);
}
TS int pthread_spin_lock(pthread_spinlock_t* m) {
  if (simThr()) return simLock((const void*)m, 0, false, false, 0);
  REAL(int, pthread_spin_lock, pthread_spinlock_t*);
  return f_pthread_spin_lock(m);
}
TS int pthread_spin_trylock(pthread_spinlock_t* m) {
  if (simThr()) return simLock((const void*)m, 0, true, false, 0);
  REAL(int, pthread_spin_trylock, pthread_spinlock_t*);
  return f_pthread_spin_trylock(m);
}
TS int pthread_spin_unlock(pthread_spinlock_t* m) {
  if (simThr()) return simUnlock((const void*)m);
  REAL(int, pthread_spin_unlock, pthread_spinlock_t*);
  return f_pthread_spin_unlock(m);
}
namespace {
int simCondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, double deadline) {
  int me = t_tid;
  T[me].signalled = false;
  T[me].cond = c;  // waits from here on: a signal between unlocking and blocking counts
  simUnlock(m);
  int rc = 0;
  while (!T[me].signalled) {
    if (timed && deadline <= g_clock) { rc = ETIMEDOUT; break; }
    T[me].timed = timed; T[me].deadline = deadline;
    blockSelf(c);
  }
  T[me].cond = nullptr;
  simLock(m, m->__data.__kind & 3, false, false, 0);
  return rc;
}
}  // namespace
TS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (simThr()) return simCondWait(c, m, false, 0);
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
  return f_pthread_cond_wait(c, m);
}
TS int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (simThr()) return simCondWait(c, m, true, absToSim(ts));
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  return f_pthread_cond_timedwait(c, m, ts);
}
TS int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (simThr()) return simCondWait(c, m, true, absToSim(ts));
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  return f_pthread_cond_clockwait(c, m, k, ts);
}
TS int pthread_cond_signal(pthread_cond_t* c) {
  if (simThr()) {
    for (int i = 1; i < nT; i++)
      if (T[i].cond == c && !T[i].signalled) { T[i].signalled = true; if (T[i].st == T_BLOCK) { T[i].st = T_RUN; T[i].timed = false; } break; }
    syncYield();
    return 0;
  }
  REAL(int, pthread_cond_signal, pthread_cond_t*);
  return f_pthread_cond_signal(c);
}
TS int pthread_cond_broadcast(pthread_cond_t* c) {
  if (simThr()) {
    for (int i = 1; i < nT; i++)
      if (T[i].cond == c && !T[i].signalled) { T[i].signalled = true; if (T[i].st == T_BLOCK) { T[i].st = T_RUN; T[i].timed = false; } }
    syncYield();
    return 0;
  }
  REAL(int, pthread_cond_broadcast, pthread_cond_t*);
  return f_pthread_cond_broadcast(c);
}
TS int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (simThr()) {
    syncYield();
    while (*(volatile int*)o == 1) blockSelf(o);
    if (*(volatile int*)o == 2) return 0;
    *(volatile int*)o = 1;
    try { fn(); } catch (...) { *(volatile int*)o = 0; wakeAll(o); throw; }
    *(volatile int*)o = 2;
    wakeAll(o);
    return 0;
  }
  if (*(volatile int*)o == 2) return 0;
  REAL(int, pthread_once, pthread_once_t*, void (*)(void));
  return f_pthread_once(o, fn);
}
TS int __cxa_guard_acquire(long long* g) {
  volatile char* c = (volatile char*)g;
  if (c[0]) return 0;
  if (simThr()) {
    syncYield();
    while (c[1]) { if (c[0]) return 0; blockSelf(g); }
    if (c[0]) return 0;
  }
  c[1] = 1;
  return 1;
}
TS void __cxa_guard_release(long long* g) {
  volatile char* c = (volatile char*)g;
  c[0] = 1; c[1] = 0;
  if (simThr()) { wakeAll(g); syncYield(); }
}
TS void __cxa_guard_abort(long long* g) {
  volatile char* c = (volatile char*)g;
  c[1] = 0;
  if (simThr()) wakeAll(g);
}
TS int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*start)(void*), void* arg) {
  if (simThr()) {
    sim::NotSut ns;
    int i = sim::newThread();
    T[i].start = start; T[i].startArg = arg; T[i].inSutAtStart = ns.saved > 0;
    *pt = T[i].pt;
    return 0;
  }
  if (g_running && t_sut) sim::violation("threads", "library code started a thread outside the simulator");
  return realFn(sim::real_pthread_create, "pthread_create")(pt, at, start, arg);
}
TS int pthread_join(pthread_t pt, void** ret) {
  if (simThr()) {
    for (int i = 1; i < nT; i++)
      if (pthread_equal(T[i].pt, pt)) {
        while (T[i].st != T_DONE) blockSelf(&T[i]);
        if (ret) *ret = T[i].retval;
        return 0;
      }
  }
  return realFn(sim::real_pthread_join, "pthread_join")(pt, ret);
}
TS int sched_yield() {
  if (simThr()) { stepCheck(); T[t_tid].n++; rotate(); return 0; }
  return (int)syscall(SYS_sched_yield);
}

// ======================================================== clock and randomness
namespace {
constexpr double kEpoch = 1700000000.0;
double absToSim(const struct timespec* ts) { return (double)ts->tv_sec + 1e-9 * ts->tv_nsec - kEpoch; }
void simNow(struct timespec* ts) {
  g_clock += 1e-6;
  double v = g_clock;
  ts->tv_sec = (time_t)(kEpoch + v);
  double frac = v - (double)(time_t)v;
  ts->tv_nsec = (long)(frac * 1e9);
}
int simSleep(double s) {
  if (s < 0) s = 0;
  countIn(S->counters, S->nCounters, 96, "sleep_calls", 1);
  if (simThr()) {
    int me = t_tid;
    T[me].n++;
    T[me].st = T_SLEEP; T[me].deadline = g_clock + s;
    int to = chooseForced(me);
    if (to < 0) { T[me].st = T_RUN; }
    else if (to != me) switchTo(to);
  } else { g_clock += s; S->simSeconds += s; stepCheck(); }
  return 0;
}
}  // namespace
TS int clock_gettime(clockid_t c, struct timespec* ts) {
  if (g_running) { simNow(ts); return 0; }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
TS int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
TS time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
TS int nanosleep(const struct timespec* a, struct timespec* r) {
  if (g_running) return simSleep((double)a->tv_sec + 1e-9 * a->tv_nsec);
  return (int)syscall(SYS_nanosleep, a, r);
}
TS int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec* r) {
  if (g_running) return simSleep(flags & TIMER_ABSTIME ? absToSim(a) - g_clock : (double)a->tv_sec + 1e-9 * a->tv_nsec);
  return (int)syscall(SYS_nanosleep, a, r);
}
TS int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
TS unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
TS ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (g_running) { static sim::Rng r(77); for (size_t i = 0; i < n; i++) ((char*)b)[i] = (char)r.next(); return (ssize_t)n; }
  return syscall(SYS_getrandom, b, n, f);
}
TS uint32_t arc4random() { uint32_t v = 0; getrandom(&v, sizeof v, 0); return v; }

// ============================================================= simulated disk
namespace {
struct Fd { bool used; int file; size_t pos; int flags; FILE* fp; bool errPending; };
Fd fds[kMaxFds];
struct Arm { int kind; long nth; long arg; };
Arm arms[16];
int nArms = 0;
long cOpen = 0, cRead = 0, cWrite = 0, cClose = 0, cCall = 0, cSync = 0, cRename = 0;
long fullLeft = -1;
const char* kFsNames[] = {"none", "open_error", "write_error", "short_write", "write_eintr", "read_error", "short_read", "read_eintr", "close_error", "disk_full", "crash_at_call", "crash_torn_write", "fragmented_reads", "fragmented_writes", "fsync_error", "rename_error", "io_stall"};

bool simPath(const char* p) { return p && g_running && !strncmp(p, "/simdisk/", 9); }
bool simFd(int fd) { return fd >= kFdBase && fd < kFdBase + kMaxFds; }
void fire(int k) {
  S->fsFired[k]++;
  countFault(kFsNames[k], 1);
  // (an interrupted call may be retried or reported: C streams report it)
  if (k == sim::FS_READ_EINTR || k == sim::FS_WRITE_EINTR || k == sim::FS_OPEN_ERR || k == sim::FS_WRITE_ERR || k == sim::FS_READ_ERR || k == sim::FS_CLOSE_ERR || k == sim::FS_FULL || k == sim::FS_SYNC_ERR || k == sim::FS_RENAME_ERR) S->fsHard++;
}
Arm* armed(int kind, long count) {
  for (int i = 0; i < nArms; i++) if (arms[i].kind == kind && (arms[i].nth == count)) return &arms[i];
  return nullptr;
}
Arm* armedAny(int kind) {
  for (int i = 0; i < nArms; i++) if (arms[i].kind == kind) return &arms[i];
  return nullptr;
}
void enterCall() {
  S->fsCalls++;
  cCall++;
  if (Arm* a = armed(sim::FS_CRASH_CALL, cCall)) { (void)a; fire(sim::FS_CRASH_CALL); _exit(kExitCrash); }
  if (Arm* a = armed(sim::FS_STALL, cCall)) { fire(sim::FS_STALL); g_clock += a->arg; S->simSeconds += a->arg; if (simThr() && t_sut) rotate(); }
  if (simThr()) syncYield();
}
int findFile(const char* p, bool create) {
  int freeSlot = -1;
  for (int i = 0; i < kMaxFiles; i++) {
    if (S->files[i].exists && !strcmp(S->files[i].name, p)) return i;
    if (!S->files[i].exists && freeSlot < 0) {
      bool inUse = false;
      for (auto& f : fds) if (f.used && f.file == i) inUse = true;
      if (!inUse) freeSlot = i;
    }
  }
  if (!create || freeSlot < 0) return -1;
  snprintf(S->files[freeSlot].name, sizeof S->files[freeSlot].name, "%s", p);
  S->files[freeSlot].exists = true;
  S->files[freeSlot].size = 0;
  return freeSlot;
}
int doOpen(const char* path, int flags) {
  enterCall();
  cOpen++;
  if (Arm* a = armed(sim::FS_OPEN_ERR, cOpen)) { fire(sim::FS_OPEN_ERR); errno = (int)a->arg ? (int)a->arg : EACCES; return -1; }
  if (!strncmp(path, "/simdisk/nodir/", 15)) { errno = ENOENT; return -1; }
  int acc = flags & O_ACCMODE;
  bool wr = acc != O_RDONLY;
  int f = findFile(path, false);
  if (f >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (f < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    f = findFile(path, true);
    if (f < 0) { errno = ENFILE; return -1; }
  }
  if (wr && (flags & O_TRUNC)) S->files[f].size = 0;
  for (int i = 0; i < kMaxFds; i++)
    if (!fds[i].used) {
      fds[i] = Fd{true, f, (flags & O_APPEND) ? S->files[f].size : 0, flags, nullptr, false};
      return kFdBase + i;
    }
  errno = EMFILE;
  return -1;
}
ssize_t doWrite(int fd, const void* buf, size_t n) {
  Fd& d = fds[fd - kFdBase];
  if (!d.used) { errno = EBADF; return -1; }
  enterCall();
  cWrite++;
  if (armed(sim::FS_WRITE_EINTR, cWrite)) { fire(sim::FS_WRITE_EINTR); errno = EINTR; return -1; }
  for (int i = 0; i < nArms; i++)
    if (arms[i].kind == sim::FS_WRITE_ERR && (arms[i].nth == cWrite || (arms[i].nth < 0 && cWrite >= -arms[i].nth))) {
      fire(sim::FS_WRITE_ERR); errno = (int)arms[i].arg ? (int)arms[i].arg : EIO; return -1;
    }
  size_t k = n;
  if (Arm* a = armed(sim::FS_WRITE_SHORT, cWrite)) if (k > 1) { k = 1 + (size_t)a->arg % (k - 1); fire(sim::FS_WRITE_SHORT); }
  if (Arm* a = armedAny(sim::FS_WRITE_FRAG)) if ((size_t)a->arg > 0 && k > (size_t)a->arg) { k = (size_t)a->arg; S->fsFired[sim::FS_WRITE_FRAG]++; countFault(kFsNames[sim::FS_WRITE_FRAG], 1); }
  if (fullLeft >= 0) {
    if (fullLeft == 0 && k > 0) { fire(sim::FS_FULL); errno = ENOSPC; return -1; }
    if ((long)k > fullLeft) k = (size_t)fullLeft;
    fullLeft -= (long)k;
  }
  bool crash = false;
  if (Arm* a = armed(sim::FS_CRASH_WRITE, cWrite)) { k = n ? (size_t)a->arg % (n + 1) : 0; crash = true; fire(sim::FS_CRASH_WRITE); }
  SimFile& f = S->files[d.file];
  if (d.flags & O_APPEND) d.pos = f.size;
  if (d.pos + k > kFileCap) { errno = EFBIG; return -1; }
  char* base = diskData + (size_t)d.file * kFileCap;
  if (d.pos > f.size) memset(base + f.size, 0, d.pos - f.size);
  memcpy(base + d.pos, buf, k);
  d.pos += k;
  if (d.pos > f.size) f.size = d.pos;
  if (crash) _exit(kExitCrash);
  return (ssize_t)k;
}
ssize_t doRead(int fd, void* buf, size_t n) {
  Fd& d = fds[fd - kFdBase];
  if (!d.used) { errno = EBADF; return -1; }
  enterCall();
  cRead++;
  if (armed(sim::FS_READ_EINTR, cRead)) { fire(sim::FS_READ_EINTR); errno = EINTR; return -1; }
  for (int i = 0; i < nArms; i++)
    if (arms[i].kind == sim::FS_READ_ERR && (arms[i].nth == cRead || (arms[i].nth < 0 && cRead >= -arms[i].nth))) {
      fire(sim::FS_READ_ERR); errno = (int)arms[i].arg ? (int)arms[i].arg : EIO; return -1;
    }
  SimFile& f = S->files[d.file];
  size_t left = d.pos < f.size ? f.size - d.pos : 0;
  size_t k = std::min(n, left);
  if (Arm* a = armed(sim::FS_READ_SHORT, cRead)) if (k > 1) { k = 1 + (size_t)a->arg % (k - 1); fire(sim::FS_READ_SHORT); }
  if (Arm* a = armedAny(sim::FS_READ_FRAG)) if ((size_t)a->arg > 0 && k > (size_t)a->arg) { k = (size_t)a->arg; S->fsFired[sim::FS_READ_FRAG]++; countFault(kFsNames[sim::FS_READ_FRAG], 1); }
  memcpy(buf, diskData + (size_t)d.file * kFileCap + d.pos, k);
  d.pos += k;
  return (ssize_t)k;
}
off_t doSeek(int fd, off_t o, int wh) {
  Fd& d = fds[fd - kFdBase];
  if (!d.used) { errno = EBADF; return -1; }
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)d.pos : (off_t)S->files[d.file].size;
  if (b + o < 0) { errno = EINVAL; return -1; }
  d.pos = (size_t)(b + o);
  return (off_t)d.pos;
}
int doClose(int fd) {
  Fd& d = fds[fd - kFdBase];
  if (!d.used) { errno = EBADF; return -1; }
  enterCall();
  cClose++;
  d.used = false;
  if (Arm* a = armed(sim::FS_CLOSE_ERR, cClose)) {
    fire(sim::FS_CLOSE_ERR);
    // delayed write-back failure: part of the data never reached the disk
    if ((d.flags & O_ACCMODE) != O_RDONLY) { SimFile& f = S->files[d.file]; if (f.size) f.size -= 1 + (size_t)a->arg % f.size; }
    errno = EIO;
    return -1;
  }
  return 0;
}
int doSync(int fd) {
  enterCall();
  cSync++;
  if (armed(sim::FS_SYNC_ERR, cSync)) { fire(sim::FS_SYNC_ERR); errno = EIO; return -1; }
  (void)fd;
  return 0;
}
void fillStat(int f, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = (off_t)S->files[f].size; st->st_blksize = 4096;
}
struct Ck { int fd; };
ssize_t ckRead(void* c, char* b, size_t n) { return doRead(((Ck*)c)->fd, b, n); }
ssize_t ckWrite(void* c, const char* b, size_t n) {
  // stdio treats 0 as error and a short count as an error as well; loop on
  // short counts as the C library does for ordinary descriptors
  size_t done = 0;
  while (done < n) {
    ssize_t k = doWrite(((Ck*)c)->fd, b + done, n - done);
    if (k <= 0) return done ? (ssize_t)done : 0;
    done += (size_t)k;
  }
  return (ssize_t)done;
}
int ckSeek(void* c, off64_t* o, int wh) { off_t r = doSeek(((Ck*)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
int ckClose(void* c) { return doClose(((Ck*)c)->fd); }
Ck cks[kMaxFds];

FILE* doFopen(const char* path, const char* mode) {
  int fl;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = doOpen(path, fl);
  if (fd < 0) return nullptr;
  int i = fd - kFdBase;
  cks[i].fd = fd;
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* fp;
  {
    sim::NotSut ns;
    fp = fopencookie(&cks[i], mode, io);
  }
  fds[i].fp = fp;
  return fp;
}
int fdOfFile(FILE* fp) {
  for (int i = 0; i < kMaxFds; i++) if (fds[i].used && fds[i].fp == fp) return kFdBase + i;
  return -1;
}
}  // namespace

namespace sim {
const char* fsFaultName(int k) { return k >= 0 && k <= 16 ? kFsNames[k] : "?"; }
void fsArm(int kind, long nth, long arg) {
  if (kind == FS_FULL) { fullLeft = arg; return; }
  if (nArms < 16) arms[nArms++] = Arm{kind, nth, arg};
}
void fsDisarm() {
  nArms = 0; cOpen = cRead = cWrite = cClose = cCall = cSync = cRename = 0; fullLeft = -1;
  memset(S->fsFired, 0, sizeof S->fsFired);
  S->fsHard = 0;
}
int fsFired(int kind) { return S->fsFired[kind]; }
int fsHardFired() { return S->fsHard; }
bool fsExists(const char* p) { return findFile(p, false) >= 0; }
std::string fsContent(const char* p) {
  int f = findFile(p, false);
  if (f < 0) return std::string();
  return std::string(diskData + (size_t)f * kFileCap, S->files[f].size);
}
void fsPut(const char* p, const std::string& d) {
  int f = findFile(p, true);
  if (f < 0 || d.size() > kFileCap) violation("harness", "simulated disk full of files");
  memcpy(diskData + (size_t)f * kFileCap, d.data(), d.size());
  S->files[f].size = d.size();
}
void fsRemove(const char* p) { int f = findFile(p, false); if (f >= 0) S->files[f].exists = false; }
std::vector<std::string> fsList() {
  std::vector<std::string> v;
  for (int i = 0; i < kMaxFiles; i++) if (S->files[i].exists) v.push_back(S->files[i].name);
  std::sort(v.begin(), v.end());
  return v;
}
long fsCalls() { return S->fsCalls; }
int fsOpen() { int n = 0; for (int i = 0; i < kMaxFds; i++) n += fds[i].used; return n; }
long heapBlocks() { return liveBlocks; }
long heapBytes() { return liveBytes; }
uint64_t fsHash() {
  uint64_t h = 1469598103934665603ull;
  for (auto& n : fsList()) { std::string c = fsContent(n.c_str()); h = hashBytes(n.data(), n.size(), h); h = hashBytes(c.data(), c.size(), h); }
  return h;
}
}  // namespace sim

TS int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (simPath(p)) return doOpen(p, fl);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
TS int open64(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (simPath(p)) return doOpen(p, fl);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
TS int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
TS int openat(int d, const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (simPath(p)) return doOpen(p, fl);
  return (int)syscall(SYS_openat, d, p, fl, mode);
}
TS FILE* fopen(const char* p, const char* m) {
  if (simPath(p)) return doFopen(p, m);
  REAL(FILE*, fopen, const char*, const char*);
  return f_fopen(p, m);
}
TS FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
TS int fileno(FILE* fp) {
  if (g_running) { int fd = fdOfFile(fp); if (fd >= 0) return fd; }
  REAL(int, fileno, FILE*);
  return f_fileno(fp);
}
TS int fileno_unlocked(FILE* fp) { return fileno(fp); }
TS FILE* fdopen(int fd, const char* mode) {
  if (simFd(fd)) {
    int i = fd - kFdBase;
    cks[i].fd = fd;
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    sim::NotSut ns;
    fds[i].fp = fopencookie(&cks[i], mode, io);
    return fds[i].fp;
  }
  REAL(FILE*, fdopen, int, const char*);
  return f_fdopen(fd, mode);
}
TS ssize_t read(int fd, void* b, size_t n) { if (simFd(fd)) return doRead(fd, b, n); return syscall(SYS_read, fd, b, n); }
TS ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
TS ssize_t write(int fd, const void* b, size_t n) { if (simFd(fd)) return doWrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
TS ssize_t writev(int fd, const struct iovec* v, int c) {
  if (simFd(fd)) {
    // one system call: gather, then write (so short counts span the vector)
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    sim::NotSut ns;
    char* tmp = (char*)__libc_malloc(tot ? tot : 1);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(tmp + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = doWrite(fd, tmp, tot);
    int e = errno;
    __libc_free(tmp);
    errno = e;
    return r;
  }
  return syscall(SYS_writev, fd, v, c);
}
TS ssize_t readv(int fd, const struct iovec* v, int c) {
  if (simFd(fd)) return c > 0 ? doRead(fd, v[0].iov_base, v[0].iov_len) : 0;
  return syscall(SYS_readv, fd, v, c);
}
TS ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (simFd(fd)) { size_t s = fds[fd - kFdBase].pos; fds[fd - kFdBase].pos = (size_t)o; ssize_t r = doWrite(fd, b, n); fds[fd - kFdBase].pos = s; return r; }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
TS ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (simFd(fd)) { size_t s = fds[fd - kFdBase].pos; fds[fd - kFdBase].pos = (size_t)o; ssize_t r = doRead(fd, b, n); fds[fd - kFdBase].pos = s; return r; }
  return syscall(SYS_pread64, fd, b, n, o);
}
TS off_t lseek(int fd, off_t o, int w) { if (simFd(fd)) return doSeek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
TS off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
TS int close(int fd) { if (simFd(fd)) return doClose(fd); return (int)syscall(SYS_close, fd); }
TS int fsync(int fd) { if (simFd(fd)) return doSync(fd); return (int)syscall(SYS_fsync, fd); }
TS int fdatasync(int fd) { if (simFd(fd)) return doSync(fd); return (int)syscall(SYS_fdatasync, fd); }
TS int ftruncate(int fd, off_t n) {
  if (simFd(fd)) { enterCall(); S->files[fds[fd - kFdBase].file].size = (size_t)n; return 0; }
  return (int)syscall(SYS_ftruncate, fd, n);
}
TS int truncate(const char* p, off_t n) {
  if (simPath(p)) { enterCall(); int f = findFile(p, false); if (f < 0) { errno = ENOENT; return -1; } S->files[f].size = (size_t)n; return 0; }
  return (int)syscall(SYS_truncate, p, n);
}
TS int ioctl(int fd, unsigned long r, ...) {
  va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap);
  if (simFd(fd)) { errno = ENOTTY; return -1; }
  return (int)syscall(SYS_ioctl, fd, r, a);
}
TS int poll(struct pollfd* f, nfds_t n, int t) {
  if (n >= 1 && simFd(f[0].fd)) { f[0].revents = f[0].events; return 1; }
  return (int)syscall(SYS_poll, f, n, t);
}
TS int fstat(int fd, struct stat* st) {
  if (simFd(fd)) { fillStat(fds[fd - kFdBase].file, st); return 0; }
  REAL(int, fstat, int, struct stat*);
  return f_fstat(fd, st);
}
TS int stat(const char* p, struct stat* st) {
  if (simPath(p)) { int f = findFile(p, false); if (f < 0) { errno = ENOENT; return -1; } fillStat(f, st); return 0; }
  REAL(int, stat, const char*, struct stat*);
  return f_stat(p, st);
}
TS int lstat(const char* p, struct stat* st) {
  if (simPath(p)) return stat(p, st);
  REAL(int, lstat, const char*, struct stat*);
  return f_lstat(p, st);
}
TS int access(const char* p, int m) {
  if (simPath(p)) { if (findFile(p, false) >= 0) return 0; errno = ENOENT; return -1; }
  return (int)syscall(SYS_access, p, m);
}
TS int unlink(const char* p) {
  if (simPath(p)) { enterCall(); int f = findFile(p, false); if (f < 0) { errno = ENOENT; return -1; } S->files[f].exists = false; return 0; }
  return (int)syscall(SYS_unlink, p);
}
TS int remove(const char* p) { return unlink(p); }
TS int rename(const char* a, const char* b) {
  if (simPath(a)) {
    enterCall();
    cRename++;
    if (armed(sim::FS_RENAME_ERR, cRename)) { fire(sim::FS_RENAME_ERR); errno = EIO; return -1; }
    int f = findFile(a, false);
    if (f < 0) { errno = ENOENT; return -1; }
    int g = findFile(b, false);
    if (g >= 0 && g != f) S->files[g].exists = false;
    snprintf(S->files[f].name, sizeof S->files[f].name, "%s", b);
    return 0;
  }
  return (int)syscall(SYS_rename, a, b);
}
TS int mkdir(const char* p, mode_t m) { if (simPath(p)) return 0; return (int)syscall(SYS_mkdir, p, m); }

// ================================================================ run control
namespace {

void onSignal(int sig, siginfo_t*, void*) {
  t_sut = 0;
  if (sig == SIGABRT) { signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(96); }
  char m[128];
  snprintf(m, sizeof m, sig == SIGXCPU ? "operation did not finish (CPU time limit)" : "signal %d (%s)", sig, strsignal(sig));
  vViolation(sig == SIGXCPU ? "no-progress" : "signal", m);
}
void checkFailed() { _exit(kExitCheck); }
void onTerminate() {
  t_sut = 0;
  _exit(kExitException);
}

struct RunResult {
  bool violated = false;
  std::string cls, msg;
  uint64_t hash = 0, schedHash = 0;
};

uint64_t finalHash() {
  uint64_t v[6] = {S->evHash, S->schedHash, S->steps, (uint64_t)S->evCount, S->allocs, (uint64_t)S->violated};
  uint64_t h = sim::hashBytes(v, sizeof v);
  h = sim::hashBytes(S->cls, strlen(S->cls), h);
  return h;
}

void resetShared() {
  size_t head = offsetof(Shared, sched);
  memset((void*)S, 0, head);
  S->evLen = 0;
  memset(S->files, 0, sizeof S->files);
  S->fsCalls = 0; S->fsHard = 0;
  memset(S->fsFired, 0, sizeof S->fsFired);
}

// Executes one plan in a fresh child process.
RunResult execute(const sim::Plan& plan) {
  resetShared();
  pid_t pid = fork();
  if (pid == 0) {
    P = &plan;
    switchBudget = plan.iparam("switches", 6000);
    struct rlimit rl{60, 80};
    setrlimit(RLIMIT_CPU, &rl);
    if (!g_verbose) { int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); dup2(dn, 1); dup2(dn, 2); }
    std::set_terminate(onTerminate);
    g_running = true;
    try { sim::g_scenario.run(plan); }
    catch (const std::exception& e) { t_sut = 0; sim::violation("exception", "unexpected exception: %s", e.what()); }
    t_sut = 0;
    S->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  RunResult r;
  if (!S->violated && !S->done && S->mayAbort && (WIFSIGNALED(st) ? WTERMSIG(st) == SIGABRT : WEXITSTATUS(st) == kExitCheck)) S->done = 1;  // loud rejection
  if (!S->violated && !S->done) {
    S->violated = 1;
    if (WIFSIGNALED(st)) { snprintf(S->cls, sizeof S->cls, "abort"); snprintf(S->msg, sizeof S->msg, "the process was killed by signal %d", WTERMSIG(st)); }
    else if (WEXITSTATUS(st) == kExitCheck) { snprintf(S->cls, sizeof S->cls, "abort"); snprintf(S->msg, sizeof S->msg, "an internal check of the library failed during legal use"); }
    else if (WEXITSTATUS(st) == kExitException) { snprintf(S->cls, sizeof S->cls, "terminate"); snprintf(S->msg, sizeof S->msg, "std::terminate was called"); }
    else { snprintf(S->cls, sizeof S->cls, "exit"); snprintf(S->msg, sizeof S->msg, "the process exited with status %d", WEXITSTATUS(st)); }
  }
  r.violated = S->violated;
  r.cls = S->cls; r.msg = S->msg;
  r.hash = finalHash();
  r.schedHash = S->schedHash;
  return r;
}

void writePlan(FILE* o, const sim::Plan& p, bool withSched) {
  fprintf(o, "scenario %s\nseed %llu\n", p.scenario.c_str(), (unsigned long long)p.seed);
  for (auto& kv : p.params) fprintf(o, "param %s %s\n", kv.first.c_str(), kv.second.c_str());
  for (auto& op : p.ops) {
    fprintf(o, "op %d %s", op.tid, op.name.c_str());
    for (double d : op.a) { if (d == (double)(long long)d && __builtin_fabs(d) < 1e15) fprintf(o, " %lld", (long long)d); else fprintf(o, " %a", d); }
    fprintf(o, "\n");
  }
  if (withSched) for (int i = 0; i < S->nSched; i++) fprintf(o, "sched %d %llu %d\n", S->sched[i].tid, (unsigned long long)S->sched[i].n, S->sched[i].to);
}

bool readPlan(const char* path, sim::Plan& p) {
  std::ifstream in(path);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "scenario") ss >> p.scenario;
    else if (k == "seed") ss >> p.seed;
    else if (k == "param") { std::string a, b; ss >> a >> b; p.params[a] = b; }
    else if (k == "op") {
      sim::Op o; ss >> o.tid >> o.name;
      std::string t;
      while (ss >> t) o.a.push_back(strtod(t.c_str(), nullptr));
      p.ops.push_back(o);
    } else if (k == "sched") { sim::SchedEnt e; ss >> e.tid >> e.n >> e.to; p.sched.push_back(e); }
  }
  p.replay = true;
  return true;
}

sim::Plan makePlan(uint64_t seed, int tier) {
  sim::Plan p;
  p.scenario = sim::g_scenario.id;
  p.seed = seed;
  sim::Rng r(seed);
  sim::randomPolicy(p, r);
  sim::g_scenario.gen(p, r, tier);
  return p;
}

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

double wallNow() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

int worker(uint64_t base, uint64_t count, uint64_t stride, uint64_t offset, int tier, const char* outDir, double maxWall, int maxViol) {
  std::map<std::string, uint64_t> probes, faults;
  std::unordered_set<uint64_t> states, inter, evs;
  uint64_t runs = 0, steps = 0, switches = 0, shared = 0, allocs = 0, events = 0, faultRuns = 0, ops = 0, fscalls = 0, maxSteps = 0;
  double simSec = 0, t0 = wallNow();
  int viol = 0;
  std::string samples;
  bool timedOut = false;
  std::string hashes;
  for (uint64_t i = offset; i < count; i += stride) {
    if (maxWall > 0 && wallNow() - t0 > maxWall) { timedOut = true; break; }
    uint64_t seed = base + i;
    sim::Plan p = makePlan(seed, tier);
    RunResult r = execute(p);
    runs++;
    maxSteps = std::max(maxSteps, S->steps);
    steps += S->steps; switches += S->switches; shared += S->sharedAcc; allocs += S->allocs; events += S->evCount; simSec += S->simSeconds; ops += p.ops.size(); fscalls += S->fsCalls;
    for (int k = 0; k < S->nCounters; k++) probes[S->counters[k].name] += S->counters[k].n;
    if (S->nFaults) faultRuns++;
    for (int k = 0; k < S->nFaults; k++) faults[S->faults[k].name] += S->faults[k].n;
    for (int k = 0; k < S->nStates; k++) states.insert(S->states[k]);
    if (S->switches) inter.insert(S->schedHash);
    evs.insert(S->evHash);
    if (offset == 0 && runs <= 2) {
      char b[200]; std::ostringstream so;
      snprintf(b, sizeof b, "seed %llu: policy %d, %zu ops, %llu switches, %llu steps; ops: ", (unsigned long long)seed, p.policy, p.ops.size(), (unsigned long long)S->switches, (unsigned long long)S->steps);
      so << b;
      for (size_t k = 0; k < p.ops.size() && k < 12; k++) { so << p.ops[k].tid << ":" << p.ops[k].name << "("; for (size_t q = 0; q < p.ops[k].a.size() && q < 4; q++) so << (q ? "," : "") << p.ops[k].a[q]; so << ") "; }
      samples += (samples.empty() ? "" : ",") + jstr(so.str());
    }
    if (r.violated) {
      char f[512];
      snprintf(f, sizeof f, "%s/viol-%llu.plan", outDir, (unsigned long long)seed);
      FILE* o = fopen(f, "w");
      writePlan(o, p, true);
      fprintf(o, "# class %s\n# %s\n", r.cls.c_str(), r.msg.c_str());
      fclose(o);
      viol++;
      if (viol >= maxViol) break;
    }
  }
  char f[512];
  snprintf(f, sizeof f, "%s/states-%llu.bin", outDir, (unsigned long long)offset);
  FILE* o = fopen(f, "wb");
  for (uint64_t h : states) fwrite(&h, 8, 1, o);
  fclose(o);
  snprintf(f, sizeof f, "%s/inter-%llu.bin", outDir, (unsigned long long)offset);
  o = fopen(f, "wb");
  for (uint64_t h : inter) fwrite(&h, 8, 1, o);
  fclose(o);
  snprintf(f, sizeof f, "%s/evs-%llu.bin", outDir, (unsigned long long)offset);
  o = fopen(f, "wb");
  for (uint64_t h : evs) fwrite(&h, 8, 1, o);
  fclose(o);
  std::ostringstream js;
  js << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"max_steps\":" << maxSteps << ",\"switches\":" << switches << ",\"shared_accesses\":" << shared << ",\"allocations\":" << allocs << ",\"events\":" << events
     << ",\"ops\":" << ops << ",\"fs_calls\":" << fscalls << ",\"fault_runs\":" << faultRuns << ",\"sim_seconds\":" << simSec << ",\"violations\":" << viol << ",\"timed_out\":" << (timedOut ? "true" : "false")
     << ",\"wall\":" << wallNow() - t0 << ",\"probes\":{";
  bool first = true;
  for (auto& kv : probes) { js << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second; first = false; }
  js << "},\"faults\":{";
  first = true;
  for (auto& kv : faults) { js << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second; first = false; }
  js << "},\"samples\":[" << samples << "]}";
  snprintf(f, sizeof f, "%s/summary-%llu.json", outDir, (unsigned long long)offset);
  o = fopen(f, "w");
  fprintf(o, "%s\n", js.str().c_str());
  fclose(o);
  return 0;
}

void setupProcess(int cpu) {
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  diskData = (char*)mmap(nullptr, (size_t)kMaxFiles * kFileCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  areaData = (uint64_t*)mmap(nullptr, kArea * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* a = mmap((void*)kArenaBase, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap((void*)kShadowBase, kArenaSize >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (S == MAP_FAILED || diskData == MAP_FAILED || a == MAP_FAILED || b == MAP_FAILED) { perror("mmap"); exit(3); }
  mallopt(M_ARENA_MAX, 1);  // the harness's own memory is at the same addresses in every execution, too
  pthread_key_create(&sim::endKey, sim::threadEnd);
  realFn(sim::real_pthread_create, "pthread_create");
  realFn(sim::real_pthread_join, "pthread_join");
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  google::InstallFailureFunction(&checkFailed);
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  LOG(INFO) << "warm-up";
  { std::ostringstream w; w << 1.5 << " " << 3; double d; std::istringstream q("1.5"); q >> d; }
  if (cpu >= 0) {
    cpu_set_t all;
    if (!sched_getaffinity(0, sizeof all, &all)) {
      int n = CPU_COUNT(&all), k = cpu % (n > 0 ? n : 1);
      for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &all) && k-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "worker" && argc >= 9) {
    setupProcess(atoi(argv[5]));
    return worker(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), strtoull(argv[5], nullptr, 10), atoi(argv[6]), argv[7], atof(argv[8]), argc > 9 ? atoi(argv[9]) : 3);
  }
  if (cmd == "hashes" && argc >= 5) {  // base count tier [stride offset]
    setupProcess(-1);
    uint64_t base = strtoull(argv[2], nullptr, 10), n = strtoull(argv[3], nullptr, 10);
    uint64_t stride = argc > 5 ? strtoull(argv[5], nullptr, 10) : 1, off = argc > 6 ? strtoull(argv[6], nullptr, 10) : 0;
    for (uint64_t i = off; i < n; i += stride) {
      sim::Plan p = makePlan(base + i, atoi(argv[4]));
      RunResult r = execute(p);
      printf("%llu %016llx %llu\n", (unsigned long long)(base + i), (unsigned long long)r.hash, (unsigned long long)S->switches);
      fflush(stdout);
    }
    return 0;
  }
  if ((cmd == "replay" || cmd == "explain") && argc >= 3) {
    g_verbose = cmd == "explain";
    setupProcess(-1);
    sim::Plan p;
    if (!readPlan(argv[2], p) || p.scenario != sim::g_scenario.id) { fprintf(stderr, "cannot read plan\n"); return 3; }
    RunResult r = execute(p);
    if (g_verbose) { fwrite(S->evText, 1, S->evLen, stdout); }
    printf("%s %016llx %s | %s\n", r.violated ? "VIOLATED" : "HELD", (unsigned long long)r.hash, r.violated ? r.cls.c_str() : "-", r.violated ? r.msg.c_str() : "-");
    return r.violated ? 1 : 0;
  }
  if (cmd == "plan" && argc >= 4) {  // seed tier
    setupProcess(-1);
    sim::Plan p = makePlan(strtoull(argv[2], nullptr, 10), atoi(argv[3]));
    RunResult r = execute(p);
    writePlan(stdout, p, true);
    printf("# %s %s %s\n", r.violated ? "VIOLATED" : "HELD", r.cls.c_str(), r.msg.c_str());
    return 0;
  }
  if (cmd == "distinct") {  // files...
    std::unordered_set<uint64_t> s;
    for (int i = 2; i < argc; i++) {
      FILE* f = fopen(argv[i], "rb");
      if (!f) continue;
      uint64_t h;
      while (fread(&h, 8, 1, f) == 1) s.insert(h);
      fclose(f);
    }
    printf("%zu\n", s.size());
    return 0;
  }
  fprintf(stderr, "usage: sim worker|hashes|replay|explain|plan|distinct ...\n");
  return 3;
}
