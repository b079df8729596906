// Deterministic simulation core: interface used by the scenarios.
//
// One seed -> one plan (operations, faults, schedule policy) -> one execution.
// Every run executes in its own forked process; real threads are parked and
// released one at a time by the scheduler in sim_core.cpp, which preempts them
// at memory accesses (the code under test is compiled with -fsanitize=thread
// against our own __tsan_* callbacks), synchronisation calls and simulated
// system calls.  Heap, disk, clock and randomness are simulated.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
// always inlined: the scheduler must never run an instrumented copy of it
#define SIM_INLINE __attribute__((always_inline))
struct Rng {
  uint64_t s;
  // the seed is scrambled so that neighbouring seeds do not give shifted copies of one stream
  explicit Rng(uint64_t seed = 1) : s(seed ^ 0x632BE59BD9B4E019ull) { uint64_t a = next(); s = a * 0xD6E8FEB86659FD93ull ^ (a >> 32); s ^= next(); next(); }
  SIM_INLINE uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  SIM_INLINE uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  SIM_INLINE int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }  // inclusive
  SIM_INLINE double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  SIM_INLINE double uni(double a, double b) { return a + (b - a) * unit(); }
  SIM_INLINE bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------------- plan
struct Op {
  int tid;
  std::string name;
  std::vector<double> a;
  double arg(size_t i, double def = 0) const { return i < a.size() ? a[i] : def; }
  int iarg(size_t i, int def = 0) const { return i < a.size() ? (int)a[i] : def; }
};
struct SchedEnt { int tid; uint64_t n; int to; };
struct Plan {
  std::string scenario;
  uint64_t seed = 0;
  std::map<std::string, std::string> params;
  std::vector<Op> ops;
  std::vector<SchedEnt> sched;
  bool replay = false;  // use sched instead of the policy
  // schedule policy (seed mode)
  int policy = 0;       // 0 none/round robin on block, 1 random-p, 2 conflict directed, 3 PCT
  double p = 0.0;
  uint64_t pseed = 1;
  uint64_t horizon = 10000;
  int depth = 3;
  void add(int tid, const char* name, std::vector<double> a = {}) { ops.push_back(Op{tid, name, std::move(a)}); }
  int iparam(const char* k, int def) const {
    auto it = params.find(k);
    return it == params.end() ? def : atoi(it->second.c_str());
  }
  void setParam(const char* k, int v) { params[k] = std::to_string(v); }
};
void randomPolicy(Plan& plan, Rng& rng);

// ----------------------------------------------------------------- scenarios
struct Scenario {
  const char* id;
  void (*gen)(Plan& plan, Rng& rng, int tier);
  void (*run)(const Plan& plan);
};
extern "C" Scenario g_scenario;

// ------------------------------------------------------------ run-time calls
// Marks code under test: only inside are preemption points, injected faults
// and the checked heap active.
struct Sut { Sut(); ~Sut(); };
struct NotSut { int saved; NotSut(); ~NotSut(); };

// Run the given bodies as simulated threads until all have finished.
void runThreads(const std::vector<std::function<void()>>& bodies);
uint64_t steps();  // instrumented steps of this run so far (a run may take 600 million)
int self();  // simulated thread index, 0 for the main thread

// Fork an incarnation of the simulated process; disk, log and counters survive.
enum Outcome { OUT_OK = 0, OUT_CHECK = 1, OUT_EXCEPTION = 2, OUT_CRASH = 3, OUT_SIGNAL = 4, OUT_EXIT = 5 };
Outcome incarnation(const std::function<void()>& body);
const char* outcomeName(Outcome o);
uint64_t* area(size_t n);  // at least n numbers shared likewise
long& slot(int i);  // 16 numbers shared by the scenario and its incarnations
// While on, an abort of the whole process (CHECK, assert) is a legal loud
// rejection and ends the run without a violation.
void mayAbort(bool on);

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void eventHash(uint64_t h);             // adds to the event-log hash only
void state(uint64_t h);                 // a distinct-state fingerprint (coverage)
void probe(const char* name, uint64_t n = 1);
void faultFired(const char* name, uint64_t n = 1);
void simTime(double seconds);           // simulated time covered
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hashD(double d, uint64_t h = 1469598103934665603ull) { return hashBytes(&d, sizeof d, h); }
bool verbose();

// allocation faults: the nth allocation inside code under test (1-based, from
// now) fails, and the `count` that follow (count<0: all until disarmed).
void armAlloc(long nth, long count);
void disarmAlloc();
bool allocFired();
long heapBlocks();  // blocks allocated by code under test and not freed yet
long heapBytes();

// simulated disk
enum FsFault { FS_NONE = 0, FS_OPEN_ERR = 1, FS_WRITE_ERR = 2, FS_WRITE_SHORT = 3, FS_WRITE_EINTR = 4,
  FS_READ_ERR = 5, FS_READ_SHORT = 6, FS_READ_EINTR = 7, FS_CLOSE_ERR = 8, FS_FULL = 9,
  FS_CRASH_CALL = 10, FS_CRASH_WRITE = 11, FS_READ_FRAG = 12, FS_WRITE_FRAG = 13, FS_SYNC_ERR = 14, FS_RENAME_ERR = 15, FS_STALL = 16 };
const char* fsFaultName(int k);
void fsArm(int kind, long nth, long arg);   // cumulative until fsDisarm
void fsDisarm();
int fsFired(int kind);                      // how often it fired since fsArm/fsDisarm
int fsHardFired();                          // errors (not short or fragmented transfers) fired since fsDisarm
bool fsExists(const char* path);
std::string fsContent(const char* path);
void fsPut(const char* path, const std::string& data);
void fsRemove(const char* path);
std::vector<std::string> fsList();
long fsCalls();                             // system calls on the simulated disk so far
int fsOpen();                               // descriptors open on the simulated disk
uint64_t fsHash();

}  // namespace sim
