// C15: a copy of a trajectory or curve is complete and independent of its
// original, whatever either goes through afterwards, also on other threads and
// with allocations failing while copying.
//
// Oracle: an object is its history (list of operations); copying an object
// copies the list. An object must equal a fresh one that its list was applied to.
#include "../fitobj.h"
using namespace sim;

enum { SLOTS = 4 };
typedef std::vector<const Op*> Hist;

static void work(Plan& p, Rng& r, int slot, int kind) {
  if (kind <= CONT5 && r.chance(0.5)) {
    switch (r.range(0, 3)) {
      case 0: p.add(slot, "tick", {r.uni(0, 3)}); break;
      case 1: p.add(slot, "seek", {r.uni(-1, 10)}); break;
      case 2: p.add(slot, "add", {r.uni(0.1, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}); break;
      default: p.add(slot, "rewind"); break;
    }
  } else if (r.chance(0.12)) p.add(slot, "clear");
  else genFit(p, r, slot, "fit", kind, 0);
}

static void gen(Plan& p, Rng& r, int) {
  int kind = r.range(0, NKINDS - 1);
  p.setParam("kind", kind);
  double pf = r.chance(0.5) ? r.uni(0.2, 0.9) : 0, pCopy = r.uni(0.2, 0.6);
  int m = r.range(3, r.chance(0.15) ? 30 : 12);
  for (int i = 0; i < m; i++) {
    int slot = r.range(1, SLOTS);
    if (i > 0 && r.chance(pCopy)) {
      if (r.chance(pf)) p.add(0, "armalloc", {(double)r.range(1, r.chance(0.6) ? 6 : 30), r.chance(0.7) ? 1.0 : -1.0});
      int from = r.range(1, SLOTS);
      p.add(slot, r.chance(0.5) ? "copy" : r.chance(0.9) ? "assign" : "swap", {(double)from});
    } else if (r.chance(0.06)) p.add(slot, "fresh");
    else work(p, r, slot, kind);
  }
  if (r.chance(0.6)) {
    // every thread works on an object of its own; all may copy object 1, which none changes
    p.add(0, "threads");
    int n = r.range(2, SLOTS);
    for (int t = 2; t <= n; t++) {
      int q = r.range(1, 5);
      for (int i = 0; i < q; i++) {
        if (r.chance(0.4)) p.add(t, r.chance(0.5) ? "copy" : "assign", {1.0});
        else work(p, r, t, kind);
      }
    }
    if (n == 2) { int q = r.range(1, 4); for (int i = 0; i < q; i++) { p.add(3, "copy", {1.0}); if (r.chance(0.5)) work(p, r, 3, kind); } }
    if (p.policy == 3) p.horizon = (uint64_t)std::pow(10.0, r.uni(2, 5));
  } else p.policy = 0;
}

static int kind;
struct Obj { FitObj* o = nullptr; Hist h; };
static Obj ob[SLOTS + 1];

static void one(FitObj& o, const Op& op) {
  const std::string& n = op.name;
  if (n == "fit") { Fit f(op); if (o.valid(f)) o.fit(f); }
  else if (n == "clear") o.clear();
  else if (n == "tick") { if (o.canPlay()) o.tick(op.arg(0)); }
  else if (n == "seek") { if (o.canPlay()) o.seek(op.arg(0)); }
  else if (n == "rewind") { if (o.canPlay()) o.seek(0); }
  else if (n == "add") { if (o.canPlay()) o.addSeg(&op.a[1], op.arg(0)); }
}
static void times(const Hist& h, const FitObj& o, std::vector<double>& ts) {
  ts.push_back(0.3);
  size_t from = h.size() > 3 ? h.size() - 3 : 0;
  for (size_t i = from; i < h.size(); i++) if (h[i]->name == "fit") sampleTimes(Fit(*h[i]), o, ts);
  double D = o.tMax();
  ts.push_back(D); ts.push_back(D - 0.2); ts.push_back(D + 5);
}
static FitObj* rebuilt(const Hist& h) { FitObj* f = makeObj(kind); for (const Op* q : h) one(*f, *q); return f; }
static bool is(const Obj& x, const Hist& h, std::string* why = nullptr) {
  std::vector<double> ts;
  times(x.h, *x.o, ts); times(h, *x.o, ts);
  FitObj* f = rebuilt(h);
  bool same = sameObs(x.o->observe(ts, true), f->observe(ts, true), 0, why);
  freeObj(f);
  return same;
}
static void checkAll(const char* after, const Op& op) {
  for (int s = 1; s <= SLOTS; s++) {
    std::string why;
    if (!is(ob[s], ob[s].h, &why))
      violation(s == op.tid ? "copy-differs" : "not-independent", "after %s on object %d, object %d (%s) is not what its own history made it: %s", after, op.tid, s, kindName(kind), why.c_str());
    std::vector<double> ts; times(ob[s].h, *ob[s].o, ts);
    Obs a = ob[s].o->observe(ts, true);
    uint64_t h = hashBytes(a.data(), a.size() * 8);
    state(h); eventHash(h);
  }
}
static void replace(Obj& x, FitObj* n) { FitObj* old = x.o; x.o = n; freeObj(old); }

static void run(const Plan& p) {
  kind = p.iparam("kind", CONT5);
  for (int s = 1; s <= SLOTS; s++) ob[s].o = makeObj(kind);
  double armed[2] = {0, 0};
  size_t i = 0;
  for (; i < p.ops.size(); i++) {
    const Op& op = p.ops[i];
    const std::string& n = op.name;
    if (n == "threads") { i++; break; }
    if (n == "armalloc") { armed[0] = op.arg(0); armed[1] = op.arg(1); continue; }
    Obj& to = ob[op.tid];
    if (n == "copy" || n == "assign" || n == "swap") {
      Obj& from = ob[std::min((int)SLOTS, std::max(1, op.iarg(0)))];
      bool failed = false;
      if (n == "swap") {
        if (&from != &to) {
          FitObj* t = from.o->clone();
          from.o->assign(*to.o); to.o->assign(*t);
          freeObj(t);
          from.h.swap(to.h);
        }
      } else {
        if (armed[0] > 0) armAlloc((long)armed[0], (long)armed[1]);
        try {
          if (n == "copy") replace(to, from.o->clone());
          else to.o->assign(*from.o);
        } catch (const std::bad_alloc&) { failed = true; }
        bool fired = allocFired();
        disarmAlloc();
        if (failed) {
          if (!fired) violation("exception", "copying ran out of memory although no allocation failed");
          probe("copy_failed_by_alloc");
          bool old = is(to, to.h), neu = is(to, from.h), none = is(to, Hist());
          if (n == "assign" && !old && !neu && !none) violation("half-copied", "after an assignment that failed for lack of memory the %s is neither what it was nor the copy nor empty", kindName(kind));
          if (n == "copy" && !old) violation("half-copied", "a copy that failed for lack of memory changed another object (%s)", kindName(kind));
          probe("retry");
          if (n == "copy") replace(to, from.o->clone()); else to.o->assign(*from.o);
        }
        if (&from != &to) to.h = from.h;
      }
      probe(n.c_str());
    } else if (n == "fresh") { replace(to, makeObj(kind)); to.h.clear(); }
    else { one(*to.o, op); to.h.push_back(&op); if (n == "tick") simTime(op.arg(0)); if (n == "clear" && kind > CONT5) to.h.clear(); }
    armed[0] = 0;
    checkAll(n.c_str(), op);
    event("%s %d", n.c_str(), op.tid);
  }
  if (i < p.ops.size()) {
    std::vector<std::function<void()>> bodies;
    std::vector<int> slots;
    for (int t = 2; t <= SLOTS; t++) { bool any = false; for (size_t k = i; k < p.ops.size(); k++) any |= p.ops[k].tid == t; if (any) slots.push_back(t); }
    for (int t : slots)
      bodies.push_back([&p, i, t] {
        for (size_t k = i; k < p.ops.size(); k++) {
          const Op& op = p.ops[k];
          if (op.tid != t) continue;
          Obj& to = ob[t];
          if (op.name == "copy") { replace(to, ob[1].o->clone()); to.h = ob[1].h; }
          else if (op.name == "assign") { to.o->assign(*ob[1].o); to.h = ob[1].h; }
          else if (op.name == "fit" || op.name == "clear" || op.name == "tick" || op.name == "seek" || op.name == "rewind" || op.name == "add") { one(*to.o, op); to.h.push_back(&op); }
        }
      });
    runThreads(bodies);
    probe("threads_compared", slots.size());
    Op none{0, "threads", {}};
    checkAll("the threads' work", none);
  }
  for (int s = 1; s <= SLOTS; s++) freeObj(ob[s].o);
}
namespace sim { extern "C" { Scenario g_scenario = {"C15", gen, run}; } }
