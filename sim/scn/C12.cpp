// C12: a fitted object depends only on its last accepted fit.
// C08 (-DWITH_ALLOC_FAULTS): failing allocations never leave a half-built one.
#include <cstring>
#include "../fitobj.h"
using namespace sim;

#ifdef WITH_ALLOC_FAULTS
static const char* kId = "C08";
static const bool kFaults = true;
#else
static const char* kId = "C12";
static const bool kFaults = false;
#endif

static void gen(Plan& p, Rng& r, int tier) {
  p.policy = 0;
  int kind = r.range(0, (int)NKINDS - 1);
  if (r.chance(0.3)) kind = r.chance(0.5) ? SCALAR : VECTOR3;
  p.setParam("kind", kind);
  if (r.chance(0.3)) p.setParam("alone", 1);
  int m = r.range(2, r.chance(0.1) ? 40 : 8);
  double pBad = kFaults ? 0 : r.uni(0, 0.5), pPlay = r.uni(0, 0.4), pAdd = r.uni(0, 0.2), pf = kFaults ? r.uni(0.3, 1.0) : 0;
  auto fault = [&] {
    if (!r.chance(pf)) return;
    int hi = r.chance(0.5) ? 8 : r.chance(0.5) ? 40 : 300;
    p.add(0, "armalloc", {(double)r.range(1, hi), r.chance(0.75) ? 1.0 : (r.chance(0.5) ? (double)r.range(2, 8) : -1.0)});
  };
  for (int i = 0; i < m; i++) {
    if (r.chance(pPlay) && kind <= CONT5) {
      if (r.chance(0.5)) p.add(0, "seek", {r.uni(-2, 12)});
      else p.add(0, "tick", {r.uni(0, 3)});
    } else if (r.chance(pAdd) && kind <= CONT5) { fault(); p.add(0, "add", {r.uni(0.1, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}); }
    else if (r.chance(0.1)) p.add(0, "clear");
    else if (r.chance(pBad) && kind < HERMITE) genFit(p, r, 0, "fit", kind, r.range(1, 5));
    else { fault(); genFit(p, r, 0, "fit", kind, 0); }
  }
  (void)tier;
}

// What a fit gives in a process that has done nothing else, for the first fits of a run.
struct Alone { const Op* op; size_t at, n; };
static std::vector<Alone> alone;
static std::vector<double> aloneTimes(const Fit& f, const FitObj& o) { std::vector<double> ts; sampleTimes(f, o, ts); return ts; }
static void fitAlone(const Plan& p, int kind) {
  alone.clear();
  uint64_t* a = area(1 << 16);
  size_t at = 0;
  for (auto& op : p.ops) {
    if (op.name != "fit" || alone.size() >= 5 || at > 50000) continue;
    slot(5) = 0;
    Outcome out = incarnation([&] {
      FitObj* o = makeObj(kind);
      Fit f(op);
      if (!o->valid(f) || !o->fit(f)) return;
      Obs v = o->observe(aloneTimes(f, *o), true);
      if (at + v.size() > (1 << 16)) return;
      memcpy(a + at, v.data(), v.size() * 8);
      slot(5) = (long)v.size();
    });
    if (out != OUT_OK) violation("fit-failed", "a fit of a fresh %s in a fresh process ended with %s", kindName(kind), outcomeName(out));
    if (slot(5)) { alone.push_back({&op, at, (size_t)slot(5)}); at += (size_t)slot(5); }
  }
}

struct Ctx {
  int kind;
  FitObj* o;
  std::vector<const Op*> since;  // the last accepted fit and the extensions after it
  Fit last;                       // last accepted fit (for sampling)
  bool pristinePlayback = true;

  FitObj* fresh() {
    FitObj* f = makeObj(kind);
    for (const Op* q : since) { if (q->name == "fit") f->fit(Fit(*q)); else f->addSeg(&q->a[1], q->arg(0)); }
    return f;
  }
  static bool emptyObs(const Obs& a, const Obs& e) { return std::fabs(a[1] - a[0]) <= 1e-12 * (1 + std::fabs(a[0])) && sameObs(a, e, 2); }

  void points(const Fit& f) {
    if (!o->valid(f)) return;
    double scale = 1, T = f.t.back() - f.t.front();
    for (double x : f.x) scale = std::max(scale, std::fabs(x));
    scale += (std::fabs(f.v0) + std::fabs(f.vT)) * T + (std::fabs(f.a0) + std::fabs(f.aT)) * T * T;
    double tol = 2e-6 * scale + 1e-14 * std::fabs(f.t.front()) * f.t.size() * scale * 10;
    double sh = o->minTime(f) - f.t.front();
    if (std::fabs(o->tMin() - o->minTime(f)) > 1e-9 || std::fabs(o->tMax() - (f.t.back() + sh)) > 1e-9 * (1 + std::fabs(f.t.back())))
      violation("wrong-range", "%s fitted to [%.12g, %.12g] reports the range [%.12g, %.12g]", kindName(kind), f.t.front() + sh, f.t.back() + sh, o->tMin(), o->tMax());
    for (size_t i = 0; i < f.t.size(); i++) {
      double v[MAXDIM] = {0}; bool ok;
      { Sut s; ok = o->eval(f.t[i] + sh, v); }
      for (int k = 0; k < o->dim(); k++)
        if (!ok || !(std::fabs(v[k] - o->point(f, i, k)) <= tol)) violation("point-missed", "%s at time %.12g of point %zu of %zu gives %.9g instead of %.9g", kindName(kind), f.t[i] + sh, i, f.t.size(), ok ? v[k] : NAN, o->point(f, i, k));
    }
    bool opts = (kind >= CONT1 && kind <= CONT5) ? f.variant % 3 == 2 : f.variant % 3 != 0;
    if (o->endsMeet() && opts)
      for (int e = 0; e < 2; e++) {
        double v[MAXDIM], a[MAXDIM], t = e ? o->tMax() : o->tMin();
        { Sut s; o->deriv(t, 1, v); o->deriv(t, 2, a); }
        for (int k = 0; k < o->dim(); k++) {
          if (!(std::fabs(v[k] - f.vel(e, k)) <= 1e-4 * scale)) violation("end-condition", "%s: %s velocity is %.9g, requested %.9g", kindName(kind), e ? "final" : "initial", v[k], f.vel(e, k));
          if (!(std::fabs(a[k] - f.acc(e, k)) <= 1e-3 * scale)) violation("end-condition", "%s: %s acceleration is %.9g, requested %.9g", kindName(kind), e ? "final" : "initial", a[k], f.acc(e, k));
        }
      }
  }
  void sameAsFresh(const char* when, bool playback, const Fit* extra = nullptr) {
    std::vector<double> ts;
    sampleTimes(last, *o, ts);
    if (extra) sampleTimes(*extra, *o, ts);
    FitObj* f = fresh();
    std::string why;
    Obs a = o->observe(ts, playback), b = f->observe(ts, playback);
    if (!sameObs(a, b, 0, &why)) violation("history-dependent", "after %s the %s differs from a fresh one with the same fit: %s", when, kindName(kind), why.c_str());
    uint64_t h = hashBytes(a.data(), a.size() * sizeof(double));
    state(h); eventHash(h);
    freeObj(f);
  }
  // after a failed or rejected call: which complete state is it?
  void settle(const char* when, const Obs& before, const std::vector<double>& ts, const Op* op) {
    Obs now = o->observe(ts, false);
    if (sameObs(now, before)) { probe("kept_old"); return; }
    FitObj* e = makeObj(kind);
    Obs eo = e->observe(ts, false);
    freeObj(e);
    if (emptyObs(now, eo)) { probe("became_empty"); since.clear(); last = Fit(); o->clear(); return; }
    if (op) {  // the complete new state
      std::vector<const Op*> keep = since;
      if (op->name == "fit") since.clear();
      since.push_back(op);
      FitObj* f = fresh();
      bool same = sameObs(now, f->observe(ts, false));
      freeObj(f);
      if (same) { probe("became_new"); if (op->name == "fit") last = Fit(*op); return; }
      since = keep;
    }
    violation("half-built", "after %s the %s is neither its previous nor an empty%s trajectory", when, kindName(kind), op ? " nor the complete new" : "");
  }

  void apply(const Op& op) {
    const std::string& n = op.name;
    if (n == "armalloc") { armAlloc((long)op.arg(0), (long)op.arg(1)); return; }
    if (n == "seek") { o->seek(op.arg(0)); pristinePlayback = false; sameAsFresh("a seek", false); }
    else if (n == "tick") { o->tick(op.arg(0)); simTime(op.arg(0)); pristinePlayback = false; sameAsFresh("a tick", false); }
    else if (n == "clear") {
      o->clear(); since.clear(); pristinePlayback = true;
      sameAsFresh("clearing", true);
      last = Fit();
    } else if (n == "add") {
      if (!o->canPlay()) return;
      std::vector<double> ts; sampleTimes(last, *o, ts);
      { double D = o->tMax(); ts.push_back(D + 0.05); ts.push_back(D + 0.3 * op.arg(0)); ts.push_back(D + op.arg(0)); ts.push_back(D + 100); }
      disarmIfUnused();
      Obs before = o->observe(ts, false);
      rearm();
      bool failed = false;
      try { o->addSeg(&op.a[1], op.arg(0)); } catch (const std::bad_alloc&) { failed = true; }
      if (failed) {
        oom("extension");
        settle("a failed extension", before, ts, &op);
        if (since.empty() || since.back() != &op) { probe("retry"); o->addSeg(&op.a[1], op.arg(0)); since.push_back(&op); }
      } else { disarmAlloc(); armed[0] = 0; since.push_back(&op); }
      sameAsFresh("an extension", false);
    } else if (n == "fit") fitOp(op);
  }
  double armed[2] = {0, 0};
  void disarmIfUnused() { disarmAlloc(); }
  void rearm() { if (armed[0] > 0) armAlloc((long)armed[0], (long)armed[1]); }
  void oom(const char* what) {
    bool f = allocFired();
    disarmAlloc(); armed[0] = 0;
    if (!f) violation("exception", "%s: out-of-memory error without a failed allocation", what);
    probe("op_failed_by_alloc");
  }

  void fitOp(const Op& op) {
    Fit f(op);
    bool valid = o->valid(f);
    std::vector<double> ts;
    sampleTimes(last, *o, ts); sampleTimes(f, *o, ts);
    disarmIfUnused();
    Obs before = o->observe(ts, false);
    rearm();
    if (!valid) {
      // a rejection may be a false return, an exception or an abort
      int ok = 0; bool threw = false;
      mayAbort(true);
      try { ok = o->fit(f); } catch (const std::exception&) { threw = true; }
      mayAbort(false);
      probe("rejected_fit");
      if (kind <= CONT5 && ok && !threw) violation("bad-fit-accepted", "a fit of %zu points (%s, %zu values) was accepted by the %s", f.t.size(), f.increasing() ? "increasing times" : "times not increasing", f.x.size() - f.drop, kindName(kind));
      settle("a rejected fit", before, ts, nullptr);
      pristinePlayback = false;
      sameAsFresh("a rejected fit", false);
      return;
    }
    bool failed = false; int ok = 0;
    try { ok = o->fit(f); } catch (const std::bad_alloc&) { failed = true; }
    if (failed) {
      oom("fit");
      settle("a failed fit", before, ts, &op);
      probe("retry");
      ok = o->fit(f);
    } else { disarmAlloc(); armed[0] = 0; }
    if (!ok) violation("fit-rejected", "a fit of %zu points at increasing times was rejected by the %s", f.t.size(), kindName(kind));
    since.clear(); since.push_back(&op);
    Fit prev = last;
    last = f;
    pristinePlayback = true;
    sameAsFresh("a fit", true, &prev);
    for (auto& e : alone)
      if (e.op == &op) {
        Obs want((double*)area(1) + e.at, (double*)area(1) + e.at + e.n);
        std::string why;
        if (!sameObs(o->observe(aloneTimes(f, *o), true), want, 0, &why)) violation("history-dependent", "after a fit the %s differs from one with the same fit in a process that did nothing before: %s", kindName(kind), why.c_str());
        probe("compared_with_lone_process");
      }
    points(f);
    probe("accepted_fit");
  }
};

static void run(const Plan& p) {
  Ctx c;
  c.kind = p.iparam("kind", CONT5);
  if (p.iparam("alone", 0)) fitAlone(p, c.kind);
  c.o = makeObj(c.kind);
  c.sameAsFresh("construction", true);
  for (auto& op : p.ops) {
    if (op.name == "armalloc") { c.armed[0] = op.arg(0); c.armed[1] = op.arg(1); continue; }
    c.apply(op);
    c.armed[0] = 0;
    disarmAlloc();
    event("%s %zu", op.name.c_str(), c.since.size());
  }
  freeObj(c.o);
}
namespace sim { extern "C" { Scenario g_scenario = {kId, gen, run}; } }
