// C17: a measurement stream thinned by a pose curve's sampling policy.
#include <memory>
#include <glog/logging.h>
#include "curves/SlerpSE3Curve.hpp"
#include "curves/CubicHermiteSE3Curve.hpp"
#include "../sim.h"
using namespace sim;
using curves::Time;
typedef curves::SE3Curve::ValueType Pose;
typedef curves::SE3Curve::DerivativeType Rate;

// the interface functions the library leaves open; streaming does not use them
struct Slerp : curves::SlerpSE3Curve {
  bool evaluate(Pose&, Time) const override { return false; }
  bool evaluateDerivative(Rate&, Time, unsigned int) const override { return false; }
};

enum { SLERP, HERMITE };
struct Meas { double t, v; };
static Pose poseOf(double v) { double h = 0.3 * v; return Pose(Pose::Position(v, 0.5 * v, -v), Pose::Rotation(std::cos(h), std::sin(h), 0, 0)); }

struct Obj {
  int kind;
  Slerp* s = nullptr;
  curves::CubicHermiteSE3Curve* h = nullptr;
  curves::SamplingPolicy pol;  // the streamed Hermite curve's policy
  explicit Obj(int k) : kind(k) { Sut x; if (k == SLERP) s = new Slerp; else h = new curves::CubicHermiteSE3Curve; }
  Obj(const Obj& o) : kind(o.kind), pol(o.pol) { Sut x; if (o.s) s = new Slerp(*o.s); if (o.h) h = new curves::CubicHermiteSE3Curve(*o.h); }
  ~Obj() { Sut x; delete s; delete h; }
  void extend(const std::vector<Meas>& m) {
    std::vector<Time> t; std::vector<Pose> p;
    for (auto& e : m) { t.push_back(e.t); p.push_back(poseOf(e.v)); }
    Sut x;
    if (s) s->extend(t, p);
    else pol.extend<curves::CubicHermiteSE3Curve, Pose>(t, p, h);
  }
  void fit(const std::vector<Meas>& m) {
    std::vector<Time> t; std::vector<Pose> p;
    for (auto& e : m) { t.push_back(e.t); p.push_back(poseOf(e.v)); }
    Sut x;
    if (s) s->fitCurve(t, p); else h->fitCurve(t, p);
  }
  void set(const std::vector<Meas>& m) {  // Slerp only: adds to the curve
    std::vector<Time> t; std::vector<Pose> p;
    for (auto& e : m) { t.push_back(e.t); p.push_back(poseOf(e.v)); }
    Sut x;
    s->setCurve(t, p);
  }
  void clear() { Sut x; if (s) s->clear(); else h->clear(); }
  void times(std::vector<Time>* o) const { Sut x; if (s) s->getCurveTimes(o); else h->getCurveTimes(o); }
  int size() const { Sut x; return s ? s->size() : h->size(); }
  bool empty() const { Sut x; return s ? s->isEmpty() : h->isEmpty(); }
  double lo() const { Sut x; return s ? s->getMinTime() : h->getMinTime(); }
  double hi() const { Sut x; return s ? s->getMaxTime() : h->getMaxTime(); }
  void ratio(int n) { Sut x; if (s) s->setSamplingRatio(n); else pol.setMinimumMeasurements(n); }
  void period(double d) { Sut x; if (s) s->setMinSamplingPeriod(d); else pol.setMinSamplingPeriod(d); }
};

// what the policies promise, on plain lists
struct Model {
  int kind, ratio = 1, count = 0;
  double period = 0, last = 0;
  std::vector<Meas> k;
  bool one(const Meas& m) {  // false: must be refused
    if (kind == SLERP) {
      if (k.size() <= 1) { put(m); return true; }
      if (m.t <= k.back().t) return false;
      if (ratio == 1) { k.push_back(m); count = 0; return true; }
      if (count == 0) k.push_back(m); else k.back() = m;
      if (++count >= ratio) count = 0;
    } else {
      if (k.empty()) { k.push_back(m); count = 0; last = m.t; return true; }
      if (m.t <= k.back().t) return false;
      if (count >= ratio && last + period < m.t) { k.back() = m; count = 0; last = m.t; return true; }
      if (count == 0) k.push_back(m); else k.back() = m;
      count++;
    }
    return true;
  }
  void put(const Meas& m) {
    size_t i = 0;
    while (i < k.size() && k[i].t < m.t) i++;
    if (i < k.size() && k[i].t == m.t) k[i] = m; else k.insert(k.begin() + i, m);
  }
};

static void gen(Plan& p, Rng& r, int) {
  p.policy = 0;
  int kind = r.chance(0.6) ? SLERP : HERMITE;
  p.setParam("kind", kind);
  double pDup = r.chance(0.3) ? r.uni(0, 0.2) : 0, pLate = r.chance(0.3) ? r.uni(0, 0.2) : 0, pLoss = r.uni(0, 0.3);
  double pOom = r.chance(0.5) ? r.uni(0, 0.6) : 0, pCtl = r.chance(0.6) ? r.uni(0, 0.4) : 0.02;
  int n = r.chance(0.02) ? r.range(300, 1500) : r.range(2, r.chance(0.2) ? 120 : 30);
  double t = r.chance(0.5) ? 0 : r.chance(0.5) ? -r.range(1, 2000) / 8.0 : r.range(1, 800000) / 8.0;
  auto setup = [&](int who) {
    p.add(who, "ratio", {(double)(r.chance(0.25) ? 1 : r.chance(0.9) ? r.range(2, 6) : r.range(7, 40))});
    if (r.chance(kind == HERMITE ? 0.5 : 0.15)) p.add(who, "period", {r.range(0, 40) / 8.0});
  };
  setup(0);
  for (int i = 0; i < n; i++) {
    int who = r.chance(0.15) ? 1 : 0;
    double dt = r.chance(0.6) ? 0.125 : r.range(1, 24) / 8.0;
    if (r.chance(0.01)) dt = r.range(100, 100000);
    t += dt;
    if (r.chance(pLoss)) { p.add(who, "lost"); continue; }
    if (kind == SLERP && r.chance(pOom)) p.add(who, "oom", {(double)r.range(1, 6), (double)(r.chance(0.7) ? 1 : r.chance(0.5) ? r.range(2, 6) : -1)});
    p.add(who, "meas", {t, r.range(-400, 400) / 100.0});
    if (r.chance(pDup)) p.add(who, "late", {t, r.range(-400, 400) / 100.0});
    if (r.chance(pLate)) p.add(who, "late", {t - r.range(1, 80) / 8.0, r.range(-400, 400) / 100.0});
    if (r.chance(pCtl)) {
      double x = r.unit();
      if (x < 0.45) setup(who);
      else if (x < 0.6) p.add(who, "copy");
      else if (x < 0.7) { p.add(who, "clear"); if (r.chance(0.3)) t -= r.range(0, 400) / 8.0; }
      else if (x < 0.85) { if (r.chance(pOom)) p.add(who, "oom", {(double)r.range(1, 40), (double)(r.chance(0.7) ? 1 : -1)}); int b = r.range(kind == HERMITE ? 2 : 1, 6); p.add(who, "fit", {t, (double)b, (double)r.range(1, 1000)}); t += b * 0.5; }
      else { int b = r.chance(0.2) ? 0 : r.range(2, 6); p.add(who, r.chance(0.7) ? "batch" : "set", {t, (double)b, (double)r.range(1, 1000)}); t += b * 0.5; }
    }
  }
}

static std::vector<Meas> burst(const Op& op) {
  Rng r((uint64_t)op.arg(2));
  std::vector<Meas> m;
  double t = op.arg(0);
  for (int i = 0; i < op.iarg(1); i++) m.push_back({t += 0.5, r.range(-400, 400) / 100.0});
  return m;
}

static void check(const Obj& o, const Model& m, const char* after) {
  std::vector<Time> ts;
  o.times(&ts);
  const char* n = m.kind == SLERP ? "Slerp" : "Hermite";
  if ((size_t)o.size() != ts.size() || o.empty() != ts.empty()) violation("inconsistent", "after %s the %s curve reports size %d (empty: %d) and lists %zu times", after, n, o.size(), (int)o.empty(), ts.size());
  bool same = ts.size() == m.k.size();
  for (size_t i = 0; same && i < ts.size(); i++) same = ts[i] == m.k[i].t;
  if (!same) {
    size_t i = 0;
    while (i < ts.size() && i < m.k.size() && ts[i] == m.k[i].t) i++;
    violation("coefficients", "after %s with ratio %d the %s curve has %zu coefficients, expected %zu; first difference at index %zu: %.9g, expected %.9g", after, m.ratio, n, ts.size(), m.k.size(), i, i < ts.size() ? ts[i] : NAN, i < m.k.size() ? m.k[i].t : NAN);
  }
  if (ts.empty()) return;
  if (o.lo() != m.k.front().t || o.hi() != m.k.back().t) violation("range", "after %s the %s curve covers [%.9g, %.9g], expected [%.9g, %.9g]", after, n, o.lo(), o.hi(), m.k.front().t, m.k.back().t);
  uint64_t h = 7;
  for (double t : ts) h = hashD(t - ts[0], h);
  state(hashD(m.count, hashD(m.ratio, h)));
  if (m.kind == HERMITE)
    for (size_t i = m.k.size() > 40 ? m.k.size() - 40 : 0; i < m.k.size(); i++) {
      Pose got, want = poseOf(m.k[i].v);
      bool ok;
      { Sut s; ok = o.h->evaluate(got, m.k[i].t); }
      double d = std::fabs(got.getPosition().x() - want.getPosition().x()) + std::fabs(got.getPosition().y() - want.getPosition().y()) + std::fabs(got.getPosition().z() - want.getPosition().z());
      double q = std::fabs(got.getRotation().w() * want.getRotation().w() + got.getRotation().x() * want.getRotation().x() + got.getRotation().y() * want.getRotation().y() + got.getRotation().z() * want.getRotation().z());
      if (!ok || !(d < 1e-9) || !(std::fabs(q - 1) < 1e-9)) violation("measurement", "after %s the Hermite curve does not pass through the measurement kept at %.9g (evaluated: %d, off by %.3g)", after, m.k[i].t, (int)ok, d);
    }
}

static bool sameTimes(const Obj& o, const Model& m) {
  std::vector<Time> ts;
  o.times(&ts);
  bool same = ts.size() == m.k.size();
  for (size_t i = 0; same && i < ts.size(); i++) same = ts[i] == m.k[i].t;
  return same;
}

static void run(const Plan& p) {
  int kind = p.iparam("kind", 0);
  std::unique_ptr<Obj> o[2];
  Model m[2];
  for (int i = 0; i < 2; i++) { o[i].reset(new Obj(kind)); m[i].kind = kind; }
  double nth = 0, times = 0;
  for (auto& op : p.ops) {
    int w = op.tid & 1;
    Obj& c = *o[w];
    Model& e = m[w];
    if (op.name == "lost") { faultFired("measurement_lost"); continue; }
    if (op.name == "oom") { nth = op.arg(0); times = op.arg(1); continue; }
    if (op.name == "ratio") { if (op.iarg(0) >= 1) { c.ratio(op.iarg(0)); e.ratio = op.iarg(0); } }
    else if (op.name == "period") { c.period(op.arg(0)); e.period = op.arg(0); }
    else if (op.name == "copy") { o[1 - w].reset(new Obj(c)); m[1 - w] = e; probe("copy"); }
    else if (op.name == "clear") { c.clear(); e.k.clear(); e.count = 0; probe("clear"); }
    else if (op.name == "fit") {
      std::vector<Meas> b = burst(op);
      if (b.empty() || (kind == HERMITE && b.size() < 2)) continue;
      if (nth > 0) armAlloc((long)nth, (long)times);
      bool failed = false;
      try { c.fit(b); } catch (const std::bad_alloc&) { failed = true; }
      bool fired = allocFired();
      disarmAlloc();
      if (failed) {
        if (!fired) violation("exception", "fitting ran out of memory although no allocation failed");
        probe("fit_failed_by_alloc");
        Model fresh = e;
        fresh.k = b;
        if (!c.empty()) check(c, sameTimes(c, e) ? e : fresh, "a fit that failed for lack of memory");
        try { c.fit(b); } catch (const std::bad_alloc&) { violation("exception", "fitting ran out of memory although no allocation failed"); }
      }
      e.k = b; e.count = 0;
      // the Hermite curve's policy object is the caller's; it starts over with the new curve
      if (kind == HERMITE) { Sut s; c.pol = curves::SamplingPolicy(e.ratio, e.period); e.last = 0; }
      probe("fit");
    } else if (op.name == "batch" || op.name == "meas" || op.name == "set") {
      if (op.name == "set" && kind != SLERP) continue;
      std::vector<Meas> b = op.name == "meas" ? std::vector<Meas>{{op.arg(0), op.arg(1)}} : burst(op);
      if (op.name != "meas" && kind == SLERP && (e.count || b.size() == 1)) continue;
      // a dropped operation before (minimised trace) may leave it older than the curve
      if (!b.empty() && !e.k.empty() && b[0].t <= e.k.back().t) continue;
      simTime(0.1 * b.size());
      bool failed = false;
      if (nth > 0 && kind == SLERP) armAlloc((long)nth, (long)times);
      try { op.name == "set" ? c.set(b) : c.extend(b); } catch (const std::bad_alloc&) { failed = true; }
      bool fired = allocFired();
      disarmAlloc();
      Model before = e;
      bool single = b.size() == 1;
      if (failed) {
        if (!fired) violation("exception", "extending ran out of memory although no allocation failed");
        probe("failed_by_alloc");
        if (single) { check(c, before, "a measurement that failed for lack of memory"); probe("retry"); }
        try { op.name == "set" ? c.set(b) : c.extend(b); } catch (const std::bad_alloc&) { violation("exception", "extending ran out of memory although no allocation failed"); }
      }
      if (kind == SLERP && !single) for (auto& x : b) e.put(x);
      else for (auto& x : b) if (!e.one(x)) violation("harness", "late measurement generated");
      probe(single ? "measurement" : "batch");
      if (!single || e.k.size() == before.k.size()) probe(single ? "coefficient_moved" : "batch_size", single ? 1 : b.size());
    } else if (op.name == "late") {
      if (e.k.size() <= (kind == SLERP ? 1u : 0u) || op.arg(0) > e.k.back().t) continue;
      // not newer than the curve's end: refused loudly, or applied without losing anything newer
      faultFired("measurement_late");
      std::vector<Time> ts0; c.times(&ts0);
      Outcome out = incarnation([&] {
        c.extend({{op.arg(0), op.arg(1)}});
        std::vector<Time> ts;
        c.times(&ts);
        bool kept = c.hi() == e.k.back().t && ts.size() >= ts0.size();
        if (!kept) violation("late-measurement", "a measurement at %.9g was taken although the %s curve's end was at %.9g already; now it has %zu coefficients ending at %.9g (before: %zu)", op.arg(0), kind == SLERP ? "Slerp" : "Hermite", e.k.back().t, ts.size(), c.hi(), ts0.size());
      });
      probe(out == OUT_OK ? "late_taken" : "late_refused");
      if (out == OUT_SIGNAL) violation("late-measurement", "a late measurement crashed");
      continue;
    } else continue;
    nth = 0;
    check(c, e, op.name.c_str());
    event("%s %d %zu", op.name.c_str(), w, e.k.size());
  }
  for (int i = 0; i < 2; i++) check(*o[i], m[i], "the stream");
}
namespace sim { extern "C" { Scenario g_scenario = {"C17", gen, run}; } }
