// C04: playback state equals the trajectory at the playback clock, for every
// history.  C05 (-DLIVENESS): playback terminates, holds its end and resumes.
#include "curves/polynomial_splines_containers.hpp"
#include "../traj.h"
using namespace sim;

#ifdef LIVENESS
static const char* kId = "C05";
#else
static const char* kId = "C04";
#endif

static void addSeg(Plan& p, Rng& r, int order, int kind, const char* name) {
  std::vector<double> a{(double)r.range(0, 3), randDuration(r, kind)};
  for (int i = 0; i <= order; i++) a.push_back(r.chance(0.1) ? 0.0 : r.uni(-3, 3));
  p.add(0, name, a);
}
static void addFit(Plan& p, Rng& r, int kind) {
  int n = r.range(2, r.chance(0.1) ? 12 : 5);
  std::vector<double> a{(double)r.range(0, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)};
  if (kind == 2) kind = 0;  // keep the linear systems well conditioned
  double t = r.chance(0.5) ? 0 : r.uni(-5, 50);
  for (int i = 0; i < n; i++) { a.push_back(t); a.push_back(r.uni(-5, 5)); t += randDuration(r, kind); }
  p.add(0, "fit", a);
}

static void gen(Plan& p, Rng& r, int tier) {
  int order = r.range(1, 5), kind = r.range(0, 4);
  p.setParam("order", order);
  p.policy = 0;
  int n = r.chance(0.0006) ? r.range(1000, 1400) : r.chance(0.006) ? r.range(61, 300) : r.range(0, r.chance(0.15) ? 60 : 6);
#ifdef LIVENESS
  if (n == 0) n = 1;
#endif
  if (r.chance(0.2)) addFit(p, r, kind); else for (int i = 0; i < n; i++) addSeg(p, r, order, kind, "add");
  double typ = kind == 2 ? 10.0 : kind == 4 ? 0.02 : 0.7;
  int dtKind = r.range(0, 5);
  auto dt = [&]() -> double {
    switch (dtKind == 5 ? r.range(0, 4) : dtKind) {
      case 0: return 0.0025 * r.range(1, 4);                                      // regular controller period
      case 1: return typ * r.uni(0.0, 0.6) * (r.chance(0.1) ? 10 : 1);            // jitter and stalls
      case 2: return 0.25 * r.range(1, 12);                                       // lands on and skips knots
      case 3: return typ * r.uni(0.5, 6);                                         // long stalls
      default: return typ * std::pow(10.0, r.uni(r.chance(0.15) ? -13 : -6, 1));
    }
  };
#ifdef LIVENESS
  int rounds = r.range(1, 4);
  for (int k = 0; k < rounds; k++) {
    if (r.chance(0.3)) p.add(0, "tickrest", {(double)r.range(0, 12), (double)r.range(1, 4)});
    if (r.chance(0.4)) p.add(0, "ticks", {(double)r.range(1, 30), std::max(1e-3, dt()), r.chance(0.5) ? r.unit() : 0.0});
    // play to the end: base step as a fraction of the whole, jitter, stall
    if (r.chance(0.3)) p.add(0, "play", {std::pow(2.0, -r.range(0, 8)), 0.0, 0.0, 1.0});
    else p.add(0, "play", {r.chance(0.5) ? r.uni(0.002, 0.2) : r.uni(0.1, 3.0), r.chance(0.5) ? r.unit() : 0.0, r.chance(0.4) ? r.uni(0, 0.2) : 0.0, (double)r.range(1, 1000000)});
    switch (r.range(0, 5)) {
      case 0: p.add(0, "rewind"); break;
      case 1: p.add(0, "seekfrac", {r.uni(-0.3, 0.999)}); break;
      case 2: case 3: { int q = r.range(1, 3); for (int i = 0; i < q; i++) addSeg(p, r, order, kind, "add"); } break;
      case 4: addFit(p, r, kind); break;
      default: p.add(0, "reset"); addSeg(p, r, order, kind, "add"); break;
    }
  }
  p.add(0, "play", {r.uni(0.01, 1.0), 0.3, 0.1, (double)r.range(1, 1000000)});
#else
  int m = r.range(3, r.chance(0.2) ? 120 : 30);
  double pAdd = r.uni(0, 0.3), pSeek = r.uni(0, 0.3), pMisc = r.uni(0, 0.15);
  for (int i = 0; i < m; i++) {
    if (r.chance(pAdd)) addSeg(p, r, order, kind, "add");
    else if (r.chance(pSeek)) {
      if (r.chance(0.5)) p.add(0, "seekfrac", {r.uni(-0.3, 1.4)});
      else if (r.chance(0.5)) p.add(0, "seekknot", {(double)r.range(0, 100), (double)r.range(-1, 1)});
      else p.add(0, "seek", {r.chance(0.5) ? 0.25 * r.range(-4, 40) : r.uni(-1e3, 1e3)});
    } else if (r.chance(pMisc)) {
      switch (r.range(0, 5)) {
        case 0: p.add(0, "rewind"); break;
        case 1: if (r.chance(0.5)) p.add(0, "reset"); break;
        case 2: addFit(p, r, kind); break;
        case 3: p.add(0, "reserve", {(double)r.range(0, 40)}); break;
        case 4: p.add(0, "copy", {(double)r.range(0, 1)}); break;
        default: p.add(0, "query", {r.uni(-0.5, 1.5)}); break;
      }
    } else if (r.chance(0.08)) p.add(0, "tickrest", {r.chance(0.5) ? 0.0 : (double)r.range(1, 12), (double)r.range(1, 4)});
    else if (r.chance(0.1)) p.add(0, "tick", {0.0});
    else if (r.chance(0.05)) p.add(0, "burst", {(double)r.range(5, r.chance(0.1) ? 3000 : 200), r.chance(0.5) ? 0.0025 * r.range(1, 4) : typ * r.uni(0.001, 0.3), r.chance(0.5) ? 0.0 : r.uni(0, 1), (double)r.range(1, 100000)});
    else p.add(0, "tick", {dt()});
  }
#endif
  (void)tier;
}

template <int N> struct Ctx {
  typedef curves::PolynomialSplineContainer<N> C;
  typedef curves::PolynomialSpline<N> S;
  C* c;
  TrajModel m;
  double T = 0;
  Ctx() { Sut s; c = new C(); }

  void compareAt(double t, double p, double v, double a, const char* what, const char* when) {
    double got[3] = {p, v, a};
    static const char* nm[3] = {"position", "velocity", "acceleration"};
    for (int d = 0; d < 3; d++) {
      std::string why;
      if (!m.matches(t, d, got[d], &why)) violation("trajectory-mismatch", "after %s: %s %s at time %.17g (duration %.17g) is %s", when, what, nm[d], t, m.duration(), why.c_str());
    }
  }
  void evalAt(double t, const char* when) {
    double p, v, a;
    { Sut s; p = c->getPositionAtTime(t); v = c->getVelocityAtTime(t); a = c->getAccelerationAtTime(t); }
    compareAt(t, p, v, a, "evaluated", when);
  }
  void check(const char* when) {
    double t, d, p, v, a, ep, ev, ea; bool e;
    { Sut s; t = c->getContainerTime(); d = c->getContainerDuration(); p = c->getPosition(); v = c->getVelocity(); a = c->getAcceleration(); e = c->isEmpty();
      ep = c->getEndPosition(); ev = c->getEndVelocity(); ea = c->getEndAcceleration(); }
    if (e != m.empty()) violation("trajectory-mismatch", "after %s: reported %s with %zu segments", when, e ? "empty" : "not empty", m.s.size());
    if (std::fabs(d - m.duration()) > m.eps(d)) violation("trajectory-mismatch", "after %s: total duration %.17g, the segments last %.17g", when, d, m.duration());
    if (std::fabs(t - T) > m.eps(T)) violation("playback-time", "after %s: playback time %.17g, expected %.17g", when, t, T);
    compareAt(t, p, v, a, "playback", when);
    evalAt(t, when);
    compareAt(m.duration() + 1, ep, ev, ea, "end", when);
    uint64_t h = hashD(t, m.hash());
    state(h);
    event("%s t=%.17g p=%.17g v=%.17g a=%.17g", when, t, p, v, a);
  }
  void sweep(const char* when) {  // evaluation everywhere, including outside and at the knots
    double D = m.duration();
    evalAt(-1, when); evalAt(D + 1, when); evalAt(D, when); evalAt(0, when);
    long double x = 0;
    for (size_t i = 0; i < m.s.size(); i++) {
      if (m.s.size() > 16 && i % (m.s.size() / 12) != 0) { x += m.s[i].dur; continue; }
      evalAt((double)(x + 0.31L * m.s[i].dur), when);
      x += m.s[i].dur;
      evalAt((double)x, when);
      evalAt((double)x + 1e-7, when); evalAt((double)x - 1e-7, when);
    }
  }
  static Seg segOf(const S& s) { Seg g; g.dur = s.getSplineDuration(); auto& cf = s.getCoefficients(); g.c.assign(cf.begin(), cf.end()); return g; }

  // returns the tick's result
  bool tick(double dt) {
    bool r; double before = T, t;
    { Sut s; r = c->advance(dt); t = c->getContainerTime(); }
    double D = m.duration(), e = m.eps(std::max(std::fabs(before), std::fabs(before + dt)));
    // durations and playback time on the dyadic grid: no rounding anywhere, so the end is exact
    bool ex = m.exact() && TrajModel::onGrid(before);
    if (ex && before == D && !m.empty()) probe("tick_exactly_at_end");
    bool mustFalse = m.empty() || (ex ? before >= D : before > D + e), mustTrue = !m.empty() && (ex ? before < D : before < D - e);
    if (r && mustFalse) violation("tick-result", "tick by %.17g at time %.17g reports running although the trajectory %s", dt, before, m.empty() ? "is empty" : "had ended");
    if (!r && mustTrue) violation("tick-result", "tick by %.17g at time %.17g reports the end although the trajectory lasts until %.17g", dt, before, D);
    double want = r ? before + dt : before;
    bool ok = std::fabs(t - want) <= e;
    if (!ok && (r ? want : before) >= D - e && std::fabs(t - D) <= e) ok = true;  // stopped at the end
    if (!ok) violation("playback-time", "tick by %.17g at time %.17g (%s) moved playback to %.17g", dt, before, r ? "running" : "ended", t);
    T = t;
    if (dt > 0) simTime(dt);
    if (r) {
      long double x = 0; int passed = 0;
      for (auto& g : m.s) { x += g.dur; if (before < (double)x && t >= (double)x) passed++; }
      if (passed) probe("knot_crossed");
      if (passed > 1) { probe("segments_skipped"); faultFired("stall_over_several_segments"); }
      if (dt == 0) faultFired("zero_length_tick");
    } else probe("tick_at_end");
    return r;
  }
  void checkEndHeld(const char* when) {
    double p, v, a, ep, ev, ea;
    { Sut s; p = c->getPosition(); v = c->getVelocity(); a = c->getAcceleration(); ep = c->getEndPosition(); ev = c->getEndVelocity(); ea = c->getEndAcceleration(); }
    compareAt(m.duration() + 1, p, v, a, "held", when);
    compareAt(m.duration() + 1, ep, ev, ea, "end", when);
  }
  // a control loop ticking until the end is reported
  void play(const Op& op) {
    Rng r((uint64_t)op.arg(3) + 17);
    double D = m.duration(), rem = D - T, base = op.arg(0) * (rem > 0 ? rem : D);
    if (!(base > 0)) base = 0.1;
    base = std::max(base, 1e-9 * (1 + std::fabs(T) + D));  // steps the playback clock can resolve
    long double elapsed = 0;
    long limit = 0;
    for (;;) {
      double dt = base * (op.arg(1) > 0 ? r.uni(1 - op.arg(1) * 0.99, 1 + op.arg(1)) : 1.0);
      if (r.chance(op.arg(2))) { dt *= r.uni(2, 40); faultFired("stalled_tick"); }
      else if (op.arg(1) > 0) faultFired("jittered_tick");
      bool covered = (double)elapsed >= rem + (m.exact() && TrajModel::onGrid(rem) && TrajModel::onGrid((double)elapsed) && TrajModel::onGrid(T) ? 0 : 2 * m.eps(D) + 1e-12 * std::fabs(rem));
      if (r.chance(0.2)) check("a tick");
      bool run = tick(dt);
      if (run && covered) violation("no-termination", "%.17g s were ticked for %.17g s of remaining trajectory and the next tick still reports running", (double)elapsed, rem);
      if (!run) break;
      elapsed += dt;
      if (++limit > 200000) violation("no-termination", "still running after %ld ticks", limit);
    }
    probe("played_to_end");
    checkEndHeld("the end was reached");
    for (int i = 0; i < 3; i++) {
      if (tick(base * (i + 1))) violation("tick-result", "a tick after the end reports running");
      checkEndHeld("ticking on after the end");
    }
    check("playing to the end");
  }
  void apply(const Op& op) {
    const std::string& n = op.name;
    if (n == "add") {
      Seg g; g.dur = op.arg(1);
      typename S::SplineCoefficients cf;
      for (int i = 0; i <= N; i++) { cf[i] = op.arg(2 + i, 0); g.c.push_back(cf[i]); }
      Sut s;
      S seg(cf, g.dur);
      if (op.iarg(0) == 0) c->addSpline(seg);
      else if (op.iarg(0) == 1) c->addSpline(std::move(seg));
      else if (op.iarg(0) == 2) { S e; e.setCoefficientsAndDuration(cf, g.dur); c->addSpline(e); }
      else {
        curves::SplineOptions o(g.dur, op.arg(2), op.arg(3), op.arg(3), op.arg(2), op.arg(3) * 0.5, op.arg(2) * 0.5);
        S e(o);
        NotSut ns;
        g = segOf(e);
        bool fin = true; for (double x : g.c) fin = fin && std::isfinite(x);
        if (!fin) { S e2(cf, g.dur); g = segOf(e2); Sut s2; c->addSpline(e2); }
        else { Sut s2; c->addSpline(std::move(e)); }
      }
      { NotSut ns; m.s.push_back(g); }
    } else if (n == "fit") {
      std::vector<double> t, x;
      for (size_t i = 5; i + 1 < op.a.size(); i += 2) { t.push_back(op.a[i]); x.push_back(op.a[i + 1]); }
      if (t.size() < 2) return;
      bool ok;
      { Sut s; ok = op.iarg(0) == 0 ? c->setData(t, x) : op.iarg(0) == 1 ? c->setData(t, x, op.arg(1), op.arg(2)) : c->setData(t, x, op.arg(1), op.arg(2), op.arg(3), op.arg(4)); }
      if (!ok) violation("fit-rejected", "a fit of %zu points at increasing times was rejected", t.size());
      m.s.clear();
      for (auto& s : c->getSplines()) m.s.push_back(segOf(s));
      if (m.s.size() != t.size() - 1) violation("trajectory-mismatch", "a fit of %zu points gave %zu segments", t.size(), m.s.size());
      for (size_t i = 0; i < m.s.size(); i++) if (std::fabs(m.s[i].dur - (t[i + 1] - t[i])) > 1e-9 * (1 + std::fabs(t[i]))) violation("trajectory-mismatch", "segment %zu of the fit lasts %.17g, its points are %.17g apart", i, m.s[i].dur, t[i + 1] - t[i]);
      T = 0;
    } else if (n == "tick") { tick(op.arg(0)); }
    else if (n == "burst") {  // a long stretch of controller ticks
      Rng r((uint64_t)op.arg(3) + 5);
      for (int i = 0; i < op.iarg(0); i++) {
        double dt = op.arg(1) * (op.arg(2) > 0 ? r.uni(1 - op.arg(2), 1 + op.arg(2)) : 1);
        if (op.arg(2) > 0) faultFired("jittered_tick");
        bool run = tick(dt);
        double p, v, a;
        { Sut s; p = c->getPosition(); v = c->getVelocity(); a = c->getAcceleration(); }
        compareAt(T, p, v, a, "playback", "a tick");
        if (!run && r.chance(0.3)) break;
      }
    } else if (n == "ticks") { Rng r(op.a.size() * 7 + 3); for (int i = 0; i < op.iarg(0); i++) tick(op.arg(1) * (op.arg(2) > 0 ? r.uni(0.05, 1 + op.arg(2)) : 1)); }
    else if (n == "tickrest") {  // ticks that land on the end (or half way to it, ...)
      double D = m.duration(), dt = D > T ? (D - T) / (double)(1 << op.iarg(0)) : 0.0;
      for (int i = 0; i < op.iarg(1); i++) tick(dt);
    }
    else if (n == "play") { if (!m.empty()) play(op); }
    else if (n == "seek") { seek(op.arg(0)); }
    else if (n == "seekfrac") { seek(op.arg(0) * m.duration()); }
    else if (n == "seekknot") {
      if (m.empty()) return;
      long double x = 0; int k = op.iarg(0) % (int)(m.s.size() + 1);
      for (int i = 0; i < k; i++) x += m.s[i].dur;
      double t = (double)x;
      if (op.iarg(1)) t = std::nextafter(t, op.iarg(1) > 0 ? 1e300 : -1e300);
      seek(t);
    } else if (n == "rewind") { { Sut s; c->resetTime(); } T = 0; }
    else if (n == "reset") { { Sut s; c->reset(); } T = 0; m.s.clear(); }
    else if (n == "reserve") { Sut s; c->reserveSplines(op.iarg(0)); }
    else if (n == "query") { double D = m.duration(); evalAt(op.arg(0) * D, "a query"); sweep("a query"); }
    else if (n == "copy") {
      C* d;
      { Sut s; if (op.iarg(0)) { d = new C(); *d = *c; } else d = new C(*c); c->reset(); delete c; }
      c = d;
    }
  }
  void seek(double t) {
    if (t != T) faultFired(t < T ? "clock_jump_backward" : "clock_jump_forward");
    { Sut s; c->setContainerTime(t); } T = t; if (t > m.duration()) probe("seek_past_end"); if (t < 0) probe("seek_negative"); if (m.empty()) probe("seek_empty"); }

  void run(const Plan& p) {
    check("construction");
    size_t i = 0;
    for (auto& op : p.ops) {
      apply(op);
      check(op.name.c_str());
      if (++i % 8 == 0 || op.name == "fit") sweep(op.name.c_str());
    }
    sweep("all operations");
    { Sut s; delete c; }
  }
};

static void run(const Plan& p) {
  switch (p.iparam("order", 5)) {
    case 1: { Ctx<1> c; c.run(p); } break;
    case 2: { Ctx<2> c; c.run(p); } break;
    case 3: { Ctx<3> c; c.run(p); } break;
    case 4: { Ctx<4> c; c.run(p); } break;
    default: { Ctx<5> c; c.run(p); } break;
  }
}
namespace sim { extern "C" { Scenario g_scenario = {kId, gen, run}; } }
