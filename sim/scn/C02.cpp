// C02: concurrent const queries of an unchanging object return what they
// return when made alone.  The expected answers come from an identically built
// object in another process life, so that no query has warmed anything up.
#include "../fitobj.h"
#include "../store.h"
using namespace sim;

enum { STORE = NKINDS, SPLINE, C02KINDS };

static void gen(Plan& p, Rng& r, int) {
  int kind = r.range(0, C02KINDS - 1);
  if (r.chance(0.35)) kind = r.chance(0.5) ? STORE : r.chance(0.5) ? CONT5 : r.range(HERMITE, NKINDS - 1);
  p.setParam("kind", kind);
  int n = r.range(2, r.chance(0.3) ? 5 : 3);
  p.setParam("threads", n);
  // building
  double lo = 0, hi = 1;
  if (kind == STORE) {
    int k = r.range(0, r.chance(0.2) ? 40 : 8);
    double t = r.chance(0.5) ? 0 : r.uni(-5, 5);
    lo = t;
    for (int i = 0; i < k; i++) { p.add(0, "ins", {t, (double)r.range(1, 999)}); t += 0.25 * r.range(1, 8); }
    if (k && r.chance(0.3)) p.add(0, "rm", {(double)r.range(0, 40)});
    hi = t;
  } else if (kind == SPLINE) { p.add(0, "seg", {r.uni(0.1, 3), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}); hi = 3; }
  else {
    if (!r.chance(0.08)) genFit(p, r, 0, "fit", kind, 0);
    if (r.chance(0.15)) genFit(p, r, 0, "fit", kind, 0);
    if (!p.ops.empty()) { Fit f(p.ops.back()); lo = f.t.front(); hi = f.t.back(); if (kind <= CONT5 || (kind == SCALAR && f.variant % 3 == 2)) { hi -= lo; lo = 0; } }
    if (kind <= CONT5 && r.chance(0.7)) { if (r.chance(0.5)) p.add(0, "seek", {r.uni(lo - 0.2, hi + 0.5)}); else p.add(0, "tick", {r.uni(0, hi)}); }
  }
  // queries: few distinct times, so that threads also ask about the same or neighbouring ones
  std::vector<double> ts;
  int nt = r.range(1, 4);
  for (int i = 0; i < nt; i++) ts.push_back(r.uni(lo - 0.2 * (hi - lo), hi + 0.2 * (hi - lo)));
  if (r.chance(0.5)) ts.push_back(lo); if (r.chance(0.5)) ts.push_back(hi);
  bool focus = r.chance(0.4);
  int what0 = r.range(0, 9);
  for (int t = 1; t <= n; t++) {
    int k = r.range(1, r.chance(0.2) ? 16 : 5);
    for (int i = 0; i < k; i++) p.add(t, "ask", {(double)(focus && r.chance(0.8) ? what0 : r.range(0, 9)), ts[r.below(ts.size())], (double)r.range(0, 40)});
  }
}

struct Asked {
  int kind;
  FitObj* f = nullptr;
  Store* st = nullptr;
  std::vector<Key> keys;
  curves::PolynomialSplineQuintic* sp = nullptr;

  void build(const Plan& p) {
    kind = p.iparam("kind", 0);
    if (kind == STORE) { Sut s; st = new Store(); } else if (kind != SPLINE) f = makeObj(kind);
    for (auto& op : p.ops) {
      if (op.tid != 0) continue;
      if (op.name == "ins" && st) { Coef c(op.arg(1)); Sut s; keys.push_back(st->insertCoefficient(op.arg(0), c)); }
      else if (op.name == "rm" && st) { if (!keys.empty() && st->size()) { std::vector<curves::Time> t; st->getTimes(&t); Sut s; st->removeCoefficientAtTime(t[op.iarg(0) % (int)t.size()]); } }
      else if (op.name == "fit" && f) { Fit q(op); if (f->valid(q)) f->fit(q); }
      else if (op.name == "seek" && f && f->canPlay()) f->seek(op.arg(0));
      else if (op.name == "tick" && f && f->canPlay()) f->tick(op.arg(0));
      else if (op.name == "seg" && kind == SPLINE) { curves::PolynomialSplineQuintic::SplineCoefficients c; for (int i = 0; i < 6; i++) c[i] = op.arg(i + 1); Sut s; sp = new curves::PolynomialSplineQuintic(c, op.arg(0)); }
    }
    if (kind == SPLINE && !sp) { Sut s; sp = new curves::PolynomialSplineQuintic(); }
  }
  static uint64_t dig(const Obs& o) { uint64_t h = 1469598103934665603ull + o.size(); for (double d : o) { if (std::isnan(d)) d = NAN; h = hashBytes(&d, 8, h); } return h; }

  uint64_t ask(int what, double t, int k) const {
    Obs o;
    if (kind == STORE) {
      Sut s;
      switch (what) {
        case 0: case 1: { Store::CoefficientIter a, b; bool ok = st->getCoefficientsAt(t, &a, &b); o.push_back(ok); if (ok) { o.push_back(a->first); o.push_back(a->second.coefficient.v); o.push_back(b->first); o.push_back(b->second.coefficient.v); } } break;
        case 2: { std::vector<curves::Time> v; st->getTimes(&v); o.assign(v.begin(), v.end()); } break;
        case 3: { std::vector<Key> v; st->getKeys(&v); o.assign(v.begin(), v.end()); } break;
        case 4: o.push_back(st->hasCoefficientAtTime(t)); o.push_back(st->size()); o.push_back(st->empty()); break;
        case 5: case 6: if (!keys.empty()) { Key q = keys[k % keys.size()]; bool h = st->hasCoefficientWithKey(q); o.push_back(h); if (h) { o.push_back(st->getCoefficientByKey(q).v); o.push_back(st->getCoefficientTimeByKey(q)); } } break;
        case 7: { Store::CoefficientMap m; if (!st->empty()) st->getCoefficients(&m); std::map<Key, double> srt; for (auto& e : m) srt[e.first] = e.second.v; for (auto& e : srt) { o.push_back(e.first); o.push_back(e.second); } } break;
        case 8: { std::vector<curves::Time> v; if (!st->empty() && t <= st->getMaxTime()) st->getTimesInWindow(&v, std::max(t, st->getMinTime()), st->getMaxTime()); o.assign(v.begin(), v.end()); } break;
        default: if (!st->empty()) { o.push_back(st->getMinTime()); o.push_back(st->getMaxTime()); } break;
      }
    } else if (kind == SPLINE) {
      Sut s;
      switch (what % 4) { case 0: o.push_back(sp->getPositionAtTime(t)); break; case 1: o.push_back(sp->getVelocityAtTime(t)); break; case 2: o.push_back(sp->getAccelerationAtTime(t)); break; default: o.push_back(sp->getSplineDuration()); for (double c : sp->getCoefficients()) o.push_back(c); }
    } else {
      double v[MAXDIM] = {0};
      bool ok = true;
      if (what <= 3) { Sut s; ok = f->eval(t, v); }
      else if (what <= 5) { Sut s; ok = f->deriv(t, 1, v); }
      else if (what <= 7) { Sut s; ok = f->deriv(t, kind > HERMITE ? 1 : 2, v); }
      else if (what == 8) { v[0] = f->tMin(); v[1] = f->tMax(); }
      else f->appendPlayback(o);
      o.push_back(ok);
      if (ok) for (double d : v) o.push_back(d);
    }
    return dig(o);
  }
  uint64_t everything(double lo) const { uint64_t h = 0; for (int w = 0; w < 10; w++) for (int i = -1; i < 6; i++) h = h * 1099511628211ull ^ ask(w, lo + i * 0.7, i + 1); return h; }
};
static const char* askName(int kind, int what) {
  static const char* st[] = {"bracketing", "bracketing", "time listing", "key listing", "lookup by time", "lookup by key", "lookup by key", "coefficient listing", "window listing", "first and last time"};
  static const char* fo[] = {"value", "value", "value", "value", "first derivative", "first derivative", "second derivative", "second derivative", "time range", "playback state"};
  return kind == STORE ? st[what] : fo[what];
}

static void run(const Plan& p) {
  size_t n = p.ops.size();
  uint64_t* want = area(n + 2);
  double lo = 0;
  for (auto& op : p.ops) if (op.name == "ask") { lo = op.arg(1); break; }
  Outcome o = incarnation([&] {
    Asked a; a.build(p);
    for (size_t i = 0; i < n; i++) if (p.ops[i].name == "ask") want[i] = a.ask(p.ops[i].iarg(0), p.ops[i].arg(1), p.ops[i].iarg(2));
    want[n] = a.everything(lo);
  });
  if (o != OUT_OK) violation("query-failed", "building and querying the object alone ended with %s", outcomeName(o));
  Asked a;
  a.build(p);
  std::vector<std::function<void()>> bodies;
  int nt = p.iparam("threads", 2);
  for (int t = 1; t <= nt; t++)
    bodies.push_back([&, t] {
      for (size_t i = 0; i < n; i++) {
        const Op& op = p.ops[i];
        if (op.tid != t) continue;
        uint64_t got = a.ask(op.iarg(0), op.arg(1), op.iarg(2));
        if (got != want[i]) violation("reader-disturbed", "%s of the shared %s at %.12g by reader %d of %d differs from the answer given alone", askName(a.kind, op.iarg(0)), a.kind == STORE ? "coefficient store" : a.kind == SPLINE ? "segment" : kindName(a.kind), op.arg(1), t, nt);
        eventHash(got);
        event("%zu", i);
      }
    });
  runThreads(bodies);
  uint64_t after = a.everything(lo);
  if (after != want[n]) violation("object-changed", "after concurrent queries the %s has changed", a.kind == STORE ? "coefficient store" : a.kind == SPLINE ? "segment" : kindName(a.kind));
  state(after);
}
namespace sim { extern "C" { Scenario g_scenario = {"C02", gen, run}; } }
