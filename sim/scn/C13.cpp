// C13: a curve dump that reports success wrote the header and every sample.
#include "../fitobj.h"
#include "../tables.h"
using namespace sim;

static const char* kPath[] = {"/simdisk/dump.txt", "/simdisk/b.txt", "/simdisk/c.txt", "/simdisk/nodir/x.txt"};

static void gen(Plan& p, Rng& r, int) {
  p.policy = 0;
  int m = r.range(1, 5);
  double pHard = r.uni(0.1, 0.9), pSoft = r.uni(0, 0.6);
  p.setParam("kind", r.range(HERMITE, NKINDS - 1));
  if (r.chance(0.5)) p.setParam("onelife", 1);  // the process goes on after a dump, unless it aborts
  // magnitude of the coordinates: lines of ordinary and of great length
  int mag = r.chance(0.7) ? 0 : r.chance(0.5) ? r.range(1, 9) : r.range(10, 60);
  auto genFit = [&](Plan& pl, Rng& rr, int tid, const char* nm, int k, int bad) {
    ::genFit(pl, rr, tid, nm, k, bad);
    std::vector<double>& a = pl.ops.back().a;
    for (size_t i = 7; i < a.size(); i += 2) a[i] *= std::pow(10.0, mag);
  };
  if (!r.chance(0.03)) genFit(p, r, 0, "fit", HERMITE, 0);
  for (int i = 0; i < m; i++) {
    if (r.chance(0.3)) genFit(p, r, 0, "fit", HERMITE, 0);
    if (r.chance(0.1)) p.add(0, "put", {(double)r.range(0, 2), (double)r.range(0, 30000)});
    if (r.chance(pSoft)) genWriteFault(p, r, false);
    if (r.chance(pHard)) genWriteFault(p, r, true);
    int n = r.chance(0.5) ? r.range(2, 12) : r.chance(0.6) ? r.range(40, 150) : r.range(150, 600);
    if (r.chance(0.003)) n = r.chance(0.1) ? r.range(9000, 20000) : r.range(1030, 4500);
    if (p.iparam("kind", HERMITE) > HERMITE && r.chance(0.35)) {
      // the pose curve's times and values as a table: its own times, or k given ones
      p.add(0, "save", {(double)(r.chance(0.05) ? 3 : r.range(0, 2)), (double)(r.chance(0.5) ? 0 : r.chance(0.8) ? r.range(1, 12) : r.chance(0.02) ? r.range(1030, 6000) : r.range(12, 300)), (double)r.range(1, 100000), (double)r.chance(0.15)});
      continue;
    }
    p.add(0, "dump", {(double)(r.chance(0.05) ? 3 : r.range(0, 2)), (double)n});
  }
}

static std::vector<std::string> lines(const std::string& d, bool* ended) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < d.size()) {
    size_t e = d.find('\n', i);
    if (e == std::string::npos) { v.push_back(d.substr(i)); *ended = false; return v; }
    v.push_back(d.substr(i, e - i));
    i = e + 1;
  }
  *ended = true;
  return v;
}
static bool numbers(const std::string& s, std::vector<double>& v) {
  const char* c = s.c_str();
  for (;;) {
    while (*c == ' ' || *c == '\t' || *c == ',' || *c == '\r') c++;
    if (!*c) return true;
    char* e;
    double d = strtod(c, &e);
    if (e == c) return false;
    v.push_back(d);
    c = e;
  }
}
static bool dump(FitObj& h, const char* path, int n) {
#ifndef NO_POSE
  if (h.dim() == 7) return static_cast<PoseObj&>(h).c.writeEvalToFile(path, n);
#endif
  return static_cast<HermiteObj&>(h).c.writeEvalToFile(path, n);
}
// Is the file a complete dump of the curve with n samples?
static bool complete(const std::string& d, FitObj& h, int n, std::string* why) {
  char m[200];
  bool ended;
  std::vector<std::string> l = lines(d, &ended);
  if (l.empty() || l[0].compare(0, 10, "t px py pz") != 0) { *why = "there is no header"; return false; }
  if (!ended) { *why = "the last line is cut off"; return false; }
  double lo = h.tMin(), hi = h.tMax(), dt = (hi - lo) / (n - 1);
  int rows = (int)l.size() - 1;
  // the rounding errors of the n additions to a large time can amount to a sample or more
  int drift = hi > lo ? (int)std::min(1.0 * n, n * 2.3e-16 * std::max(std::fabs(lo), std::fabs(hi)) / dt + 1e-6) : 0;
  if (hi > lo && (rows < n - 1 - drift || rows > n + drift)) { snprintf(m, sizeof m, "it has %d sample lines for %d samples", rows, n); *why = m; return false; }
  if (!(hi > lo) && rows > n) { *why = "too many sample lines"; return false; }
  double slack = 1e-6 + n * 4e-16 * (std::fabs(lo) + std::fabs(hi));
  for (int i = 0; i < rows; i++) {
    std::vector<double> v;
    if (!numbers(l[i + 1], v)) { snprintf(m, sizeof m, "sample line %d is not a list of numbers", i + 1); *why = m; return false; }
    int nv = h.dim() == 3 ? 3 : 6;  // velocities
    if ((int)v.size() < 1 + h.dim() + nv) { snprintf(m, sizeof m, "sample line %d has %zu values", i + 1, v.size()); *why = m; return false; }
    double t = lo + i * dt;
    if (hi > lo && std::fabs(v[0] - t) > slack) { snprintf(m, sizeof m, "sample line %d is for time %.9g instead of %.9g", i + 1, v[0], t); *why = m; return false; }
    // The values are those of the nominal time or of the time as written, which
    // is rounded to six decimals; next to a knot, of either side of it.
    double off = 1e-6 + 4e-16 * (std::fabs(lo) + std::fabs(hi));
    if (h.dim() == 7 && v[4] < 0) for (int k = 4; k < 8; k++) v[k] = -v[k];
    auto matches = [&](double at, double slackT) {
      at = std::max(lo, std::min(at, hi));
      double x[MAXDIM], dx[MAXDIM], x1[MAXDIM], d1[MAXDIM];
      bool ok;
      double tb = at + 0.01 * dt > hi ? at - 0.01 * dt : at + 0.01 * dt;
      { Sut s; ok = h.eval(at, x) && h.deriv(at, 1, dx) && h.eval(tb, x1) && h.deriv(tb, 1, d1); }
      if (!ok) return true;
      double scale = 0.01 * dt > 0 ? slackT / (0.01 * dt) : 1;
      double dmax = 0, vmax = 0;
      for (int k = 0; k < nv; k++) { dmax = std::max(dmax, std::fabs(dx[k])); vmax = std::max(vmax, std::fabs(d1[k] - dx[k])); }
      for (int k = 0; k < h.dim(); k++) {
        double tol = 4e-6 + 1e-9 * std::fabs(x[k]) + 4 * dmax * slackT + std::fabs(x1[k] - x[k]) * scale;
        double e = std::fabs(v[1 + k] - x[k]);
        if (h.dim() == 7 && k >= 3) e = std::min(e, std::fabs(v[1 + k] + x[k]));
        if (!(e <= tol)) { snprintf(m, sizeof m, "sample line %d has coordinate %.9g instead of %.9g", i + 1, v[1 + k], x[k]); *why = m; return false; }
      }
      for (int k = 0; k < nv; k++) {
        double tol = 4e-6 + 1e-9 * dmax + 4 * vmax * scale + 1e-3 * dmax, got = v[1 + h.dim() + k];
        if (!(std::fabs(got - dx[k]) <= tol)) { snprintf(m, sizeof m, "sample line %d has velocity %.9g instead of %.9g", i + 1, got, dx[k]); *why = m; return false; }
      }
      return true;
    };
    if (matches(t, slack)) continue;
    if (!(hi > lo) || !(matches(v[0], off) || matches(v[0] - off, off) || matches(v[0] + off, off))) return false;
  }
  return true;
}

#ifndef NO_POSE
// Is the file the complete table of the curve's values at these times?
static bool completeTable(const std::string& d, FitObj& h, const std::vector<double>& ts, std::string* why) {
  char m[200];
  bool ended;
  std::vector<std::string> l = lines(d, &ended);
  if (l.size() != ts.size() || (!ts.empty() && !ended)) { snprintf(m, sizeof m, "it has %zu%s lines for %zu times", l.size(), ended ? "" : " (cut off)", ts.size()); *why = m; return false; }
  for (size_t i = 0; i < ts.size(); i++) {
    std::vector<double> v;
    double x[MAXDIM] = {0};
    if (!numbers(l[i], v) || v.size() != 8) { snprintf(m, sizeof m, "line %zu has not the time and seven values", i + 1); *why = m; return false; }
    if (!(std::fabs(v[0] - ts[i]) <= 1e-12 * std::fabs(ts[i]))) { snprintf(m, sizeof m, "line %zu is for time %.17g instead of %.17g", i + 1, v[0], ts[i]); *why = m; return false; }
    bool ok;
    { Sut s; ok = h.eval(ts[i], x); }
    if (!ok) { snprintf(m, sizeof m, "line %zu is for a time the curve is not defined at", i + 1); *why = m; return false; }
    if (v[4] < 0) for (int k = 4; k < 8; k++) v[k] = -v[k];
    for (int k = 0; k < 7; k++) {
      double e = std::fabs(v[1 + k] - x[k]);
      if (k >= 3) e = std::min(e, std::fabs(v[1 + k] + x[k]));
      if (!(e <= 1e-9 * (1 + std::fabs(x[k])))) { snprintf(m, sizeof m, "line %zu has the value %.17g instead of %.17g", i + 1, v[1 + k], x[k]); *why = m; return false; }
    }
  }
  return true;
}
#endif

static void steps(const Plan& p, size_t from, FitObj* h, Fit fitted, bool one) {
  auto life = [&](const std::function<void()>& f) {
    if (!one) return incarnation(f);
    try { f(); } catch (...) { return OUT_EXCEPTION; }
    return OUT_OK;
  };
  for (size_t j = from; j < p.ops.size(); j++) {
    const Op& op = p.ops[j];
    slot(1) = (long)j;
    if (op.name == "fault") { armFault(op); continue; }
    if (op.name == "put") { fsPut(kPath[op.iarg(0)], std::string((size_t)op.arg(1), 'x') + "\n"); continue; }
    if (op.name == "fit") { Fit f(op); if (h->valid(f)) { disarmAlloc(); h->fit(f); fitted = f; } continue; }
    const char* path = kPath[op.iarg(0) & 3];
    int n = op.iarg(1);
    std::map<std::string, std::string> before;
    for (const char* f : kPath) if (fsExists(f)) before[f] = fsContent(f);
    slot(0) = -1;
    bool save = op.name == "save";
    bool outside = false;
    std::vector<double> ts;
#ifndef NO_POSE
    curves::CubicHermiteSE3Curve* pc = h->dim() == 7 ? &static_cast<PoseObj*>(h)->c : nullptr;
    if (save && !pc) continue;
    if (save) {
      if (!n) ts = fitted.t;
      else if (h->tMax() > h->tMin()) {
        // in any order, some twice, some exactly on the curve's own times, possibly one the curve is not defined at
        Rng r((uint64_t)op.arg(2) + 17);
        double w = h->tMax() - h->tMin();
        for (int i = 0; i < n; i++) {
          int k = r.range(0, 9);
          ts.push_back(k == 0 ? h->tMin() : k == 1 ? h->tMax() : k == 2 && i ? ts.back() : k == 3 && i ? ts[r.below(i)] : k < 6 ? fitted.t[r.below(fitted.t.size())] : h->tMin() + w * r.unit());
        }
        if (r.chance(0.4)) std::sort(ts.begin(), ts.end());
        if (op.iarg(3)) { ts[r.below(n)] = r.chance(0.5) ? h->tMin() - w * r.uni(0.01, 2) : h->tMax() + w * r.uni(0.01, 2); outside = true; }
      }
    }
#else
    if (save) continue;
#endif
    slot(3) = outside || op.iarg(0) == 3;
    slot(4) = (save && !ts.empty()) || h->tMax() > h->tMin();
    slot(2) = 1;
    Outcome o = life([&] {
      bool ok = true;
#ifndef NO_POSE
      if (save) { std::vector<double> at(ts); Sut s; if (n) pc->saveCurveAtTimes(path, at); else pc->saveCurveTimesAndValues(path); }
      else
#endif
      { Sut s; ok = dump(*h, path, n); }
      slot(0) = ok;
    });
    slot(2) = 0;
    if (one && o != OUT_OK) probe("life_went_on");
    bool said = o == OUT_OK && slot(0) == 1;
    bool faulty = fsHardFired() > 0 || allocFired() || op.iarg(0) == 3;
    fsDisarm(); disarmAlloc();
    probe(o == OUT_OK ? (said ? "reported_success" : "reported_failure") : outcomeName(o));
    std::string why;
    if (said && outside) violation("incomplete-dump", "saving the curve at a time it is not defined at returned normally");
    if (said) {
      if (!fsExists(path)) violation("incomplete-dump", "dumping to %s reported success but there is no such file", path);
      bool whole = true;
#ifndef NO_POSE
      if (save) { whole = completeTable(fsContent(path), *h, ts, &why); probe("saved"); }
#endif
      if (!save) whole = complete(fsContent(path), *h, n, &why);
      if (!whole) violation("incomplete-dump", "dumping to %s reported success but the file is wrong: %s%s", path, why.c_str(), faulty ? " (a system call or allocation had failed)" : "");
    } else if (o == OUT_SIGNAL) violation("signal", "dumping to %s was killed by a signal", path);
    else if (!faulty && !outside && ((save && !ts.empty()) || h->tMax() > h->tMin())) violation("dump-failed", "dumping to %s %s although nothing had failed", path, o == OUT_OK ? "reported failure" : outcomeName(o));
    else probe("failed_loudly");
    for (auto& kv : before) if (kv.first != path && fsContent(kv.first.c_str()) != kv.second) violation("other-file-changed", "dumping to %s changed %s", path, kv.first.c_str());
    state(fsHash() ^ (uint64_t)o); eventHash(fsHash());
    event("%s %d %s %d %zu", op.name.c_str(), n, outcomeName(o), (int)said, fsContent(path).size());
  }
  slot(1) = (long)p.ops.size();
}
static void run(const Plan& p) {
  fsDisarm(); disarmAlloc();
  bool one = p.iparam("onelife", 0);
  FitObj* h = makeObj(p.iparam("kind", HERMITE));
  if (!one) { steps(p, 0, h, Fit(), false); return; }
  Fit fitted;
  size_t i = 0;
  while (i < p.ops.size()) {
    slot(1) = (long)i; slot(2) = 0;
    Outcome o = incarnation([&] { steps(p, i, h, fitted, true); });
    size_t j = (size_t)slot(1);
    if (o != OUT_OK) {
      if (!slot(2)) violation("fit-failed", "a fit ended with %s although nothing had failed", outcomeName(o));
      bool faulty = fsHardFired() > 0 || allocFired() || slot(3);
      fsDisarm(); disarmAlloc();
      probe(outcomeName(o));
      if (o == OUT_SIGNAL) violation("signal", "a dump was killed by a signal");
      if (!faulty && slot(4)) violation("dump-failed", "a dump ended with %s although nothing had failed", outcomeName(o));
      probe("failed_loudly");
      event("dump ends the life with %s", outcomeName(o));
      for (size_t k = i; k < j; k++) if (p.ops[k].name == "fit") { Fit f(p.ops[k]); if (h->valid(f)) { h->fit(f); fitted = f; } }
    }
    i = j + 1;
  }
}
namespace sim { extern "C" { Scenario g_scenario = {"C13", gen, run}; } }
