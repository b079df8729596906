// Executable reference model of a segmented polynomial trajectory.
#pragma once
#include <cmath>
#include <algorithm>
#include "sim.h"

struct Seg {
  double dur;
  std::vector<double> c;  // highest power first
};

struct TrajModel {
  std::vector<Seg> s;
  bool empty() const { return s.empty(); }
  double duration() const { long double d = 0; for (auto& g : s) d += g.dur; return (double)d; }
  static bool onGrid(double x) { double y = x * 16777216.0; return std::fabs(x) < 1e6 && y == std::floor(y); }
  bool exact() const { for (auto& g : s) if (!onGrid(g.dur)) return false; return onGrid(duration()); }
  double eps(double t) const { return 1e-12 * (1 + std::fabs(t) + duration()); }

  // value, 1st or 2nd derivative of a segment at local time x, with the
  // magnitude of its terms and of its derivative within e of x for error bounds
  static void poly(const Seg& g, double x, int d, double e, long double& val, long double& mag, long double& dmag) {
    x = std::max(0.0, std::min(x, g.dur));
    int n = (int)g.c.size() - 1;
    val = mag = dmag = 0;
    for (int i = 0; i <= n; i++) {
      int k = n - i;  // power of coefficient i
      if (k < d) continue;
      long double f = 1;
      for (int q = 0; q < d; q++) f *= k - q;
      long double w = 1;
      for (int q = 0; q < k - d; q++) w *= x;
      long double term = f * g.c[i] * w;
      val += term; mag += fabsl(term);
      if (k > d) { long double w1 = 1; for (int q = 0; q < k - d - 1; q++) w1 *= (long double)x + e; dmag += fabsl(f * (k - d) * g.c[i] * w1); }
    }
  }
  // Is `got` the d-th derivative of the trajectory at time t, held at the ends?
  // At (and within rounding of) a knot either neighbouring segment qualifies.
  bool matches(double t, int d, double got, std::string* why = nullptr) const {
    if (s.empty()) { if (got == 0.0) return true; if (why) { char b[120]; snprintf(b, sizeof b, "%.12g, expected 0 for an empty trajectory", got); *why = b; } return false; }
    double e = eps(t);
    long double start = 0;
    double near = 0; bool any = false;
    for (size_t i = 0; i < s.size(); i++) {
      long double end = start + s[i].dur;
      bool in = (i == 0 || t >= (double)start - e) && (i + 1 == s.size() || t <= (double)end + e);
      if (in) {
        long double v, m, dm;
        poly(s[i], (double)((long double)t - start), d, e, v, m, dm);
        long double tol = 1e-9L * m + 4 * (long double)e * dm + 1e-12L;
        if (fabsl(v - (long double)got) <= tol) return true;
        if (!any || fabsl(v - (long double)got) < fabsl((long double)near - (long double)got)) { near = (double)v; any = true; }
      }
      start = end;
    }
    if (why) { char b[160]; snprintf(b, sizeof b, "%.12g, the defining segment gives %.12g", got, near); *why = b; }
    return false;
  }
  bool nearKnot(double t) const {
    double e = eps(t); long double x = 0;
    for (auto& g : s) { x += g.dur; if (std::fabs(t - (double)x) <= e) return true; }
    return false;
  }
  uint64_t hash() const { uint64_t h = 7; for (auto& g : s) { h = sim::hashD(g.dur, h); for (double c : g.c) h = sim::hashD(c, h); } return h; }
};

inline double randDuration(sim::Rng& r, int kind) {
  switch (kind) {
    case 0: return r.uni(0.05, 2.0);
    case 1: return 0.25 * r.range(1, 8);           // exactly representable knots
    case 2: return std::pow(10.0, r.uni(-6, 4));
    case 3: return 0.1 * r.range(1, 5);            // not representable
    default: return r.uni(1e-3, 0.05);
  }
}
