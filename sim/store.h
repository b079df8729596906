// Coefficient store under test plus its executable reference model.
#pragma once
#include <cmath>
#include <cstring>
#include <limits>
#include <ostream>
#include <set>

#include "curves/LocalSupport2CoefficientManager.hpp"
#include "curves/KeyGenerator.hpp"
#include "sim.h"

// A coefficient with identity: v is the payload, tag detects mixed-up fields.
// It owns heap memory so that copying can fail and leaks/dangling are visible.
struct Coef {
  double v = 0;
  std::vector<double> tail;
  Coef() {}
  explicit Coef(double x) : v(x), tail(2, -x) {}
  bool operator==(const Coef& o) const { return v == o.v && tail == o.tail; }
  bool operator!=(const Coef& o) const { return !(*this == o); }
  bool intact() const { return tail.size() == 2 && tail[0] == -v && tail[1] == -v; }
};
inline std::ostream& operator<<(std::ostream& s, const Coef& c) { return s << "coef(" << c.v << ")"; }

typedef curves::LocalSupport2CoefficientManager<Coef> Store;
typedef curves::Key Key;

struct ModelEnt { Key key; double v; };
typedef std::map<double, ModelEnt> Model;

inline uint64_t modelHash(const Model& m) {
  uint64_t h = 1469598103934665603ull;
  for (auto& e : m) { h = sim::hashD(e.first, h); h = sim::hashD(e.second.v, h); }
  return h;
}

// Reads the whole store through its public interface and compares.
// Returns an empty string if everything agrees, else a description.
inline std::string compareStore(const Store& st, const Model& m, bool deep) {
  char b[300];
#define BAD(...) do { snprintf(b, sizeof b, __VA_ARGS__); return std::string(b); } while (0)
  std::vector<Key> keys, appended;
  std::vector<curves::Time> times;
  size_t size; bool empty; double mn, mx;
  {
    sim::Sut s;
    size = st.size(); empty = st.empty(); mn = st.getMinTime(); mx = st.getMaxTime();
    st.getTimes(&times);
    st.getKeys(&keys);
  }
  if (size != m.size()) BAD("size is %zu, %zu coefficients were stored", size, m.size());
  if (empty != m.empty()) BAD("empty() is %d with %zu coefficients", (int)empty, m.size());
  if (times.size() != m.size()) BAD("%zu times listed for %zu coefficients", times.size(), m.size());
  if (keys.size() != m.size()) BAD("%zu keys listed for %zu coefficients", keys.size(), m.size());
  if (!m.empty()) {
    if (mn != m.begin()->first) BAD("first time is %.17g, expected %.17g", mn, m.begin()->first);
    if (mx != m.rbegin()->first) BAD("last time is %.17g, expected %.17g", mx, m.rbegin()->first);
  }
  size_t i = 0;
  for (auto& e : m) {
    if (times[i] != e.first) BAD("time #%zu is %.17g, expected %.17g", i, times[i], e.first);
    if (keys[i] != e.second.key) BAD("key #%zu (time %.17g) is %zu, expected %zu", i, e.first, (size_t)keys[i], (size_t)e.second.key);
    i++;
  }
  // iteration
  i = 0;
  {
    auto it = m.begin();
    for (Store::CoefficientIter c = st.coefficientBegin(); c != st.coefficientEnd(); ++c, ++it, ++i) {
      if (it == m.end()) BAD("iteration yields more than the %zu stored coefficients", m.size());
      sim::Sut s;
      if (c->first != it->first || c->second.key != it->second.key) BAD("iteration #%zu yields time %.17g key %zu, expected %.17g key %zu", i, c->first, (size_t)c->second.key, it->first, (size_t)it->second.key);
      if (!c->second.coefficient.intact() || c->second.coefficient.v != it->second.v) BAD("coefficient at time %.17g is %g, expected %g", it->first, c->second.coefficient.v, it->second.v);
    }
    if (it != m.end()) BAD("iteration ends after %zu of %zu coefficients", i, m.size());
  }
  // by key and by time; with many coefficients look at a spread of them
  size_t step = deep || m.size() <= 24 ? 1 : m.size() / 16 + 1;
  i = 0;
  static const double offs[] = {0, 1e-15, 1e-12, 1e-9, 3e-7, 1e-4};
  for (auto& e : m) {
    if (i++ % step) continue;
    // a time close to a stored one, but not it
    double off = offs[(i + m.size()) % 6], sign = (m.size() + i / 6) % 2 ? 1 : -1;
    double near = off ? e.first + sign * off * (1 + std::fabs(e.first)) : std::nextafter(e.first, sign * INFINITY);
    if (!m.count(near)) {
      bool has;
      { sim::Sut s; has = st.hasCoefficientAtTime(near); }
      if (has) BAD("a coefficient is reported at %.17g, where none is stored (next to %.17g)", near, e.first);
    }
    Coef c; double t; bool has, hasK;
    {
      sim::Sut s;
      has = st.hasCoefficientAtTime(e.first);
      hasK = st.hasCoefficientWithKey(e.second.key);
      if (has && hasK) { c = st.getCoefficientByKey(e.second.key); t = st.getCoefficientTimeByKey(e.second.key); }
      else t = 0;
    }
    if (!has) BAD("no coefficient reported at stored time %.17g", e.first);
    if (!hasK) BAD("key %zu of the coefficient at %.17g is not known", (size_t)e.second.key, e.first);
    if (!c.intact() || c.v != e.second.v) BAD("lookup by key %zu gives %g, the coefficient at its time %.17g is %g", (size_t)e.second.key, c.v, e.first, e.second.v);
    if (t != e.first) BAD("key %zu is reported at time %.17g, stored at %.17g", (size_t)e.second.key, t, e.first);
  }
  return std::string();
#undef BAD
}

inline std::string compareBracket(const Store& st, const Model& m, double t) {
  char b[300];
  Store::CoefficientIter a, c;
  bool ok;
  { sim::Sut s; ok = st.getCoefficientsAt(t, &a, &c); }
  bool expect = m.size() >= 2 && t >= m.begin()->first && t <= m.rbegin()->first;
  if (ok != expect) { snprintf(b, sizeof b, "bracketing time %.17g %s, expected %s (%zu coefficients)", t, ok ? "succeeded" : "failed", expect ? "success" : "failure", m.size()); return b; }
  if (!ok) return "";
  auto hi = m.upper_bound(t);
  if (hi == m.end()) --hi;
  auto lo = hi; --lo;
  sim::Sut s;
  if (a->first != lo->first || c->first != hi->first || a->second.key != lo->second.key || c->second.key != hi->second.key ||
      a->second.coefficient.v != lo->second.v || c->second.coefficient.v != hi->second.v) {
    snprintf(b, sizeof b, "time %.17g bracketed by (%.17g, %.17g), expected (%.17g, %.17g)", t, a->first, c->first, lo->first, hi->first);
    return b;
  }
  return "";
}
