// Tables (CSV files) for C09, C10, C11 and C03: generation from a seed, an
// independent parser, and the faults the simulated disk can inject.
#pragma once
#include <cmath>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include "curves/helpers.hpp"
#include "sim.h"

typedef std::vector<std::vector<std::string>> Rows;

// Independent reader: lines separated by '\n' (the last one optional), fields by ','.
inline Rows parseRows(const std::string& d) {
  Rows r;
  size_t i = 0;
  while (i < d.size()) {
    size_t e = d.find('\n', i);
    if (e == std::string::npos) e = d.size();
    std::vector<std::string> f;
    size_t j = i;
    for (;;) {
      size_t c = d.find(',', j);
      if (c == std::string::npos || c >= e) { f.push_back(d.substr(j, e - j)); break; }
      f.push_back(d.substr(j, c - j));
      j = c + 1;
    }
    r.push_back(f);
    i = e + 1;
  }
  return r;
}
inline std::string joinRows(const Rows& r, bool lastNewline = true) {
  std::string d;
  for (size_t i = 0; i < r.size(); i++) {
    for (size_t k = 0; k < r[i].size(); k++) { if (k) d += ','; d += r[i][k]; }
    if (i + 1 < r.size() || lastNewline) d += '\n';
  }
  return d;
}
inline bool sameNumber(double a, double b) { return a == b ? std::signbit(a) == std::signbit(b) : std::isnan(a) && std::isnan(b); }

inline double someNumber(sim::Rng& r, int style) {
  switch (style == 5 ? r.range(0, 4) : style) {
    case 0: return r.range(-50, 50);
    case 1: return 0.25 * r.range(-4000, 4000);
    case 2: return r.uni(-10, 10);                                      // needs all digits
    case 3: return 1.4e9 + r.uni(0, 1000);                              // time stamps
    default: {
      static const double odd[] = {0.1, 1.0 / 3, 1e-300, 1.7976931348623157e308, 4.9e-324, -0.0, 123456789012345680.0, 1e22, -2.5e-7, 0.30000000000000004, 100000.0, 1e6, 1234567.0, -1e-5, INFINITY, -INFINITY, NAN};
      int n = sizeof odd / sizeof *odd;
      return odd[r.range(0, n - (r.chance(0.2) ? 1 : 4))];
    }
  }
}
struct VecTable { std::vector<double> t; std::vector<std::vector<double>> v; };

inline int tableRows(sim::Rng& r, int size) { return size == 0 ? r.range(1, 3) : size == 1 ? r.range(2, 20) : size == 2 ? r.range(50, 400) : size == 4 ? r.range(900, 2600) : size == 5 ? r.range(4200, 9000) : size == 6 ? r.range(65700, 67000) : 1; }
// A table seed is a base (24 bits) and a variant: variants of one base have the
// same size and shape and differ in the order of their content only.
inline uint64_t baseSeed(uint64_t s) { return s & 0xffffff; }
inline double variantOf(double seed, sim::Rng& r) { return (double)(baseSeed((uint64_t)seed) + ((uint64_t)r.range(1, 1000) << 24)); }
template <class R>
void applyVariant(std::vector<R>& rows, uint64_t seed) {
  if (!(seed >> 24) || rows.empty()) return;
  sim::Rng r(seed);
  size_t a = r.below(rows.size()), b = r.below(rows.size());
  if (a != b) std::swap(rows[a], rows[b]);
  else if (rows[a].size() > 1) std::swap(rows[a].back(), rows[a][r.below(rows[a].size() - 1)]);
}
// how often a row (or its time) repeats the one before
inline double repeats(sim::Rng& r) { return r.chance(0.7) ? 0 : r.uni(0, 0.6); }
inline VecTable vecTable(uint64_t seed, int size) {
  sim::Rng r(baseSeed(seed) * 77 + 5);
  VecTable k;
  int n = tableRows(r, size), dim = r.range(1, size == 3 ? 2000 : size >= 4 ? 2 : 7), style = r.range(0, 5), ts = r.range(0, 3);
  double rep = repeats(r);
  for (int i = 0; i < n; i++) {
    if (i && r.chance(rep)) { k.t.push_back(k.t.back()); k.v.push_back(k.v.back()); if (r.chance(0.5)) continue; k.v.back()[0] = someNumber(r, style); continue; }
    k.t.push_back(ts == 0 ? i : ts == 1 ? i * 0.01 : someNumber(r, 3 - (ts == 2)));
    std::vector<double> v;
    for (int d = 0; d < dim; d++) v.push_back(someNumber(r, style));
    k.v.push_back(v);
  }
  applyVariant(k.v, seed);
  return k;
}
// Fields free of commas and line breaks.
inline Rows rowsTable(uint64_t seed, int size) {
  sim::Rng r(baseSeed(seed) * 131 + 9);
  Rows k;
  int n = tableRows(r, size), wide = r.range(1, size == 3 ? 2000 : size >= 4 ? 3 : 8);
  bool ragged = r.chance(0.3);
  double rep = repeats(r);
  for (int i = 0; i < n; i++) {
    if (i && r.chance(rep)) { k.push_back(std::vector<std::string>(k.back())); continue; }
    std::vector<std::string> row;
    int w = ragged ? r.range(1, wide) : wide;
    for (int j = 0; j < w; j++) {
      std::string f;
      int len = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(1, 60) : r.chance(0.01) ? r.range(500, 9000) : r.range(1, 8);
      for (int q = 0; q < len; q++) f += " abcXYZ0123456789.-+;\"'#\t"[r.below(25)];
      row.push_back(f);
    }
    k.push_back(row);
  }
  applyVariant(k, seed);
  return k;
}
// A vector table file as another program may have written it.
inline std::string foreignFile(uint64_t seed, int size, int times, Rows* rowsOut) {
  sim::Rng r(baseSeed(seed) * 313 + 1);
  int n = tableRows(r, size), dim = r.range(1, size == 3 ? 2000 : size >= 4 ? 2 : 6), style = r.range(0, 5);
  static const char* fmt[] = {"%g", "%.17g", "%.6f", "%e", "%.3f", " %.9g"};
  const char* f = fmt[r.range(0, 5)];
  Rows rows;
  double rep = repeats(r);
  for (int i = 0; i < n; i++) {
    std::vector<std::string> row;
    if (i && r.chance(rep)) {  // the same row, or other values at the same time
      row = rows.back();
      if (r.chance(0.5)) row.back() = row[0];
      rows.push_back(row);
      continue;
    }
    for (int j = 0; j < times + dim; j++) { char b[400]; snprintf(b, sizeof b, f, j < times ? (j + 1) * 0.5 * i + 0.125 * j : someNumber(r, style)); row.push_back(b); }
    rows.push_back(row);
  }
  applyVariant(rows, seed);
  if (rowsOut) *rowsOut = rows;
  return joinRows(rows, r.chance(0.7));
}

inline std::vector<Eigen::VectorXd> eig(const VecTable& k) {
  std::vector<Eigen::VectorXd> o;
  for (auto& v : k.v) { Eigen::VectorXd e(v.size()); for (size_t i = 0; i < v.size(); i++) e[i] = v[i]; o.push_back(e); }
  return o;
}

// does the file hold exactly this table?  (any text that reads back as the numbers)
inline bool holdsVec(const std::string& d, const VecTable& k, std::string* why) {
  Rows r = parseRows(d);
  char m[200];
  if (r.size() != k.t.size()) { snprintf(m, sizeof m, "%zu rows instead of %zu", r.size(), k.t.size()); *why = m; return false; }
  for (size_t i = 0; i < r.size(); i++) {
    if (r[i].size() != k.v[i].size() + 1) { snprintf(m, sizeof m, "row %zu has %zu fields instead of %zu", i, r[i].size(), k.v[i].size() + 1); *why = m; return false; }
    for (size_t j = 0; j < r[i].size(); j++) {
      char* e;
      double got = strtod(r[i][j].c_str(), &e), want = j ? k.v[i][j - 1] : k.t[i];
      while (*e == ' ') e++;
      if (r[i][j].empty() || *e || !sameNumber(got, want)) { snprintf(m, sizeof m, "row %zu field %zu is \"%.60s\", which is not %.17g", i, j, r[i][j].c_str(), want); *why = m; return false; }
    }
  }
  return true;
}
inline bool holdsRows(const std::string& d, const Rows& k, std::string* why) {
  Rows r = parseRows(d);
  char m[200];
  if (r == k) return true;
  snprintf(m, sizeof m, "%zu rows instead of %zu", r.size(), k.size());
  for (size_t i = 0; i < r.size() && i < k.size(); i++) if (r[i] != k[i]) { snprintf(m, sizeof m, "row %zu differs (%zu fields instead of %zu)", i, r[i].size(), k[i].size()); break; }
  *why = m;
  return false;
}

// Plan op "fault kind nth arg" applied to the simulated disk or heap.
inline void armFault(const sim::Op& op) {
  if (op.iarg(0) == 100) sim::armAlloc((long)op.arg(1), (long)op.arg(2));
  else sim::fsArm(op.iarg(0), (long)op.arg(1), (long)op.arg(2));
}
inline void genWriteFault(sim::Plan& p, sim::Rng& r, bool hard) {
  using namespace sim;
  int nth = r.chance(0.6) ? r.range(1, 4) : r.range(1, 60);
  switch (hard ? r.range(0, 5) : r.range(6, 9)) {
    case 0: p.add(0, "fault", {FS_OPEN_ERR, 1, (double)(r.chance(0.5) ? EACCES : EMFILE)}); break;
    case 1: p.add(0, "fault", {FS_WRITE_ERR, (double)(r.chance(0.5) ? nth : -nth), (double)(r.chance(0.5) ? EIO : EDQUOT)}); break;
    case 2: p.add(0, "fault", {FS_CLOSE_ERR, 1, (double)r.range(0, 5000)}); break;
    case 3: p.add(0, "fault", {FS_FULL, 0, (double)(r.chance(0.4) ? r.range(0, 40) : r.chance(0.5) ? r.range(0, 1000) : r.range(0, 60000))}); break;
    case 4: case 5: p.add(0, "fault", {100, (double)(r.chance(0.5) ? r.range(1, 12) : r.chance(0.7) ? r.range(1, 150) : r.range(1, 3000)), r.chance(0.7) ? 1.0 : -1.0}); break;
    case 6: p.add(0, "fault", {FS_WRITE_SHORT, (double)nth, (double)r.range(0, 9000)}); break;
    case 7: p.add(0, "fault", {FS_WRITE_EINTR, (double)nth, 0}); break;
    case 8: p.add(0, "fault", {FS_WRITE_FRAG, 0, (double)r.range(r.chance(0.2) ? 3 : 30, 3000)}); break;
    default: p.add(0, "fault", {FS_STALL, (double)nth, (double)r.range(1, 60)}); break;
  }
}
inline void genReadFault(sim::Plan& p, sim::Rng& r, bool hard) {
  using namespace sim;
  int nth = r.chance(0.7) ? r.range(1, 3) : r.range(1, 12);
  switch (hard ? r.range(0, 4) : r.range(5, 8)) {
    case 0: p.add(0, "fault", {FS_OPEN_ERR, 1, (double)(r.chance(0.5) ? EACCES : EMFILE)}); break;
    case 1: case 2: p.add(0, "fault", {FS_READ_ERR, (double)(r.chance(0.5) ? nth : -nth), (double)EIO});
            if (r.chance(0.5)) p.add(0, "fault", {FS_READ_FRAG, 0, (double)r.range(1, 300)}); break;
    case 3: case 4: p.add(0, "fault", {100, (double)(r.chance(0.5) ? r.range(1, 12) : r.chance(0.7) ? r.range(1, 150) : r.range(1, 3000)), r.chance(0.7) ? 1.0 : -1.0}); break;
    case 5: p.add(0, "fault", {FS_READ_SHORT, (double)nth, (double)r.range(0, 9000)}); break;
    case 6: p.add(0, "fault", {FS_READ_EINTR, (double)nth, 0}); break;
    case 7: p.add(0, "fault", {FS_READ_FRAG, 0, (double)r.range(1, r.chance(0.3) ? 8 : 4000)}); break;
    default: p.add(0, "fault", {FS_STALL, (double)nth, (double)r.range(1, 60)}); break;
  }
}
inline int tableSize(sim::Rng& r) { return r.chance(0.0004) ? r.chance(0.15) ? 6 : 5 : r.chance(0.002) ? 4 : r.chance(0.35) ? 0 : r.chance(0.7) ? 1 : r.chance(0.7) ? 2 : 3; }
