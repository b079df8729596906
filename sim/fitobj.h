// The fittable objects of the library behind one interface, for C02, C03, C08
// and C12: a trajectory container of each order, scalar, vector and Hermite
// position curve.
#pragma once
#include <cmath>
#include <memory>
#include <algorithm>
#include "curves/polynomial_splines_containers.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
#ifndef NO_POSE
#include "curves/CubicHermiteSE3Curve.hpp"
#endif
#include "sim.h"

enum Kind { CONT1, CONT2, CONT3, CONT4, CONT5, SCALAR, VECTOR3, HERMITE,
#ifndef NO_POSE
  POSE,
#endif
  NKINDS };
enum { MAXDIM = 8 };
inline const char* kindName(int k) {
  static const char* n[] = {"linear trajectory", "quadratic trajectory", "cubic trajectory", "quartic trajectory", "quintic trajectory", "scalar curve", "vector curve", "Hermite position curve", "Hermite pose curve"};
  return n[k];
}

struct Fit {
  int variant = 0, drop = 0;
  double v0 = 0, a0 = 0, vT = 0, aT = 0;
  std::vector<double> t, x;
  Fit() {}
  explicit Fit(const sim::Op& op) {
    variant = op.iarg(0); drop = op.iarg(1); v0 = op.arg(2); a0 = op.arg(3); vT = op.arg(4); aT = op.arg(5);
    for (size_t i = 6; i + 1 < op.a.size(); i += 2) { t.push_back(op.a[i]); x.push_back(op.a[i + 1]); }
  }
  bool increasing() const { for (size_t i = 1; i < t.size(); i++) if (!(t[i] > t[i - 1])) return false; return true; }
  double val(size_t i, int axis) const { return x[i] * (1 + 0.5 * axis) - axis * 0.3 * (double)(i % 3); }
  double vel(int which, int axis) const { return (which ? vT : v0) * (1 - 0.25 * axis); }
  double acc(int which, int axis) const { return (which ? aT : a0) * (1 + 0.25 * axis); }
};

typedef std::vector<double> Obs;

struct FitObj {
  virtual ~FitObj() {}
  virtual int dim() const { return 1; }
  virtual bool valid(const Fit& f) const { return f.t.size() >= 2 && f.increasing() && f.drop == 0; }
  // performs the fit; returns what the library reports, 1 where it reports nothing
  virtual int fit(const Fit& f) = 0;
  virtual void clear() = 0;
  virtual double minTime(const Fit& f) const { return f.t.front(); }  // expected first time
  virtual bool eval(double t, double* v) const = 0;                    // dim() values
  virtual bool deriv(double t, int order, double* v) const = 0;
  virtual double tMin() const = 0;
  virtual double tMax() const = 0;
  virtual void appendPlayback(Obs&) const {}
  virtual bool canPlay() const { return false; }
  virtual bool tick(double) { return false; }
  virtual void seek(double) {}
  virtual bool addSeg(const double*, double) { return false; }
  virtual double point(const Fit& f, size_t i, int k) const { return f.val(i, k); }  // what eval must give at f.t[i]
  virtual FitObj* clone() const = 0;             // copy construction
  virtual void assign(const FitObj& o) = 0;      // copy assignment from an object of the same kind
  virtual bool endsMeet() const { return false; }  // requested end velocities and accelerations are met

  Obs observe(const std::vector<double>& ts, bool playback) const {
    Obs o;
    o.push_back(tMin()); o.push_back(tMax());
    double v[MAXDIM];
    for (double t : ts)
      for (int d = 0; d < 3; d++) {
        for (double& d : v) d = 0;
        bool ok;
        { sim::Sut s; ok = d == 0 ? eval(t, v) : deriv(t, d, v); }
        o.push_back(ok);
        for (int k = 0; k < dim(); k++) o.push_back(ok ? v[k] : 0);
      }
    if (playback) appendPlayback(o);
    return o;
  }
};

template <int N> struct ContObj : FitObj {
  typedef curves::PolynomialSplineContainer<N> C;
  C c;
  double first = 0;
  int fit(const Fit& f) override {
    std::vector<double> x;
    for (size_t i = 0; i < f.t.size(); i++) x.push_back(f.x[i]);
    for (int i = 0; i < f.drop && !x.empty(); i++) x.pop_back();
    sim::Sut s;
    switch (f.variant % 3) {
      case 0: return c.setData(f.t, x);
      case 1: return c.setData(f.t, x, f.v0, f.vT);
      default: return c.setData(f.t, x, f.v0, f.a0, f.vT, f.aT);
    }
  }
  FitObj* clone() const override { sim::Sut s; return new ContObj(*this); }
  void assign(const FitObj& o) override { sim::Sut s; c = static_cast<const ContObj&>(o).c; }
  void clear() override { sim::Sut s; c.reset(); }
  double minTime(const Fit&) const override { return 0; }
  bool eval(double t, double* v) const override { v[0] = c.getPositionAtTime(t); return true; }
  bool deriv(double t, int o, double* v) const override { v[0] = o == 1 ? c.getVelocityAtTime(t) : c.getAccelerationAtTime(t); return true; }
  double tMin() const override { return 0; }
  double tMax() const override { sim::Sut s; return c.getContainerDuration(); }
  void appendPlayback(Obs& o) const override {
    sim::Sut s;
    o.push_back(c.getContainerTime()); o.push_back(c.getPosition()); o.push_back(c.getVelocity()); o.push_back(c.getAcceleration());
    o.push_back(c.getEndPosition()); o.push_back(c.getEndVelocity()); o.push_back(c.getEndAcceleration()); o.push_back(c.isEmpty());
  }
  bool canPlay() const override { return true; }
  bool tick(double dt) override { sim::Sut s; return c.advance(dt); }
  void seek(double t) override { sim::Sut s; c.setContainerTime(t); }
  bool addSeg(const double* cf, double dur) override {
    sim::Sut s;
    typename curves::PolynomialSpline<N>::SplineCoefficients co;
    for (int i = 0; i <= N; i++) co[i] = cf[i % 3];
    return c.addSpline(curves::PolynomialSpline<N>(co, dur));
  }
  bool endsMeet() const override { return N == 5; }
};

struct ScalarObj : FitObj {
  curves::PolynomialSplineQuinticScalarCurve c;
  // spline options always come complete
  bool valid(const Fit& f) const override { return f.t.size() >= 2 && f.increasing() && (f.drop == 0 || f.variant % 3 == 2); }
  int fit(const Fit& f) override {
    std::vector<double> x(f.x);
    for (int i = 0; i < f.drop && !x.empty(); i++) x.pop_back();
    if (f.variant % 3 == 2 && f.t.size() >= 2 && f.increasing()) {
      std::vector<curves::SplineOptions> o;
      o.reserve(f.t.size());
      for (size_t i = 0; i + 1 < f.t.size(); i++) o.emplace_back(f.t[i + 1] - f.t[i], f.x[i], f.x[i + 1], i ? 0.0 : f.v0, i + 2 < f.t.size() ? 0.0 : f.vT, i ? 0.0 : f.a0, i + 2 < f.t.size() ? 0.0 : f.aT);
      sim::Sut s;
      c.fitCurve(o);
    } else if (f.variant % 3 == 1) { sim::Sut s; c.fitCurve(f.t, x, f.v0, f.a0, f.vT, f.aT); }
    else { sim::Sut s; c.fitCurve(f.t, x); }
    return 1;
  }
  FitObj* clone() const override { sim::Sut s; return new ScalarObj(*this); }
  void assign(const FitObj& o) override { sim::Sut s; c = static_cast<const ScalarObj&>(o).c; }
  void clear() override { sim::Sut s; c.clear(); }
  double minTime(const Fit& f) const override { return f.variant % 3 == 2 ? 0 : f.t.front(); }
  bool eval(double t, double* v) const override { return c.evaluate(v[0], t); }
  bool deriv(double t, int o, double* v) const override { return c.evaluateDerivative(v[0], t, o); }
  double tMin() const override { sim::Sut s; return c.getMinTime(); }
  double tMax() const override { sim::Sut s; return c.getMaxTime(); }
  bool endsMeet() const override { return true; }
};

struct VectorObj : FitObj {
  typedef curves::PolynomialSplineQuinticVector3Curve C;
  C c;
  int dim() const override { return 3; }
  int fit(const Fit& f) override {
    std::vector<C::ValueType> x;
    for (size_t i = 0; i < f.t.size(); i++) x.push_back(C::ValueType(f.val(i, 0), f.val(i, 1), f.val(i, 2)));
    C::DerivativeType d[4];
    for (int k = 0; k < 3; k++) { d[0](k) = f.vel(0, k); d[1](k) = f.acc(0, k); d[2](k) = f.vel(1, k); d[3](k) = f.acc(1, k); }
    std::vector<C::DerivativeType> v(f.t.size(), d[0]), a(f.t.size(), d[1]);
    if (!v.empty()) { v.back() = d[2]; a.back() = d[3]; }
    for (int i = 0; i < f.drop && !x.empty(); i++) x.pop_back();
    sim::Sut s;
    switch (f.variant % 3) {
      case 0: c.fitCurve(f.t, x); break;
      case 1: c.fitCurve(f.t, x, d[0], d[1], d[2], d[3]); break;
      default: c.fitCurve(f.t, x, v, a); break;
    }
    return 1;
  }
  FitObj* clone() const override { sim::Sut s; return new VectorObj(*this); }
  void assign(const FitObj& o) override { sim::Sut s; c = static_cast<const VectorObj&>(o).c; }
  void clear() override { sim::Sut s; c.clear(); }
  bool eval(double t, double* v) const override { C::ValueType x; if (!c.evaluate(x, t)) return false; v[0] = x(0); v[1] = x(1); v[2] = x(2); return true; }
  bool deriv(double t, int o, double* v) const override { C::DerivativeType x; if (!c.evaluateDerivative(x, t, o)) return false; v[0] = x(0); v[1] = x(1); v[2] = x(2); return true; }
  double tMin() const override { sim::Sut s; return c.getMinTime(); }
  double tMax() const override { sim::Sut s; return c.getMaxTime(); }
  bool endsMeet() const override { return true; }
};

struct HermiteObj : FitObj {
  typedef curves::CubicHermiteE3Curve C;
  C c;
  int dim() const override { return 3; }
  // the Hermite curve orders its points itself and accepts a single one
  bool valid(const Fit& f) const override { return !f.t.empty() && f.increasing() && f.drop == 0 && (f.variant % 3 != 2 || f.t.size() >= 2); }
  int fit(const Fit& f) override {
    std::vector<C::ValueType> x;
    for (size_t i = 0; i < f.t.size(); i++) x.push_back(C::ValueType(f.val(i, 0), f.val(i, 1), f.val(i, 2)));
    C::DerivativeType d0(f.vel(0, 0), f.vel(0, 1), f.vel(0, 2)), d1(f.vel(1, 0), f.vel(1, 1), f.vel(1, 2));
    sim::Sut s;
    switch (f.variant % 3) {
      case 0: c.fitCurve(f.t, x); break;
      case 1: c.fitCurveWithDerivatives(f.t, x, d0, d1); break;
      default: c.fitPeriodicCurve(f.t, x); break;
    }
    return 1;
  }
  FitObj* clone() const override { sim::Sut s; return new HermiteObj(*this); }
  void assign(const FitObj& o) override { sim::Sut s; c = static_cast<const HermiteObj&>(o).c; }
  void clear() override { sim::Sut s; c.clear(); }
  bool eval(double t, double* v) const override { C::ValueType x; if (!c.evaluate(x, t)) return false; v[0] = x(0); v[1] = x(1); v[2] = x(2); return true; }
  bool deriv(double t, int o, double* v) const override { C::DerivativeType x; if (!c.evaluateDerivative(x, t, o)) return false; v[0] = x(0); v[1] = x(1); v[2] = x(2); return true; }
  double tMin() const override { sim::Sut s; return c.getMinTime(); }
  double tMax() const override { sim::Sut s; return c.getMaxTime(); }
};

#ifndef NO_POSE
struct PoseObj : FitObj {
  typedef curves::CubicHermiteSE3Curve C;
  C c;
  int dim() const override { return 7; }
  bool valid(const Fit& f) const override { return !f.t.empty() && f.increasing() && f.drop == 0 && (f.variant % 3 != 2 || f.t.size() >= 2); }
  static C::ValueType pose(const Fit& f, size_t i) {
    Eigen::Vector3d w(0.2 * f.val(i, 2), -0.15 * f.val(i, 0), 0.1 * f.val(i, 1));
    double n = w.norm(), s = n < 1e-9 ? 0.5 : std::sin(n / 2) / n;
    return C::ValueType(C::ValueType::Position(f.val(i, 0), f.val(i, 1), f.val(i, 2)), C::ValueType::Rotation(std::cos(n / 2), s * w[0], s * w[1], s * w[2]));
  }
  static void put(const C::ValueType& x, double* v) {
    v[0] = x.getPosition().x(); v[1] = x.getPosition().y(); v[2] = x.getPosition().z();
    v[3] = x.getRotation().w(); v[4] = x.getRotation().x(); v[5] = x.getRotation().y(); v[6] = x.getRotation().z();
    if (v[3] < 0) for (int k = 3; k < 7; k++) v[k] = -v[k];
  }
  double point(const Fit& f, size_t i, int k) const override { double v[7]; put(pose(f, i), v); return v[k]; }
  int fit(const Fit& f) override {
    std::vector<C::ValueType> x;
    for (size_t i = 0; i < f.t.size(); i++) x.push_back(pose(f, i));
    C::DerivativeType d0(Eigen::Vector3d(f.vel(0, 0), f.vel(0, 1), f.vel(0, 2)), Eigen::Vector3d(f.a0 * 0.3, 0.1, f.v0 * 0.2)), d1(Eigen::Vector3d(f.vel(1, 0), f.vel(1, 1), f.vel(1, 2)), Eigen::Vector3d(f.aT * 0.3, -0.1, f.vT * 0.2));
    sim::Sut s;
    switch (f.variant % 3) {
      case 0: c.fitCurve(f.t, x); break;
      case 1: c.fitCurveWithDerivatives(f.t, x, d0, d1); break;
      default: c.fitPeriodicCurve(f.t, x); break;
    }
    return 1;
  }
  FitObj* clone() const override { sim::Sut s; return new PoseObj(*this); }
  void assign(const FitObj& o) override { sim::Sut s; c = static_cast<const PoseObj&>(o).c; }
  void clear() override { sim::Sut s; c.clear(); }
  bool eval(double t, double* v) const override { C::ValueType x; if (!c.evaluate(x, t)) return false; put(x, v); return true; }
  bool deriv(double t, int o, double* v) const override {
    if (o == 1) {
      C::DerivativeType x;
      if (!c.evaluateDerivative(x, t, 1)) return false;
      Eigen::Vector3d a = x.getTranslationalVelocity().vector(), b = x.getRotationalVelocity().vector();
      for (int k = 0; k < 3; k++) { v[k] = a[k]; v[3 + k] = b[k]; }
      return true;
    }
    kindr::Acceleration3D x;
    if (!const_cast<C&>(c).evaluateLinearAcceleration(x, t)) return false;
    v[0] = x.x(); v[1] = x.y(); v[2] = x.z();
    return true;
  }
  double tMin() const override { sim::Sut s; return c.getMinTime(); }
  double tMax() const override { sim::Sut s; return c.getMaxTime(); }
};
#endif

inline FitObj* makeObj(int kind) {
  sim::Sut s;
  switch (kind) {
    case CONT1: return new ContObj<1>(); case CONT2: return new ContObj<2>(); case CONT3: return new ContObj<3>();
    case CONT4: return new ContObj<4>(); case CONT5: return new ContObj<5>(); case SCALAR: return new ScalarObj();
    case VECTOR3: return new VectorObj(); 
#ifndef NO_POSE
    case POSE: return new PoseObj();
#endif
    default: return new HermiteObj();
  }
}
inline void freeObj(FitObj* o) { sim::Sut s; delete o; }

inline bool sameObs(const Obs& a, const Obs& b, size_t from = 0, std::string* why = nullptr) {
  if (a.size() != b.size()) { if (why) *why = "different number of observations"; return false; }
  for (size_t i = from; i < a.size(); i++) {
    if (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue;
    if (std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::max(std::fabs(a[i]), std::fabs(b[i])))) continue;
    if (why) { char m[160]; snprintf(m, sizeof m, "observation %zu is %.12g instead of %.12g", i, a[i], b[i]); *why = m; }
    return false;
  }
  return true;
}

// Random fit request in plan form; bad: 0 valid, else a kind of invalid request.
inline void genFit(sim::Plan& p, sim::Rng& r, int tid, const char* name, int kind, int bad, std::vector<double> prefix = {}) {
  int n = r.range(2, r.chance(0.04) ? 14 : 5);
  if (r.chance(0.01)) n = kind >= HERMITE || kind == CONT1 ? r.range(15, r.chance(0.3) ? 300 : 80) : r.chance(0.15) ? r.range(15, 24) : n;
  if (kind >= HERMITE && !bad && r.chance(0.1)) n = 1;
  double t = r.chance(0.4) ? 0 : r.chance(0.7) ? r.uni(-5, 50) : r.chance(0.5) ? 1.4e9 + r.range(0, 100) : -1000.0;
  bool nice = r.chance(0.4);
  std::vector<double> a(prefix);
  size_t off = a.size();
  for (double d : {(double)r.range(0, 2), 0.0, r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}) a.push_back(d);
  std::vector<double> ts, xs;
  for (int i = 0; i < n; i++) { ts.push_back(t); xs.push_back(r.chance(0.1) ? 0 : r.uni(-4, 4)); t += nice ? 0.25 * r.range(1, 8) : r.uni(0.2, 2.0); }
  if (n == 1) a[off] = r.range(0, 1);
  if (bad == 1) { ts.clear(); xs.clear(); }
  else if (bad == 2) { ts.resize(1); xs.resize(1); }
  else if (bad == 3) { int k = r.range(1, n - 1); ts[k] = ts[k - 1]; }
  else if (bad == 4) { int k = r.range(1, n - 1); ts[k] = ts[k - 1] - r.uni(0.1, 3.0); }
  else if (bad == 5) a[off + 1] = r.range(1, n);  // fewer values than times
  for (size_t i = 0; i < ts.size(); i++) { a.push_back(ts[i]); a.push_back(xs[i]); }
  p.add(tid, name, a);
}

inline void sampleTimes(const Fit& f, const FitObj& o, std::vector<double>& out) {
  if (f.t.empty()) { out.push_back(0); out.push_back(1.5); return; }
  double lo = f.t.front(), hi = f.t.front();
  for (double x : f.t) { lo = std::min(lo, x); hi = std::max(hi, x); }
  double shift = f.increasing() ? o.minTime(f) - f.t.front() : 0, w = hi - lo;
  for (double k : {-0.4, 0.0, 0.13, 0.37, 0.5, 0.81, 1.0, 1.3}) out.push_back(lo + shift + k * w);
  for (size_t i = 0; i < f.t.size() && i < 4; i++) { out.push_back(f.t[i] + shift); out.push_back(f.t[i] + shift + 0.01); }
}
