// Trajectory messages and the interfaces that take them, for C14 and C03.
#pragma once
#include <cmath>
#include <algorithm>
#include "curves_ros/RosJointTrajectoryInterface.hpp"
#include "curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp"
#ifndef NO_POSE
#include "curves_ros/RosMultiDOFJointTrajectoryInterface.hpp"
#endif
#include "sim.h"

enum { JOINT, TRANSLATION,
#ifndef NO_POSE
       POSEI,
#endif
       NIF };
static const char* ifName(int k) { static const char* n[] = {"joint", "translation", "pose"}; return n[k]; }
enum Bad { GOOD, NOT_NAMED, NO_NAMES, NO_POINTS, SHORT_POINT, EMPTY_POINT, ONE_POINT, EQUAL_TIMES, FALLING_TIMES, SWAPPED_POINTS, NBAD };
static const char* badName(int b) {
  static const char* n[] = {"well-formed message", "message for other joints", "message naming no joints", "message without waypoints", "message with a waypoint lacking the joint's data", "message with an empty waypoint", "message with one waypoint", "message with equal waypoint times", "message with a waypoint time going back", "message with swapped waypoints"};
  return n[b];
}

// What a message says; the real message types are built from it.
struct Msg {
  int bad = 0, nJoints = 1, j = 0;
  std::vector<std::string> names;
  std::vector<int> sec, nsec;
  std::vector<std::vector<double>> val;  // per point, nJoints*7 numbers
  std::vector<int> have;                 // joints with data, per point
  bool named() const { return j >= 0; }
  double t(size_t i) const { return (double)sec[i] + 1e-9 * (double)nsec[i]; }
  double p(size_t i, int k) const { return val[i][(size_t)j * 7 + k]; }
  bool increasing() const { for (size_t i = 1; i < sec.size(); i++) if (!(t(i) > t(i - 1))) return false; return true; }
  bool hasData() const { for (int h : have) if (h <= j) return false; return true; }
};
static const char* kMine = "arm_joint_2";
static Msg makeMsg(uint64_t seed, int bad) {
  sim::Rng r(seed * 31 + 7);
  Msg m;
  m.bad = bad;
  m.nJoints = r.chance(0.4) ? 1 : r.range(2, 5);
  if (bad == SHORT_POINT) m.nJoints = r.range(1, 5);
  m.j = r.range(0, m.nJoints - 1);
  for (int i = 0; i < m.nJoints; i++) m.names.push_back(i == m.j ? std::string(kMine) : (r.chance(0.3) ? std::string("arm_joint_") + (char)('3' + i) : r.chance(0.3) ? std::string(kMine) + "_" + (char)('a' + i) : std::string("arm_joint_2").substr(0, 6 + i % 4) + (char)('A' + i)));
  if (bad == NOT_NAMED) { m.names[m.j] = r.chance(0.5) ? "arm_joint_" : r.chance(0.5) ? "" : "arm_joint_22"; m.j = -1; }
  if (bad == NO_NAMES) { m.names.clear(); m.j = -1; }
  int n = r.range(2, r.chance(0.15) ? 9 : 5);
  if (bad == ONE_POINT) n = 1;
  if (bad == NO_POINTS) n = 0;
  long t = r.chance(0.5) ? 0 : r.chance(0.6) ? r.range(1, 5000) : r.range(1, 2000000);  // ms
  bool fine = r.chance(0.4);
  for (int i = 0; i < n; i++) {
    m.sec.push_back((int)(t / 1000)); m.nsec.push_back((int)(t % 1000) * 1000000 + (fine ? r.range(0, 999999) : 0));
    t += r.chance(0.5) ? 250 * r.range(1, 8) : r.range(200, 2500);
    std::vector<double> v;
    for (int k = 0; k < m.nJoints; k++) {
      for (int q = 0; q < 3; q++) v.push_back(r.uni(-3, 3));
      double w[3] = {r.uni(-0.9, 0.9), r.uni(-0.9, 0.9), r.uni(-0.9, 0.9)}, nn = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) + 1e-12;
      v.push_back(std::cos(nn / 2)); for (int q = 0; q < 3; q++) v.push_back(std::sin(nn / 2) * w[q] / nn);
    }
    m.val.push_back(v);
    m.have.push_back(m.nJoints);
  }
  if (n) {
    int k = r.chance(0.4) ? n - 1 : r.range(0, n - 1);
    if (bad == SHORT_POINT) m.have[k] = r.range(0, m.j);
    if (bad == EMPTY_POINT) m.have[k] = 0;
    if (n > 1) {
      int q = r.range(1, n - 1);
      if (bad == EQUAL_TIMES) { m.sec[q] = m.sec[q - 1]; m.nsec[q] = m.nsec[q - 1]; }
      if (bad == FALLING_TIMES) { m.sec[q] = m.sec[q - 1] - r.range(1, 3); }
      if (bad == SWAPPED_POINTS) { std::swap(m.sec[q], m.sec[q - 1]); std::swap(m.nsec[q], m.nsec[q - 1]); }
    }
  }
  // data for no joint at all: the names are there, positions are not
  return m;
}
static trajectory_msgs::JointTrajectory jointMsg(const Msg& m) {
  trajectory_msgs::JointTrajectory o;
  o.joint_names = m.names;
  for (size_t i = 0; i < m.sec.size(); i++) {
    trajectory_msgs::JointTrajectoryPoint p;
    p.time_from_start = ros::Duration(m.sec[i], m.nsec[i]);
    for (int k = 0; k < m.have[i]; k++) p.positions.push_back(m.val[i][k * 7]);
    o.points.push_back(p);
  }
  return o;
}
static trajectory_msgs::MultiDOFJointTrajectory multiMsg(const Msg& m) {
  trajectory_msgs::MultiDOFJointTrajectory o;
  o.joint_names = m.names;
  for (size_t i = 0; i < m.sec.size(); i++) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start = ros::Duration(m.sec[i], m.nsec[i]);
    for (int k = 0; k < m.have[i]; k++) {
      geometry_msgs::Transform t;
      const double* v = &m.val[i][k * 7];
      t.translation.x = v[0]; t.translation.y = v[1]; t.translation.z = v[2];
      t.rotation.w = v[3]; t.rotation.x = v[4]; t.rotation.y = v[5]; t.rotation.z = v[6];
      p.transforms.push_back(t);
    }
    o.points.push_back(p);
  }
  return o;
}

struct Iface {
  int kind;
  curves::RosJointTrajectoryInterface* a = nullptr;
  curves::RosMultiDOFJointTrajectoryTranslationInterface* b = nullptr;
#ifndef NO_POSE
  curves::RosMultiDOFJointTrajectoryInterface* c = nullptr;
#endif
  explicit Iface(int k) : kind(k) {
    sim::Sut s;
    if (k == JOINT) a = new curves::RosJointTrajectoryInterface();
    else if (k == TRANSLATION) b = new curves::RosMultiDOFJointTrajectoryTranslationInterface();
#ifndef NO_POSE
    else c = new curves::RosMultiDOFJointTrajectoryInterface();
#endif
  }
  void free() {
    sim::Sut s; delete a; delete b;
#ifndef NO_POSE
    delete c;
#endif
  }
  int dim() const { return kind == JOINT ? 1 : kind == TRANSLATION ? 3 : 7; }
  // 1 accepted, 0 reported as not accepted (false or exception)
  // nth > 0: the nth allocation on the way fails
  int deliver(const Msg& m, long nth = 0, long times = 1, bool* oom = nullptr) {
    trajectory_msgs::JointTrajectory jm;
    trajectory_msgs::MultiDOFJointTrajectory mm;
    if (kind == JOINT) jm = jointMsg(m); else mm = multiMsg(m);
    struct Armed { bool* o; ~Armed() { if (o) { *o = sim::allocFired(); sim::disarmAlloc(); } } } armed{nth > 0 ? oom : nullptr};
    if (nth > 0) sim::armAlloc(nth, times);
    try {
      sim::Sut s;
      if (kind == JOINT) return a->fromMessage(jm, kMine);
      if (kind == TRANSLATION) return b->fromMessage(mm, kMine);
#ifndef NO_POSE
      return c->fromMessage(mm, kMine);
#endif
    } catch (const std::exception&) {}
    return 0;
  }
  bool eval(double t, double* v) const {
    sim::Sut s;
    if (kind == JOINT) return a->evaluate(v[0], t);
    if (kind == TRANSLATION) { curves::PolynomialSplineQuinticVector3Curve::ValueType x; if (!b->evaluate(x, t)) return false; for (int k = 0; k < 3; k++) v[k] = x(k); return true; }
#ifndef NO_POSE
    curves::CubicHermiteSE3Curve::ValueType x;
    if (!c->evaluate(x, t)) return false;
    v[0] = x.getPosition().x(); v[1] = x.getPosition().y(); v[2] = x.getPosition().z();
    v[3] = x.getRotation().w(); v[4] = x.getRotation().x(); v[5] = x.getRotation().y(); v[6] = x.getRotation().z();
#endif
    return true;
  }
  double tMin() const {
    sim::Sut s;
#ifndef NO_POSE
    if (c) return c->getMinTime();
#endif
    return a ? a->getMinTime() : b->getMinTime();
  }
  double tMax() const {
    sim::Sut s;
#ifndef NO_POSE
    if (c) return c->getMaxTime();
#endif
    return a ? a->getMaxTime() : b->getMaxTime();
  }
  std::vector<double> observe(const std::vector<double>& ts) const {
    std::vector<double> o{tMin(), tMax()};
    for (double t : ts) { double v[7] = {0}; bool ok = eval(t, v); o.push_back(ok); for (int k = 0; k < dim(); k++) o.push_back(ok ? v[k] : 0); }
    return o;
  }
};
