// C01: keys are unique over all threads, stores and histories.
#include "../store.h"
#include "curves/CubicHermiteE3Curve.hpp"
#ifndef NO_POSE
#include "curves/CubicHermiteSE3Curve.hpp"
#include "curves/SlerpSE3Curve.hpp"
typedef curves::SE3Curve::ValueType Pose;
struct Slerp : curves::SlerpSE3Curve {  // the interface functions the library leaves open
  bool evaluate(Pose&, curves::Time) const override { return false; }
  bool evaluateDerivative(curves::SE3Curve::DerivativeType&, curves::Time, unsigned int) const override { return false; }
};
#endif
using namespace sim;

static void gen(Plan& p, Rng& r, int tier) {
  int n = r.range(2, r.chance(0.2) ? 6 : 3);
  if (r.chance(0.00015)) {  // a process that runs for long: millions of keys, from one thread
    p.setParam("threads", 1);
    p.policy = 0;
    p.add(1, "many", {(double)(r.chance(0.8) ? r.range(1100000, 2200000) : r.range(16800000, 17500000))});
    return;
  }
  p.setParam("threads", n);
  bool big = r.chance(0.004);
  int mode = r.range(0, 3);
  p.setParam("pre", r.chance(0.3) ? r.range(1, 3) : 0);  // keys taken before the threads start
  for (int t = 1; t <= n; t++) {
    int k = r.range(1, r.chance(0.3) ? 40 : 8);
    if (big) { p.add(t, "keys", {(double)r.range(12000, 40000)}); continue; }
    for (int i = 0; i < k; i++) {
      int what = mode == 0 ? 0 : r.range(0, 11);
      double time = r.range(-4, 12) * 0.5;
      if (what <= 2) p.add(t, "keys", {(double)r.range(1, 3)});
      else if (what <= 5) p.add(t, "ins", {time, (double)r.range(1, 1000)});
      else if (what == 6) { std::vector<double> a; int q = r.range(1, 6); for (int j = 0; j < q; j++) { a.push_back(r.range(-4, 12) * 0.5); a.push_back(r.range(1, 1000)); } p.add(t, "batch", a); }
      else if (what == 7) p.add(t, "append", {r.uni(0.1, 2.0), (double)r.range(1, 1000)});
      else if (what == 8) p.add(t, r.chance(0.7) ? "rm" : "rmkey", {(double)r.range(0, 30)});
      else if (what == 9) p.add(t, r.chance(0.5) ? "clear" : "fresh");
      else if (what == 10) p.add(t, "retime", {(double)r.range(0, 30), time, (double)r.range(1, 1000)});
      else { double x = r.unit(); p.add(t, x < 0.3 ? "fit" : x < 0.5 ? "fitpose" : x < 0.75 ? "stream" : "copy", {(double)r.range(1, 6), (double)r.range(1, 4)}); }
    }
  }
  if (big) { p.policy = 1; p.p = 1e-4; }
  (void)tier;
}

static std::map<Key, int>* seen;  // key -> thread that got it
static void fresh(Key k, const char* how) {
  NotSut ns;
  auto ins = seen->insert({k, self()});
  if (!ins.second) violation("duplicate-key", "key %zu handed out to thread %d (%s) had already been handed out to thread %d", (size_t)k, self(), how, ins.first->second);
}

struct Worker {
  Store* st = nullptr;
  curves::CubicHermiteE3Curve* hc = nullptr;
#ifndef NO_POSE
  curves::CubicHermiteSE3Curve* pc = nullptr;
  Slerp* sc = nullptr;
  double clock = 0;
#endif
  Model m;
  Worker() { st = new Store(); }
  void apply(const Op& op) {
    if (op.name == "keys") {
      for (int i = 0; i < op.iarg(0); i++) { Key k; { Sut s; k = curves::KeyGenerator::getNextKey(); } fresh(k, "key request"); }
    } else if (op.name == "many") {
      std::map<Key, std::vector<bool>> pages;  // keys handed out, by blocks of 2^16
      std::vector<bool>* page = nullptr;
      Key at = 0;
      for (long i = 0; i < (long)op.arg(0) && pages.size() < 4000 && steps() < 130000000; i++) {
        Key k;
        { Sut s; k = curves::KeyGenerator::getNextKey(); }
        if (!page || at != k >> 16) { at = k >> 16; page = &pages[at]; page->resize(65536); }
        if ((*page)[k & 65535]) violation("duplicate-key", "key %zu was handed out twice within %ld requests", (size_t)k, i + 1);
        (*page)[k & 65535] = true;
      }
      for (auto& e : *seen) { auto q = pages.find(e.first >> 16); if (q != pages.end() && q->second[e.first & 65535]) violation("duplicate-key", "key %zu was handed out twice", (size_t)e.first); }
      // the keys taken afterwards are compared with the last ones only
      probe("long_histories");
    } else if (op.name == "ins") {
      Key k; Coef c(op.arg(1));
      { Sut s; k = st->insertCoefficient(op.arg(0), c); }
      note(op.arg(0), op.arg(1), k);
    } else if (op.name == "batch") {
      std::vector<double> t; std::vector<Coef> v; std::vector<Key> out;
      for (size_t i = 0; i + 1 < op.a.size(); i += 2) { t.push_back(op.a[i]); v.push_back(Coef(op.a[i + 1])); }
      { Sut s; st->insertCoefficients(t, v, &out); }
      if (out.size() != t.size()) violation("lost-key", "batch of %zu insertions returned %zu keys", t.size(), out.size());
      for (size_t i = 0; i < t.size(); i++) note(t[i], v[i].v, out[i]);
    } else if (op.name == "append") {
      double t = (m.empty() ? 0.0 : m.rbegin()->first) + op.arg(0);
      if (t <= 0) return;
      std::vector<Key> out; Coef c(op.arg(1));
      { Sut s; st->addCoefficientAtEnd(t, c, &out); }
      if (out.size() != 1) violation("lost-key", "append returned %zu keys", out.size());
      note(t, op.arg(1), out[0]);
    } else if (op.name == "rm" || op.name == "rmkey") {
      if (m.empty()) return;
      auto it = m.begin();
      std::advance(it, op.iarg(0) % (int)m.size());
      { Sut s; if (op.name == "rm") st->removeCoefficientAtTime(it->first); else st->removeCoefficientWithKey(it->second.key); }
      m.erase(it);
    } else if (op.name == "retime") {
      if (m.empty()) return;
      auto it = m.begin();
      std::advance(it, op.iarg(0) % (int)m.size());
      Key k = it->second.key;
      double to = op.arg(1);
      { Coef c(op.arg(2)); Sut s; auto q = st->coefficientBegin(); std::advance(q, op.iarg(0) % (int)m.size()); st->modifyCoefficient(q, to, c); }
      m.erase(it);
      m[to] = ModelEnt{k, op.arg(2)};
    } else if (op.name == "fit") {  // a curve of its own, which creates its coefficients
      std::vector<double> t; std::vector<curves::CubicHermiteE3Curve::ValueType> x; std::vector<Key> out;
      for (int i = 0; i < op.iarg(0); i++) { t.push_back(i * 0.5); x.push_back(curves::CubicHermiteE3Curve::ValueType(i, 1, 2)); }
      { Sut s; if (!hc) hc = new curves::CubicHermiteE3Curve(); hc->fitCurve(t, x, &out); }
      if (out.size() != t.size()) violation("lost-key", "fitting %zu points returned %zu keys", t.size(), out.size());
      for (Key k : out) fresh(k, "fit");
#ifndef NO_POSE
    } else if (op.name == "fitpose") {
      std::vector<double> t; std::vector<Pose> x; std::vector<Key> out;
      for (int i = 0; i < std::max(2, op.iarg(0)); i++) { t.push_back(i * 0.5); x.push_back(Pose(Pose::Position(i, 1, 2), Pose::Rotation(1, 0, 0, 0))); }
      { Sut s; if (!pc) pc = new curves::CubicHermiteSE3Curve(); pc->fitCurve(t, x, &out); }
      if (out.size() != t.size()) violation("lost-key", "fitting %zu poses returned %zu keys", t.size(), out.size());
      for (Key k : out) fresh(k, "pose fit");
    } else if (op.name == "stream") {
      for (int i = 0; i < op.iarg(0); i++) {
        std::vector<Key> out;
        std::vector<double> t(1, clock += 0.5);
        std::vector<Pose> x(1, Pose(Pose::Position(clock, 1, 2), Pose::Rotation(1, 0, 0, 0)));
        { Sut s; if (!sc) sc = new Slerp(); if (!i) sc->setSamplingRatio(op.iarg(1)); sc->extend(t, x, &out); }
        for (Key k : out) fresh(k, "measurement");
      }
#endif
    } else if (op.name == "copy") {  // a copy has the same coefficients and keys; what is inserted next is new
      { Sut s; Store* c = new Store(*st); delete st; st = c; }
    } else if (op.name == "clear") {
      { Sut s; st->clear(); }
      m.clear();
    } else if (op.name == "fresh") {
      { Sut s; delete st; st = new Store(); }
      m.clear();
    }
    event("%s %zu keys so far %zu", op.name.c_str(), m.size(), seen->size());
  }
  void note(double t, double v, Key k) {
    auto it = m.find(t);
    if (it != m.end()) {
      if (it->second.key != k) violation("key-changed", "overwriting the coefficient at time %g changed its key from %zu to %zu", t, (size_t)it->second.key, (size_t)k);
      it->second.v = v;
      return;
    }
    fresh(k, "insertion");
    m[t] = ModelEnt{k, v};
  }
  void finish() {
    std::vector<Key> ks;
    { Sut s; st->getKeys(&ks); }
    std::set<Key> a(ks.begin(), ks.end()), b;
    for (auto& e : m) b.insert(e.second.key);
    if (a != b) violation("keys-lost", "the store of thread %d lists %zu keys, expected %zu", self(), a.size(), b.size());
  }
};

static void run(const Plan& p) {
  std::map<Key, int> sn;
  seen = &sn;
  int n = p.iparam("threads", 2);
  for (int i = 0; i < p.iparam("pre", 0); i++) { Key k; { Sut s; k = curves::KeyGenerator::getNextKey(); } fresh(k, "key request"); }
  std::vector<Worker> w(n + 1);
  std::vector<std::function<void()>> bodies;
  for (int t = 1; t <= n; t++)
    bodies.push_back([&, t] {
      for (auto& op : p.ops) if (op.tid == t) w[t].apply(op);
      w[t].finish();
    });
  runThreads(bodies);
  // history check over everything handed out, plus keys taken afterwards
  for (int i = 0; i < 2; i++) { Key k; { Sut s; k = curves::KeyGenerator::getNextKey(); } fresh(k, "key request"); }
  probe("keys_checked", sn.size());
  uint64_t h = 1;
  for (auto& e : sn) h = h * 31 + (uint64_t)e.second;
  state(h);  // which thread got which key: the allocation order
}
namespace sim { extern "C" { Scenario g_scenario = {"C01", gen, run}; } }
