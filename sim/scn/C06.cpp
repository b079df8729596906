// C06: the coefficient store refines a time-ordered last-writer-wins map under
// any delivery history; C07 (built with -DWITH_ALLOC_FAULTS): the same with
// failing allocations, operation by operation.
#include "../storeops.h"
using namespace sim;

#ifdef WITH_ALLOC_FAULTS
static const char* kId = "C07";
static const bool kFaults = true;
#else
static const char* kId = "C06";
static const bool kFaults = false;
#endif

// A stream of measurements (time, value) is turned into a delivery history:
// some are lost, duplicated (redelivered later with the same or a corrected
// value), delayed or reordered; store maintenance operations are interleaved.
static void gen(Plan& p, Rng& r, int tier) {
  std::vector<double> pool;
  genTimes(r, p, pool);
  int n = (int)pool.size();
  double pLoss = r.chance(0.5) ? 0 : r.uni(0, 0.4), pDup = r.chance(0.4) ? 0 : r.uni(0, 0.5), pDelay = r.chance(0.4) ? 0 : r.uni(0, 0.6);
  std::vector<std::pair<double, double>> dl;  // (delivery instant, time)
  int lost = 0, dup = 0, late = 0, reord = 0;
  for (int i = 0; i < n; i++) {
    if (r.chance(pLoss)) { lost++; continue; }
    bool d = r.chance(pDelay);
    late += d;
    double at = i + (d ? r.uni(0, 8) : 0);
    dl.push_back({at, pool[i]});
    while (r.chance(pDup)) { at += r.uni(0, 6); dl.push_back({at, pool[i]}); dup++; }
  }
  std::stable_sort(dl.begin(), dl.end(), [](const std::pair<double, double>& a, const std::pair<double, double>& b) { return a.first < b.first; });
  for (size_t i = 1; i < dl.size(); i++) reord += dl[i].second < dl[i - 1].second;
  p.setParam("lost", lost); p.setParam("dup", dup); p.setParam("late", late); p.setParam("reord", reord);
  bool appendMode = r.chance(0.3);
  double maint = r.chance(0.2) ? 0 : r.uni(0.05, 0.9);
  double rm = r.uni(0, 0.5);
  double pf = kFaults ? r.uni(0.2, 0.9) : 0;
  auto fault = [&] {
    if (r.chance(pf)) p.add(0, "armalloc", {(double)(r.chance(0.8) ? r.range(1, 6) : r.range(1, 30)), r.chance(0.7) ? 1.0 : (r.chance(0.5) ? (double)r.range(2, 6) : -1.0)});
  };
  // an occasional recording of many coefficients, before or after the pool's times
  double bulkAt = r.chance(0.008) ? r.unit() : 2;
  for (size_t i = 0; i < dl.size();) {
    if (bulkAt <= (double)i / (double)dl.size()) {
      bool before = r.chance(0.5);
      double dt = r.range(1, 16) / 8.0;
      p.add(0, "bulk", {before ? *std::min_element(pool.begin(), pool.end()) : *std::max_element(pool.begin(), pool.end()), before ? -dt : dt, (double)(r.chance(0.7) ? r.range(150, 700) : r.range(700, 2000)), (double)r.range(0, 2)});
      bulkAt = 2;
    }
    fault();
    int what = r.range(0, 9);
    if (what < 2 && i + 1 < dl.size()) {
      std::vector<double> a{(double)r.range(0, 2)};
      int q = r.range(1, 8);
      for (int j = 0; j < q && i < dl.size(); j++) a.push_back(dl[i++].second);
      p.add(0, "batch", a);
    } else if (appendMode && what < 6) {
      p.add(0, "append", {dl[i++].second, (double)r.range(0, 1)});
    } else p.add(0, "ins", {dl[i++].second});
    while (r.chance(maint)) {
      fault();
      double x = r.range(0, 100000);
      if (r.chance(rm)) {
        int k = r.range(0, 9);
        if (k < 4) p.add(0, "rm", {x}); else if (k < 8) p.add(0, "rmkey", {x}); else if (k == 8 && r.chance(0.3)) p.add(0, "clear"); else p.add(0, "rmins", {x});
      } else {
        switch (r.range(0, 11)) {
          case 0: case 1: p.add(0, "updkey", {x}); break;
          case 2: p.add(0, "updbatch", {x, (double)r.range(1, r.chance(0.1) ? 60 : 5)}); break;
          case 3: p.add(0, "updmap", {x, (double)r.range(1, r.chance(0.1) ? 60 : 4)}); break;
          case 4: p.add(0, "retime", {x, 0.0, r.uni(0, 1)}); break;                 // between neighbours
          case 5: p.add(0, "retime", {x, 1.0, r.uni(-20, 20)}); break;                // anywhere by offset
          case 6: p.add(0, "retime", {x, 2.0, (double)r.range(0, 100000)}); break;   // onto an existing time (or itself)
          case 7: p.add(0, "bracket", {x, r.unit()}); break;
          case 8: p.add(0, "window", {x, (double)r.range(0, 2)}); break;
          case 9: p.add(0, "range", {x, r.uni(-1, 1), r.uni(0, 1)}); break;
          case 10: p.add(0, "copy", {(double)r.range(0, 1)}); break;
          default: p.add(0, "ins", {pool[r.below(n)]}); break;
        }
      }
    }
  }
  bool bulk = false;
  for (auto& o : p.ops) bulk |= o.name == "bulk";
  p.setParam("deep", r.chance(0.3) && !bulk);
  (void)tier;
}

struct Ctx : StoreRun {
  bool deep;
  double val() { return nextV++; }

  void check(const char* when) {
    std::string e = compareStore(*st, m, deep);
    if (!e.empty()) violation("store-mismatch", "after %s: %s", when, e.c_str());
    for (Key k : dead) {
      bool h; { Sut s; h = st->hasCoefficientWithKey(k); }
      if (h) violation("store-mismatch", "after %s: key %zu of a removed coefficient is still known", when, (size_t)k);
      if (!deep) break;
    }
  }
  void bracket(double t) { std::string e = compareBracket(*st, m, t); if (!e.empty()) violation("store-mismatch", "%s", e.c_str()); }

  // learns the key of the coefficient at time t from the listing
  Key keyAt(double t) {
    std::vector<Key> ks; std::vector<double> ts;
    { Sut s; st->getTimes(&ts); st->getKeys(&ks); }
    for (size_t i = 0; i < ts.size() && i < ks.size(); i++) if (ts[i] == t) return ks[i];
    return 0;
  }
  std::map<double, Key> keysByTime() {
    std::vector<Key> ks; std::vector<double> ts;
    { Sut s; st->getTimes(&ts); st->getKeys(&ks); }
    std::map<double, Key> o;
    for (size_t i = 0; i < ts.size() && i < ks.size(); i++) o[ts[i]] = ks[i];
    return o;
  }
  void newKey(double t, Key k) {
    for (auto& e : m) if (e.second.key == k && e.first != t) violation("store-mismatch", "the new coefficient at %.17g got key %zu of the coefficient at %.17g", t, (size_t)k, e.first);
    if (dead.count(k)) violation("store-mismatch", "the new coefficient at %.17g got key %zu of a removed coefficient", t, (size_t)k);
  }
  void put(double t, double v, Key k) {
    auto it = m.find(t);
    if (it == m.end()) { newKey(t, k); m[t] = ModelEnt{k, v}; }
    else {
      if (it->second.key != k) violation("store-mismatch", "overwriting time %.17g returned key %zu instead of %zu", t, (size_t)k, (size_t)it->second.key);
      it->second.v = v;
    }
  }

  // Runs f inside the simulator; returns true if it completed. A failure is
  // only legal if an injected allocation failure fired.
  template <class F> bool attempt(const char* what, F f) {
    bool ok = true;
    try { Sut s; f(); } catch (const std::bad_alloc&) { ok = false; }
    bool fired = allocFired();
    disarmAlloc();
    if (!ok) {
      if (!fired) violation("exception", "%s: out-of-memory error without a failed allocation", what);
      probe("op_failed_by_alloc");
    }
    return ok;
  }

  void apply(const Op& op) {
    const std::string& n = op.name;
    if (n == "armalloc") { armAlloc((long)op.arg(0), (long)op.arg(1)); return; }
    int idx = op.iarg(0);
    if (n == "ins") insertOne(op.arg(0), "insert");
    else if (n == "rmins") { if (!m.empty()) { double t = pick(idx)->first; removeAt(t); insertOne(t, "re-insert"); } }
    else if (n == "batch") batch(op);
    else if (n == "bulk") {
      Op b{op.tid, "batch", {op.arg(3)}};
      for (int i = 1; i <= op.iarg(2); i++) b.a.push_back(op.arg(0) + i * op.arg(1));
      probe("bulk_coefficients", b.a.size());
      if (op.iarg(3) == 0 && op.arg(1) > 0 && (m.empty() ? b.a[1] > 0 : b.a[1] > m.rbegin()->first)) { disarmAlloc(); for (size_t i = 1; i < b.a.size(); i++) append(b.a[i], true); }
      else batch(b);
    }
    else if (n == "append") {
      double t = op.arg(0);
      if (m.empty() ? t <= 0 : t <= m.rbegin()->first) { insertOne(t, "late insert"); }
      else append(t, op.iarg(1) != 0);
    } else if (m.empty()) { /* the rest needs a coefficient */ }
    else if (n == "rm") removeAt(pick(idx)->first);
    else if (n == "rmkey") {
      auto it = pick(idx); Key k = it->second.key;
      if (attempt("remove", [&] { st->removeCoefficientWithKey(k); })) { dead.insert(k); m.erase(it); }
    } else if (n == "clear") {
      if (attempt("clear", [&] { st->clear(); })) { for (auto& e : m) dead.insert(e.second.key); m.clear(); }
    } else if (n == "updkey") {
      auto it = pick(idx); double v = val(); Coef c(v); Key k = it->second.key;
      if (attempt("update by key", [&] { st->updateCoefficientByKey(k, c); })) it->second.v = v;
    } else if (n == "updbatch") {
      auto it = pick(idx); std::vector<double> ts; std::vector<Coef> vs; std::vector<Model::iterator> its;
      for (int i = 0; i < op.iarg(1) && it != m.end(); i++, ++it) { double v = val(); ts.push_back(it->first); vs.push_back(Coef(v)); its.push_back(it); }
      if (attempt("batch update", [&] { st->modifyCoefficientsValuesInBatch(ts, vs); })) for (size_t i = 0; i < its.size(); i++) its[i]->second.v = vs[i].v;
      else settleValues(its, vs);
    } else if (n == "updmap") {
      Store::CoefficientMap cm; std::vector<Model::iterator> its; std::vector<Coef> vs;
      std::set<double> used;
      for (int i = 0; i < op.iarg(1); i++) { auto it = pick(idx + i * 7); if (!used.insert(it->first).second) continue; double v = val(); cm[it->second.key] = Coef(v); its.push_back(it); vs.push_back(Coef(v)); }
      if (attempt("map update", [&] { st->updateCoefficients(cm); })) for (size_t i = 0; i < its.size(); i++) its[i]->second.v = vs[i].v;
      else settleAnyValues(its, vs);
    } else if (n == "retime") retime(op);
    else if (n == "bracket") { auto it = pick(idx); auto nx = it; ++nx; double t = nx == m.end() ? it->first + op.arg(1) : it->first + op.arg(1) * (nx->first - it->first); bracket(t); }
    else if (n == "window") window(op);
    else if (n == "range") range(op);
    else if (n == "copy") copy(op);
    disarmAlloc();
  }

  void removeAt(double t) {
    Key k = m[t].key;
    if (attempt("remove", [&] { st->removeCoefficientAtTime(t); })) { dead.insert(k); m.erase(t); }
  }
  void insertOne(double t, const char* what) {
    double v = val(); Coef c(v); Key k = 0;
    bool ok = attempt(what, [&] { k = st->insertCoefficient(t, c); });
    if (ok) put(t, v, k);
    else {  // must have had no effect; repeat with memory available
      check("a failed insertion");
      probe("retry");
      attempt(what, [&] { k = st->insertCoefficient(t, c); });
      put(t, v, k);
    }
  }
  void append(double t, bool wantKeys) {
    double v = val(); Coef c(v);
    std::vector<Key> out;
    bool ok = attempt("append", [&] { st->addCoefficientAtEnd(t, c, wantKeys ? &out : nullptr); });
    if (!ok) {
      check("a failed append");
      out.clear();
      probe("retry");
      attempt("append", [&] { st->addCoefficientAtEnd(t, c, wantKeys ? &out : nullptr); });
    }
    if (wantKeys && out.size() != 1) violation("store-mismatch", "append returned %zu keys", out.size());
    put(t, v, wantKeys ? out[0] : keyAt(t));
    probe("appended");
  }
  void batch(const Op& op) {
    std::vector<double> ts(op.a.begin() + 1, op.a.end());
    std::vector<Coef> vs;
    for (size_t i = 0; i < ts.size(); i++) vs.push_back(Coef(val()));
    int mode = op.iarg(0);
    std::vector<Key> out;
    if (mode == 2) out.push_back(4711);  // existing content must be kept
    size_t pre = out.size();
    bool ok = attempt("batch insert", [&] { st->insertCoefficients(ts, vs, mode ? &out : nullptr); });
    if (ok) {
      if (mode) {
        if (out.size() != pre + ts.size() || (pre && out[0] != 4711)) violation("store-mismatch", "batch insertion of %zu appended %zu keys", ts.size(), out.size() - pre);
        for (size_t i = 0; i < ts.size(); i++) put(ts[i], vs[i].v, out[pre + i]);
      } else {
        std::map<double, Key> kt = keysByTime();
        for (size_t i = 0; i < ts.size(); i++) { auto it = m.find(ts[i]); put(ts[i], vs[i].v, it == m.end() ? kt[ts[i]] : it->second.key); }
      }
    } else {
      // some leading part of the batch took effect
      size_t best = settleBatch(ts, vs);
      probe("partial_batch", best > 0);
      check("a failed batch insertion");
      std::vector<Key> out2;
      attempt("batch insert", [&] { st->insertCoefficients(ts, vs, &out2); });
      if (out2.size() != ts.size()) violation("store-mismatch", "batch insertion of %zu appended %zu keys", ts.size(), out2.size());
      for (size_t i = 0; i < ts.size(); i++) put(ts[i], vs[i].v, out2[i]);
      probe("retry");
    }
  }
  // finds the leading part of the batch that explains the store's contents
  size_t settleBatch(const std::vector<double>& ts, const std::vector<Coef>& vs) {
    Model before = m;
    std::string last;
    std::map<double, Key> kt = keysByTime();
    size_t from = 0;
    if (ts.size() > 64) while (from < ts.size() && kt.count(ts[from])) from++;  // a bulk: only new times
    for (size_t k = from; k <= ts.size(); k++) {
      m = before;
      for (size_t i = 0; i < k; i++) {
        auto it = m.find(ts[i]);
        if (it == m.end()) m[ts[i]] = ModelEnt{kt[ts[i]], vs[i].v}; else it->second.v = vs[i].v;
      }
      last = compareStore(*st, m, deep);
      if (last.empty()) return k;
    }
    m = before;
    last = compareStore(*st, m, deep);
    violation("store-mismatch", "after a failed batch insertion the store matches no leading part of the batch: %s", last.c_str());
  }
  void settleValues(const std::vector<Model::iterator>& its, const std::vector<Coef>& vs) {
    std::vector<double> old;
    for (auto& i : its) old.push_back(i->second.v);
    for (size_t k = 0; k <= its.size(); k++) {
      for (size_t i = 0; i < its.size(); i++) its[i]->second.v = i < k ? vs[i].v : old[i];
      if (compareStore(*st, m, deep).empty()) return;
    }
    violation("store-mismatch", "after a failed batch update the store matches no leading part of the batch");
  }
  void settleAnyValues(const std::vector<Model::iterator>& its, const std::vector<Coef>& vs) {
    for (unsigned mask = 0; mask < (1u << its.size()); mask++) {
      std::vector<double> old;
      for (size_t i = 0; i < its.size(); i++) { old.push_back(its[i]->second.v); if (mask >> i & 1) its[i]->second.v = vs[i].v; }
      if (compareStore(*st, m, deep).empty()) return;
      for (size_t i = 0; i < its.size(); i++) its[i]->second.v = old[i];
    }
    violation("store-mismatch", "after a failed update the store matches no part of it");
  }
  void retime(const Op& op) {
    auto it = pick(op.iarg(0));
    double t0 = it->first, t;
    if (op.iarg(1) == 0) { auto nx = it; ++nx; t = nx == m.end() ? t0 + op.arg(2) : t0 + op.arg(2) * (nx->first - t0); }
    else if (op.iarg(1) == 1) t = t0 + op.arg(2);
    else t = pick(op.iarg(2))->first;
    double v = val(); Coef c(v); Key k = it->second.key;
    auto go = [&] {
      auto sit = st->coefficientBegin();
      while (sit != st->coefficientEnd() && sit->first != t0) ++sit;
      st->modifyCoefficient(sit, t, c);
    };
    if (!attempt("re-timing", go)) {
      check("a failed re-timing");
      probe("retry");
      attempt("re-timing", go);
    }
    auto other = m.find(t);
    if (other != m.end() && t != t0) { dead.insert(other->second.key); m.erase(other); probe("retime_onto_occupied"); }
    if (t == t0) probe("retime_same_time");
    m.erase(t0);
    m[t] = ModelEnt{k, v};
  }
  void window(const Op& op) {
    auto it = pick(op.iarg(0));
    double mx = m.rbegin()->first, beg = it->first;
    if (op.iarg(1) == 1 && it != m.begin()) { auto pv = it; --pv; beg = pv->first + 0.5 * (beg - pv->first); }
    if (op.iarg(1) == 2) beg = m.begin()->first;
    std::vector<double> got{99.0};
    if (!attempt("window listing", [&] { st->getTimesInWindow(&got, beg, mx); })) return;
    std::vector<double> want;
    for (auto& e : m) if (e.first >= beg) want.push_back(e.first);
    if (got != want) violation("store-mismatch", "the window from %.17g to the end lists %zu times, expected %zu", beg, got.size(), want.size());
  }
  void range(const Op& op) {
    double mn = m.begin()->first, mx = m.rbegin()->first, w = mx - mn + 1;
    double a = mn + op.arg(1) * w, b = a + op.arg(2) * w;
    if (op.iarg(0) % 3 == 0) a = pick(op.iarg(0))->first;
    if (op.iarg(0) % 5 == 0) b = pick(op.iarg(0) / 7)->first;
    if (b < a) b = a;
    Store::CoefficientMap got;
    if (!attempt("range listing", [&] { st->getCoefficientsInRange(a, b, &got); })) return;
    // exactly the coefficients active in [a, b): from the last one at or before
    // a to the first one at or after b, the range being cut to the curve's
    std::set<Key> must;
    if (a <= mx && b >= mn) {
      double ca = std::max(a, mn), cb = std::min(b, mx);
      auto it = std::prev(m.upper_bound(ca));
      for (; it != m.end() && it->first < cb; ++it) must.insert(it->second.key);
      if (it != m.end()) must.insert(it->second.key);
    }
    std::map<Key, double> byKey;
    for (auto& e : m) byKey[e.second.key] = e.second.v;
    for (auto& g : got) {
      if (!must.count(g.first)) violation("store-mismatch", "range [%.17g, %.17g) lists a coefficient outside it", a, b);
      if (byKey[g.first] != g.second.v) violation("store-mismatch", "range listing gives %g for a coefficient holding %g", g.second.v, byKey[g.first]);
    }
    for (Key k : must) if (!got.count(k)) violation("store-mismatch", "range [%.17g, %.17g) misses a coefficient inside it", a, b);
    Store::CoefficientMap all;
    if (!attempt("listing", [&] { st->getCoefficients(&all); })) return;
    if (all.size() != m.size()) violation("store-mismatch", "the full listing has %zu of %zu coefficients", all.size(), m.size());
    for (auto& g : all) if (!byKey.count(g.first) || byKey[g.first] != g.second.v) violation("store-mismatch", "the full listing gives a wrong coefficient");
  }
  // work continues on a copy; the original must not notice, nor vice versa
  void copy(const Op& op) {
    Store* c = nullptr;
    bool assign = op.iarg(0) != 0;
    if (!attempt("copy", [&] { if (assign) { c = new Store(); try { *c = *st; } catch (...) { delete c; throw; } } else c = new Store(*st); })) return;
    bool eq; { Sut s; eq = st->equals(*c); }
    if (!eq) violation("store-mismatch", "a copy of a store does not equal the original");
    std::string e = compareStore(*c, m, deep);
    if (!e.empty()) violation("store-mismatch", "in a copy: %s", e.c_str());
    if (!m.empty()) {
      auto it = m.begin(); Coef x(-1);
      { Sut s; st->updateCoefficientByKey(it->second.key, x); }
      e = compareStore(*c, m, deep);
      if (!e.empty()) violation("store-mismatch", "writing to the original changed its copy: %s", e.c_str());
      { Sut s; eq = st->equals(*c); }
      if (eq) violation("store-mismatch", "two stores with different coefficients compare equal");
      double v = val(); Coef y(v);
      { Sut s; c->updateCoefficientByKey(it->second.key, y); }
      it->second.v = v;
      { Sut s; if (st->getCoefficientByKey(it->second.key).v != -1) violation("store-mismatch", "writing to a copy changed the original"); }
    }
    { Sut s; delete st; }
    st = c;
    probe("copied");
  }
};

static void run(const Plan& p) {
  Ctx c;
  c.deep = p.iparam("deep", 0);
  size_t i = 0, skipped = 0;
  for (auto& op : p.ops) {
    c.apply(op);
    if (op.name == "armalloc") continue;
    // a large store is compared every few operations (and after a failed one)
    if (c.m.size() > 300 && op.name != "bulk" && ++skipped < c.m.size() / 150 && &op != &p.ops.back()) continue;
    skipped = 0;
    c.check(op.name.c_str());
    event("%s n=%zu h=%016llx", op.name.c_str(), c.m.size(), (unsigned long long)modelHash(c.m));
    state(modelHash(c.m));
    // bracket around the touched times
    if (!c.m.empty()) {
      double mn = c.m.begin()->first, mx = c.m.rbegin()->first;
      c.bracket(mn); c.bracket(mx);
      c.bracket(std::nextafter(mn, -1e300)); c.bracket(std::nextafter(mx, 1e300));
      if (c.deep || i % 4 == 0) {
        auto it = c.pick((int)(i * 31));
        c.bracket(it->first); c.bracket(std::nextafter(it->first, 1e300)); c.bracket(std::nextafter(it->first, -1e300));
      }
    } else c.bracket(0.0);
    i++;
  }
  simTime((double)p.ops.size());
  static const char* kinds[][2] = {{"lost", "measurement_lost"}, {"dup", "measurement_duplicated"}, {"late", "measurement_delayed"}, {"reord", "measurement_reordered"}};
  for (auto& k : kinds) if (p.iparam(k[0], 0)) faultFired(k[1], p.iparam(k[0], 0));
  { Sut s; delete c.st; }
}
namespace sim { extern "C" { Scenario g_scenario = {kId, gen, run}; } }
