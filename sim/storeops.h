// Operations on a coefficient store, executed on the real store and on the
// reference model (C06, C07).
#pragma once
#include "store.h"

// Values are unique per write so that every read is attributable.
struct StoreRun {
  Store* st;
  Model m;
  std::set<Key> dead;          // keys of removed coefficients
  double nextV = 1;
  StoreRun() { sim::Sut s; st = new Store(); }

  Model::iterator pick(int i) { auto it = m.begin(); std::advance(it, i % (int)m.size()); return it; }

  // Expected effect of one operation: a sequence of models, the last one being
  // the complete effect, earlier ones the allowed partial effects of a batch.
  // Keys of new coefficients are unknown until the store reports them; they
  // are resolved through `time`.
  struct Step { double time; double v; bool isNew; };
};

inline void genTimes(sim::Rng& r, sim::Plan& p, std::vector<double>& pool) {
  int kind = r.range(0, 5);
  int n = r.range(2, r.chance(0.15) ? 200 : 14);
  double base = kind == 1 ? 1.4e9 : kind == 2 ? -50.0 : kind == 3 ? 1e-9 : 0.0;
  double step = kind == 1 ? 0.01 : kind == 3 ? 1e-12 : 0.5;
  double t = base;
  for (int i = 0; i < n; i++) {
    pool.push_back(t);
    if (kind == 4) t = std::nextafter(t == 0 ? 1.0 : t, 1e300);
    else if (kind == 5) t = (i - n / 2) * std::pow(10.0, r.range(-3, 6));
    else t += step * r.range(1, 4);
  }
  (void)p;
}
