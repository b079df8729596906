// C03: threads working on their own objects and files get the results they get
// when run one after the other (in another process life).
#include "../fitobj.h"
#include "../store.h"
#include "../tables.h"
#include "../rosmsg.h"
using namespace sim;

enum { STORE = NKINDS, TABLES, MESSAGES, C03KINDS };

static void gen(Plan& p, Rng& r, int) {
  int n = r.range(2, r.chance(0.25) ? 4 : 2);
  p.setParam("threads", n);
  // own files: numbered, alike up to the extension, alike up to the directory, one name a prefix of the other
  p.setParam("names", r.range(0, 3));
  int same = r.chance(0.6) ? r.range(0, C03KINDS - 1) : -1;  // often all threads do the same kind of work
  for (int t = 1; t <= n; t++) {
    int kind = same >= 0 ? same : r.range(0, C03KINDS - 1);
    p.setParam(("kind" + std::to_string(t)).c_str(), kind);
    int m = r.range(1, r.chance(0.2) ? 8 : 3);
    for (int i = 0; i < m; i++) {
      if (kind == STORE) {
        int q = r.range(1, 6);
        for (int j = 0; j < q; j++)
          switch (r.range(0, 6)) {
            case 0: case 1: case 2: p.add(t, "ins", {0.5 * r.range(0, 12), (double)r.range(1, 999)}); break;
            case 3: { std::vector<double> a; int z = r.range(1, 5); for (int k = 0; k < z; k++) { a.push_back(0.5 * r.range(0, 12)); a.push_back(r.range(1, 999)); } p.add(t, "batch", a); } break;
            case 4: p.add(t, "rm", {(double)r.range(0, 20)}); break;
            case 5: p.add(t, "upd", {(double)r.range(0, 20), (double)r.range(1, 999)}); break;
            default: p.add(t, r.chance(0.2) ? "clear" : "bracket", {r.uni(0, 6)}); break;
          }
      } else if (kind == MESSAGES) {
        p.add(t, "msg", {(double)r.range(1, 1000000), (double)(r.chance(0.8) ? GOOD : r.range(1, NBAD - 1))});
      } else if (kind == TABLES) {
        switch (r.range(0, 3)) {
          case 0: p.add(t, "wrows", {(double)r.range(1, 1000000), (double)(r.chance(0.7) ? 0 : 1)}); p.add(t, "lrows"); break;
          case 1: case 2: p.add(t, "wvec", {(double)r.range(1, 1000000), (double)(r.chance(0.7) ? 0 : 1)}); p.add(t, "lvec"); break;
          default: p.add(t, "lfor", {(double)r.range(1, 1000000), (double)(r.chance(0.7) ? 0 : 1)}); break;
        }
      } else {
        genFit(p, r, t, "fit", kind, r.chance(0.1) && kind < HERMITE && kind != VECTOR3 ? r.range(2, 4) : 0);
        int q = r.range(0, 3);
        for (int j = 0; j < q; j++) {
          if (kind <= CONT5 && r.chance(0.6)) {
            if (r.chance(0.5)) p.add(t, "tick", {r.uni(0, 2)}); else if (r.chance(0.5)) p.add(t, "seek", {r.uni(-1, 6)});
            else p.add(t, "add", {r.uni(0.1, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)});
          } else p.add(t, "look", {r.uni(0, 3)});
        }
        if (kind >= HERMITE && r.chance(0.4)) p.add(t, "dump", {(double)r.range(2, 30)});
        if (r.chance(0.1)) p.add(t, "clear");
      }
    }
  }
  if (p.policy == 3) p.horizon = (uint64_t)std::pow(10.0, r.uni(2, 5.5));
}

struct Worker {
  int kind, t;
  FitObj* f = nullptr;
  Store* st = nullptr;
  Iface* ros = nullptr;
  std::string path;
  Fit last;
  Worker(int k, int tid, int names) : kind(k), t(tid) {
    if (k == STORE) { Sut s; st = new Store(); } else if (k < NKINDS) f = makeObj(k); else if (k == MESSAGES) ros = new Iface(tid % NIF);
    static const char* ext[] = {".csv", ".txt", ".dat", "", ".csv.bak"};
    static const char* dir[] = {"a/", "b/", "", "a/b/", "c/"};
    switch (names) {
      case 0: path = "/simdisk/t" + std::to_string(tid) + ".csv"; break;
      case 1: path = std::string("/simdisk/log") + ext[tid % 5]; break;
      case 2: path = std::string("/simdisk/") + dir[tid % 5] + "log.csv"; break;
      default: path = "/simdisk/" + std::string((size_t)tid, 'l') + ".csv"; break;
    }
  }
  static uint64_t dig(const Obs& o) { uint64_t h = 1469598103934665603ull + o.size(); for (double d : o) { if (std::isnan(d)) d = NAN; h = hashBytes(&d, 8, h); } return h; }
  uint64_t apply(const Op& op) {
    Obs o;
    const std::string& n = op.name;
    if (f) {
      if (n == "fit") { Fit q(op); int ok = f->fit(q); o.push_back(ok); if (f->valid(q)) last = q; }
      else if (n == "tick" && f->canPlay()) o.push_back(f->tick(op.arg(0)));
      else if (n == "seek" && f->canPlay()) f->seek(op.arg(0));
      else if (n == "add" && f->canPlay()) o.push_back(f->addSeg(&op.a[1], op.arg(0)));
      else if (n == "clear") f->clear();
      else if (n == "dump" && kind >= HERMITE && f->tMax() > f->tMin()) {
        bool ok;
        {
          Sut s;
#ifndef NO_POSE
          if (kind == POSE) ok = static_cast<PoseObj*>(f)->c.writeEvalToFile(path, op.iarg(0)); else
#endif
          ok = static_cast<HermiteObj*>(f)->c.writeEvalToFile(path, op.iarg(0));
        }
        o.push_back(ok);
        content(o);
      }
      std::vector<double> ts;
      sampleTimes(last, *f, ts);
      if (n != "fit" && ts.size() > 5) ts.resize(5);
      Obs b = f->observe(ts, true);
      o.insert(o.end(), b.begin(), b.end());
    } else if (ros) {
      Msg m = makeMsg((uint64_t)op.arg(0), op.iarg(1));
      o.push_back(ros->deliver(m));
      std::vector<double> ts{0};
      for (size_t i = 0; i < m.sec.size(); i++) { ts.push_back(m.t(i)); ts.push_back(m.t(i) + 0.1); }
      Obs b = ros->observe(ts);
      o.insert(o.end(), b.begin(), b.end());
    } else if (st) {
      std::vector<curves::Time> times;
      { Sut s; st->getTimes(&times); }
      if (n == "ins") { Coef c(op.arg(1)); Sut s; st->insertCoefficient(op.arg(0), c); }
      else if (n == "batch") { std::vector<double> tt; std::vector<Coef> v; for (size_t i = 0; i + 1 < op.a.size(); i += 2) { tt.push_back(op.a[i]); v.push_back(Coef(op.a[i + 1])); } std::vector<Key> k; Sut s; st->insertCoefficients(tt, v, &k); o.push_back(k.size()); }
      else if (n == "rm") { if (!times.empty()) { Sut s; st->removeCoefficientAtTime(times[op.iarg(0) % (int)times.size()]); } }
      else if (n == "upd") { if (!times.empty()) { std::vector<Key> k; Coef c(op.arg(1)); Sut s; st->getKeys(&k); st->updateCoefficientByKey(k[op.iarg(0) % (int)k.size()], c); } }
      else if (n == "clear") { Sut s; st->clear(); }
      else if (n == "bracket") { Sut s; Store::CoefficientIter a, b; bool ok = st->getCoefficientsAt(op.arg(0), &a, &b); o.push_back(ok); if (ok) { o.push_back(a->first); o.push_back(b->first); } }
      for (Store::CoefficientIter c = st->coefficientBegin(); c != st->coefficientEnd(); ++c) { o.push_back(c->first); o.push_back(c->second.coefficient.v); o.push_back(c->second.coefficient.intact()); Sut s; o.push_back(st->getCoefficientTimeByKey(c->second.key)); }
    } else {
      if (n == "wrows") { Rows k = rowsTable((uint64_t)op.arg(0), op.iarg(1)); { Sut s; curves::writeCSV(path, k); } content(o); }
      else if (n == "wvec") { VecTable k = vecTable((uint64_t)op.arg(0), op.iarg(1)); auto v = eig(k); { Sut s; curves::writeTimeVectorCSV(path, k.t, v); } content(o); }
      else {
        std::string ff;
        if (n == "lfor") { ff = foreignFile((uint64_t)op.arg(0), op.iarg(1), 2, nullptr); fsPut(path.c_str(), ff); }
        if (!fsExists(path.c_str())) return 0;
        if (n == "lrows") { Rows g; { Sut s; g = curves::loadCSV(path); } for (auto& row : g) { o.push_back(row.size()); for (auto& x : row) o.push_back((double)(hashBytes(x.data(), x.size()) >> 12)); } }
        else {
          std::vector<curves::Time> t0, t1; std::vector<Eigen::VectorXd> v;
          { Sut s; if (n == "lvec") curves::loadTimeVectorCSV(path, &t0, &v); else curves::loadTimeTimeVectorCSV(path, &t0, &t1, &v); }
          o.insert(o.end(), t0.begin(), t0.end()); o.insert(o.end(), t1.begin(), t1.end());
          for (auto& x : v) for (int i = 0; i < x.size(); i++) o.push_back(x[i]);
        }
      }
    }
    return dig(o);
  }
  void content(Obs& o) { std::string c = fsContent(path.c_str()); o.push_back((double)c.size()); o.push_back((double)(hashBytes(c.data(), c.size()) >> 12)); }
};
static const char* workName(int k) { return k == STORE ? "coefficient store" : k == TABLES ? "table file" : k == MESSAGES ? "message interface" : kindName(k); }

static void run(const Plan& p) {
  size_t n = p.ops.size();
  uint64_t* want = area(n + 1);
  int nt = p.iparam("threads", 2);
  auto kindOf = [&](int t) { return p.iparam(("kind" + std::to_string(t)).c_str(), 0); };
  fsDisarm();
  Outcome o = incarnation([&] {
    for (int t = 1; t <= nt; t++) {
      Worker w(kindOf(t), t, p.iparam("names", 0));
      for (size_t i = 0; i < n; i++) if (p.ops[i].tid == t) want[i] = w.apply(p.ops[i]);
    }
  });
  if (o != OUT_OK) violation("sequential-failed", "doing the same work in one thread ended with %s", outcomeName(o));
  for (auto& f : fsList()) fsRemove(f.c_str());
  std::vector<std::function<void()>> bodies;
  for (int t = 1; t <= nt; t++)
    bodies.push_back([&, t] {
      Worker w(kindOf(t), t, p.iparam("names", 0));
      for (size_t i = 0; i < n; i++) {
        const Op& op = p.ops[i];
        if (op.tid != t) continue;
        uint64_t got = w.apply(op);
        if (got != want[i]) violation("thread-disturbed", "%s on the %s of thread %d of %d gives another result than without the other threads", op.name.c_str(), workName(w.kind), t, nt);
        eventHash(got);
        event("%zu", i);
      }
    });
  runThreads(bodies);
  probe("work_compared", n);
}
namespace sim { extern "C" { Scenario g_scenario = {"C03", gen, run}; } }
