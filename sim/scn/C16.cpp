// C16: nothing leaks, also when operations fail.
//
// The same work (objects built, used, failing, destroyed; files written and
// read) is done several times in one process. What the process keeps (blocks
// and bytes allocated by the code under test, open files) must stop growing:
// one-time caches are legal, steady growth is not.
#include "../fitobj.h"
#include "../store.h"
#include "../tables.h"
#include "../rosmsg.h"
using namespace sim;

enum { STORE = NKINDS, MESSAGES, FILES, C16KINDS };
enum { REPEATS = 6, LONG = 96 };

static void oom(Plan& p, Rng& r, double pf) {
  if (r.chance(pf)) p.add(0, "fault", {100, (double)(r.chance(0.5) ? r.range(1, 10) : r.chance(0.6) ? r.range(1, 60) : r.range(1, 600)), r.chance(0.75) ? 1.0 : r.chance(0.5) ? (double)r.range(2, 6) : -1.0});
}
static void gen(Plan& p, Rng& r, int) {
  p.policy = 0;
  int kind = r.range(0, C16KINDS - 1);
  if (r.chance(0.25)) kind = FILES;
  p.setParam("kind", kind);
  if (r.chance(0.02)) p.setParam("long", 1);
  p.setParam("curve", r.range(HERMITE, NKINDS - 1));
  p.setParam("iface", r.range(0, NIF - 1));
  double pf = r.uni(0.2, 1.0), pBad = r.chance(0.3) ? 0.3 : 0;
  int m = r.range(1, 6);
  for (int i = 0; i < m; i++) {
    if (kind == STORE) {
      int q = r.range(1, 8);
      for (int j = 0; j < q; j++) {
        oom(p, r, pf * 0.5);
        switch (r.range(0, 8)) {
          case 0: case 1: p.add(0, "ins", {0.5 * r.range(0, 12), (double)r.range(1, 999)}); break;
          case 2: case 3: { std::vector<double> a; int z = r.range(1, 8); for (int k = 0; k < z; k++) { a.push_back(0.5 * r.range(0, 12)); a.push_back(r.range(1, 999)); } p.add(0, "batch", a); } break;
          case 4: p.add(0, "append", {r.uni(0.1, 1), (double)r.range(1, 999)}); break;
          case 5: p.add(0, "rm", {(double)r.range(0, 20)}); break;
          case 6: p.add(0, "upd", {(double)r.range(0, 20), (double)r.range(1, 999)}); break;
          case 7: p.add(0, "retime", {(double)r.range(0, 20), 0.5 * r.range(0, 12), (double)r.range(1, 999)}); break;
          default: p.add(0, r.chance(0.3) ? "clear" : r.chance(0.5) ? "copy" : "list", {}); break;
        }
      }
    } else if (kind == MESSAGES) {
      oom(p, r, pf);
      p.add(0, "msg", {(double)r.range(1, 1000000), (double)(r.chance(0.7) ? GOOD : r.range(1, NBAD - 1))});
    } else if (kind == FILES) {
      bool dump = r.chance(0.5);
      // an export or import whose file fails aborts the process; its memory may run out
      if (dump) {
        genFit(p, r, 0, "fit", HERMITE, 0);
        if (r.chance(pf)) genWriteFault(p, r, true); else if (r.chance(0.3)) genWriteFault(p, r, false);
        p.add(0, "dump", {(double)(r.chance(0.5) ? r.range(2, 60) : r.range(60, 400)), (double)(r.chance(0.1) ? 1 : 0)});
      } else { oom(p, r, pf); p.add(0, "table", {(double)r.range(0, 4), (double)r.range(1, 1000000), (double)(r.chance(0.8) ? r.range(0, 1) : 2)}); }
    } else {
      oom(p, r, pf);
      if (kind <= CONT5 && r.chance(0.25)) p.add(0, "add", {r.uni(0.1, 2), r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)});
      else if (r.chance(0.15)) p.add(0, "clear");
      else if (r.chance(0.2)) p.add(0, r.chance(0.5) ? "copy" : "assign");
      else genFit(p, r, 0, "fit", kind, r.chance(pBad) && kind < HERMITE && kind != VECTOR3 ? r.range(2, 4) : 0);
    }
  }
}

static int kind;
static uint64_t trace = 1;  // outcomes and blocks in use after every operation
static void guarded(const std::function<void()>& f) {
  bool failed = false;
  try { f(); } catch (const std::exception&) { failed = true; probe("operation_failed"); }
  trace = trace * 1099511628211ull + (uint64_t)heapBlocks() * 2 + failed;
}
static const char* kPath = "/simdisk/a.csv";

static void repetition(const Plan& p) {
  std::vector<const Op*> arms;
  auto arm = [&] { for (auto* a : arms) armFault(*a); arms.clear(); };
  auto done = [&] { fsDisarm(); disarmAlloc(); };
  FitObj *o = nullptr, *o2 = nullptr;
  Store* st = nullptr;
  Iface* ros = nullptr;
  if (kind < NKINDS) o = makeObj(kind);
  else if (kind == STORE) { Sut s; st = new Store(); }
  else if (kind == MESSAGES) ros = new Iface(p.iparam("iface", 0) % NIF);
  else o = makeObj(p.iparam("curve", HERMITE));
  for (auto& op : p.ops) {
    const std::string& n = op.name;
    if (n == "fault") { arms.push_back(&op); continue; }
    if (o) {
      if (n == "fit") {
        Fit f(op);
        if (kind == FILES) { if (o->valid(f)) o->fit(f); continue; }
        mayAbort(true); arm();
        guarded([&] { o->fit(f); });
        done(); mayAbort(false);
      } else if (n == "add") { if (o->canPlay()) { arm(); guarded([&] { o->addSeg(&op.a[1], op.arg(0)); }); done(); } }
      else if (n == "clear") { o->clear(); arms.clear(); }
      else if (n == "copy") { arm(); guarded([&] { FitObj* c = o->clone(); freeObj(c); }); done(); }
      else if (n == "assign") { if (!o2) o2 = makeObj(kind); arm(); guarded([&] { o2->assign(*o); }); done(); }
      else if (n == "dump") {
        const char* path = op.iarg(1) ? "/simdisk/nodir/x" : kPath;
        mayAbort(true); arm();
        guarded([&] {
          Sut s;
#ifndef NO_POSE
          if (o->dim() == 7) { static_cast<PoseObj*>(o)->c.writeEvalToFile(path, op.iarg(0)); return; }
#endif
          static_cast<HermiteObj*>(o)->c.writeEvalToFile(path, op.iarg(0));
        });
        done(); mayAbort(false);
      } else if (n == "table") {
        int what = op.iarg(0); uint64_t seed = (uint64_t)op.arg(1); int size = op.iarg(2);
        Rows rows = rowsTable(seed, size);
        VecTable vt = vecTable(seed, size);
        std::vector<Eigen::VectorXd> v = eig(vt);
        if (what == 2) fsPut(kPath, joinRows(rows));
        if (what == 3) fsPut(kPath, foreignFile(seed, size, 1, nullptr));
        if (what == 4) fsPut(kPath, foreignFile(seed, size, 2, nullptr));
        mayAbort(true); arm();
        guarded([&] {
          std::vector<curves::Time> t0, t1; std::vector<Eigen::VectorXd> x;
          Sut s;
          if (what == 0) curves::writeCSV(kPath, rows);
          else if (what == 1) curves::writeTimeVectorCSV(kPath, vt.t, v);
          else if (what == 2) curves::loadCSV(kPath);
          else if (what == 3) curves::loadTimeVectorCSV(kPath, &t0, &x);
          else curves::loadTimeTimeVectorCSV(kPath, &t0, &t1, &x);
        });
        done(); mayAbort(false);
      }
    } else if (ros) {
      Msg m = makeMsg((uint64_t)op.arg(0), op.iarg(1));
      bool fired = false;
      long nth = 0, times = 1;
      if (!arms.empty()) { nth = (long)arms.back()->arg(1); times = (long)arms.back()->arg(2); arms.clear(); }
      ros->deliver(m, nth, times, &fired);
      if (fired) probe("operation_failed");
      trace = trace * 1099511628211ull + (uint64_t)heapBlocks() * 2 + fired;
    } else if (st) {
      size_t sz; { Sut s; sz = st->size(); }
      auto at = [&](int i) { auto it = st->coefficientBegin(); std::advance(it, i % (int)sz); return it; };
      std::vector<curves::Time> t; std::vector<Coef> v; std::vector<Key> out;
      for (size_t i = 0; i + 1 < op.a.size(); i += 2) { t.push_back(op.a[i]); v.push_back(Coef(op.a[i + 1])); }
      Coef c(op.arg(1, 1)), c2(op.arg(2, 1));
      arm();
      guarded([&] {
        Sut s;
        if (n == "ins") st->insertCoefficient(op.arg(0), c);
        else if (n == "batch") st->insertCoefficients(t, v, &out);
        else if (n == "append") st->addCoefficientAtEnd((st->empty() ? 0 : st->getMaxTime()) + op.arg(0), c, &out);
        else if (n == "clear") st->clear();
        else if (n == "copy") { Store x(*st); x = *st; }
        else if (n == "list") { st->getTimes(&t); st->getKeys(&out); }
        else if (sz && n == "rm") st->removeCoefficientAtTime(at(op.iarg(0))->first);
        else if (sz && n == "upd") st->updateCoefficientByKey(at(op.iarg(0))->second.key, c);
        else if (sz && n == "retime") st->modifyCoefficient(at(op.iarg(0)), op.arg(1), c2);
      });
      done();
    }
  }
  if (o) freeObj(o);
  if (o2) freeObj(o2);
  if (ros) { ros->free(); delete ros; }
  if (st) { Sut s; delete st; }
}

static void run(const Plan& p) {
  kind = p.iparam("kind", CONT5);
  fsDisarm(); disarmAlloc();
  long blocks[REPEATS], bytes[REPEATS]; int files[REPEATS];
  for (int i = 0; i < REPEATS; i++) {
    repetition(p);
    blocks[i] = heapBlocks(); bytes[i] = heapBytes(); files[i] = fsOpen();
    event("repetition %d: %ld blocks, %ld bytes, %d files", i, blocks[i], bytes[i], files[i]);
  }
  // steady growth over the repetitions after the first two
  bool mem = true, fd = true;
  for (int i = 2; i + 1 < REPEATS; i++) { mem &= blocks[i + 1] > blocks[i] && bytes[i + 1] > bytes[i]; fd &= files[i + 1] > files[i]; }
  long longGrowth = 0;
  if (p.iparam("long", 0)) {
    // storage that doubles its capacity grows ever more rarely, but never stops
    long b[4] = {0, 0, 0, 0};
    for (int i = REPEATS; i < LONG; i++) {
      if (steps() > 300000000) { event("too long to repeat on"); return; }
      repetition(p);
      for (int q = 0; q < 4; q++) if (i + 1 == LONG >> (3 - q)) b[q] = heapBytes();
    }
    event("bytes after 12, 24, 48, 96 repetitions: %ld %ld %ld %ld", b[0], b[1], b[2], b[3]);
    if (b[1] > b[0] && b[2] > b[1] && b[3] > b[2]) longGrowth = b[3] - b[0];
    probe("repetitions", LONG - REPEATS);
  }
  static const char* names[] = {"a coefficient store", "a trajectory interface", "files"};
  const char* what = kind < NKINDS ? kindName(kind) : names[kind - NKINDS];
  if (fd) violation("files-left-open", "every repetition of the same work on %s leaves another %d file(s) open", what, files[REPEATS - 1] - files[REPEATS - 2]);
  if (mem) violation("leak", "every repetition of the same work on %s leaves another %ld bytes in %ld blocks allocated", what, bytes[REPEATS - 1] - bytes[REPEATS - 2], blocks[REPEATS - 1] - blocks[REPEATS - 2]);
  if (longGrowth) violation("leak", "repeating the same work on %s keeps allocating more: %ld bytes between the 12th and the 96th time, growing in every doubling of the work", what, longGrowth);
  probe("repetitions", REPEATS);
  state(trace * 31 + (uint64_t)kind); eventHash(trace);
}
namespace sim { extern "C" { Scenario g_scenario = {"C16", gen, run}; } }
