// C09: an export that returns normally wrote the complete file.
// C11 (-DCRASH): a crash during an export leaves a prefix; re-export repairs.
#include "../tables.h"
using namespace sim;

#ifdef CRASH
static const char* kId = "C11";
#else
static const char* kId = "C09";
#endif
static const char* kPath[] = {"/simdisk/a.csv", "/simdisk/b.csv", "/simdisk/c.csv", "/simdisk/nodir/x.csv"};

static void gen(Plan& p, Rng& r, int) {
  p.policy = 0;
  int m = r.range(1, 6);
  double pHard = r.uni(0.1, 0.9), pSoft = r.uni(0, 0.7), pAgain = r.chance(0.5) ? 0 : r.uni(0.1, 0.6);
  if (r.chance(0.5)) p.setParam("onelife", 1);  // the process goes on after an export, unless it aborts
  std::map<int, std::vector<double>> prev;  // last export to a path
  auto table = [&](int path) {
    std::vector<double> a = {(double)r.range(0, 1), (double)path, (double)r.range(1, 1000000), (double)tableSize(r)};
    // the same table, or one of the same size and shape
    if (prev.count(path) && r.chance(pAgain)) { a = prev[path]; a[2] = r.chance(0.15) ? a[2] : variantOf(a[2], r); }
    return prev[path] = a;
  };
  for (int i = 0; i < m; i++) {
#ifdef CRASH
    int k = r.range(1, 3);  // exports of one process life; the crash hits one of them
    if (r.chance(pSoft)) genWriteFault(p, r, false);
    if (r.chance(pHard)) {
      if (r.chance(0.5)) p.add(0, "fault", {FS_CRASH_CALL, (double)(r.chance(0.6) ? r.range(1, 8) : r.range(1, 120)), 0});
      else p.add(0, "fault", {FS_CRASH_WRITE, (double)(r.chance(0.6) ? r.range(1, 4) : r.range(1, 100)), (double)r.range(0, 9000)});
    }
    std::vector<double> a;
    for (int j = 0; j < k; j++) for (double d : table(r.range(0, 2))) a.push_back(d);
    p.add(0, "life", a);
#else
    if (r.chance(0.1)) p.add(0, "put", {(double)r.range(0, 2), (double)r.range(0, 3000)});
    if (r.chance(pSoft)) genWriteFault(p, r, false);
    if (r.chance(pSoft * 0.5)) genWriteFault(p, r, false);
    if (r.chance(pHard)) genWriteFault(p, r, true);
    p.add(0, "export", table(r.chance(0.06) ? 3 : r.range(0, 2)));
#endif
  }
}

static bool holds(const Op& op, size_t at, const std::string& d, std::string* why) {
  if (op.iarg(at)) return holdsVec(d, vecTable((uint64_t)op.arg(at + 2), op.iarg(at + 3)), why);
  return holdsRows(d, rowsTable((uint64_t)op.arg(at + 2), op.iarg(at + 3)), why);
}
static void doExport(const Op& op, size_t at) {
  const char* path = kPath[op.iarg(at + 1) & 3];
  if (op.iarg(at)) {
    VecTable k = vecTable((uint64_t)op.arg(at + 2), op.iarg(at + 3));
    std::vector<Eigen::VectorXd> v = eig(k);
    Sut s; curves::writeTimeVectorCSV(path, k.t, v);
  } else {
    Rows k = rowsTable((uint64_t)op.arg(at + 2), op.iarg(at + 3));
    Sut s; curves::writeCSV(path, k);
  }
}
// The files of the user; others are left-overs of the code under test (a file it writes first and renames).
static std::map<std::string, std::string> disk() { std::map<std::string, std::string> m; for (const char* f : kPath) if (fsExists(f)) m[f] = fsContent(f); return m; }
// only `path` may differ; files that did not exist may appear
static void othersKept(const std::map<std::string, std::string>& before, const std::vector<std::string>& paths, const char* when) {
  for (auto& kv : before) {
    bool mine = false;
    for (auto& p : paths) mine = mine || p == kv.first;
    if (mine) continue;
    if (!fsExists(kv.first.c_str())) violation("other-file-changed", "%s: %s has disappeared", when, kv.first.c_str());
    if (fsContent(kv.first.c_str()) != kv.second) violation("other-file-changed", "%s: %s has changed", when, kv.first.c_str());
  }
}

#ifndef CRASH
static void judge(const Op& op, Outcome o, const std::map<std::string, std::string>& before) {
  const char* path = kPath[op.iarg(1) & 3];
  bool faulty = fsHardFired() > 0 || allocFired() || op.iarg(1) == 3;
  fsDisarm(); disarmAlloc();
  probe(outcomeName(o));
  std::string why;
  if (o == OUT_OK) {
    if (!fsExists(path)) violation("incomplete-export", "export to %s returned normally but there is no such file", path);
    if (!holds(op, 0, fsContent(path), &why)) violation("incomplete-export", "export to %s returned normally but the file is wrong: %s%s", path, why.c_str(), faulty ? " (a system call or allocation had failed)" : "");
    if (faulty) probe("complete_despite_fault");
  } else if (o == OUT_SIGNAL) violation("signal", "export to %s was killed by a signal", path);
  else if (!faulty) violation("export-failed", "export to %s ended with %s although nothing had failed", path, outcomeName(o));
  else probe("failed_loudly");
  othersKept(before, {path}, "after an export");
  uint64_t h = fsHash();
  state(h ^ (uint64_t)o); eventHash(h);
  event("%s %d %s %zu", op.name.c_str(), op.iarg(0), outcomeName(o), fsContent(path).size());
}
static void run(const Plan& p) {
  fsDisarm(); disarmAlloc();
  bool one = p.iparam("onelife", 0);
  size_t i = 0, n = p.ops.size();
  while (i < n) {
    auto prepare = [](const Op& op) {
      if (op.name == "fault") armFault(op);
      else if (op.name == "put") fsPut(kPath[op.iarg(0)], std::string((size_t)op.arg(1), 'x') + "\n");
      else return false;
      return true;
    };
    if (prepare(p.ops[i])) { i++; continue; }
    slot(0) = (long)i;
    std::map<std::string, std::string> before = disk();
    Outcome o = incarnation([&] {
      for (size_t j = i; j < n; j++) {
        const Op& op = p.ops[j];
        slot(0) = (long)j;
        if (prepare(op)) continue;
        before = disk();
        if (!one) { doExport(op, 0); return; }
        Outcome e = OUT_OK;
        try { doExport(op, 0); } catch (...) { e = OUT_EXCEPTION; }
        judge(op, e, before);
        if (e != OUT_OK) probe("life_went_on");
      }
      slot(0) = (long)n;
    });
    size_t j = (size_t)slot(0);
    // the export that ended the life (what lay on the disk before it is known for the first one of a life)
    if (j < n && p.ops[j].name == "export") judge(p.ops[j], o, j == i ? before : std::map<std::string, std::string>());
    else if (o != OUT_OK) violation("harness", "a process life ended outside an export");
    i = j + 1;
  }
}
#else
static void run(const Plan& p) {
  fsDisarm();
  for (auto& op : p.ops) {
    if (op.name == "fault") { armFault(op); continue; }
    size_t n = op.a.size() / 4;
    auto before = disk();
    slot(0) = 0;
    Outcome o = incarnation([&] { for (size_t i = 0; i < n; i++) { doExport(op, i * 4); slot(0) = (long)i + 1; } });
    size_t doneN = (size_t)slot(0);
    bool crashed = fsFired(FS_CRASH_CALL) + fsFired(FS_CRASH_WRITE) > 0;
    // a process that reports an interrupted call and ends has ended in the midst of its export as well
    bool gaveUp = fsFired(FS_WRITE_EINTR) > 0 && (o == OUT_CHECK || o == OUT_EXCEPTION || o == OUT_EXIT);
    fsDisarm();
    if (gaveUp) { crashed = true; probe("gave_up"); }
    else if (o != OUT_OK && !(o == OUT_CRASH && crashed)) violation("export-failed", "an export ended with %s although nothing had failed", outcomeName(o));
    if (o == OUT_OK && doneN != n) violation("harness", "lost exports");
    // exports that had returned, last one per file
    std::vector<std::string> touched;
    std::map<std::string, size_t> last;
    for (size_t i = 0; i < doneN; i++) last[kPath[op.iarg(i * 4 + 1)]] = i;
    for (size_t i = 0; i < n && i <= doneN; i++) touched.push_back(kPath[op.iarg(i * 4 + 1)]);
    std::string cut = crashed && doneN < n ? kPath[op.iarg(doneN * 4 + 1)] : "";
    std::string why;
    for (auto& kv : last) {
      if (kv.first == cut) continue;
      if (!fsExists(kv.first.c_str()) || !holds(op, kv.second * 4, fsContent(kv.first.c_str()), &why))
        violation("lost-export", "%s was exported completely%s but is wrong: %s", kv.first.c_str(), crashed ? " before the crash" : "", why.c_str());
    }
    othersKept(before, touched, crashed ? "after a crash" : "after exports");
    if (crashed) {
      probe("crashed");
      if (!cut.empty()) {
        bool had = last.count(cut) || before.count(cut);
        std::string now = fsContent(cut.c_str());
        bool ok = !fsExists(cut.c_str());
        if (ok) probe("crash_missing");
        if (!ok) {  // previous content
          if (last.count(cut)) ok = holds(op, last[cut] * 4, now, &why);
          else ok = had && before[cut] == now;
          if (ok) probe("crash_previous");
        }
        std::string full;
        // what the same export writes when it is not disturbed
        fsRemove(cut.c_str());
        auto mid = disk();
        Outcome o2 = incarnation([&] { doExport(op, doneN * 4); });
        if (o2 != OUT_OK) violation("export-failed", "repeating the export after the crash ended with %s", outcomeName(o2));
        full = fsContent(cut.c_str());
        if (!holds(op, doneN * 4, full, &why)) violation("lost-export", "repeating the export of a removed file gives a wrong file: %s", why.c_str());
        if (!ok && full.compare(0, now.size(), now) == 0) { ok = true; probe(now.empty() ? "crash_empty" : now.size() == full.size() ? "crash_complete" : "crash_prefix"); }
        if (!ok) violation("torn-export", "after a crash during its export %s (%zu bytes) is neither missing, nor the previous file, nor a prefix of the new one", cut.c_str(), now.size());
        // re-export over what the crash left
        if (!now.empty() || had) { fsPut(cut.c_str(), now); probe("re_export"); }
        o2 = incarnation([&] { doExport(op, doneN * 4); });
        if (o2 != OUT_OK) violation("export-failed", "exporting again after the crash ended with %s", outcomeName(o2));
        if (!holds(op, doneN * 4, fsContent(cut.c_str()), &why)) violation("lost-export", "after exporting again over the remains of the crash %s is wrong: %s", cut.c_str(), why.c_str());
        othersKept(mid, {cut}, "after exporting again");
      }
    }
    uint64_t h = fsHash();
    state(h); eventHash(h);
    event("life %zu/%zu %s", doneN, n, outcomeName(o));
  }
}
#endif
namespace sim { extern "C" { Scenario g_scenario = {kId, gen, run}; } }
