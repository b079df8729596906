// C10: an import returns the file's data completely or fails loudly.
#include "../tables.h"
using namespace sim;

static const char* kPath[] = {"/simdisk/a.csv", "/simdisk/b.csv", "/simdisk/missing.csv"};

static void gen(Plan& p, Rng& r, int) {
  p.policy = 0;
  int m = r.range(1, 5);
  double pHard = r.uni(0.05, 0.8), pSoft = r.uni(0, 0.8), pAgain = r.chance(0.5) ? 0 : r.uni(0.1, 0.6);
  if (r.chance(0.5)) p.setParam("onelife", 1);  // the process goes on after an import, unless it aborts
  std::map<int, std::vector<double>> prev;  // last file at a path
  for (int i = 0; i < m; i++) {
    int what = r.range(0, 4);  // loader 0 rows, 1 vector, 2 two-time vector, 3 own round trip, 4 short row
    if (r.chance(pSoft)) genReadFault(p, r, false);
    if (r.chance(pSoft * 0.5)) genReadFault(p, r, false);
    if (r.chance(pHard)) genReadFault(p, r, true);
    int path = r.chance(0.05) ? 2 : r.range(0, 1);
    std::vector<double> a = {(double)what, (double)path, (double)r.range(1, 1000000), (double)tableSize(r), (double)r.range(0, 1)};
    // the same file again, or another of the same size in its place
    if (prev.count(path) && r.chance(pAgain)) { a = prev[path]; a[2] = r.chance(0.15) ? a[2] : variantOf(a[2], r); }
    prev[path] = a;
    p.add(0, "import", a);
  }
}

static void expectVec(const std::vector<curves::Time>& t, const std::vector<Eigen::VectorXd>& v, const Rows& rows, int col, int times, const char* what) {
  NotSut ns;
  if (t.size() != rows.size() || v.size() != rows.size()) violation("wrong-import", "%s of a file of %zu rows returned %zu times and %zu vectors", what, rows.size(), t.size(), v.size());
  for (size_t i = 0; i < rows.size(); i++) {
    double want = strtod(rows[i][col].c_str(), nullptr);
    if (!sameNumber(t[i], want)) violation("wrong-import", "%s: time %d of row %zu is %.17g, the file says %s", what, col, i, t[i], rows[i][col].c_str());
    if ((size_t)v[i].size() != rows[i].size() - times) violation("wrong-import", "%s: row %zu has %zu values, the file has %zu", what, i, (size_t)v[i].size(), rows[i].size() - times);
    for (size_t j = 0; j < (size_t)v[i].size(); j++) {
      want = strtod(rows[i][j + times].c_str(), nullptr);
      if (!sameNumber(v[i][j], want)) violation("wrong-import", "%s: value %zu of row %zu is %.17g, the file says %s", what, j, i, v[i][j], rows[i][j + times].c_str());
    }
  }
}

// an empty line: no fields, or one empty field
static bool blank(const std::vector<std::string>& r) { return r.empty() || (r.size() == 1 && r[0].empty()); }

// One import: prepares the file, arms the faults, imports (`life` runs the import, in a
// process life of its own or in this one) and judges the outcome.
static void import(const Op& op, const std::vector<Op>& arms, bool one) {
  auto life = [&](const std::function<void()>& f) {
    if (!one) return incarnation(f);
    try { f(); } catch (...) { return OUT_EXCEPTION; }
    return OUT_OK;
  };
  {
    int what = op.iarg(0), size = op.iarg(3);
    const uint64_t full = (uint64_t)op.arg(2), seed = baseSeed(full);
    const char* path = kPath[op.iarg(1)];
    bool missing = op.iarg(1) == 2, malformed = false;
    Rows rows;
    VecTable vt;
    std::string data;
    if (what == 0) {
      rows = rowsTable(full, size);
      if (seed % 5 == 0) { Rng r(seed); for (uint64_t q = r.below(3) + 1; q; q--) rows.insert(rows.begin() + r.below(rows.size() + 1), std::vector<std::string>()); if (rows.back().empty()) rows.push_back({"end"}); }  // empty lines
      data = joinRows(rows, seed % 3 != 0 || joinRows({rows.back()}, false).empty());
    }
    else if (what == 1) data = foreignFile(full, size, 1, &rows);
    else if (what == 2) data = foreignFile(full, size, 2, &rows);
    else if (what == 3) vt = vecTable(full, size);
    else {  // malformed: a row cut short, two run together (as after a torn export), an empty line, a field that is no number
      data = foreignFile(full, size == 3 ? 1 : size, 1 + op.iarg(4), &rows);
      if (rows.size() > 1) {
        Rng r(seed);
        auto& row = rows[1 + r.below(rows.size() - 1)];
        static const char* odd[] = {"", "x", "1.5x", "--2", "12 34", "#", "1.2.3", "e5"};
        switch (r.below(6)) {
          case 5: for (auto& x : rows) x.push_back(""); break;  // every line ends in a comma
          case 0: case 1: row.resize(1 + r.below(row.size() - 1)); break;
          case 2: for (uint64_t q = r.below(3) + 1; q; q--) row.push_back(row.back()); break;
          case 3: row[r.below(row.size())] = odd[r.below(8)]; break;
          default: rows.insert(rows.begin() + r.below(rows.size()), std::vector<std::string>()); break;
        }
        malformed = true;
        data = joinRows(rows);
      }
    }
    if (!missing) {
      if (what == 3) {
        std::vector<Eigen::VectorXd> v = eig(vt);
        Outcome o = life([&] { Sut s; curves::writeTimeVectorCSV(path, vt.t, v); });
        if (o != OUT_OK) violation("export-failed", "an export ended with %s although nothing had failed", outcomeName(o));
      } else fsPut(path, data);
    }
    auto before = fsHash();
    bool prefilled = op.iarg(4);
    fsDisarm(); disarmAlloc();
    for (auto& a : arms) armFault(a);
    if (one) { slot(2) = missing || malformed; slot(1) = 1; }
    Outcome o = life([&] {
      if (what == 0) {
        Rows got;
        { Sut s; Rows g = curves::loadCSV(path); NotSut ns; got = Rows(g.begin(), g.end()); }
        if (missing) violation("wrong-import", "reading a file that does not exist returned %zu rows", got.size());
        if (got.size() != rows.size()) violation("wrong-import", "reading a file of %zu rows returned %zu rows", rows.size(), got.size());
        for (size_t i = 0; i < got.size(); i++) if (got[i] != rows[i] && !(blank(rows[i]) && blank(got[i]))) violation("wrong-import", "row %zu read from the file differs (%zu fields, %zu in the file)", i, got[i].size(), rows[i].size());
      } else {
        int times = what == 2 || (what == 4 && op.iarg(4)) ? 2 : 1;
        std::vector<curves::Time> t0, t1;
        std::vector<Eigen::VectorXd> v;
        if (prefilled) { t0.assign(3, 7.0); t1.assign(2, 8.0); v.assign(4, Eigen::VectorXd::Ones(2)); }
        { Sut s; if (times == 1) curves::loadTimeVectorCSV(path, &t0, &v); else curves::loadTimeTimeVectorCSV(path, &t0, &t1, &v); }
        if (missing) violation("wrong-import", "importing a file that does not exist returned %zu rows", t0.size());
        if (malformed) violation("wrong-import", "importing a file with a row shorter or longer than the others, an empty line or a field that is no number returned %zu rows", t0.size());
        if (what == 3) {
          if (t0.size() != vt.t.size() || v.size() != vt.t.size()) violation("round-trip", "%zu rows exported, %zu times and %zu vectors imported", vt.t.size(), t0.size(), v.size());
          for (size_t i = 0; i < t0.size(); i++) {
            if (!sameNumber(t0[i], vt.t[i])) violation("round-trip", "time %zu was %.17g, imported as %.17g", i, vt.t[i], t0[i]);
            if ((size_t)v[i].size() != vt.v[i].size()) violation("round-trip", "vector %zu had %zu entries, imported with %zu", i, vt.v[i].size(), (size_t)v[i].size());
            for (size_t j = 0; j < vt.v[i].size(); j++) if (!sameNumber(v[i][j], vt.v[i][j])) violation("round-trip", "value %zu of row %zu was %.17g, imported as %.17g", j, i, vt.v[i][j], v[i][j]);
          }
        } else {
          expectVec(t0, v, rows, 0, times, times == 1 ? "import" : "two-time import");
          if (times == 2) expectVec(t1, v, rows, 1, times, "two-time import");
        }
      }
    });
    slot(1) = 0;
    bool faulty = fsHardFired() > 0 || allocFired() || missing || malformed;
    fsDisarm(); disarmAlloc();
    probe(outcomeName(o));
    if (o == OUT_SIGNAL) violation("signal", "import was killed by a signal");
    if (o != OUT_OK && !faulty) violation("import-failed", "an import ended with %s although nothing had failed", outcomeName(o));
    if (o == OUT_OK && faulty) probe("complete_despite_fault");
    if (o != OUT_OK) probe("failed_loudly");
    if (fsHash() != before) violation("file-changed", "an import changed the files");
    state(before ^ ((uint64_t)o << 3) ^ (uint64_t)what); eventHash(before);
    event("import %d %s", what, outcomeName(o));
    if (one && o != OUT_OK) probe("life_went_on");
  }
}

static void run(const Plan& p) {
  fsDisarm(); disarmAlloc();
  bool one = p.iparam("onelife", 0);
  size_t i = 0, n = p.ops.size();
  while (i < n) {
    auto loop = [&] {
      std::vector<Op> arms;
      for (size_t j = i; j < n; j++) {
        slot(0) = (long)j;
        if (p.ops[j].name == "fault") { arms.push_back(p.ops[j]); continue; }
        import(p.ops[j], arms, one);
        arms.clear();
      }
      slot(0) = (long)n;
    };
    slot(1) = 0;
    if (!one) { loop(); return; }
    Outcome o = incarnation(loop);
    if (o != OUT_OK) {
      if (!slot(1)) violation("export-failed", "an export ended with %s although nothing had failed", outcomeName(o));
      bool faulty = fsHardFired() > 0 || allocFired() || slot(2);
      fsDisarm(); disarmAlloc();
      probe(outcomeName(o));
      if (o == OUT_SIGNAL) violation("signal", "import was killed by a signal");
      if (!faulty) violation("import-failed", "an import ended with %s although nothing had failed", outcomeName(o));
      probe("failed_loudly");
      event("import ends the life with %s", outcomeName(o));
    }
    i = (size_t)slot(0) + 1;
  }
}
namespace sim { extern "C" { Scenario g_scenario = {"C10", gen, run}; } }
