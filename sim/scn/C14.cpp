// C14: trajectory messages are applied whole, or rejected without effect.
#include "../rosmsg.h"
using namespace sim;

static bool same(const std::vector<double>& a, const std::vector<double>& b) {
  for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(b[i]))) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
static void timesOf(const Msg& m, std::vector<double>& ts) {
  for (size_t i = 0; i < m.sec.size(); i++) { ts.push_back(m.t(i)); if (i) ts.push_back(0.37 * m.t(i) + 0.63 * m.t(i - 1)); }
  if (!m.sec.empty()) { ts.push_back(m.t(0) - 1); ts.push_back(m.t(m.sec.size() - 1) + 1); }
}

static void gen(Plan& p, Rng& r, int) {
  p.policy = 0;
  p.setParam("iface", r.range(0, NIF - 1));
  // the planner publishes; the channel loses, duplicates, delays (reorders) and corrupts
  int n = r.range(1, r.chance(0.1) ? 20 : 6);
  double pLoss = r.uni(0, 0.3), pDup = r.uni(0, 0.4), pLate = r.uni(0, 0.5), pBad = r.uni(0, 0.8), pOom = r.chance(0.4) ? r.uni(0, 0.8) : 0;
  std::vector<std::pair<double, Op>> q;
  for (int i = 0; i < n; i++) {
    if (r.chance(pLoss)) { p.add(0, "lost"); continue; }
    int copies = r.chance(pDup) ? 2 : 1;
    double seed = r.range(1, 1000000);
    int bad = r.chance(pBad) ? r.range(1, NBAD - 1) : GOOD;
    double nth = r.chance(pOom) ? (r.chance(0.5) ? r.range(1, 12) : r.range(1, 120)) : 0, times = r.chance(0.7) ? 1 : r.chance(0.5) ? r.range(2, 8) : -1;
    for (int c = 0; c < copies; c++) q.push_back({i + (r.chance(pLate) ? r.uni(0, 4) : 0.0), Op{0, "msg", {seed, (double)bad, (double)c, (double)i, c ? 0 : nth, times}}});
  }
  std::stable_sort(q.begin(), q.end(), [](const std::pair<double, Op>& a, const std::pair<double, Op>& b) { return a.first < b.first; });
  for (auto& e : q) p.ops.push_back(e.second);
}

static void run(const Plan& p) {
  int kind = p.iparam("iface", 0);
  Iface f(kind);
  Msg cur;
  bool haveCur = false;
  double lastSeq = -1;
  for (auto& op : p.ops) {
    if (op.name == "lost") { faultFired("message_loss"); continue; }
    Msg m = makeMsg((uint64_t)op.arg(0), op.iarg(1));
    if (op.iarg(2)) faultFired("message_duplicated");
    if (op.arg(3) < lastSeq) faultFired("message_out_of_order");
    lastSeq = op.arg(3);
    if (m.bad) faultFired("message_malformed");
    std::vector<double> ts{0};
    timesOf(cur, ts); timesOf(m, ts);
    std::vector<double> before = f.observe(ts);
    bool oom = false;
    int ok = f.deliver(m, (long)op.arg(4), (long)op.arg(5), &oom);
    std::vector<double> after = f.observe(ts);
    bool refuse = !m.named() || m.sec.empty() || !m.hasData() || !m.increasing();
    if (oom && !ok && !refuse) {
      // out of memory: the previous curve, the message's, or none; the redelivered message is applied
      Iface g(kind), e(kind);
      bool old = same(after, before), neu = g.deliver(m) == 1 && same(after, g.observe(ts));
      std::vector<double> eo = e.observe(ts);
      bool none = std::fabs(after[1] - after[0]) <= 1e-12 * (1 + std::fabs(after[0])) && same(std::vector<double>(after.begin() + 2, after.end()), std::vector<double>(eo.begin() + 2, eo.end()));
      g.free(); e.free();
      if (!old && !neu && !none) violation("half-applied", "a message of %zu waypoints failed for lack of memory, and the %s interface's curve is neither the previous one nor the message's nor empty", m.sec.size(), ifName(kind));
      probe(old ? "kept_old" : neu ? "became_new" : "became_empty");
      probe("redelivered");
      ok = f.deliver(m);
      after = f.observe(ts);
    }
    bool must = !refuse && (m.sec.size() >= 2);
    if (ok && refuse) violation("bad-message-accepted", "the %s interface accepted a %s", ifName(kind), badName(m.bad));
    if (!ok && must) violation("message-refused", "the %s interface did not accept a well-formed message of %zu waypoints for joint %d of %d", ifName(kind), m.sec.size(), m.j, m.nJoints);
    if (!ok) {
      if (!same(after, before)) violation("refused-with-effect", "the %s interface did not accept a %s but its curve changed", ifName(kind), badName(m.bad));
      probe("refused");
    } else {
      Iface g(kind);
      if (g.deliver(m) != 1) violation("message-refused", "a fresh %s interface did not accept a message that was accepted before", ifName(kind));
      std::vector<double> fr = g.observe(ts);
      g.free();
      if (!same(after, fr)) violation("history-dependent", "after a %s the %s interface's curve depends on earlier messages", badName(m.bad), ifName(kind));
      for (size_t i = 0; i < m.sec.size(); i++) {
        double v[7] = {0};
        bool e = f.eval(m.t(i), v);
        double dot = 1;
        if (kind > TRANSLATION) { dot = 0; for (int k = 3; k < 7; k++) dot += v[k] * m.p(i, k); }
        for (int k = 0; k < f.dim(); k++) {
          double want = m.p(i, k), got = k >= 3 && dot < 0 ? -v[k] : v[k];
          if (!e || !(std::fabs(got - want) <= 1e-5)) violation("waypoint-missed", "after an accepted %s the %s interface's curve gives %.9g instead of %.9g at waypoint %zu of %zu (time %.9g)", badName(m.bad), ifName(kind), e ? got : NAN, want, i, m.sec.size(), m.t(i));
        }
      }
      if (std::fabs(f.tMin() - m.t(0)) > 1e-6 && m.increasing()) violation("waypoint-missed", "after an accepted message the %s interface's curve starts at %.9g instead of %.9g", ifName(kind), f.tMin(), m.t(0));
      if (std::fabs(f.tMax() - m.t(m.sec.size() - 1)) > 1e-6 && m.increasing()) violation("waypoint-missed", "after an accepted message the %s interface's curve ends at %.9g instead of %.9g", ifName(kind), f.tMax(), m.t(m.sec.size() - 1));
      cur = m; haveCur = true;
      probe("accepted");
    }
    simTime(1);
    uint64_t h = hashBytes(after.data(), after.size() * 8);
    state(h); eventHash(h);
    event("msg %d %d", m.bad, ok);
  }
  (void)haveCur;
  f.free();
}
namespace sim { extern "C" { Scenario g_scenario = {"C14", gen, run}; } }
