// C02: a comparison run returns exactly the number of disagreeing measurements.
#include "model.h"
using namespace model;

static void run(Ctx &c) {
  Source &s = c.s;
  std::vector<Op> ops = genOps(s, s.chance(1, 12) ? 120 : 12);
  double tol0 = std::numeric_limits<float>::epsilon() * 64.0; // documented default
  bool setTol = s.coin(); double tol = setTol ? genTol(s) : tol0;
  std::vector<Entry> base = genBaseline(s, ops, tol);
  bool report = s.chance(1, 3);
  // the fewest names, so that a wrong position often still finds the same name
  if (s.coin()) { std::string n = s.chance(1, 4) ? genName(s) : "n", m = s.chance(1, 4) ? nearName(s, n) : n + "m"; if (n.size() > 5000) n.resize(5000), m = n + "m"; for (auto &o : ops) o.name = n; for (auto &b : base) b.name = s.chance(1, 10) ? m : n; }
  encodeSome(s, base, true);
  Verdict v = compareModel(ops, base, tol);
  c.describe(cat("relative tolerance ", tol, "\ntest:\n", show(ops), "baseline:\n", show(base)));
  std::string f = c.scratch + "/base.xml", rep = c.scratch + "/rep.xml";
  pbt::writeFile(f, writeDoc(base)); unlink(rep.c_str());
  Scripted t; t.ops = ops; if (setTol) t.SetRelativeTolerance(tol);
  std::vector<std::string> a = {"prog", "-I", f}; if (report) { a.push_back("-O"); a.push_back(rep); }
  Result r = runMain(t, a);
  c.require(t.ran && t.inCompare, "not-compared", [&] { return cat("the body did not run in compare mode: ", r.err); });
  c.require(r.ret >= v.lo && r.ret <= v.hi, "wrong-count", [&] { std::string o; for (int m : v.each) o += cat(m, " "); return cat("returned ", r.ret, ", expected ", v.lo, v.hi > v.lo ? cat("..", v.hi) : std::string(), " (per measurement, 1 matches, 0 differs, 2 not judged, 3 baseline used up: ", o, ")\n", r.out); });
  size_t tolerantOnly = 0, k = 0; double cur = tol;
  for (auto &o : ops) { if (!o.measures()) { cur = o.tol; continue; } if (k < base.size() && v.each[k] == 1 && base[k].content != contentOf(o)) ++tolerantOnly; ++k; }
  if (v.lo > 0 || tolerantOnly) c.nontrivial();
  c.label(v.lo == 0 ? "no disagreement" : v.lo < 4 ? "1-3 disagreements" : "4+ disagreements");
  if (tolerantOnly) c.label("matched only within tolerance");
  if (v.hi > v.lo) c.label("some measurement not judged (rounding edge)");
  if (base.size() < v.each.size()) c.label("baseline used up");
  if (base.size() > v.each.size()) c.label("baseline left over");
}
static const pbt::Property P = {"C02", "a random script of measurements and tolerance changes compared with a baseline derived from its record by renaming, retyping, dropping, doubling, inserting, swapping and altering entries (numbers around the tolerance edge, non-numeric texts); the expected count comes from an independent model; non-trivial: at least one disagreement, or a match that needs the tolerance; distinct by the drawn choices",
  run, 100000, 2000000, 30000, 800000, 2000, 20,
  {"a numeric pair within a few rounding errors of the tolerance boundary is not judged", "baselines hold only the documented measurement types"}};
PBT_MAIN(P)
