// C01: record, then replay the same measurements: result 0 and an empty report.
#include "model.h"
using namespace model;

static void run(Ctx &c) {
  Source &s = c.s;
  std::vector<Op> ops = genOps(s, s.chance(1, 12) ? 150 : 14);
  bool viaFile = !s.chance(1, 4);
  int replays = 1 + (int)s.below(2);
  double tol = s.coin() ? genTol(s) : -1;   // constructor default when negative is drawn below
  bool setTol = s.coin();
  bool report = s.coin();
  c.describe(cat("record ", viaFile ? "to a file" : "to standard output", setTol ? cat(", relative tolerance ", tol) : std::string(), ", replay ", replays, " time(s):\n", show(ops)));
  std::string base = c.scratch + "/base.xml", rep = c.scratch + "/rep.xml";
  unlink(base.c_str()); unlink(rep.c_str());
  {
    Scripted t; t.ops = ops; if (setTol) t.SetRelativeTolerance(tol);
    std::vector<std::string> a = {"prog"}; if (viaFile) { a.push_back("-O"); a.push_back(base); }
    Result r = runMain(t, a);
    c.check(r.ret == 0, "record-nonzero", cat("recording returned ", r.ret, "\n", r.err));
    if (!viaFile) pbt::writeFile(base, r.out);
  }
  size_t n = 0, markup = 0, nonfinite = 0;
  for (auto &o : ops) {
    if (!o.measures()) continue; ++n;
    if ((o.name + o.text).find_first_of("&<>\"") != std::string::npos) ++markup;
    if ((o.kind == FLOAT && !std::isfinite(o.f)) || (o.kind == DOUBLE && !std::isfinite(o.d))) ++nonfinite;
  }
  for (int k = 0; k < replays; ++k) {
    Scripted t; t.ops = ops; if (setTol) t.SetRelativeTolerance(tol);
    std::vector<std::string> a = {"prog", "-I", base}; if (report) { a.push_back("-O"); a.push_back(rep); }
    Result r = runMain(t, a);
    c.require(r.ret == 0, "replay-nonzero", [&] { return cat("replay returned ", r.ret, "\nstderr: ", r.err, "\nreport: ", report ? pbt::readFile(rep) : r.out, "\nbaseline:\n", pbt::readFile(base)); });
    c.require((report ? pbt::readFile(rep) : r.out).empty(), "replay-report", [&] { return cat("a clean replay printed a report: ", report ? pbt::readFile(rep) : r.out); });
    c.check(t.ran && t.inCompare, "not-compared", "the replay did not run in compare mode");
  }
  if (n) c.nontrivial();
  c.label(n == 0 ? "no measurements" : n < 5 ? "1-4 measurements" : n < 20 ? "5-19" : "20+");
  if (markup) c.label("markup in a name or text");
  if (nonfinite) c.label("NaN or infinity");
  if (pbt::readFile(base).size() > 1024) c.label("document longer than the read chunk");
}
static const pbt::Property P = {"C01", "random scripts of measurements (all inline kinds, hostile names and texts, extreme numbers, tolerance changes), recorded by the real framework and replayed once or twice; non-trivial: at least one measurement; distinct by the drawn choices",
  run, 100000, 1500000, 16000, 800000, 2000, 20, {}};
PBT_MAIN(P)
