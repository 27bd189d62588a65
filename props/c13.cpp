// C13: the diff is minimal (against a quadratic LCS).
#include "diffmodel.h"
#include "TestingFramework/tfDiff.h"
#include <sstream>
using namespace model; using pbt::cat; using pbt::quote;

static void run(pbt::Ctx &c) {
  std::string a, b; bool large = c.s.chance(1, 800); if (large) { if (c.s.coin()) genManyPair(c.s, a, b, 1200); else genLongPair(c.s, a, b, 2500); } else genDiffPair(c.s, a, b, c.s.chance(1, 20) ? 150 : 30);
  c.describe(cat("from: ", quote(a, 2000), "\nto:   ", quote(b, 2000), "\n"));
  std::ostringstream o; testutil::Diff(a, b, o); std::string d = o.str();
  DiffReader r(d);
  c.require(r.read(), "format", [&] { return cat(r.err, " in\n", d); });
  std::vector<std::string> x = linesOf(a), y = linesOf(b); long want = (long)(x.size() + y.size()) - 2 * lcsLen(x, y);
  c.require(r.deleted + r.inserted == want, "not-minimal", [&] { return cat("deletes ", r.deleted, " and inserts ", r.inserted, " lines; ", want, " in all are enough\n", d); });
  if (want >= 2) c.nontrivial(); if (large) c.label("long texts");
  c.label(want == 0 ? "distance 0" : want < 5 ? "distance 1-4" : want < 20 ? "distance 5-19" : "distance 20+");
  if (r.cmds.size() > 1) c.label("two or more commands");
}
static const pbt::Property P = {"C13", "pairs of texts as for C12 (long ones up to 2500 lines); deleted plus inserted lines against a quadratic longest-common-subsequence computation; non-trivial: distance 2 or more; distinct by the drawn choices",
  run, 400000, 6000000, 200000, 3000000, 1000, 5, {"texts contain no NUL byte"}};
PBT_MAIN(P)
