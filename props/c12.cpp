// C12: the diff of two texts is a correct edit script.
#include "diffmodel.h"
#include "TestingFramework/tfDiff.h"
#include <sstream>
using namespace model; using pbt::cat; using pbt::quote;

static void run(pbt::Ctx &c) {
  std::string a, b; bool large = c.s.chance(1, 800); if (large) { if (c.s.coin()) genManyPair(c.s, a, b, c.thorough ? 4000 : 700); else genLongPair(c.s, a, b, 4000); } else genDiffPair(c.s, a, b, c.s.chance(1, 10) ? 300 : 40);
  c.describe(cat("from: ", quote(a, 2000), "\nto:   ", quote(b, 2000), "\n"));
  std::ostringstream o; testutil::Diff(a, b, o); std::string d = o.str();
  c.require(d.empty() == (a == b), "empty-iff-equal", [&] { return cat(a == b ? "equal texts give output " : "different texts give no output ", quote(d)); });
  DiffReader r(d);
  c.require(r.read(), "format", [&] { return cat(r.err, " in\n", d); });
  c.require(r.apply(a, b), "apply", [&] { return cat(r.err, " in\n", d); });
  std::ostringstream o2; testutil::Diff(a, b, o2);
  c.check(o2.str() == d, "not-repeatable", "a second call gives another output");
  if (a != b) c.nontrivial(); if (large) c.label("long texts");
  c.label(cat(r.cmds.size() > 9 ? std::string("10+") : r.cmds.size() > 2 ? std::string("3-9") : cat(r.cmds.size()), " commands"));
  for (auto &k : r.cmds) c.label(k.op == 'a' ? "has add" : k.op == 'd' ? "has delete" : "has change");
}
static const pbt::Property P = {"C12", "pairs of texts (NUL excluded) over small and large line alphabets, lines with colliding hashes, edits/moves/cuts of one another or unrelated, and some of up to 4000 lines with few edits far apart or hundreds of them; the output is parsed and applied; non-trivial: the texts differ; distinct by the drawn choices",
  run, 400000, 6000000, 200000, 3000000, 1500, 5, {"texts contain no NUL byte"}};
PBT_MAIN(P)
