// C23: sizes, indices, regions, points, vectors, arrays and matrices are
// recorded component by component.
#include "composite.h"
using namespace model;

static void run(Ctx &c) {
  Source &s = c.s; std::vector<Val> vals; size_t n = 1 + s.below(4); std::vector<Op> ops; std::string d;
  for (size_t i = 0; i < n; ++i) { vals.push_back(genVal(s)); d += show(vals[i]); expand(vals[i], ops); c.label(KN[vals[i].kind]); }
  double tol = s.chance(1, 2) ? 0 : genTol(s);
  auto body = [&](ItkTest &t) { t.SetRelativeTolerance(tol); for (auto &v : vals) call(t, v); return 0; };
  c.describe(cat("tolerance ", tol, "\n", d));
  std::string out; // recorded
  { ItkTest t; t.body = body; Result r = runItk(t, {"prog"}); c.require(r.ret == 0 && t.done, "record", [&] { return cat("recording returned ", r.ret, "\n", r.err); }); out = r.out; }
  Doc doc = parseXml(out); c.require(doc.ok, "record-document", [&] { return doc.error + "\n" + out; });
  c.require(doc.root.kids.size() == ops.size(), "record-count", [&] { return cat(doc.root.kids.size(), " measurements recorded, should be ", ops.size(), "\n", out); });
  for (size_t i = 0; i < ops.size(); ++i) {
    const Elem &e = doc.root.kids[i]; const std::string *nm = e.get("name"), *ty = e.get("type"); Entry w = entryOf(ops[i]);
    c.require(e.tag == "DartMeasurement" && nm && *nm == w.name && ty && *ty == w.type, "record-name", [&] { return cat("measurement ", i, " should be ", w.type, " ", quote(w.name), "\n", out); });
    bool same = e.text == w.content; // numerically the same spelling otherwise
    if (!same && ops[i].kind == DOUBLE && !std::isnan(ops[i].d)) { char *q; double x = strtod(e.text.c_str(), &q), y = strtod(w.content.c_str(), 0); same = !*q && !e.text.empty() && (x == y || std::fabs(x - y) <= 1e-15 * std::fabs(y)); }
    if (!same && ops[i].kind == DOUBLE && std::isnan(ops[i].d)) same = e.text.find("nan") != std::string::npos;
    c.require(same, "record-value", [&] { return cat("measurement ", i, " should hold ", w.content, ", holds ", quote(e.text)); });
  }
  std::string bx = c.scratch + "/b.xml"; static int files = 0; (void)files;
  { pbt::writeFile(bx, out); ItkTest t; t.body = body; Result r = runItk(t, {"prog", "-I", bx}); c.require(r.ret == 0 && t.done && r.out.empty(), "replay", [&] { return cat("replaying the record returned ", r.ret, "\n", r.err, r.out); }); }
  // changed components
  std::vector<Entry> base; int k = 0, hi = 0;
  std::vector<Op> run = ops; Op st; st.kind = SET_TOL; st.tol = tol; run.insert(run.begin(), st);
  if (s.coin()) { for (auto &o : ops) base.push_back(entryOf(o)); size_t m = 1 + s.below(3);
    for (size_t j = 0; j < m; ++j) { size_t p = s.below(ops.size()); Op o = ops[p]; if (o.kind == INTEGER) { long delta = s.coin() ? 1 : s.range(2, 1000); o.i = o.i > 0 ? o.i - delta : o.i + delta; } else o.d = std::isfinite(o.d) ? (s.coin() ? o.d * 1.25 + 1 : o.d == 0 ? 1 : -o.d) : 5; base[p].content = contentOf(o); } c.label("changed components"); }
  else { base = genBaseline(s, run, tol); c.label("changed baseline"); }
  Verdict v = compareModel(run, base, tol); k = v.lo; hi = v.hi;
  pbt::writeFile(bx, writeDoc(base)); ItkTest t; t.body = body; Result r = runItk(t, {"prog", "-I", bx});
  c.require(r.ret >= k && r.ret <= hi && t.done, "changed", [&] { return cat("against\n", show(base), "returned ", r.ret, ", should be ", k, hi != k ? cat(" to ", hi) : std::string(), "\n", r.err, r.out); });
  if (ops.size() > 1) c.nontrivial(); if (k) c.label("disagreements");
}
static const pbt::Property P = {"C23", "1-4 sizes, indices, regions, points, vectors, fixed arrays and matrices (1 to 6, sometimes 12 or 17 components, matrices up to 4x4, 2x11 and 12x2, of double, float, int and unsigned char) with distinct and with extreme components, recorded and read back by a second XML parser, replayed, and compared with changed records under random tolerance against the scalar reference model; non-trivial: more than one component; distinct by the drawn choices",
  run, 60000, 900000, 0, 0, 0, 10, {"sizes fit in a signed long", "the scalar recording and comparison model is that of C02, C04 and C05"}};
PBT_MAIN(P)
