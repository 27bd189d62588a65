// C14: every disagreement is reported, and only disagreements are.
#include "model.h"
#include "diffmodel.h"
using namespace model;

static void run(Ctx &c) {
  Source &s = c.s;
  std::vector<Op> ops = genOps(s, s.chance(1, 12) ? 60 : 8);
  double tol = std::numeric_limits<float>::epsilon() * 64.0;
  std::vector<Entry> base = genBaseline(s, ops, tol);
  if (s.chance(1, 3)) { for (auto &o : ops) o.name = "n"; for (auto &b : base) b.name = "n"; }
  if (s.chance(1, 3)) { size_t k = 0; for (auto &o : ops) if (o.measures()) { if (o.kind == PLAIN && k < base.size() && base[k].type == "text/plain") { std::string x, y; if (s.chance(1, 25)) { if (s.coin()) genManyPair(s, x, y, 3000); else { x = genText(s, 30); y = bulkText(s, bulkSize(s)); if (s.coin()) std::swap(x, y); } } else genDiffPair(s, x, y, 30); bool ok = true; for (char ch : x + y) if ((ch < 32 || ch > 126) && ch != '\n' && ch != '\t') ok = false; if (ok) { base[k].content = x; o.text = y; } } ++k; } }
  encodeSome(s, base, false);
  if (s.chance(1, 4)) { // the same text on both sides, one of them being an encoding of something else
    size_t k = 0; for (auto &o : ops) if (o.measures()) { if (o.kind == STRING && k < base.size() && !base[k].wire.empty() && s.coin()) o.text = base[k].wire; ++k; } }
  Verdict v = compareModel(ops, base, tol);
  bool file = s.coin();
  c.describe(cat("report to ", file ? "a file" : "standard output", "\ntest:\n", show(ops), "baseline:\n", show(base)));
  if (v.lo != v.hi) throw pbt::Discard();
  std::string f = c.scratch + "/base.xml", rep = c.scratch + "/rep.xml"; pbt::writeFile(f, writeDoc(base)); unlink(rep.c_str());
  Scripted t; t.ops = ops; std::vector<std::string> a = {"prog", "-I", f}; if (file) { a.push_back("-O"); a.push_back(rep); }
  Result r = runMain(t, a);
  std::string report = file ? pbt::readFile(rep) : r.out;
  if (file) c.require(r.out.empty(), "stdout-used", [&] { return quote(r.out); });
  Doc d = parseXml("<r>" + report + "</r>");
  c.require(d.ok, "malformed", [&] { return cat(d.error, "\n", report); });
  std::string wrapped = "<r>" + report + "</r>"; MiniXml m(wrapped); Elem own; c.require(m.document(own), "malformed2", [&] { return cat(m.err, "\n", report); });
  size_t k = 0, pos = 0; auto rp = [&] { return cat("report:\n", report); };
  auto next = [&]() -> const Elem & { c.require(k < d.root.kids.size(), "missing", [&] { return "the report ends too early, " + rp(); }); return d.root.kids[k++]; };
  auto valueOf = [](const Elem &e) { const std::string *q = e.get("encoding"); std::string o; return q && *q == "base64" && b64decode(e.text, false, o) ? o : e.text; };
  auto is = [&](const Elem &e, const std::string &mark, const std::string &name, const std::string &type, const std::string *content) {
    const std::string *n = e.get("name"), *ty = e.get("type");
    return e.tag == "DartMeasurement" && n && *n == mark + name && ty && *ty == type && (!content || valueOf(e) == *content) && e.kids.empty(); };
  for (auto &o : ops) {
    if (!o.measures()) continue;
    int match = v.each[pos]; const Entry *b = pos < base.size() ? &base[pos] : 0; ++pos; std::string val = contentOf(o), ty = KIND_TYPE[o.kind];
    if (match == 1) continue;
    if (!b || b->name != o.name || b->type != ty) { const Elem &e = next(); c.require(is(e, "Unmatched ", o.name, ty, &val), "unmatched", [&] { return cat("expected the unmatched ", show(o), ", ", rp()); }); continue; }
    if (o.kind == PLAIN) {
      const Elem &e = next(); c.require(is(e, "Difference ", o.name, ty, 0), "difference", [&] { return cat("expected the difference of ", show(o), ", ", rp()); });
      DiffReader dr(e.text); c.require(dr.read() && dr.apply(b->content, val), "difference-text", [&] { return cat("the difference does not turn ", quote(b->content, 2000), " into ", quote(val, 2000), ": ", dr.err, "\n", rp()); });
      continue; }
    const Elem &x = next(), &y = next();
    c.require((is(x, "Test ", o.name, ty, &val) && is(y, "Baseline ", o.name, ty, &b->content)) || (is(y, "Test ", o.name, ty, &val) && is(x, "Baseline ", o.name, ty, &b->content)), "pair", [&] { return cat("expected the test and baseline value of ", show(o), " against ", quote(b->content), ", ", rp()); });
  }
  c.require(k == d.root.kids.size(), "extra", [&] { return cat("more elements than disagreements, ", rp()); });
  c.require(d.root.text.find_first_not_of(" \t\r\n") == std::string::npos, "stray", [&] { return cat("text outside of elements, ", rp()); });
  if (v.lo) c.nontrivial(); c.label(v.lo == 0 ? "empty report" : v.lo < 4 ? "1-3 disagreements" : "4+ disagreements");
}
static const pbt::Property P = {"C14", "random scripts compared with altered baselines; the report is parsed by expat and by an own reader and matched with the expected disagreements one by one, text differences being applied; non-trivial: at least one disagreement; distinct by the drawn choices",
  run, 100000, 2000000, 30000, 800000, 2000, 10, {"cases with a number at the rounding edge of the tolerance are dropped", "the two elements of a differing value may come in either order"}};
PBT_MAIN(P)
