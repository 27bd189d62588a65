// C34: a test's own comparison and report visitors decide and report.
#include "model.h"
#include <memory>
using namespace model;

namespace {
struct Pair { std::string name, type, test, base; bool file = false, baseFile = false; double tol = 0; bool operator==(const Pair &o) const { return name == o.name && type == o.type && test == o.test && base == o.base && file == o.file && baseFile == o.baseFile && (tol == o.tol); } };
struct Stop { int x; }; // what a visitor throws when it is not an error of the standard kinds
struct Log { std::vector<Pair> compared, reported, matched; int throwAt = -1, asked = 0, kind = 0; bool thrown = false; // the n-th visit throws instead
  void visit() { if (asked++ == throwAt) { thrown = true; if (kind == 0) throw std::runtime_error("thrown by a visitor"); if (kind == 1) throw std::bad_alloc(); Stop x = {1}; throw x; } } int alive = 0, made = 0; int rule = 0; bool print = true; double preset = 0; const std::ostream *out = 0; bool otherStream = false; };
static bool decide(int rule, const std::string &a, const std::string &b, size_t nth) {
  switch (rule) { case 0: return true; case 1: return false; case 2: return nth % 2 == 0; case 3: return a.size() == b.size(); case 4: return a.substr(0, 1) == b.substr(0, 1); default: return a == b; } }
static Pair pairOf(testutil::Measurement &m, testutil::Measurement *b) { Pair p; p.name = m.GetAttributeName(); p.type = m.GetAttributeType(); p.test = m.GetContent(); p.base = b ? b->GetContent() : "?"; p.file = dynamic_cast<testutil::MeasurementFile *>(&m) != 0; p.baseFile = dynamic_cast<testutil::MeasurementFile *>(b) != 0; return p; }
struct Cmp : testutil::CompareVisitor {
  Log &l; using testutil::CompareVisitor::Visit; Cmp(Log &x) : l(x) { ++l.alive; ++l.made; if (l.preset != 0) this->SetTolerance(l.preset); } ~Cmp() { --l.alive; }
  void Visit(testutil::Measurement &m) { one(m); } void Visit(testutil::NumericData &m) { one(m); }
  void one(testutil::Measurement &m) { l.visit(); Pair p = pairOf(m, _baseline); p.tol = this->GetTolerance(); size_t n = l.compared.size(); l.compared.push_back(p); this->compareResults = decide(l.rule, p.test, p.base, n); }
};
struct Dif : testutil::DifferenceVisitor {
  Log &l; using testutil::DifferenceVisitor::Visit; Dif(Log &x) : l(x) { ++l.alive; ++l.made; } ~Dif() { --l.alive; }
  void Visit(testutil::Measurement &m) { one(m); } void Visit(testutil::PlainText &m) { one(m); }
  void one(testutil::Measurement &m) { l.visit(); l.reported.push_back(pairOf(m, _baseline)); if (l.print) this->GetOutStream() << "<difference number=\"" << l.reported.size() << "\"/>" << std::endl; }
};
struct Own : Scripted {
  Log l; bool ownCompare = true, ownReport = true, survive = false;
  void MatchedMeasurement(testutil::Measurement &m) { l.matched.push_back(pairOf(m, 0)); }
  int Test(int argc, char **argv) { if (!survive) return Scripted::Test(argc, argv); ran = true;
    for (auto &o : ops) { try { doOp(o); } catch (const std::exception &) { if (!l.thrown) throw; results.push_back(-1); } catch (const Stop &) { results.push_back(-1); } }
    return ret; }
  testutil::CompareVisitor *CreateCompareVisitor(void) const { return ownCompare ? new Cmp(const_cast<Own *>(this)->l) : new testutil::CompareVisitor; }
  testutil::DifferenceVisitor *CreateDifferenceVisitor(void) const { return ownReport ? new Dif(const_cast<Own *>(this)->l) : new testutil::DifferenceVisitor; }
};
}
static std::string show(const Pair &p) { return cat(p.file ? "file " : "", p.type, " ", quote(p.name), ": test ", quote(p.test, 100), ", baseline ", p.baseFile ? "file " : "", quote(p.base, 100), ", tolerance ", p.tol); }
static void same(Ctx &c, const char *tag, const std::vector<Pair> &got, const std::vector<Pair> &want) {
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) c.require(i < got.size() && i < want.size() && got[i] == want[i], tag, [&] { return cat("visit ", i + 1, ": ", i < got.size() ? show(got[i]) : std::string("none"), "\nshould be: ", i < want.size() ? show(want[i]) : std::string("none")); }); }
static void run(Ctx &c) {
  Source &s = c.s; const std::string &R = c.scratch; std::string bx = R + "/b.xml", ox = R + "/o.xml"; unlink(ox.c_str());
  std::vector<Op> ops; while (ops.size() < 10 && s.chance(8, 9)) { Op o; if (s.chance(1, 8)) { o.kind = FILE_TEXT; o.name = genName(s); o.text = s.pick({std::string("nowhere/f0"), std::string("nowhere/f1")}); o.img = (int)s.weighted({4, 1, 1}); } else if (s.chance(1, 8)) { o.kind = SET_TOL; o.tol = genTol(s); } else o = genOp(s); ops.push_back(o); }
  double tol = FLT_EPSILON * 64; std::vector<Entry> base = genBaseline(s, ops, tol); for (auto &e : base) if (e.file && e.content.compare(0, 8, "nowhere/") == 0) { e.content = e.content.substr(8); }
  bool record = s.chance(1, 10), toFile = s.coin(); Own t; t.ops = ops; t.l.rule = (int)s.below(6); t.l.preset = s.chance(1, 3) ? s.pick({0.5, 1e-3, 100.0}) : 0; t.ownCompare = !s.chance(1, 8); t.ownReport = !s.chance(1, 4); if (s.chance(1, 4)) { t.l.throwAt = (int)s.below(6); t.l.kind = (int)s.below(3); t.survive = s.coin(); }
  static const char *RULE[] = {"everything agrees", "nothing agrees", "every other agrees", "equal lengths agree", "equal first characters agree", "equal texts agree"};
  c.describe(cat(record ? "record" : "compare", toFile ? ", output to a file" : "", ", own comparison: ", t.ownCompare ? RULE[t.l.rule] : "no", t.l.preset != 0 ? cat(" with tolerance ", t.l.preset, " at first") : std::string(), ", own report: ", t.ownReport, t.l.throwAt >= 0 ? cat(", visit ", t.l.throwAt + 1, " throws", t.survive ? " and the test goes on" : "") : std::string(), "\n", show(ops), record ? std::string() : "baseline:\n" + show(base)));
  std::vector<std::string> argv = {"prog"}; if (!record) { pbt::writeFile(bx, writeDoc(base)); argv.push_back("-I"); argv.push_back(bx); } if (toFile) { argv.push_back("-O"); argv.push_back(ox); }
  Result r = runMain(t, argv); std::string out = toFile ? pbt::readFile(ox) : r.out;
  c.require(t.ran && t.l.alive == 0, "alive", [&] { return cat(t.l.alive, " visitors are alive after the run\n", r.err); });
  if (record) { c.require(r.ret == 0 && t.l.made == 0, "record", [&] { return cat("a recording run makes ", t.l.made, " visitors"); }); c.label("record"); if (!ops.empty()) c.nontrivial(); return; }
  std::vector<Pair> cmp, rep, mat; size_t k = 0; int visits = 0; bool stopped = false; int bad = 0; std::vector<int> res; bool judge = true; std::string want;
  auto throws = [&] { return visits++ == t.l.throwAt; };
  for (auto &o : ops) {
    if (!o.measures()) { tol = o.tol; continue; } const Entry *b = k < base.size() ? &base[k] : 0; ++k; 
    if (!b || b->name != o.name || b->type != typeOf(o)) { ++bad; res.push_back(1); continue; }
    bool numeric = o.kind >= INTEGER && o.kind <= BOOLEAN; Pair p; p.name = o.name; p.type = b->type; p.test = contentOf(o); p.base = b->content; p.file = o.kind == FILE_TEXT; p.baseFile = b->file; bool eq;
    if (t.ownCompare) { if (throws()) { if (!t.survive) { stopped = true; break; } res.push_back(-1); continue; } p.tol = numeric ? (o.isTolerant() ? tol : 0) : 0; eq = decide(t.l.rule, p.test, p.base, cmp.size()); cmp.push_back(p); }
    else { if (p.file || p.baseFile) { judge = p.file && p.baseFile; eq = false; } else { int m = matches(o, *b, tol); if (m == 2) judge = false; eq = m == 1; } if (!judge) break; }
    res.push_back(eq ? 0 : 1); p.tol = 0;
    if (!eq) { ++bad; if (t.ownReport && throws()) { res.back() = -1; if (!t.survive) { stopped = true; break; } continue; } rep.push_back(p); }
    else { p.base = "?"; p.baseFile = false; mat.push_back(p); }
  }
  if (!judge) { c.label("not judged"); return; }
  if (t.ownCompare) same(c, "compared", t.l.compared, cmp); else c.require(t.l.compared.empty(), "compared", [&] { return std::string("compared by the replaced visitor"); });
  if (t.ownReport) same(c, "reported", t.l.reported, rep);
  same(c, "matched", t.l.matched, mat);
  c.require(t.l.thrown == (t.l.throwAt >= 0 && visits > t.l.throwAt), "visits", [&] { return cat(t.l.asked, " visits, should be ", visits); });
  if (stopped) { c.require(r.ret != 0, "thrown", [&] { return std::string("a run ended by an exception of its visitor counts as passed"); }); c.nontrivial(); c.label("a visitor throws"); return; }
  if (t.l.thrown) { c.require(r.ret >= bad, "count", [&] { return cat("returned ", r.ret, ", at least ", bad, " disagree"); }); c.require(t.results.size() == res.size(), "call", [&] { return cat(t.results.size(), " calls returned or threw"); });
    for (size_t i = 0; i < res.size(); ++i) c.require(res[i] < 0 ? t.results[i] < 0 : (t.results[i] == 0) == (res[i] == 0), "call", [&] { return cat("measurement ", i + 1, " returned ", t.results[i], ", should be ", res[i]); });
    c.nontrivial(); c.label("a visitor throws, the test goes on"); return; }
  c.require(r.ret == bad, "count", [&] { return cat("returned ", r.ret, ", should be ", bad, "\n", r.err, out); });
  for (size_t i = 0; i < res.size(); ++i) c.require((t.results[i] == 0) == (res[i] == 0), "call", [&] { return cat("measurement ", i + 1, " returned ", t.results[i]); });
  c.require(!toFile || r.out.empty(), "stream", [&] { return "written to standard output: " + r.out; });
  if (t.ownReport) { // what the report visitor printed, in its place between the unmatched ones
    Doc d = parseXml("<r>" + out + "</r>"); c.require(d.ok, "form", [&] { return out; }); size_t e = 0, nth = 0; k = 0;
    for (auto &o : ops) { if (!o.measures()) continue; size_t at = k++; if (res[at] == 0) continue; const Elem *x = e < d.root.kids.size() ? &d.root.kids[e++] : 0; const Entry *b = at < base.size() ? &base[at] : 0; bool un = !b || b->name != o.name || b->type != typeOf(o);
      bool ok = x && (un ? x->get("name") && *x->get("name") == "Unmatched " + o.name : x->tag == "difference" && x->get("number") && *x->get("number") == cat(nth + 1)); if (!un) ++nth; c.require(ok, "report", [&] { return cat("element ", e, " of the report should be for ", show(o), "\n", out); }); }
    c.require(e == d.root.kids.size(), "report", [&] { return "more is reported\n" + out; }); }
  if (!cmp.empty()) c.nontrivial(); c.label(rep.empty() ? "nothing differs" : "something differs");
}
static const pbt::Property P = {"C34", "recording and comparing runs of all scalar and file measurements by a test with its own comparison visitor (six decision rules) and report visitor, against disagreeing baselines under changing tolerances; which pairs each visitor sees, in which order and with which tolerance, which measurements are handed on as matched, what is counted, returned and printed, and that every visitor is released (also when the n-th visit throws and the body does or does not go on) is compared with the reference model; non-trivial: a pair is compared by the own visitor, or a recording; distinct by the drawn choices",
  run, 60000, 1000000, 0, 0, 0, 10, {"a comparison that ended in an exception is not judged as a match or a difference"}};
PBT_MAIN(P)
