// C07: only the logical content of a baseline matters, not its spelling.
#include "respell.h"
using namespace model;

static const std::string FN[] = {"f", "x y", "a&b", "<q>'\"", "]]>"};
static void run(Ctx &c) {
  Source &s = c.s;
  std::vector<Op> ops = genOps(s, s.chance(1, 12) ? 60 : 8);
  double tol = std::numeric_limits<float>::epsilon() * 64.0;
  std::vector<Entry> base = genBaseline(s, ops, tol);
  encodeSome(s, base, true);
  if (s.chance(1, 3)) { // files: the same name is the same content
    static std::string made; if (made != c.scratch) { for (auto f : FN) pbt::writeFile(c.scratch + "/" + f, cat("content of ", f, "\n")); made = c.scratch; }
    size_t k = 0; for (auto &o : ops) if (o.measures()) { if (k < base.size() && s.coin()) { o.kind = FILE_TEXT; o.text = c.scratch + "/" + s.pick(FN); Entry &e = base[k]; e = entryOf(o); if (s.chance(1, 6)) e.name = genName(s); if (s.chance(1, 6)) e.content = c.scratch + "/" + s.pick(FN); if (s.chance(1, 12)) e.type = "text/string"; } ++k; } }
  Respell w(s); std::string doc = w.doc(base);
  if (s.chance(1, 3)) { // bring the length, or the end of the last element, near a multiple of the buffer size
    size_t target = 1024 * (doc.size() / 1024 + 1) + s.range(-3, 3); if (s.coin()) { size_t p = doc.rfind("</output"); std::string pad(target > doc.size() ? target - doc.size() : 0, ' '); doc.insert(s.coin() ? p : doc.size(), pad); }
    else { size_t p = doc.find("<output"), need = target > doc.size() ? target - doc.size() : 0; if (need >= 7) doc.insert(p, "<!--" + std::string(need - 7, 'p') + "-->"); } }
  std::string plain = writeDoc(base);
  c.describe(cat("test:\n", show(ops), "baseline:\n", show(base), "spelled as (", doc.size(), " bytes):\n", quote(doc, 6000), "\n"));
  { Doc a = parseXml(plain), b = parseXml(doc); c.require(a.ok && b.ok, "generator", [&] { return "the generated spelling is not well-formed: " + b.error; }); }
  std::string fa = c.scratch + "/a.xml", fb = c.scratch + "/b.xml"; pbt::writeFile(fa, plain); pbt::writeFile(fb, doc);
  Scripted ta, tb; ta.ops = tb.ops = ops;
  Result ra = runMain(ta, {"prog", "-I", fa}), rb = runMain(tb, {"prog", "-I", fb});
  Verdict v = compareModel(ops, base, tol);
  c.require(tb.ran, "rejected", [&] { return rb.err; });
  c.require(rb.ret == ra.ret, "result", [&] { return cat("returned ", rb.ret, ", for the plain spelling ", ra.ret, " (model ", v.lo, "..", v.hi, ")\n", rb.out, rb.err); });
  c.require(rb.ret >= v.lo && rb.ret <= v.hi, "count", [&] { return cat("returned ", rb.ret, ", model ", v.lo, "..", v.hi, "\n", rb.out); });
  c.require(rb.out == ra.out, "report", [&] { return cat("report:\n", rb.out, "\nfor the plain spelling:\n", ra.out); });
  if (doc != plain && !base.empty()) c.nontrivial();
  c.label(cat(doc.size() / 1024 > 4 ? std::string("5+") : cat(doc.size() / 1024), " full buffers")); if (doc.size() % 1024 == 0) c.label("length a multiple of the buffer");
  if (doc.find("<![CDATA[") != std::string::npos) c.label("CDATA"); if (doc.find('\r') != std::string::npos) c.label("CR line ends"); if (v.lo) c.label("with disagreements");
}
static const pbt::Property P = {"C07", "random scripts and baselines; the baseline in plain spelling and in a random equivalent one (attribute order and quotes, references, CDATA, comments, processing instructions, line ends, white space, unknown attributes and siblings, padding towards multiples of the buffer size), both compared with the same test and with the model; non-trivial: another spelling of at least one entry; distinct by the drawn choices",
  run, 60000, 1500000, 20000, 600000, 2500, 10, {}};
PBT_MAIN(P)
