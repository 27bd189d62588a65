// C35: any measurement object prints as one element that says exactly what it holds.
#include "model.h"
#include <memory>
using namespace model; using namespace testutil;

namespace {
struct Item { int k = 0; std::string name, type, enc = "none", comp = "none", content; bool file() const { return k == 6; } };
static const char *const TY[] = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"};
struct Seen { std::string name, type, enc, comp, content; bool file = false; };
struct Look : CompareVisitor { std::vector<Seen> &v; using CompareVisitor::Visit; Look(std::vector<Seen> &x) : v(x) {}
  void Visit(Measurement &) { one(); } void Visit(NumericData &) { one(); }
  void one() { Seen s; Measurement *b = _baseline; DataMeasurement *d = dynamic_cast<DataMeasurement *>(b); s.file = dynamic_cast<MeasurementFile *>(b) != 0; s.name = b->GetAttributeName(); s.type = b->GetAttributeType(); s.content = b->GetContent(); s.enc = d ? d->GetAttributeEncoding() : "none"; s.comp = d ? d->GetAttributeCompression() : "none"; v.push_back(s); compareResults = true; } };
struct Reader : Scripted { std::vector<Seen> got; CompareVisitor *CreateCompareVisitor(void) const { return new Look(const_cast<Reader *>(this)->got); } };
}
static std::unique_ptr<Measurement> make(const Item &x) {
  std::unique_ptr<Measurement> m; switch (x.k) { case 0: m.reset(new PlainText); break; case 1: m.reset(new StringText); break; case 2: m.reset(new IntegerNumeric); break; case 3: m.reset(new FloatNumeric); break; case 4: m.reset(new DoubleNumeric); break; case 5: m.reset(new BooleanNumeric); break; default: m.reset(new MeasurementFile); } return m; }
static std::unique_ptr<Measurement> copy(const Item &x, const Measurement &m) {
  std::unique_ptr<Measurement> r;
#define C(k_, T) case k_: r.reset(new T(dynamic_cast<const T &>(m))); break;
  switch (x.k) { C(0, PlainText) C(1, StringText) C(2, IntegerNumeric) C(3, FloatNumeric) C(4, DoubleNumeric) C(5, BooleanNumeric) C(6, MeasurementFile) } return r; }
static void assign(const Item &x, Measurement &a, const Measurement &b) {
#define A(k_, T) case k_: dynamic_cast<T &>(a) = dynamic_cast<const T &>(b); break;
  switch (x.k) { A(0, PlainText) A(1, StringText) A(2, IntegerNumeric) A(3, FloatNumeric) A(4, DoubleNumeric) A(5, BooleanNumeric) A(6, MeasurementFile) } }
static void fill(Source &s, Measurement &m, const Item &x, bool content = true) { // in any order
  DataMeasurement *d = dynamic_cast<DataMeasurement *>(&m); MeasurementFile *f = dynamic_cast<MeasurementFile *>(&m); int first = (int)s.below(4);
  for (int i = 0; i < 4; ++i) switch ((i + first) % 4) {
    case 0: m.SetAttributeName(x.name); break; case 1: if (content) { if (f && s.coin()) f->SetFileName(x.content); else m.SetContent(x.content); } break;
    case 2: if (d) d->SetAttributeEncoding(x.enc); else f->SetAttributeType(x.type); break; default: if (d) d->SetAttributeCompression(x.comp); } }
static std::string print(const Measurement &m, bool op) { std::ostringstream o; if (op) o << m; else m.Print(o); return o.str(); }
static std::string show(const Item &x) { static const char *n[] = {"plain", "string", "integer", "float", "double", "boolean", "file"}; return cat("  ", n[x.k], " ", quote(x.name), " type ", quote(x.type), " encoding ", quote(x.enc), " compression ", quote(x.comp), " content ", quote(x.content, 300), "\n"); }
static void says(Ctx &c, const char *tag, const std::string &t, const Item &x) {
  auto ctx = [&](const std::string &w) { return w + "\n" + show(x) + t; };
  Doc d = parseXml(t); c.require(d.ok, tag, [&] { return ctx("is not one element: " + d.error); });
  const Elem &e = d.root; c.require(e.tag == (x.file() ? "DartMeasurementFile" : "DartMeasurement"), tag, [&] { return ctx("is an element " + e.tag); });
  std::vector<std::pair<std::string, std::string> > w = {{"name", x.name}, {"type", x.type}}; if (!x.file() && x.enc != "none") w.push_back({"encoding", x.enc}); if (!x.file() && x.comp != "none") w.push_back({"compression", x.comp});
  c.require(e.attr.size() == w.size(), tag, [&] { return ctx(cat("has ", e.attr.size(), " attributes, should have ", w.size())); });
  for (auto &a : w) { const std::string *g = e.get(a.first); c.require(g && *g == a.second, tag, [&] { return ctx(cat("attribute ", a.first, " is ", g ? quote(*g) : std::string("missing"))); }); }
  c.require(e.kids.empty() && e.text == x.content, tag, [&] { return ctx(cat("holds ", quote(e.text, 400))); }); }
static std::string word(Source &s) { static const std::vector<std::string> v = {"none", "base64", "gzip", "", "a&b", "\"", "<>", "None", "none ", "&quot;", "x y", "'"}; return s.chance(1, 5) ? genName(s) : s.pick(v); }
static bool markup(const std::string &t) { return t.find_first_of("&<>\"") != std::string::npos; }
static void run(Ctx &c) {
  Source &s = c.s; Capture cap;
  if (s.chance(1, 12)) { // kinds by type
    std::string t = s.chance(1, 2) ? TY[s.below(6)] : genName(s); if (s.chance(1, 3)) { if (s.coin() && !t.empty()) t.erase(s.below(t.size()), 1); else t.insert(s.below(t.size() + 1), 1, " Xs/"[s.below(4)]); }
    c.describe("an object for type " + quote(t) + "\n"); int want = -1; for (int i = 0; i < 6; ++i) if (t == TY[i]) want = i; std::unique_ptr<DataMeasurement> m(CreateDataMeasurement(t));
    c.require((m.get() != 0) == (want >= 0) && (!m || m->GetAttributeType() == t), "kind", [&] { return m ? "an object of type " + m->GetAttributeType() : std::string("no object"); });
    if (m) { Item x; x.k = want; std::unique_ptr<Measurement> r = make(x); c.require(typeid(*r) == typeid(*m), "kind", [&] { return std::string(typeid(*m).name()); }); c.require(m->GetContent().empty() && m->GetAttributeName().empty() && m->GetAttributeEncoding() == "none" && m->GetAttributeCompression() == "none" && m->GetApplyEscapeSequences(), "fresh", [&] { return std::string("a new object is not empty"); }); }
    c.nontrivial(); c.label("kind by type"); return; }
  size_t n = 1 + s.below(4); std::string doc; std::vector<Item> back;
  for (size_t i = 0; i < n; ++i) {
    Item x; x.k = (int)s.weighted({3, 2, 1, 1, 1, 1, 3}); x.name = genName(s); x.type = x.file() ? s.chance(1, 3) ? genName(s) : s.pick({std::string("text/plain"), std::string("image/png"), std::string("image/jpeg")}) : TY[x.k];
    if (!x.file() && s.coin()) { x.enc = word(s); if (s.coin()) x.comp = word(s); } x.content = x.file() && s.coin() ? cat("no/such/", s.pick({std::string("f"), std::string("a&b"), std::string("x <y>")})) : s.chance(1, 3) && x.k >= 2 && x.k < 6 ? cat(genLong(s)) : genText(s, 1500);
    c.describe(show(x));
    std::unique_ptr<Measurement> m = make(x); fill(s, *m, x); DataMeasurement *dm = dynamic_cast<DataMeasurement *>(m.get());
    if (dm && s.chance(1, 4)) dm->GetContentAsDataSize(); // a cached conversion is no part of what is printed
    if (s.chance(1, 4)) { m->ApplyEscapeSequencesOff(); print(*m, true); if (s.coin()) m->ApplyEscapeSequencesOn(); else m->SetApplyEscapeSequences(true); }
    bool op = s.coin(); std::string t = print(*m, op); says(c, "element", t, x);
    c.require(print(*m, !op) == t && m->GetContent() == x.content && m->GetAttributeName() == x.name && m->GetAttributeType() == x.type && m->GetElementTypeName() == (x.file() ? "DartMeasurementFile" : "DartMeasurement") && m->GetApplyEscapeSequences(), "again", [&] { return cat("printing changed the object or prints differ\n", t); });
    c.require(x.content.find('\r') != std::string::npos || m->ApplyEscapeSequences(x.content) == escText(x.content), "escape", [&] { return cat("escapes as ", quote(m->ApplyEscapeSequences(x.content), 300)); });
    // without escaping: the author provides escaped text
    Item y = x; y.name = escAttr(x.name); y.content = escText(x.content); if (x.file()) y.type = escAttr(x.type); else { y.enc = x.enc == "none" ? x.enc : escAttr(x.enc); y.comp = x.comp == "none" ? x.comp : escAttr(x.comp); }
    std::unique_ptr<Measurement> r = make(y); fill(s, *r, y); if (s.coin()) r->ApplyEscapeSequencesOff(); else r->SetApplyEscapeSequences(false);
    std::string u = print(*r, s.coin()); says(c, "unescaped", u, x); c.require(u.find(">" + y.content + "</") != std::string::npos, "unescaped-raw", [&] { return cat("the text is not printed as it is\n", u); });
    // copies print alike, escaped or not
    const Measurement &src = s.coin() ? *m : *r; std::unique_ptr<Measurement> q; if (s.coin()) q = copy(x, src); else { q = make(x); if (s.coin()) q->ApplyEscapeSequencesOff(); if (s.coin()) q->SetContent("old & older"); assign(x, *q, src); }
    c.require(print(*q, true) == print(src, true), "copy", [&] { return cat("a copy prints as\n", print(*q, true), "\nnot as\n", print(src, true)); });
    if (s.coin()) { q->SetAttributeName("other"); q->SetContent("other"); q->SetApplyEscapeSequences(!q->GetApplyEscapeSequences()); c.require(print(*m, true) == t && print(*r, true) == u, "copy-shared", [&] { return std::string("changing a copy changes the original"); }); }
    if (!x.file() || x.type == "text/plain" || x.type == "image/png" || x.type == "image/jpeg") { doc += (s.coin() ? t : u) + "\n"; back.push_back(x); }
    if (markup(x.name) || markup(x.content) || x.enc != "none" || x.comp != "none") c.nontrivial(); c.label(x.file() ? "file" : x.k < 2 ? "text" : "number"); if (x.enc != "none") c.label("encoding"); if (x.comp != "none") c.label("compression");
  }
  if (back.empty()) return;
  // what was printed is a baseline
  std::string bx = c.scratch + "/b.xml"; pbt::writeFile(bx, "<output>\n" + doc + "</output>\n"); Reader t;
  for (auto &x : back) { Op o; static const Kind K[] = {PLAIN, STRING, INTEGER, FLOAT, DOUBLE, BOOLEAN, FILE_TEXT}; o.kind = K[x.k]; o.name = x.name; o.text = "z"; if (x.file()) o.img = x.type == "image/png" ? 1 : x.type == "image/jpeg" ? 2 : 0; t.ops.push_back(o); }
  Result r = runMain(t, {"prog", "-I", bx}); c.require(t.ran && r.ret == 0 && t.got.size() == back.size(), "read", [&] { return cat("a run against what was printed returned ", r.ret, ", ", t.got.size(), " pairs\n", r.err, r.out, doc); });
  for (size_t i = 0; i < back.size(); ++i) { const Item &x = back[i]; const Seen &g = t.got[i]; c.require(g.file == x.file() && g.name == x.name && g.type == x.type && g.content == x.content && g.enc == (x.file() ? "none" : x.enc) && g.comp == (x.file() ? "none" : x.comp), "read-value", [&] { return cat("read as ", g.file ? "file " : "", quote(g.name), " ", g.type, " ", quote(g.enc), " ", quote(g.comp), " ", quote(g.content, 300), "\n", show(x)); }); }
  c.label("read back");
}
static const pbt::Property P = {"C35", "measurement objects of all seven kinds with any printable name, texts, encoding and compression attributes, filled in any order, printed with and without escaping, copied and assigned, read by an independent XML reader and as a baseline by a run; the kind made for a type, known or not; non-trivial: markup in a name or content, or an encoding or compression, or a kind by type; distinct by the drawn choices",
  run, 150000, 1000000, 0, 0, 0, 10, {"texts without control characters other than tab, newline and carriage return", "baseline file entries that name no existing file"}};
PBT_MAIN(P)
