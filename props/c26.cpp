// C26: measurement equality, and which handler of a visitor is called.
#include "model.h"
#include "b64model.h"
#include <memory>
using namespace model; using namespace testutil;

static const char *const TY[] = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"};
static const char *const OTHER[] = {"image/png", "image/jpeg", "image/itk", "application/x", "text/html", ""};
static DataMeasurement *fresh(int k) { switch (k) { case 0: return new PlainText; case 1: return new StringText; case 2: return new IntegerNumeric; case 3: return new FloatNumeric; case 4: return new DoubleNumeric; default: return new BooleanNumeric; } }
// kinds of our own, without an AcceptVisitor of their own
struct OwnData : DataMeasurement { std::string c, t = "own/data"; void SetContent(const std::string &s) { c = s; DeleteContentAsData(); } const std::string &GetContent() const { return c; } const std::string &GetAttributeType() const { return t; } };
struct OwnText : TextData { std::string t = "own/text"; const std::string &GetAttributeType() const { return t; } };
struct OwnNumber : NumericData { std::string t = "own/number"; const std::string &GetAttributeType() const { return t; } bool IsEqualTolerant(const NumericData &, double) { return false; } };
struct OwnMeasurement : Measurement { std::string e = "E", t = "own", c; const std::string &GetElementTypeName() const { return e; } const std::string &GetAttributeType() const { return t; } void SetContent(const std::string &s) { c = s; } const std::string &GetContent() const { return c; } bool IsEqual(Measurement &m) { return &m == this; } void PrintStartTag(std::ostream &) const {} };
struct OwnPlain : PlainText {};

// handlers
enum { H_M, H_FILE, H_DATA, H_TEXT, H_PLAIN, H_STRING, H_NUM, H_INT, H_FLOAT, H_DOUBLE, H_BOOL, NH };
static const char *const HN[] = {"Measurement", "MeasurementFile", "DataMeasurement", "TextData", "PlainText", "StringText", "NumericData", "IntegerNumeric", "FloatNumeric", "DoubleNumeric", "BooleanNumeric"};
static const int UP[] = {-1, H_M, H_M, H_DATA, H_TEXT, H_TEXT, H_DATA, H_NUM, H_NUM, H_NUM, H_NUM};
struct V : MeasurementVisitor {
  bool on[NH]; std::vector<std::pair<int, const void *> > calls;
  using MeasurementVisitor::Visit;
#define HANDLER(h, T) void Visit(T &m) override { if (on[h]) calls.push_back({h, dynamic_cast<const void *>(&m)}); else MeasurementVisitor::Visit(m); }
  HANDLER(H_M, Measurement) HANDLER(H_FILE, MeasurementFile) HANDLER(H_DATA, DataMeasurement) HANDLER(H_TEXT, TextData) HANDLER(H_PLAIN, PlainText) HANDLER(H_STRING, StringText)
  HANDLER(H_NUM, NumericData) HANDLER(H_INT, IntegerNumeric) HANDLER(H_FLOAT, FloatNumeric) HANDLER(H_DOUBLE, DoubleNumeric) HANDLER(H_BOOL, BooleanNumeric)
};
static void visitors(Ctx &c) {
  Source &s = c.s; V v; std::string d; for (int i = 0; i < NH; ++i) { v.on[i] = s.coin(); if (v.on[i]) d += cat(HN[i], " "); }
  std::unique_ptr<Measurement> m; int own = (int)s.below(12), h;
  switch (own) { case 0: m.reset(new PlainText); h = H_PLAIN; break; case 1: m.reset(new StringText); h = H_STRING; break; case 2: m.reset(new IntegerNumeric); h = H_INT; break; case 3: m.reset(new FloatNumeric); h = H_FLOAT; break; case 4: m.reset(new DoubleNumeric); h = H_DOUBLE; break; case 5: m.reset(new BooleanNumeric); h = H_BOOL; break;
    case 6: m.reset(new MeasurementFile); h = H_FILE; break; case 7: m.reset(new OwnData); h = H_DATA; break; case 8: m.reset(new OwnText); h = H_TEXT; break; case 9: m.reset(new OwnNumber); h = H_NUM; break; case 10: m.reset(new OwnPlain); h = H_PLAIN; break; default: m.reset(new OwnMeasurement); h = H_M; }
  c.describe(cat("a measurement of kind ", HN[h], own > 6 ? " (derived)" : "", " visited; handlers provided: ", d, "\n"));
  int want = h; while (want >= 0 && !v.on[want]) want = UP[want];
  size_t times = 1 + s.below(2); for (size_t i = 0; i < times; ++i) m->AcceptVisitor(v);
  std::string got; for (auto &x : v.calls) got += cat(HN[x.first], " ");
  c.require(v.calls.size() == (want >= 0 ? times : 0), "handler-calls", [&] { return cat("called: ", got, ", should be ", want < 0 ? "none" : HN[want], ", ", times, " times"); });
  for (auto &x : v.calls) c.require(x.first == want && x.second == dynamic_cast<const void *>(m.get()), "handler", [&] { return cat("called: ", got, ", should be ", HN[want], " with the same object"); });
  c.nontrivial(); c.label("visitor"); c.label(want < 0 ? "no handler" : want == h ? "own handler" : "handler of a more general kind");
}
struct Item { std::unique_ptr<Measurement> m; int how; int type; std::string ty, name, data, text; bool missing = false; bool odd() const { return std::find(OTHER, OTHER + 6, ty) != OTHER + 6; } }; // how: 0 plain, 1 base64, 2 file
static void run(Ctx &c) {
  Source &s = c.s; if (s.chance(1, 4)) { visitors(c); return; }
  Capture cap;
  static const std::string nm[] = {"a", "b", "", "a "}; std::vector<std::string> pool; size_t np = 1 + s.below(3);
  for (size_t i = 0; i < np; ++i) switch (s.below(4)) {
    case 0: pool.push_back(genBytes(s, 300)); break; case 1: pool.push_back(s.pick({std::string("1"), std::string("1.0"), std::string("01"), std::string(""), std::string("0"), std::string("AAAA"), std::string("a\0b", 3), std::string("a\0c", 3), std::string("a"), std::string("YQ==")})); break;
    case 2: { std::string t = pool.empty() ? "x" : pool.back(); if (!t.empty() && s.coin()) t[s.below(t.size())] ^= 1; else if (s.coin() || t.empty()) t += '\0'; else t.pop_back(); pool.push_back(t); break; }
    default: pool.push_back(b64encode(s.pick({std::string("a"), std::string("abc"), std::string("\0\0", 2)}))); }
  size_t n = 2 + s.below(4); std::vector<Item> v(n); std::string d; bool hard = s.coin(); int ty = (int)s.below(6); bool other = s.chance(1, 3); size_t otherTy = s.below(6);
  for (size_t i = 0; i < n; ++i) {
    Item &x = v[i]; x.type = hard ? ty : (int)s.below(6); x.name = hard && !s.chance(1, 6) ? "a" : s.pick(nm); x.data = s.pick(pool); x.how = (int)s.weighted({3, 3, 2}); x.ty = TY[x.type]; if (x.how == 2 && (hard ? ty == 0 && other : s.chance(1, 4))) x.ty = hard ? OTHER[otherTy] : s.pick(OTHER);
    if (x.how == 2) {
      MeasurementFile *f = new MeasurementFile; x.m.reset(f); f->SetAttributeType(x.ty); x.text = cat(c.scratch, "/f", i); x.missing = s.chance(1, 6);
      if (x.missing) { if (s.coin()) unlink(x.text.c_str()); else x.text = s.pick({std::string(), c.scratch, c.scratch + "/none/f"}); if (x.text == c.scratch + cat("/f", i)) unlink(x.text.c_str()); } else pbt::writeFile(x.text, x.data);
      f->SetFileName(x.text);
    } else {
      DataMeasurement *m = fresh(x.type); x.m.reset(m); x.text = x.how == 0 ? x.data : b64encode(x.data);
      if (x.how == 1) { m->SetAttributeEncoding("base64"); if (!x.text.empty() && s.coin()) { size_t k = 1 + s.below(4); for (size_t j = 0; j < k; ++j) x.text.insert(s.below(x.text.size() + 1), 1, " \n\t\r"[s.below(4)]); } }
      if (s.coin()) m->SetContent(x.text); else { m->SetContentAsData(x.data.data(), x.data.size()); x.text = m->GetContent(); }
      if (s.chance(1, 3)) m->GetContentAsDataSize();
    }
    x.m->SetAttributeName(x.name);
    d += cat("  ", i, ": ", x.ty, " ", quote(x.name), x.how == 0 ? " inline " : x.how == 1 ? " base64 " : x.missing ? " in a missing file " : " in a file ", x.missing ? quote(x.text) : quote(x.data), "\n");
  }
  c.describe(d); size_t rounds = 1 + s.below(2); bool some = false; int eq = 0;
  for (size_t r = 0; r < rounds; ++r) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
    Item &x = v[i], &y = v[j]; bool want = !x.missing && !y.missing && x.name == y.name && x.ty == y.ty && x.data == y.data;
    bool got = r ? x.m->IsEqual(*y.m) : *x.m == *y.m; if (i != j) { eq += want; if (x.name == y.name && x.ty == y.ty) some = true; }
    if (want && x.odd()) continue; // not supported yet
    c.require(got == want, "equal", [&] { return cat("round ", r, ": ", i, " and ", j, " compare ", got ? "equal" : "different"); });
  }
  if (s.coin()) { // the comparison visitor agrees, a new one or the same again
    CompareVisitor shared; bool again = s.coin();
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { Item &x = v[i], &y = v[j]; bool num = x.how < 2 && x.type > 1;
      if (num && y.how == 2) continue; // a number against a file of numbers
      bool want = !x.missing && !y.missing && x.name == y.name && x.ty == y.ty && x.data == y.data; if (want && x.odd()) continue; CompareVisitor own, &w = again ? shared : own; w.SetBaselineMeasurement(y.m.get()); if (s.coin()) w.SetToleranceOff(); else if (!num || y.type < 2) w.SetTolerance(s.pick({0.5, 1e-5})); else if (again) w.SetToleranceOff(); x.m->AcceptVisitor(w);
      c.require(w.GetResult() == want, "visitor", [&] { return cat("the comparison visitor says that ", i, " and baseline ", j, " are ", w.GetResult() ? "equal" : "different"); }); }
    c.label("comparison visitor"); }
  for (size_t i = 0; i < n; ++i) { Item &x = v[i]; bool same = x.m->GetAttributeName() == x.name && x.m->GetAttributeType() == x.ty && x.m->GetContent() == x.text;
    if (x.how < 2) { DataMeasurement *m = dynamic_cast<DataMeasurement *>(x.m.get()); same = same && m->GetAttributeEncoding() == (x.how ? "base64" : "none") && m->GetContentAsDataSize() == x.data.size() && !memcmp(m->GetContentAsData(), x.data.data(), x.data.size()); }
    else if (!x.missing) same = same && pbt::readFile(x.text) == x.data;
    c.require(same, "changed", [&] { return cat("comparing changed measurement ", i); }); }
  if (some) c.nontrivial(); c.label(eq ? "some equal" : "all different"); bool file = false, mixed = false; for (auto &x : v) { file |= x.how == 2; mixed |= x.how != v[0].how; } if (file) c.label("files"); if (mixed) c.label("different encodings");
}
static const pbt::Property P = {"C26", "groups of 2-5 measurements of all kinds, inline, base64 and in files (of any type), with equal and nearly equal data, compared in every pair and both orders against name, type and decoded data, also by the comparison visitor; and visitors with random sets of handlers visited by all kinds and derived ones; non-trivial: two measurements of equal name and type, or a visit; distinct by the drawn choices",
  run, 300000, 2000000, 40000, 600000, 900, 5, {"base64 texts are valid and not blank", "files of types that have no inline measurement are only judged where they differ: comparing them is documented as not yet supported"}};
PBT_MAIN(P)
