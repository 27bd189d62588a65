// C11: text, decoded data and copies of a measurement stay consistent.
#include "model.h"
#include "b64model.h"
#include <memory>
using namespace model; using namespace testutil;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

struct Step { int op; size_t a, b; std::string bytes; };
static const char *const OPN[] = {"set text", "set data", "encoding none", "encoding base64", "read", "copy", "assign", "assign to itself", "set data from its own data", "set data from another's data", "destroy", "compare", "print", "set name", "set text from another's text"};
static const int NOP = 15;
struct Obj { std::unique_ptr<DataMeasurement> m; int kind; std::string text, name; bool b64 = false; };
static DataMeasurement *fresh(int k) { switch (k) { case 0: return new PlainText; case 1: return new StringText; case 2: return new IntegerNumeric; case 3: return new FloatNumeric; case 4: return new DoubleNumeric; default: return new BooleanNumeric; } }
static DataMeasurement *clone(int k, DataMeasurement &m) { switch (k) { case 0: return new PlainText((PlainText &)m); case 1: return new StringText((StringText &)m); case 2: return new IntegerNumeric((IntegerNumeric &)m); case 3: return new FloatNumeric((FloatNumeric &)m); case 4: return new DoubleNumeric((DoubleNumeric &)m); default: return new BooleanNumeric((BooleanNumeric &)m); } }
static void assign(int k, DataMeasurement &a, DataMeasurement &m) { switch (k) { case 0: (PlainText &)a = (PlainText &)m; break; case 1: (StringText &)a = (StringText &)m; break; case 2: (IntegerNumeric &)a = (IntegerNumeric &)m; break; case 3: (FloatNumeric &)a = (FloatNumeric &)m; break; case 4: (DoubleNumeric &)a = (DoubleNumeric &)m; break; default: (BooleanNumeric &)a = (BooleanNumeric &)m; } }
// what the text means: false when it is not judged (no valid, non-blank base64)
static bool meaning(const Obj &o, std::string &d) { if (!o.b64) { d = o.text; return true; } return b64decode(o.text, false, d) && (o.text.empty() || !d.empty()) && o.text.find('\b') == std::string::npos; }
static std::string problem; static const char *ptag;
static bool bad(const char *tag, const std::string &m) { if (problem.empty()) { problem = m.empty() ? tag : m; ptag = tag; } return false; }
static bool look(Obj &o, const char *when) {
  if (o.m->GetContent() != o.text) return bad("text", cat(when, ": text is ", quote(o.m->GetContent()), ", should be ", quote(o.text)));
  if (o.m->GetAttributeName() != o.name) return bad("name", when);
  if (o.m->GetAttributeEncoding() != (o.b64 ? "base64" : "none")) return bad("encoding", when);
  std::string want; bool j = meaning(o, want);
  size_t n = o.m->GetContentAsDataSize(); const void *p = o.m->GetContentAsData(); std::string got((const char *)p, n);
  if (j && got != want) return bad("data", cat(when, ": data is ", quote(got), ", the text ", quote(o.text), o.b64 ? " in base64" : "", " means ", quote(want)));
  return true;
}
static bool play(const std::vector<Step> &steps, const std::vector<int> &kinds) {
  std::vector<Obj> v; for (int k : kinds) { v.emplace_back(); v.back().m.reset(fresh(k)); v.back().kind = k; }
  for (size_t i = 0; i < steps.size(); ++i) {
    const Step &t = steps[i]; Obj &o = v[t.a], &p = v[t.b]; std::string when = cat("step ", i + 1, " (", OPN[t.op], ")"); std::string d;
    switch (t.op) {
      case 0: o.m->SetContent(t.bytes); o.text = t.bytes; break;
      case 8: case 9: case 1: {
        if (t.op == 1) { d = t.bytes; std::vector<char> ex(d.begin(), d.end()); o.m->SetContentAsData(ex.data(), ex.size()); }
        else { Obj &q = t.op == 8 ? o : p; size_t n = q.m->GetContentAsDataSize(); const void *x = q.m->GetContentAsData(); d.assign((const char *)x, n); o.m->SetContentAsData(x, n); }
        std::string txt = o.m->GetContent(), dec;
        if (o.b64 ? !b64decode(txt, false, dec) || dec != d : txt != d) return bad("text-of-data", cat(when, ": after setting data ", quote(d), " the text is ", quote(txt)));
        o.text = txt; 
        size_t n = o.m->GetContentAsDataSize(); if (n != d.size() || memcmp(o.m->GetContentAsData(), d.data(), n)) return bad("data-of-data", cat(when, ": reads back ", n, " other bytes"));
        break; }
      case 2: o.m->SetAttributeEncoding("none"); o.b64 = false; break;
      case 3: o.m->SetAttributeEncoding("base64"); o.b64 = true; break;
      case 4: if (!look(o, when.c_str())) return false; break;
      case 5: { std::unique_ptr<DataMeasurement> n(clone(o.kind, *o.m)); if (t.b != t.a) { p.m = std::move(n); p.kind = o.kind; p.text = o.text; p.name = o.name; p.b64 = o.b64; } else o.m = std::move(n);
        if (!(v[t.b].text == o.text)) return bad("copy", when); break; }
      case 6: if (p.kind == o.kind) { assign(o.kind, *p.m, *o.m); p.text = o.text; p.name = o.name; p.b64 = o.b64; } break;
      case 7: assign(o.kind, *o.m, *o.m); break;
      case 10: o.m.reset(fresh(o.kind)); o.text.clear(); o.name.clear(); o.b64 = false; break;
      case 11: { std::string x, y; bool j = meaning(o, x) && meaning(p, y); bool e = *o.m == *p.m, f = *p.m == *o.m; bool w = o.kind == p.kind && o.name == p.name && x == y;
        if (e != f) return bad("equal-asymmetric", when); if (j && e != w) return bad("equal", cat(when, ": equal is ", e, " for ", quote(x), " and ", quote(y))); break; }
      case 12: { std::ostringstream os; os << *o.m; break; }
      case 14: o.m->SetContent(p.m->GetContent()); o.text = p.text; break;
      default: o.m->SetAttributeName(t.bytes.substr(0, 5)); o.name = t.bytes.substr(0, 5);
    }
    if (o.m->GetContent() != o.text) return bad("text", when);
  }
  for (auto &o : v) if (!look(o, "at the end")) return false;
  return true;
}
static void run(Ctx &c) {
  Source &s = c.s; std::vector<int> kinds; size_t n = 1 + s.below(4); int common = (int)s.below(6);
  for (size_t i = 0; i < n; ++i) kinds.push_back(s.chance(1, 4) ? (int)s.below(6) : common);
  std::vector<Step> steps; size_t k = s.size(c.thorough ? 80 : 40); std::string d;
  for (size_t i = 0; i < k; ++i) { Step t; t.op = (int)s.below(NOP); t.a = s.below(n); t.b = s.below(n);
    if (t.op == 0) { t.bytes = s.coin() ? b64encode(genBytes(s, 60)) : s.chance(1, 4) ? genB64Text(s) : genBytes(s, 60); if (s.chance(1, 8)) t.bytes = b64wrap(b64encode(genBytes(s, 300))); } else if (t.op == 1 || t.op == 13) t.bytes = genBytes(s, 100);
    d += cat(i + 1, ". object ", t.a, ": ", OPN[t.op], t.op == 5 || t.op == 6 ? cat(" to ", t.b) : t.op == 9 || t.op == 11 || t.op == 14 ? cat(" ", t.b) : t.op == 0 || t.op == 1 || t.op == 13 ? " " + quote(t.bytes) : std::string(), "\n"); steps.push_back(t); }
  c.describe(cat(n, " objects of kinds")); for (int x : kinds) c.describe(cat(" ", KIND_TYPE[x == 0 ? PLAIN : x == 1 ? STRING : INTEGER + x - 2])); c.describe("\n" + d);
  problem.clear();
  { Capture cap; play(steps, kinds); }
  if (!problem.empty()) throw pbt::Failure{ptag, problem};
  if (s.chance(1, 4)) {
    long leak = 0;
    { Capture cap;
      for (int r = 0; r < 4; ++r) { cap.out.str(""); cap.err.str(""); size_t b0 = __sanitizer_get_current_allocated_bytes(); play(steps, kinds); cap.out.str(""); cap.err.str(""); long dlt = (long)__sanitizer_get_current_allocated_bytes() - (long)b0; if (r && (r == 1 || dlt < leak)) leak = dlt; } }
    c.require(leak <= 0, "leak", [&] { return cat("every repetition of the history leaves ", leak, " bytes allocated"); });
    c.label("leak measured");
  }
  int w = 0; for (auto &t : steps) if (t.op == 1 || t.op == 3 || t.op == 5 || t.op == 6 || t.op >= 8) ++w;
  if (steps.size() > 2 && w) c.nontrivial();
  c.label(cat(steps.size() < 3 ? "0-2" : steps.size() < 10 ? "3-9" : "10+", " steps"));
}
static const pbt::Property P = {"C11", "random histories over 1-4 measurement objects of the six kinds: set text or data (arbitrary bytes, valid and invalid base64, own and other objects' data), change encoding, read, copy, assign, self-assign, destroy, compare, print; against a model of text and encoding, with allocation balance over repetitions; non-trivial: more than two steps with a write of data, an encoding change or a copy; distinct by the drawn choices",
  run, 250000, 2500000, 40000, 1500000, 1500, 5,
  {"the decoded data of a text that is not valid base64, or that is blank, is not judged while base64 is set", "compression stays 'none' (gzip is documented as unimplemented)"}};
PBT_MAIN(P)
