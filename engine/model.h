// Shared by the harnesses of the measurement framework: scripted tests, running
// Main in-process, an independent document model (writer and reader) and the
// reference comparison model.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "pbt.h"
#include "b64model.h"
#include "TestingFramework/tfRegressionTest.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <expat.h>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>

namespace model {
using pbt::Ctx; using pbt::Source; using pbt::cat; using pbt::quote;

enum Kind { STRING, PLAIN, INTEGER, FLOAT, DOUBLE, BOOLEAN, FILE_TEXT, SET_TOL };
static const char *const KIND_TYPE[] = {"text/string", "text/plain", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean", "text/plain", ""};

struct Op {
  Kind kind = STRING;
  std::string name, text;    // text: content, or file name
  long i = 0; float f = 0; double d = 0; bool b = false;
  double tol = 0;            // SET_TOL
  int img = 0;               // files: 0 text, 1 PNG, 2 JPEG
  int tolerant = -1;         // -1: the call's default
  bool measures() const { return kind != SET_TOL; }
  bool isTolerant() const { return tolerant >= 0 ? tolerant : kind == FLOAT || kind == DOUBLE; }
};

static inline std::string typeOf(const Op &o) { return o.kind == FILE_TEXT && o.img ? o.img == 1 ? "image/png" : "image/jpeg" : KIND_TYPE[o.kind]; }
static inline std::string show(const Op &o) {
  std::ostringstream s; s.precision(17);
  static const char *n[] = {"string", "plain", "integer", "float", "double", "boolean", "file", "tolerance"};
  s << n[o.kind]; if (o.img) s << " " << typeOf(o);
  if (o.kind == SET_TOL) { s << " " << o.tol; return s.str(); }
  s << " " << quote(o.name) << " = ";
  switch (o.kind) {
    case INTEGER: s << o.i; break; case FLOAT: s << o.f; break; case DOUBLE: s << o.d; break; case BOOLEAN: s << o.b; break;
    default: s << quote(o.text);
  }
  if (o.kind >= INTEGER && o.kind <= BOOLEAN) s << (o.isTolerant() ? " (tolerant)" : " (exact)");
  return s.str();
}
static inline std::string show(const std::vector<Op> &v) { std::string r; for (auto &o : v) r += "  " + show(o) + "\n"; return r; }

// ------------------------------------------------------------ the scripted test
template <class Base> class ScriptedT : public Base {
public:
  std::vector<Op> ops;
  int ret = 0;
  std::vector<std::string> seen;                 // argv the body got
  std::function<void(int)> hook;                 // called before op i, and with ops.size() at the end
  std::vector<int> results;                      // what each measurement call returned
  bool ran = false, inCompare = false;
  void doOp(const Op &o) {
    int r = 0;
    switch (o.kind) {
      case SET_TOL: this->SetRelativeTolerance(o.tol); return;
      case STRING: r = this->MeasurementTextString(o.text, o.name); break;
      case PLAIN: r = this->MeasurementTextPlain(o.text, o.name); break;
      case FILE_TEXT: r = o.img == 0 ? this->MeasurementFileTextPlain(o.text, o.name) : o.img == 1 ? this->MeasurementFileImagePNG(o.text, o.name) : this->MeasurementFileImageJPEG(o.text, o.name); break;
      case INTEGER: r = o.tolerant < 0 ? this->MeasurementNumericInteger(o.i, o.name) : this->MeasurementNumericInteger(o.i, o.name, o.tolerant != 0); break;
      case FLOAT: r = o.tolerant < 0 ? this->MeasurementNumericFloat(o.f, o.name) : this->MeasurementNumericFloat(o.f, o.name, o.tolerant != 0); break;
      case DOUBLE: r = o.tolerant < 0 ? this->MeasurementNumericDouble(o.d, o.name) : this->MeasurementNumericDouble(o.d, o.name, o.tolerant != 0); break;
      case BOOLEAN: r = o.tolerant < 0 ? this->MeasurementNumericBoolean(o.b, o.name) : this->MeasurementNumericBoolean(o.b, o.name, o.tolerant != 0); break;
    }
    results.push_back(r);
  }
protected:
  virtual int Test(int argc, char *argv[]) {
    ran = true; inCompare = this->GetCompareMode();
    for (int k = 0; k < argc; ++k) seen.push_back(argv[k]);
    for (size_t k = 0; k < ops.size(); ++k) { if (hook) hook((int)k); doOp(ops[k]); }
    if (hook) hook((int)ops.size());
    return ret;
  }
};
typedef ScriptedT<testutil::RegressionTest> Scripted;

// ------------------------------------------------------------ running Main
struct Capture { // std::cout and std::cerr while alive
  std::ostringstream out, err; std::streambuf *o, *e;
  Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
struct Args { // writable argv
  std::vector<std::vector<char> > st; std::vector<char *> p; int n;
  Args(const std::vector<std::string> &a) { for (auto &x : a) { st.push_back(std::vector<char>(x.begin(), x.end())); st.back().push_back(0); }
    for (auto &x : st) p.push_back(&x[0]); n = (int)p.size(); p.push_back(0); }
};
struct Result { int ret; std::string out, err; };
static inline Result runMain(testutil::RegressionTest &t, const std::vector<std::string> &argv) {
  Args a(argv); Result r; Capture c;
  r.ret = t.Main(a.n, &a.p[0]);
  r.out = c.out.str(); r.err = c.err.str(); return r;
}

// ------------------------------------------------------------ document reading
struct Elem { std::string tag; std::vector<std::pair<std::string, std::string> > attr; std::string text; std::vector<Elem> kids; std::vector<size_t> kidPos;
  const std::string *get(const std::string &k) const { for (auto &a : attr) if (a.first == k) return &a.second; return 0; } };
struct Doc { bool ok = false; std::string error; Elem root; };
namespace detail {
struct PS { std::vector<Elem> st; Elem root; bool have = false; };
static inline void XMLCALL s(void *u, const char *n, const char **a) { PS &p = *(PS *)u; Elem e; e.tag = n; for (; *a; a += 2) e.attr.push_back({a[0], a[1]}); p.st.push_back(e); }
static inline void XMLCALL d(void *u, const char *t, int n) { PS &p = *(PS *)u; if (!p.st.empty()) p.st.back().text.append(t, n); }
static inline void XMLCALL e(void *u, const char *) { PS &p = *(PS *)u; Elem x = p.st.back(); p.st.pop_back(); if (p.st.empty()) { p.root = x; p.have = true; } else { p.st.back().kidPos.push_back(p.st.back().text.size()); p.st.back().kids.push_back(x); } }
}
static inline Doc parseXml(const std::string &s) {
  Doc r; detail::PS p; XML_Parser x = XML_ParserCreate(0);
  XML_SetUserData(x, &p); XML_SetElementHandler(x, detail::s, detail::e); XML_SetCharacterDataHandler(x, detail::d);
  r.ok = XML_Parse(x, s.data(), (int)s.size(), 1) && p.have;
  if (!r.ok) r.error = cat(XML_ErrorString(XML_GetErrorCode(x)), " at line ", XML_GetCurrentLineNumber(x));
  XML_ParserFree(x); r.root = p.root; return r;
}

// A second, hand-written reader for the simple documents the framework writes
// (declaration, comments, elements with quoted attributes, text with the five
// predefined entities and character references).  Strict: anything else fails.
struct MiniXml {
  const std::string &s; size_t i = 0; std::string err;
  MiniXml(const std::string &t) : s(t) {}
  bool fail(const std::string &e) { if (err.empty()) err = cat(e, " at offset ", i); return false; }
  bool lit(const char *l) { size_t n = strlen(l); if (s.compare(i, n, l)) return false; i += n; return true; }
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) ++i; }
  static bool nm(char c, bool first) { return isalpha((unsigned char)c) || c == '_' || (!first && (isdigit((unsigned char)c) || c == '-' || c == '.' || c == ':')); }
  bool name(std::string &o) { o.clear(); while (i < s.size() && nm(s[i], o.empty())) o += s[i++]; return !o.empty() || fail("name expected"); }
  bool ref(std::string &o) {
    size_t e = s.find(';', i); if (e == std::string::npos || e - i > 12) return fail("unterminated reference");
    std::string n = s.substr(i + 1, e - i - 1);
    if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
    else if (n.size() > 1 && n[0] == '#') { bool hex = n[1] == 'x'; char *q; long v = strtol(n.c_str() + (hex ? 2 : 1), &q, hex ? 16 : 10); if (*q || v < 1 || v > 126) return fail("bad character reference"); o += (char)v; }
    else return fail("unknown entity &" + n + ";");
    i = e + 1; return true; }
  bool misc() { while (true) { ws(); if (lit("<!--")) { size_t e = s.find("--", i); if (e == std::string::npos || s.compare(e, 3, "-->")) return fail("bad comment"); i = e + 3; } else return true; } }
  bool element(Elem &e) {
    if (!lit("<")) return fail("element expected");
    if (!name(e.tag)) return false;
    while (true) {
      size_t b = i; ws();
      if (lit("/>")) return true;
      if (lit(">")) break;
      if (b == i) return fail("space expected");
      std::string k, v; if (!name(k)) return false; ws(); if (!lit("=")) return fail("= expected"); ws();
      char q = i < s.size() ? s[i] : 0; if (q != '"' && q != '\'') return fail("quote expected"); ++i;
      while (i < s.size() && s[i] != q) { if (s[i] == '<') return fail("< in attribute"); if (s[i] == '&') { if (!ref(v)) return false; } else { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') ++i; v += strchr("\t\r\n", s[i]) ? ' ' : s[i]; ++i; } }
      if (i >= s.size()) return fail("unterminated attribute"); ++i;
      for (auto &a : e.attr) if (a.first == k) return fail("duplicate attribute");
      e.attr.push_back({k, v});
    }
    while (true) {
      if (i >= s.size()) return fail("unterminated element");
      if (s.compare(i, 2, "</") == 0) { i += 2; std::string n; if (!name(n)) return false; ws(); if (n != e.tag) return fail("mismatched end tag"); if (!lit(">")) return fail("> expected"); return true; }
      if (s.compare(i, 4, "<!--") == 0) { if (!misc()) return false; }
      else if (s[i] == '<') { Elem k; if (!element(k)) return false; e.kidPos.push_back(e.text.size()); e.kids.push_back(k); }
      else if (s[i] == '&') { if (!ref(e.text)) return false; }
      else { if (s.compare(i, 3, "]]>") == 0) return fail("]]> in text"); unsigned char c = s[i]; if ((c < 32 && c != '\n' && c != '\t' && c != '\r') || c == 127) return fail("control character"); if (c == '\r') { if (i + 1 < s.size() && s[i + 1] == '\n') ++i; c = '\n'; } e.text += (char)c; ++i; }
    }
  }
  bool document(Elem &root) {
    if (s.compare(0, 5, "<?xml") == 0) { size_t e = s.find("?>"); if (e == std::string::npos) return fail("bad declaration"); i = e + 2; }
    if (!misc() || !element(root) || !misc()) return false;
    return i == s.size() || fail("text after the root element"); }
};

// ------------------------------------------------------------ document writing
struct Entry { // one measurement of a baseline
  bool file = false, noName = false; std::string name, type, content;
  std::vector<std::pair<std::string, std::string> > extra;
  std::string wire; // the encoded text, if it is not content as it stands
  const std::string &shown() const { return wire.empty() ? content : wire; }
};
static inline std::string escText(const std::string &s) { std::string o; for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '\r') o += "&#13;"; else o += c; } return o; }
static inline std::string escAttr(const std::string &s) { std::string o; for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else if (c == '\t' || c == '\n' || c == '\r') o += cat("&#", (int)c, ";"); else o += c; } return o; }
static inline std::string writeEntry(const Entry &e) {
  std::string tag = e.file ? "DartMeasurementFile" : "DartMeasurement", o = "<" + tag + " name=\"" + escAttr(e.name) + "\" type=\"" + escAttr(e.type) + "\"";
  for (auto &x : e.extra) o += " " + x.first + "=\"" + escAttr(x.second) + "\"";
  return o + ">" + escText(e.shown()) + "</" + tag + ">";
}
static inline std::string writeDoc(const std::vector<Entry> &v) {
  std::string o = "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<output>\n";
  for (auto &e : v) o += writeEntry(e) + "\n";
  return o + "</output>\n";
}

// ------------------------------------------------------------ number model
// The text the documentation promises for a recorded number: 7 significant
// digits for a float, 16 for a double (printf %g form), decimal for integers.
static inline std::string contentOf(const Op &o) {
  char b[64];
  switch (o.kind) {
    case INTEGER: snprintf(b, sizeof b, "%ld", o.i); return b;
    case FLOAT: snprintf(b, sizeof b, "%.7g", (double)o.f); return b;
    case DOUBLE: snprintf(b, sizeof b, "%.16g", o.d); return b;
    case BOOLEAN: return o.b ? "1" : "0";
    default: return o.text;
  }
}
static inline Entry entryOf(const Op &o) { Entry e; e.file = o.kind == FILE_TEXT; e.name = o.name; e.type = typeOf(o); e.content = contentOf(o); return e; }

// How a text reads as a number of a kind: 0 not a finite number, 1 yes, 2 a
// borderline spelling no statement of the properties covers (not judged).
static inline int parseNumber(Kind k, const std::string &t, long double &v) {
  if (t.empty()) return 0;
  const char *c = t.c_str(); char *e;
  size_t i = (t[0] == '-' || t[0] == '+') ? 1 : 0;
  if (k == INTEGER) {
    bool digits = i < t.size(); for (size_t j = i; j < t.size(); ++j) if (!isdigit((unsigned char)t[j])) digits = false;
    if (!digits) { for (size_t j = 0; j < t.size(); ++j) if (isdigit((unsigned char)t[j])) return 2; return 0; }
    errno = 0; long x = strtol(c, &e, 10); if (errno) return 2; v = x; return 1;
  }
  bool digit = false; for (char ch : t) if (isdigit((unsigned char)ch)) digit = true;
  if (!digit) return 0;
  for (char ch : t) if (!isdigit((unsigned char)ch) && !strchr("+-.eE", ch)) return 2;
  errno = 0;
  if (k == FLOAT) { float x = strtof(c, &e); if (*e || errno || std::isinf(x)) return 2; v = x; }
  else { double x = strtod(c, &e); if (*e || errno || std::isinf(x)) return 2; v = x; }
  return 1;
}

// ------------------------------------------------------------ comparison model
// Is |u-v| <= |e| max(|u|,|v|), or both below the epsilon of the kind?
// 0 no, 1 yes, 2 within rounding of the boundary (not judged).
typedef __float128 Q;
static inline Q qabs(Q a) { return a < 0 ? -a : a; }
static inline int tolJudge(Kind k, long double u_, long double v_, double e_) {
  Q u = u_, v = v_, e = qabs((Q)e_), d = qabs(u - v), m = qabs(u) > qabs(v) ? qabs(u) : qabs(v);
  if (d == 0) return 1;
  Q teps = k == INTEGER ? 0 : k == FLOAT ? (Q)FLT_EPSILON : (Q)DBL_EPSILON; // clause of the statement
  Q rnd = k == FLOAT ? (Q)FLT_EPSILON : (Q)DBL_EPSILON;                      // rounding of the type
  // exactly computable in any arithmetic: small multiples of 1/16
  bool exact = true;
  Q vals[3] = {u, v, e};
  for (int i = 0; i < 3; ++i) { Q x = vals[i] * 16; if (qabs(x) > (i < 2 ? 16384 : 64) || (Q)(long)x != x) exact = false; }
  int rel = d <= e * m ? 1 : 0;
  if (!exact) { Q b = e * m, slack = 8 * rnd * (b + m * rnd); // the difference itself rounds relative to its size
    slack += 8 * rnd * d; if (d > b - slack && d < b + slack) rel = 2; }
  int abs = 0;
  if (teps > 0) { Q r = m / teps; if (r < (Q)0.99999) abs = 1; else if (r <= (Q)1.00001) abs = exact ? m < teps : 2; }
  if (rel == 1 || abs == 1) return 1;
  return rel == 2 || abs == 2 ? 2 : 0;
}
static inline Kind kindOfType(const std::string &t) {
  for (int k = STRING; k <= BOOLEAN; ++k) if (t == KIND_TYPE[k]) return (Kind)k;
  return SET_TOL;
}
// Does a numeric content match another under tolerance e (the run's rule: 0 is
// exact comparison of the texts)?
static inline int numMatch(Kind k, const std::string &a, const std::string &b, double e) {
  if (a == b) return 1;
  if (e == 0) return 0;
  long double u, v; int pa = parseNumber(k == BOOLEAN ? INTEGER : k, a, u), pb = parseNumber(k == BOOLEAN ? INTEGER : k, b, v);
  if (pa == 0 || pb == 0) return 0;
  if (pa == 2 || pb == 2) return 2;
  if (k == BOOLEAN) { bool oa = a == "0" || a == "1", ob = b == "0" || b == "1"; return oa && ob ? 0 : 2; }
  int j = tolJudge(k, u, v, e);
  if (k == INTEGER) return j;
  // the decimal texts themselves, before rounding to the type, must agree
  return tolJudge(k, strtold(a.c_str(), 0), strtold(b.c_str(), 0), e) == j ? j : 2;
}
static inline int matches(const Op &o, const Entry &b, double tol) {
  if (o.name != b.name || b.type != KIND_TYPE[o.kind]) return 0;
  std::string c = contentOf(o);
  if (o.kind >= INTEGER && o.kind <= BOOLEAN && o.isTolerant()) return numMatch(o.kind, b.content, c, tol);
  return c == b.content;
}
struct Verdict { int lo = 0, hi = 0; std::vector<int> each; }; // each: outcome per measuring op, 3 = no baseline left
static inline Verdict compareModel(const std::vector<Op> &ops, const std::vector<Entry> &base, double tol) {
  Verdict v; size_t k = 0;
  for (auto &o : ops) {
    if (!o.measures()) { tol = o.tol; continue; }
    int m = k < base.size() ? matches(o, base[k], tol) : 3; ++k;
    v.each.push_back(m);
    if (m == 0 || m == 3) ++v.lo, ++v.hi; else if (m == 2) ++v.hi;
  }
  return v;
}

// ------------------------------------------------------------ generators
// sizes around those at which buffers, counters and self-made limits end
static inline size_t bulkSize(Source &s) {
  static const size_t v[] = {4000, 4095, 4096, 4097, 8193, 10000, 16385, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 70000, 100001, 131073, 200000, 270000};
  static const size_t w[] = {524289, 1000001, 1048575, 1048576, 1048577, 1100000, 1300000};
  return s.chance(1, 12) ? s.pick(w) : s.pick(v);
}
// a text of n characters without repetitions, drawn as one number
static inline std::string bulkText(Source &s, size_t n) {
  static const size_t lines[] = {1, 20, 300, 1500}; size_t every = n / s.pick(lines) + 1; uint64_t x = s.below(1 << 20) * 2654435761ULL + 88172645463325252ULL;
  std::string r; r.reserve(n);
  while (r.size() < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r += r.size() % every == every - 1 ? '\n' : (char)(32 + (x >> 20) % 95); }
  return r;
}
static inline std::string genName(Source &s) {
  static const std::vector<std::string> common = {"a", "b", "result", "x y", "A&B", "<tag>", "\"q\"", "it's", "a>b", "]]>", "&amp;", " lead", "trail ", "", "Test a", "Baseline a", "Unmatched a", "Difference a", "name=\"z\"", "--", "<!--", "&#65;", "a\tb", "a\nb", "\r", "a\r\nb\"", "\n\"&\t"};
  if (s.below(3) < 2) return common[s.below(common.size())];
  if (s.chance(1, 100)) { static const size_t v[] = {32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1023, 1024, 1025, 4097, 70000}; std::string r = bulkText(s, s.pick(v)); for (char &ch : r) if (ch == '\n') ch = '/'; return r; }
  std::string r; size_t n = s.size(30);
  bool ctl = s.chance(1, 8);
  for (size_t i = 0; i < n; ++i) r += ctl && s.chance(1, 4) ? "\t\n\r"[s.below(3)] : (char)s.range(32, 126);
  return r;
}
// another name that differs from this one in as little as possible
static inline std::string nearName(Source &s, const std::string &n) {
  std::string r = n; size_t at = n.empty() ? 0 : s.coin() ? n.size() - 1 : s.below(n.size());
  switch (n.empty() ? 0 : s.below(5)) {
    case 0: r += s.pick({' ', 'a', '_', '0', '\n', '\r', '\t'}); break;
    case 1: r.erase(at, 1); break;
    case 2: r[at] = r[at] == 'a' ? 'b' : 'a'; break;
    case 3: r[at] = isalpha((unsigned char)r[at]) ? r[at] ^ 32 : r[at] == ' ' ? s.pick({'_', '\t', '\n'}) : ' '; break;
    default: r.insert(at, 1, ' '); break; }
  return r; }
static inline char genTextChar(Source &s) {
  switch (s.below(6)) { case 0: return 'a' + (char)s.below(3); case 1: return '\n'; case 2: return "&<>\"'];-="[s.below(9)]; case 3: return ' '; case 4: return s.chance(1, 4) ? '\r' : '\t'; default: return (char)s.range(32, 126); }
}
static inline std::string genText(Source &s, size_t max = 3000) {
  static const std::vector<std::string> common = {"", "x", "\n", "a\nb\n", "&", "<", "<b>&</b>", "]]>", " ", "\t", "a\n\nb", "line\n", "<![CDATA[x]]>", "&lt;", "0", "1", "nan", "</DartMeasurement>", "   padded   ", "\n\n\n", "a\r\nb\r\n", "10%\r100%\n", "\r", "a\rb\n", "&#13;\r"};
  if (max >= 1000 && s.chance(1, 300)) return bulkText(s, bulkSize(s));
  switch (s.below(4)) {
    case 0: return common[s.below(common.size())];
    case 1: { std::string r; size_t n = s.size(40); for (size_t i = 0; i < n; ++i) r += genTextChar(s); return r; }
    case 2: { std::string r; size_t n = s.size(12); for (size_t i = 0; i < n; ++i) { r += "abc"[s.below(3)]; r += '\n'; } return r; }
    default: { // long, around the reader's 1024-byte chunks
      size_t n = s.below(max + 1); std::string unit; size_t k = 1 + s.below(7); for (size_t i = 0; i < k; ++i) unit += genTextChar(s);
      std::string r; while (r.size() < n) r += unit; r.resize(n); return r; }
  }
}
static inline long genLong(Source &s) {
  switch (s.below(5)) {
    case 0: return s.range(-3, 3);
    case 1: { static const long v[] = {0, 1, -1, 2147483647L, -2147483647L - 1, 2147483648L, -2147483649L, 4294967295L, 4294967296L, 4294967297L, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, 65536, -65536, 1000000000000L}; return s.pick(v); }
    case 2: return s.range(-100000, 100000);
    case 3: return (long)s.u64();
    default: { long p = 1L << s.below(63); return (s.coin() ? -p : p) + s.range(-2, 2); }
  }
}
static inline double genDouble(Source &s) {
  switch (s.below(8)) {
    case 0: return (double)s.range(-3, 3);
    case 1: { static const double v[] = {0.0, -0.0, 1.0, -1.0, 0.1, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, DBL_EPSILON, 4.9406564584124654e-324, -4.9406564584124654e-324, INFINITY, -INFINITY, NAN, 1e300, 1e-300, 1e308, 123456789.123456789, 0.3333333333333333, 1e15, 1e16, 1e17, 9999999999999999.0, 99999999.5, 1.0000000000000002, 2.2250738585072009e-308}; return s.pick(v); }
    case 2: return s.range(-100000, 100000) / 100.0;
    case 3: { uint64_t u = s.u64(); double d; memcpy(&d, &u, 8); return d; }
    case 4: return std::ldexp((double)s.range(-1000000, 1000000), (int)s.range(-60, 60));
    case 5: return s.range(-9, 9) * std::pow(10.0, (double)s.range(-300, 300));
    case 6: return 1.0 + s.range(-8, 8) * DBL_EPSILON;
    default: return s.range(-1000000000L, 1000000000L) * 1.000000119;
  }
}
static inline float genFloat(Source &s) {
  switch (s.below(6)) {
    case 0: return (float)s.range(-3, 3);
    case 1: { static const float v[] = {0.f, -0.f, 1.f, 0.1f, FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, FLT_EPSILON, 1.4e-45f, -1.4e-45f, INFINITY, -INFINITY, NAN, 16777216.f, 9999999.f, 1e10f, 1e-38f, 0.33333334f}; return s.pick(v); }
    case 2: { uint32_t u = (uint32_t)s.below(1ULL << 32); float f; memcpy(&f, &u, 4); return f; }
    case 3: return s.range(-100000, 100000) / 100.0f;
    case 4: return (float)std::ldexp((double)s.range(-1000000, 1000000), (int)s.range(-60, 60));
    default: return 1.0f + s.range(-8, 8) * FLT_EPSILON;
  }
}
static inline double genTol(Source &s) {
  static const double v[] = {0.0, FLT_EPSILON * 64.0, 1e-6, 1e-3, 0.01, 0.1, 0.5, 1.0, 2.0, 10.0, -0.1, 1e-300, 1e300, DBL_EPSILON};
  return s.chance(1, 4) ? s.range(0, 1000) / 1000.0 : s.pick(v);
}
// kinds: inline measurements only (no files)
static inline Op genOp(Source &s) {
  Op o; o.kind = (Kind)s.below(6); o.name = genName(s);
  switch (o.kind) {
    case STRING: case PLAIN: o.text = genText(s); break;
    case INTEGER: o.i = genLong(s); break; case FLOAT: o.f = genFloat(s); break; case DOUBLE: o.d = genDouble(s); break;
    case BOOLEAN: o.b = s.coin(); break; default: break;
  }
  if (o.kind >= INTEGER) o.tolerant = (int)s.below(3) - 1;
  return o;
}
static inline std::vector<Op> genOps(Source &s, size_t max, bool tols = true) {
  std::vector<Op> v;
  while (v.size() < max && s.chance(9, 10)) {
    if (tols && s.chance(1, 8)) { Op t; t.kind = SET_TOL; t.tol = genTol(s); v.push_back(t); continue; }
    v.push_back(genOp(s));
  }
  if (max >= 60 && !v.empty() && s.chance(1, 6)) { // a long script
    static const size_t many[] = {1000, 1001, 1024, 1025, 2000, 4097, 5001, 10001, 12000}; size_t n = (size_t)s.range((long)max, 5 * (long)max), k = v.size(), bytes = 0; if (s.chance(1, 30)) n = s.pick(many);
    for (auto &o : v) bytes += o.name.size() + o.text.size(); bytes = bytes / k + 1; if (n > 4000000 / bytes) n = 4000000 / bytes;
    while (v.size() < n) v.push_back(v[v.size() % k]); }
  return v;
}
// a content a baseline may hold for a numeric kind
static inline std::string genNumText(Source &s, Kind k) {
  static const std::vector<std::string> odd = {"", "nan", "inf", "-inf", "abc", "-", "-nan", "x1", "one", "true", "NaN", "Infinity"};
  if (s.chance(1, 6)) return s.pick(odd);
  Op o; o.kind = k; o.i = genLong(s); o.f = genFloat(s); o.d = genDouble(s); o.b = s.coin();
  return contentOf(o);
}
// a value near another, around the edge of a tolerance
static inline double genNear(Source &s, double x, double tol) {
  static const double f[] = {1, 0.999, 1.001, 0.5, 2, 0.999999, 1.000001, 3};
  double d = x * tol * s.pick(f);
  switch (s.below(4)) { case 0: return x + d; case 1: return x - d; case 2: return -x; default: return x / (1 - tol * s.pick(f) * 0.9999); }
}
// Turns the record of a script into a baseline that disagrees here and there.
static inline std::vector<Entry> genBaseline(Source &s, const std::vector<Op> &ops, double tol) {
  std::vector<Entry> v; unsigned rate = s.pick({0u, 1u, 2u, 4u, 8u});
  for (auto &o : ops) {
    if (!o.measures()) { tol = o.tol; continue; }
    Entry e = entryOf(o);
    if (s.below(10) >= rate) { v.push_back(e); continue; }
    switch (s.below(10)) {
      case 0: e.name = s.coin() ? nearName(s, e.name) : genName(s); break;
      case 1: { Kind k = (Kind)s.below(6); e.type = KIND_TYPE[k]; break; }
      case 2: continue;                                     // dropped
      case 3: v.push_back(e); break;                        // doubled
      case 4: v.push_back(entryOf(genOp(s))); break;        // an extra one before
      case 5: if (!v.empty()) std::swap(v.back(), e); break; // swapped with the previous
      default:
        if (o.kind == STRING || o.kind == PLAIN) {
          if (s.coin() || e.content.empty()) e.content = genText(s);
          else { size_t i = s.below(e.content.size()); if (s.coin()) e.content[i] = genTextChar(s); else e.content.erase(i, 1 + s.below(3)); }
        } else if (s.chance(1, 3) || o.kind == BOOLEAN) e.content = genNumText(s, o.kind);
        else if (o.kind == INTEGER) { Op p = o; double n = genNear(s, (double)o.i, tol); p.i = s.coin() || !(std::fabs(n) < 9e18) ? (long)((unsigned long)o.i + s.range(-3, 3)) : (long)n; e.content = contentOf(p); }
        else if (o.kind == FLOAT) { Op p = o; p.f = (float)genNear(s, o.f, tol); if (s.chance(1, 4)) p.f = std::nextafter(o.f, 1e30f); e.content = contentOf(p); }
        else { Op p = o; p.d = genNear(s, o.d, tol); if (s.chance(1, 4)) p.d = std::nextafter(o.d, 1e300); e.content = contentOf(p); }
    }
    v.push_back(e);
  }
  if (s.chance(1, 6)) { size_t n = 1 + s.below(3); for (size_t i = 0; i < n; ++i) v.push_back(entryOf(genOp(s))); } // unused at the end
  return v;
}
static inline std::string show(const std::vector<Entry> &v) {
  std::string r; for (auto &e : v) r += cat("  ", e.file ? "file " : "", e.type, " ", quote(e.name), " = ", quote(e.content), e.wire.empty() ? "" : " (as base64)", "\n"); return r; }
// Gives some inline texts of a baseline in base64.
static inline void encodeSome(Source &s, std::vector<Entry> &v, bool plainToo) {
  if (!s.chance(1, 4)) return;
  for (auto &e : v) if (!e.file && !e.content.empty() && (e.type == "text/string" || (plainToo && e.type == "text/plain")) && s.coin()) { std::string w = b64encode(e.content); e.wire = s.chance(1, 3) ? b64wrap(w) : w; e.extra.push_back({"encoding", "base64"}); } }
} // namespace model
#endif
