// C08: no baseline file can crash, hang or confuse a run.
#include "respell.h"
using namespace model;

static std::string mutate(Source &s, std::string d) {
  static const std::string tok[] = {"<DartMeasurement>", "</DartMeasurement>", "<DartMeasurement name=\"a\"/>", "<DartMeasurement name=\"a\" type=\"text/plain\">", "<DartMeasurementFile>", "</DartMeasurementFile>", "<output>", "</output>", "<!--", "-->", "<![CDATA[", "]]>", "<?x?>", "&", "&amp;", "&#0;", "&#200;", "&#x110000;", "&lt;", "<", ">", "\"", "=", "\0", "\xff", "\xc3\xa9", "<!DOCTYPE output [<!ENTITY a \"b\">]>", "&a;", " type=\"\"", " type=\"numeric/complex\"", " encoding=\"base64\"", " compression=\"gzip\"", "<x>", "</x>", "<x/>", "<x>t<y/></x>", "<?xml version=\"1.0\"?>", " name=\"\"", "xmlns:a=\"b\"", "<a:b/>", "<!DOCTYPE output SYSTEM \"/etc/hostname\">"};
  size_t k = 1 + s.size(6);
  for (size_t i = 0; i < k; ++i) {
    size_t p = s.below(d.size() + 1);
    switch (s.below(7)) {
      case 0: d.insert(p, s.pick(tok)); break;
      case 1: { size_t q = d.find('<', p); d.insert(q == std::string::npos ? p : q, s.pick(tok)); break; }
      case 2: { size_t q = d.find('>', p); d.insert(q == std::string::npos ? p : q + 1, s.pick(tok)); break; }
      case 3: if (p < d.size()) d[p] = (char)s.below(256); break;
      case 4: if (p < d.size()) d.erase(p, 1 + s.size(40)); break;
      case 5: d.resize(p); break;
      default: { size_t q = s.below(d.size() + 1); if (p > q) std::swap(p, q); std::string b = d.substr(p, std::min(q - p, (size_t)300)); d.insert(s.below(d.size() + 1), b); }
    }
  }
  return d;
}
// what the framework reads from a well-formed document: the measurements at
// depth 1, nested elements and everything unknown left out
struct Strict { bool ok; std::vector<Entry> v; std::vector<char> judged; };
static Strict readStrict(const std::string &doc) {
  struct H {
    int depth = 0; bool in = false; Entry e; bool j = true; Strict r;
    static void XMLCALL S(void *u, const char *n, const char **a) { H &h = *(H *)u; std::string el = n;
      if (h.depth == 1 && (el == "DartMeasurement" || el == "DartMeasurementFile")) { h.in = true; h.e = Entry(); h.j = true; h.e.file = el == "DartMeasurementFile"; bool ty = false, nm = false;
        for (; *a; a += 2) { std::string k = a[0], v = a[1]; if (k == "name") { h.e.name = v; nm = true; } else if (k == "type") { h.e.type = v; ty = true; } else if ((k == "encoding" || k == "compression") && v != "none") h.j = false; }
        if (h.e.file) h.j = false;
        if (!nm && h.e.file) h.e.noName = true;
        if (!ty || (!h.e.file && kindOfType(h.e.type) == SET_TOL)) { h.e.type = "?"; } }
      ++h.depth; }
    static void XMLCALL E(void *u, const char *) { H &h = *(H *)u; --h.depth; if (h.depth == 1 && h.in) { h.r.v.push_back(h.e); h.r.judged.push_back(h.j); h.in = false; } }
    static void XMLCALL D(void *u, const char *t, int n) { H &h = *(H *)u; if (h.depth == 2 && h.in) h.e.content.append(t, n); }
  } h;
  XML_Parser x = XML_ParserCreate("US-ASCII"); XML_SetUserData(x, &h); XML_SetElementHandler(x, H::S, H::E); XML_SetCharacterDataHandler(x, H::D);
  h.r.ok = XML_Parse(x, doc.data(), (int)doc.size(), 1) == XML_STATUS_OK; XML_ParserFree(x); return h.r;
}
static void run(Ctx &c) {
  Source &s = c.s;
  std::vector<Op> ops = genOps(s, 6); std::string doc; int how = (int)s.below(8);
  double tol = std::numeric_limits<float>::epsilon() * 64.0;
  std::vector<Entry> base = genBaseline(s, ops, tol);
  if (how == 0) { size_t n = s.size(1500); for (size_t i = 0; i < n; ++i) doc += (char)s.below(256); }
  else if (how == 1) { size_t n = s.size(60); static const std::string t[] = {"<output>", "</output>", "<DartMeasurement name='a' type='text/plain'>", "</DartMeasurement>", "<x>", "</x>", "t", "<y/>", "<DartMeasurement name='b'/>", "<DartMeasurementFile name='f'>f", "</DartMeasurementFile>", "\n", "<DartMeasurement/>", "<DartMeasurement type='zzz'>", "<DartMeasurementFile>f", "<DartMeasurementFile/>", "<DartMeasurementFile type='image/png'/>"}; doc = "<output>"; std::vector<std::string> open;
    for (size_t i = 0; i < n; ++i) { if (s.coin() && !open.empty()) { doc += "</" + open.back() + ">"; open.pop_back(); continue; } std::string k = s.pick(t); if (k.compare(0, 2, "</") == 0) { if (s.chance(1, 30)) doc += k; continue; } doc += k; if (k[0] == '<' && k.find("/>") == std::string::npos) { size_t e = k.find_first_of(" >"); open.push_back(k.substr(1, e - 1)); } }
    while (!open.empty()) { doc += "</" + open.back() + ">"; open.pop_back(); } doc += "</output>"; }
  else { if (how < 5) { for (auto &e : base) { if (s.chance(1, 6)) e.file = true; if (s.chance(1, 8)) e.type = genName(s); if (s.chance(1, 8)) e.extra.push_back({s.coin() ? "encoding" : "compression", s.pick({std::string("none"), std::string("base64"), std::string("gzip"), std::string("uu")})}); } }
    Respell w(s); doc = s.coin() ? writeDoc(base) : w.doc(base);
    // structured: nest elements, drop the type
    if (s.coin()) { size_t k = 1 + s.below(3); for (size_t i = 0; i < k; ++i) { size_t p = doc.find('>', s.below(doc.size())); if (p == std::string::npos) break; doc.insert(p + 1, s.pick({std::string("<x/>"), std::string("<x>t</x>"), std::string("<DartMeasurement name=\"n\" type=\"text/plain\">t</DartMeasurement>"), std::string("<x>a<y>b</y>c</x>"), std::string("<DartMeasurementFile name=\"n\">f</DartMeasurementFile>"), std::string("<DartMeasurement name=\"n\">t</DartMeasurement>"), std::string("<DartMeasurement/>")})); } }
    // deeply nested, with measurements inside
    if (s.chance(1, 40)) { static const size_t deep[] = {30, 100, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 513, 1000, 2000}; size_t n = s.pick(deep); if (s.chance(1, 30)) n = s.pick({65533, 65534, 65535, 65536, 65537});
      size_t p = doc.find('>', s.below(doc.size())); if (p != std::string::npos) { std::string in, up, down; for (size_t i = 0; i < n; ++i) { up += "<x>"; down += "</x>"; if (i % 256 < 3 || i + 3 > n) up += "<DartMeasurement name=\"n\" type=\"text/string\">t</DartMeasurement>"; } doc.insert(p + 1, up + (s.coin() && !base.empty() ? writeEntry(base[s.below(base.size())]) : std::string()) + down); c.label("deep nesting"); } }
    // take the attributes of an element away
    if (how < 5 && s.chance(1, 3)) { size_t p = doc.find("<DartMeasurement", s.below(doc.size())); if (p != std::string::npos) { size_t b = doc.find_first_of(" \t\r\n/>", p), e = doc.find('>', p); if (b != std::string::npos && e != std::string::npos && b < e) doc.erase(b, e - b - (doc[e - 1] == '/')); } }
    if (how != 2 && how != 5) doc = mutate(s, doc); }
  c.describe(cat("baseline file (", doc.size(), " bytes): ", quote(doc, 8000), "\ntest:\n", show(ops)));
  std::string f = c.scratch + "/b.xml"; pbt::writeFile(f, doc);
  Strict st = readStrict(doc);
  int ret[2]; std::string out[2];
  for (int k = 0; k < 2; ++k) { Scripted t; t.ops = ops; Result r = runMain(t, {"prog", "-I", f}); ret[k] = r.ret; out[k] = r.out;
    if (!st.ok) c.require(r.ret != 0, "malformed-succeeds", [&] { return cat("the file is not well-formed but the run returned 0\n", r.err); });
    else c.require(t.ran, "well-formed-rejected", [&] { return r.err; }); }
  c.require(ret[0] == ret[1] && out[0] == out[1], "not-repeatable", [&] { return cat(ret[0], " then ", ret[1], "\n", out[0], "---\n", out[1]); });
  if (st.ok) {
    int lo = 0, hi = 0; size_t k = 0; double cur = tol;
    for (auto &o : ops) { if (!o.measures()) { cur = o.tol; continue; }
      int m; if (k >= st.v.size()) m = 0; else if (!st.judged[k]) { // only by name and type
        const Entry &e = st.v[k]; m = (e.noName || e.name == o.name) && (e.type == typeOf(o) || (e.type == "?" && o.kind == PLAIN)) ? 2 : 0; } else { Entry e = st.v[k]; if (e.type == "?") m = o.kind == PLAIN && e.name == o.name && e.content == contentOf(o) ? 2 : 0; else m = matches(o, e, cur); }
      ++k; if (m == 0) ++lo, ++hi; else if (m == 2) ++hi; }
    c.require(ret[0] >= lo && ret[0] <= hi, "count", [&] { return cat("returned ", ret[0], ", from the elements at measurement level it should be ", lo, hi > lo ? cat("..", hi) : std::string(), "\n", out[0]); });
    if (lo) c.label("well-formed, with disagreements"); else c.label("well-formed");
  } else c.label("malformed");
  if (how != 5 && doc.size() > 2) c.nontrivial();
}
static const pbt::Property P = {"C08", "baseline files of random bytes, random element trees, and valid documents with unexpected nesting, missing or unknown types, encodings, and byte-, token- and block-level mutations; run twice under the sanitizers, checked against expat's verdict and an independent reading of the elements at measurement level; non-trivial: everything but plain valid documents; distinct by the drawn choices",
  run, 80000, 1500000, 60000, 2000000, 2500, 5,
  {"a document is well-formed when expat, reading it as US-ASCII, accepts it", "encoded, compressed and file entries of a generated baseline are not judged, nor is whether an entry without a known type matches a plain text"}};
PBT_MAIN(P)
