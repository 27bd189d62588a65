// C37: the surroundings of a run do not matter to it.
#include "images.h"
#include "composite.h"
#include "itkNrrdImageIOFactory.h"
#include <locale>
using namespace model;

namespace {
struct Punct : std::numpunct<char> {
  char dp, ts; std::string g, t, f; Punct(char d, char s, const std::string &gr, const std::string &tn, const std::string &fn) : dp(d), ts(s), g(gr), t(tn), f(fn) {}
  char do_decimal_point() const { return dp; } char do_thousands_sep() const { return ts; } std::string do_grouping() const { return g; } std::string do_truename() const { return t; } std::string do_falsename() const { return f; }
};
struct Env { bool punct = false; char dp = '.', ts = ','; std::string g; bool names = false, imbue = false; std::ios::fmtflags fl = std::ios::skipws | std::ios::dec; int prec = 6; char fill = ' '; };
static bool plain(const Env &e) { return !e.punct; }
static std::string show(const Env &e) {
  std::string o = e.punct ? cat("decimal point '", e.dp, "' separator '", e.ts, "' groups of ") : std::string("the classic locale"); if (e.punct) for (char ch : e.g) o += cat((int)ch, " "); if (e.names) o += " (ja/nein)"; if (e.imbue) o += " also of the standard output";
  if (e.fl != (std::ios::skipws | std::ios::dec) || e.prec != 6 || e.fill != ' ') o += cat("; standard output flags ", (int)e.fl, " precision ", e.prec, " fill '", e.fill, "'"); return o; }
struct Restore { std::locale g, c; std::ios::fmtflags fl; std::streamsize p; char f; Restore() : c(std::cout.getloc()), fl(std::cout.flags()), p(std::cout.precision()), f(std::cout.fill()) {}
  ~Restore() { std::locale::global(g); std::cout.imbue(c); std::cout.flags(fl); std::cout.precision(p); std::cout.fill(f); } };
static std::locale make(const Env &e) { return e.punct ? std::locale(std::locale::classic(), new Punct(e.dp, e.ts, e.g, e.names ? "ja" : "true", e.names ? "nein" : "false")) : std::locale::classic(); }
static std::locale apply(const Env &e) { std::locale l = make(e); std::locale::global(l); std::cout.imbue(e.imbue ? l : std::locale::classic()); std::cout.flags(e.fl); std::cout.precision(e.prec); std::cout.fill(e.fill); return l; }
static Env genEnv(Source &s) {
  Env e; if (!s.chance(1, 8)) { e.punct = true; e.dp = s.pick({',', '.', '\''}); e.ts = e.dp == '.' ? s.pick({',', '\'', ' '}) : e.dp == ',' ? s.pick({'.', ' ', '\''}) : ','; e.g = s.pick({std::string("\3"), std::string(""), std::string("\1"), std::string("\2"), std::string("\3\2"), std::string("\4")}); e.names = s.coin(); e.imbue = s.coin(); }
  if (s.coin()) { static const std::ios::fmtflags v[] = {std::ios::dec, std::ios::hex, std::ios::oct}; e.fl = std::ios::skipws | s.pick(v); if (s.coin()) e.fl |= s.coin() ? std::ios::fixed : std::ios::scientific; if (s.coin()) e.fl |= std::ios::boolalpha; if (s.coin()) e.fl |= std::ios::showbase; if (s.coin()) e.fl |= std::ios::showpos; if (s.coin()) e.fl |= std::ios::uppercase; if (s.coin()) e.fl |= std::ios::showpoint; if (s.coin()) e.fl |= std::ios::left; e.prec = s.pick({6, 0, 1, 3, 17}); e.fill = s.pick({' ', '0', '*'}); }
  return e;
}
// a file the toolkit reads alike in every locale (it does not so for its own format)
static std::string nrrd(const ImgFile &f) {
  static const char *TY[] = {"double", "float", "short", "uchar"}; size_t D = f.m.size.size(); std::string o = cat("NRRD0004\ntype: ", TY[f.type], "\ndimension: ", D, "\nspace dimension: ", D, "\nsizes:"); for (long n : f.m.size) o += cat(" ", n);
  auto num = [](double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return std::string(b); }; o += "\nspace directions:";
  for (size_t i = 0; i < D; ++i) { o += " ("; for (size_t j = 0; j < D; ++j) o += (j ? "," : "") + (i == j ? num(f.spacing[i]) : std::string("0")); o += ")"; } o += "\nspace origin: ("; for (size_t j = 0; j < D; ++j) o += (j ? "," : "") + num(f.origin[j]);
  o += ")\nendian: little\nencoding: raw\n\n"; std::string m = mha(f); return o + m.substr(m.find("LOCAL\n") + 6); }
static void writeNrrd(const ImgFile &f, const std::string &p) { if (f.bad) writeImage(f, p); else { rmdir(p.c_str()); pbt::writeFile(p, nrrd(f)); } }
enum { SCALAR, COMPOSITE, NAME, IMAGE };
struct Item { int what = SCALAR; Op o; Val v; std::string ext, root; };
struct T : ScriptedT<itk::Regression> {
  using itk::Regression::MeasurementInsightSize; using itk::Regression::MeasurementInsightIndex; using itk::Regression::MeasurementInsightRegion; using itk::Regression::MeasurementInsightPoint; using itk::Regression::MeasurementInsightVector; using itk::Regression::MeasurementInsightFixedArray; using itk::Regression::MeasurementInsightMatrix;
  const std::vector<Item> *items = 0; const std::vector<std::pair<size_t, Env> > *envs = 0; std::locale last;
  int Test(int, char **) {
    ran = true; size_t k = 0;
    for (auto &i : *items) {
      for (auto &e : *envs) if (e.first == k + 1) last = apply(e.second); ++k;
      switch (i.what) { case SCALAR: doOp(i.o); break; case COMPOSITE: results.push_back(call(*this, i.v)); break; case IMAGE: results.push_back(this->MeasurementInsightFileImage(i.o.text, i.o.name)); break;
        default: results.push_back(this->MeasurementTextString(i.root.empty() ? this->GenerateFileName(i.ext) : this->GenerateFileName(i.ext, i.root), i.o.name)); } }
    return 0; }
};
struct Out { Result r; std::vector<int> results; std::vector<Elem> kids; std::string text, bad; };
}
static std::string show(const Elem &e) { std::string o = e.tag; for (auto &a : e.attr) o += cat(" ", a.first, "=", quote(a.second)); return o + ": " + quote(e.text); }
typedef std::vector<std::pair<size_t, Env> > Envs;
extern char **environ;
static Out go(const std::vector<Item> &items, const Envs &envs, std::vector<std::string> argv, const std::string &file) {
  Out o; { Restore keep; T t; t.items = &items; t.envs = &envs; Env first; for (auto &e : envs) if (e.first == 0) first = e.second; t.last = apply(first);
    if (!file.empty()) { argv.push_back("-O"); argv.push_back(file); }
    std::vector<std::string> before; for (char **p = environ; *p; ++p) before.push_back(*p); mode_t um = umask(022); umask(um); char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) throw pbt::Discard();
    o.r = runMain(t, argv); o.results = t.results; Env want = first; for (auto &e : envs) if (e.first > 0 && e.first <= items.size()) want = e.second;
    std::vector<std::string> after; for (char **p = environ; *p; ++p) after.push_back(*p); mode_t um2 = umask(um); char cwd2[4096]; if (!getcwd(cwd2, sizeof cwd2)) cwd2[0] = 0;
    if (!(std::locale() == t.last)) o.bad = "the global locale"; else if (std::cout.flags() != want.fl || std::cout.precision() != want.prec || std::cout.fill() != want.fill || !(std::cout.getloc() == (want.imbue ? t.last : std::locale::classic()))) o.bad = "the formatting of the standard output"; else if (before != after) o.bad = "the environment"; else if (um2 != um) o.bad = "the file mode mask"; else if (strcmp(cwd, cwd2)) o.bad = "the working directory"; }
  o.text = file.empty() ? o.r.out : pbt::readFile(file); return o;
}
static void parse(Ctx &c, Out &o, bool report, const char *when) {
  c.require(o.bad.empty(), "changed", [&] { return cat(when, ": the run changed ", o.bad); });
  Doc d = parseXml(report ? "<r>" + o.text + "</r>" : o.text); c.require(d.ok, "form", [&] { return cat(when, ": ", d.error, "\n", o.text, o.r.err); }); o.kids = d.root.kids; }
static void same(Ctx &c, const char *tag, const Out &a, const Out &b) {
  c.require(a.r.ret == b.r.ret, tag, [&] { return cat("the run returned ", b.r.ret, ", in the classic locale ", a.r.ret, "\n", b.text, b.r.err); });
  for (size_t i = 0; i < a.results.size() || i < b.results.size(); ++i) c.require(i < a.results.size() && i < b.results.size() && a.results[i] == b.results[i], tag, [&] { return cat("call ", i + 1, " gave ", i < b.results.size() ? cat(b.results[i]) : std::string("nothing"), ", in the classic locale ", i < a.results.size() ? cat(a.results[i]) : std::string("nothing")); });
  for (size_t i = 0; i < a.kids.size() || i < b.kids.size(); ++i) c.require(i < a.kids.size() && i < b.kids.size() && show(a.kids[i]) == show(b.kids[i]), tag, [&] { return cat("element ", i + 1, " is ", i < b.kids.size() ? show(b.kids[i]) : std::string("missing"), "\nin the classic locale ", i < a.kids.size() ? show(a.kids[i]) : std::string("missing")); });
}
static void run(Ctx &c) {
  registerImageIO(); static bool reg = false; if (!reg) { reg = true; itk::NrrdImageIOFactory::RegisterOneFactory(); } Source &s = c.s; const std::string &R = c.scratch; static std::string done; if (done != R) { for (const char *q : {"/w", "/d", "/itkdata"}) mkdir((R + q).c_str(), 0755); done = R; }
  std::vector<Item> items; size_t max = s.chance(1, 10) ? 60 : 12; bool image = false;
  while (items.size() < max && s.chance(12, 13)) { Item i; i.what = (int)s.weighted({10, 3, 2, image ? 0u : 1u});
    if (i.what == SCALAR) { if (s.chance(1, 10)) { i.o.kind = SET_TOL; i.o.tol = genTol(s); } else i.o = genOp(s); if (i.o.kind == INTEGER && s.coin()) i.o.i = s.range(-3000000, 3000000); if (i.o.kind == DOUBLE && s.coin()) i.o.d = s.range(-3000000, 3000000) / 8.0; }
    else if (i.what == COMPOSITE) i.v = genVal(s);
    else { i.o.name = genName(s); i.ext = s.pick({std::string("mha"), std::string("png")}); if (s.coin()) i.root = "out"; if (i.what == IMAGE) { image = true; i.o.text = "t.nrrd"; } }
    items.push_back(i); if (i.what == NAME && s.chance(1, 30)) { size_t n = 1000 + s.below(60); while (n--) items.push_back(i); } }
  ImgFile b, g; double thr = s.pick({0.0, 0.5, 1.0}); (void)thr;
  if (image) { if (s.coin()) { b = genImage(s); g = genNearImage(s, b); } else { b.m.size = {1 + (long)s.below(1500), 1 + (long)s.below(3)}; b.spacing = {1, 1}; b.origin = {0, 0}; b.type = 3; b.m.px.assign(b.m.size[0] * b.m.size[1], {1.0}); g = b; if (s.coin()) { g.m.size[0] += 1; g.m.px.resize(g.m.size[0] * g.m.size[1], {1.0}); } else if (s.coin()) g.origin[0] = 1000 + s.below(5000); else for (auto &p : g.m.px) p[0] = 2; } }
  Envs e[3]; for (auto &v : e) { v.push_back({0, genEnv(s)}); while (v.size() < 4 && s.chance(1, 4)) v.push_back({1 + s.below(items.size() + 1), genEnv(s)}); std::stable_sort(v.begin(), v.end(), [](const std::pair<size_t, Env> &x, const std::pair<size_t, Env> &y) { return x.first < y.first; }); }
  std::string d; for (size_t k = 0; k < items.size() && k < 30; ++k) { const Item &i = items[k]; d += i.what == SCALAR ? "  " + model::show(i.o) + "\n" : i.what == COMPOSITE ? model::show(i.v) : i.what == NAME ? cat("  a file name generated as ", quote(i.o.name), "\n") : cat("  the image as ", quote(i.o.name), "\n"); }
  if (image) d += "baseline image: " + model::show(b) + "\ntest image: " + model::show(g) + "\n";
  static const char *WH[] = {"recorded under", "compared under", "replayed under"}; for (int k = 0; k < 3; ++k) for (auto &v : e[k]) d += cat(WH[k], v.first ? cat(", from call ", v.first, " on") : std::string(), ": ", show(v.second), "\n");
  c.describe(d);
  Chdir cd(R + "/w"); if (!cd.ok) throw pbt::Discard(); if (image) { writeNrrd(b, R + "/d/t.nrrd"); writeNrrd(g, "t.nrrd"); }
  bool toFile = s.coin(); const Envs none; std::string f = toFile ? "o.xml" : ""; std::vector<std::string> argv = {"prog"};
  Out r0 = go(items, none, argv, f); parse(c, r0, false, "recorded in the classic locale"); Out r1 = go(items, e[0], argv, f); parse(c, r1, false, "recorded"); same(c, "record", r0, r1);
  // a baseline that disagrees here and there
  std::vector<Op> ops; size_t n = 0;
  for (auto &i : items) { size_t k = ops.size(); if (i.what == SCALAR) ops.push_back(i.o); else if (i.what == COMPOSITE) expand(i.v, ops); else { Op o; o.kind = i.what == IMAGE ? FILE_TEXT : STRING; o.name = i.o.name; ops.push_back(o); }
    for (; k < ops.size(); ++k) if (ops[k].measures()) { c.require(n < r0.kids.size(), "record", [&] { return cat("only ", r0.kids.size(), " measurements are recorded"); }); if (i.what >= NAME) ops[k].text = r0.kids[n].text; ++n; } }
  std::vector<Entry> base = genBaseline(s, ops, FLT_EPSILON * 64); for (auto &x : base) if (x.file) { x.type = "image/itk"; x.content = "t.nrrd"; }
  pbt::writeFile("b.xml", writeDoc(base)); argv = {"prog", "-I", "b.xml", "-P", R + "/d"};
  // (a generated name depends on the arguments: the same ones are used)
  Out r2 = go(items, none, argv, f); parse(c, r2, true, "compared in the classic locale"); Out r3 = go(items, e[1], argv, f); parse(c, r3, true, "compared"); same(c, "compare", r2, r3);
  bool names = false; for (auto &i : items) names = names || i.what == NAME; // they differ between the two command lines
  if (!names) { if (image) writeNrrd(g, R + "/d/t.nrrd"); pbt::writeFile("b.xml", r1.text); Out r4 = go(items, e[2], argv, f); parse(c, r4, true, "replayed"); bool ok = !image || g.bad == 0; if (ok) c.require(r4.r.ret == 0 && r4.kids.empty(), "replay", [&] { return cat("the run returned ", r4.r.ret, "\n", r4.text); }); }
  bool odd = false; for (auto &v : e) for (auto &x : v) odd = odd || !plain(x.second); if (odd && !ops.empty()) c.nontrivial(); c.label(r2.r.ret ? "disagreements" : "clean"); if (image) c.label("image"); if (ops.size() > 1000) c.label("more than 1000 measurements");
}
static const pbt::Property P = {"C37", "tests of scalar and composite measurements, generated file names and an image, recorded, compared with a disagreeing baseline and replayed under random global locales (decimal point, digit grouping, truth names), also changed in the middle of the run, and random formatting states of the standard output; results, documents and reports must equal those of the same run in the classic locale, and locale, formatting, environment, mode mask and working directory stay as the test left them; non-trivial: some measurement under another locale; distinct by the drawn choices",
  run, 24000, 400000, 0, 0, 0, 20, {"locales differ in digit grouping, decimal point and truth names only"}};
PBT_MAIN(P)
