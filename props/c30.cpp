// C30: the report of an image disagreement shows what differs and shows it truly.
#include "images.h"
#include "itkImageFileReader.h"
using namespace model;

namespace {
struct Pic { std::vector<long> size; std::vector<double> px; }; // a slice
struct Want { std::string name, file; int kind = 0; ImgFile b, g; int bch = 1, gch = 1; Par par; unsigned npix = 0; std::string entry; }; // kind 0 match, 1 same size, 2 other size, 3 unreadable
}
// the file with channels, all of one value
static std::string channels(const ImgFile &f, int ch) {
  if (ch == 1) return mha(f); ImgFile g = f; g.m.px.clear(); for (auto &p : f.m.px) for (int k = 0; k < ch; ++k) g.m.px.push_back(p);
  std::string o = mha(g); size_t i = o.find("ElementType"); return o.insert(i, cat("ElementNumberOfChannels = ", ch, "\n")); }
static Pic slice(const ImgFile &f, const std::vector<double> &v) { Pic p; std::vector<long> z = pad(f.m.size); p.size = {z[0], z[1]}; size_t n = z[0] * z[1]; p.px.assign(v.begin() + n * (z[2] / 2), v.begin() + n * (z[2] / 2 + 1)); return p; }
static std::vector<double> values(const ImgFile &f) { std::vector<double> v; for (auto &p : f.m.px) v.push_back(p[0]); return v; }
// does the written picture show the slice, stretched to 0-255
static std::string picture(const std::string &path, const Pic &p) {
  typedef itk::Image<unsigned char, 2> I; typedef itk::ImageFileReader<I> Rd; struct stat st; if (stat(path.c_str(), &st)) return "the file does not exist";
  Rd::Pointer r = Rd::New(); r->SetFileName(path); try { r->Update(); } catch (itk::ExceptionObject &e) { return std::string("unreadable: ") + e.GetDescription(); }
  I::SizeType z = r->GetOutput()->GetLargestPossibleRegion().GetSize(); if ((long)z[0] != p.size[0] || (long)z[1] != p.size[1]) return cat("size ", z[0], "x", z[1], ", should be ", p.size[0], "x", p.size[1]);
  double lo = p.px[0], hi = lo; for (double x : p.px) { lo = std::min(lo, x); hi = std::max(hi, x); } if (lo == hi) return "";
  for (size_t k = 0; k < p.px.size(); ++k) { double w = (p.px[k] - lo) / (hi - lo) * 255, g = r->GetOutput()->GetBufferPointer()[k]; if (std::fabs(w - g) > 1.01) { std::string all; for (size_t j = 0; j < p.px.size(); ++j) all += cat(" ", (int)r->GetOutput()->GetBufferPointer()[j]); return cat("pixel ", k, " is ", g, ", should be ", w, "; the picture holds", all); } }
  return "";
}
static std::vector<double> numbers(const std::string &t) { std::vector<double> v; const char *p = t.c_str(); while (*p) { if (isdigit((unsigned char)*p) || (*p == '-' && (isdigit((unsigned char)p[1]) || p[1] == '.'))) { char *e; v.push_back(strtod(p, &e)); p = e; } else ++p; } return v; }
static bool near(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > 1e-5 * std::max(1e-3, std::fabs(b[i]))) return false; return true; }
static std::vector<double> real(const std::vector<long> &v) { return std::vector<double>(v.begin(), v.end()); }
static void run(Ctx &c) {
  registerImageIO(); Source &s = c.s; const std::string &R = c.scratch; static std::string done; if (done != R) { for (auto d : {"/b", "/t", "/w"}) mkdir((R + d).c_str(), 0755); done = R; }
  Chdir cd(R + "/w"); if (!cd.ok) throw pbt::Discard();
  size_t n = 1 + s.below(3); std::vector<Want> w; std::vector<Entry> base; std::string d; int want = 0; bool inBase = s.chance(1, 10);
  for (size_t i = 0; i < n; ++i) {
    Want x; x.name = s.pick({std::string("img"), std::string("a <&> b"), std::string("\"q\""), std::string("x y")}) + cat(i); std::string fn = cat(s.pick({std::string("i"), std::string("a b"), std::string("x.y")}), i, ".mha"); x.file = s.coin() ? "../t/" + fn : R + "/t/" + fn;
    x.b = genImage(s); x.g = genNearImage(s, x.b); size_t big = 0; if (s.chance(1, 150)) { genBigPair(s, x.b, x.g, big); c.label("large image"); } if (s.chance(1, 14)) x.b.bad = 1 + (int)s.below(3);
    if (s.chance(1, 2)) { if (s.coin()) { x.par = genPar(s); x.npix = (unsigned)s.below(3); } else x.par.thr = s.pick({0.25, 0.75, 1.25}); }
    if (s.chance(1, 5) && !x.b.bad && !x.g.bad && (x.par.thr == 0.25 || x.par.thr == 0.75 || x.par.thr == 1.25)) { (s.coin() ? x.b : x.g).type = 0; x.bch = s.coin() ? 3 : 1; x.gch = s.coin() ? 3 : 1; }
    for (auto e : {".diff.png", ".base.png", ".test.png"}) unlink((fn + e).c_str());
    std::string bp = R + "/b/" + fn, tp = R + "/t/" + fn; if (x.bch > 1) { rmdir(bp.c_str()); pbt::writeFile(bp, channels(x.b, x.bch)); } else writeImage(x.b, bp); if (x.gch > 1) { rmdir(tp.c_str()); pbt::writeFile(tp, channels(x.g, x.gch)); } else writeImage(x.g, tp);
    x.entry = fn; Entry e; e.file = true; e.type = "image/itk"; e.name = x.name; e.content = fn; base.push_back(e);
    if (x.b.bad || x.g.bad) x.kind = 3; else if (!sameSize(x.b, x.g)) x.kind = 2; else if (sameSpacing(x.b, x.g) && sameOrigin(x.b, x.g) && differing(x.b, x.g, x.par) <= x.npix) x.kind = 0; else x.kind = 1;
    if (x.kind) ++want; d += cat(quote(x.name), " from ", x.file, ", ", show(x.par), " pixels ", x.npix, "\n  baseline ", x.bch, " channel(s) ", show(x.b), "\n  test     ", x.gch, " channel(s) ", show(x.g), "\n"); w.push_back(x);
  }
  std::string bx = R + "/b.xml", ox = R + "/o.xml"; pbt::writeFile(bx, writeDoc(base)); c.describe(d); (void)inBase;
  ItkTest t; t.body = [&](ItkTest &q) { for (auto &x : w) { q.SetImageInsightTolerance(x.par.thr, x.npix, x.par.rad); q.MeasurementInsightFileImage(x.file, x.name); } return 0; };
  Result r = runItk(t, {"prog", "-I", bx, "-P", R + "/b", "-O", ox}); std::string o = pbt::readFile(ox);
  auto ctx = [&](const Want &x) { return cat("; image ", quote(x.name), "\n", r.err, o); };
  c.require(t.done && r.ret == want, "count", [&] { return cat("returned ", r.ret, ", should be ", want, "\n", r.err, o); });
  Doc doc = parseXml("<r>" + o + "</r>"); c.require(doc.ok, "form", [&] { return doc.error + "\n" + o; }); const std::vector<Elem> &e = doc.root.kids; size_t used = 0;
  std::vector<std::string> names; for (auto &q : e) names.push_back(q.get("name") ? *q.get("name") : "");
  for (auto &x : w) {
    auto has = [&](const std::string &nm) -> const Elem * { for (size_t k = 0; k < e.size(); ++k) if (names[k] == nm) return &e[k]; return 0; };
    auto pair = [&](const char *what, bool differ, std::function<bool(const std::string &, bool)> ok) {
      const Elem *a = has(cat("Baseline ", what, " ", x.name)), *b = has(cat("Test ", what, " ", x.name)); c.require((a != 0) == differ && (b != 0) == differ, "shown", [&] { return cat(what, differ ? " differs, which should be shown" : " should not be shown", ctx(x)); }); if (!differ) return; used += 2;
      c.require(ok(a->text, true) && ok(b->text, false), "shown-value", [&] { return cat(what, " is shown as ", quote(a->text), " and ", quote(b->text), ctx(x)); }); };
    std::string fd = x.entry + ".diff.png"; struct stat st;
    if (x.kind != 1) c.require(stat(fd.c_str(), &st) != 0, "stray-picture", [&] { return "pictures of an image that has no difference image" + ctx(x); });
    if (x.kind == 0) { for (auto &q : names) c.require(q.size() < x.name.size() || q.compare(q.size() - x.name.size(), x.name.size(), x.name), "reported-match", [&] { return "a matching image is reported" + ctx(x); }); c.label("match"); continue; }
    if (x.kind == 3) { const Elem *a = has("Test " + x.name), *b = has("Baseline " + x.name); c.require(a && b && a->text == x.file && b->text.size() >= x.entry.size() && b->text.compare(b->text.size() - x.entry.size(), x.entry.size(), x.entry) == 0, "unreadable", [&] { return "both files should be named" + ctx(x); }); used += 2; c.label("unreadable"); c.nontrivial(); continue; }
    if (x.kind == 2) { const Elem *a = has("Baseline Size " + x.name), *b = has("Test ImageSize " + x.name); c.require(a && b && near(numbers(a->text), real(pad(x.b.m.size))) && near(numbers(b->text), real(pad(x.g.m.size))), "size", [&] { return "both sizes should be shown" + ctx(x); }); used += 2; c.label("other size"); c.nontrivial(); continue; }
    pair("Spacing", !sameSpacing(x.b, x.g), [&](const std::string &q, bool b) { return near(numbers(q), pad(b ? x.b.spacing : x.g.spacing, 1)); });
    pair("Origin", !sameOrigin(x.b, x.g), [&](const std::string &q, bool b) { return near(numbers(q), pad(b ? x.b.origin : x.g.origin, 0)); });
    pair("ComponentType", x.b.type != x.g.type, [&](const std::string &q, bool b) { static const char *T[] = {"double", "float", "short", "unsigned_char"}; return q == T[b ? x.b.type : x.g.type]; });
    pair("PixelType", x.bch != x.gch, [&](const std::string &q, bool b) { return ((b ? x.bch : x.gch) == 1) == (q == "scalar"); });
    pair("Number Of Components", x.bch != x.gch, [&](const std::string &q, bool b) { return atoi(q.c_str()) == (b ? x.bch : x.gch); });
    Img ia = x.b.m, ib = x.g.m; ia.size = pad(ia.size); ib.size = pad(ib.size); Ref ref = brute(ia, ib, x.par); const Elem *a = has("ImageError " + x.name); c.require(a && strtod(a->text.c_str(), 0) == (double)ref.n, "error", [&] { return cat("should show ", ref.n, " differing pixels", ctx(x)); }); ++used;
    std::vector<const Elem *> pics; for (size_t k = 0; k < e.size(); ++k) if (names[k] == "Difference " + x.name && e[k].tag == "DartMeasurementFile") pics.push_back(&e[k]); c.require(pics.size() == 3, "pictures", [&] { return "three pictures should be named" + ctx(x); }); used += 3;
    bool open = false; std::vector<double> df; for (auto &p : ref.p) { df.push_back(p.differs ? p.cand[0][0] : 0); for (auto &q : p.cand) if (p.differs && q[0] != p.cand[0][0]) open = true; } /* signed; of two closest values either */ const std::vector<double> *src[] = {&df, 0, 0}; std::vector<double> vb = values(x.b), vg = values(x.g); src[1] = &vb; src[2] = &vg; static const char *what[] = {"difference", "baseline", "test"};
    for (int k = 0; k < 3; ++k) { const std::string *ty = pics[k]->get("type"); c.require(ty && *ty == "image/png", "picture-type", [&] { return ctx(x); }); std::string q = open && k == 0 ? "" : picture(pics[k]->text, slice(x.b, *src[k])); c.require(q.empty(), "picture", [&] { return cat("picture ", k + 1, " should show the ", what[k], ": ", q, ctx(x)); }); for (int j = 0; j < k; ++j) c.require(pics[j]->text != pics[k]->text, "picture-name", [&] { return ctx(x); }); }
    c.label(ref.n ? "pixels differ" : "geometry differs"); if (x.bch != x.gch) c.label("other number of channels"); if (x.b.type != x.g.type) c.label("other component type"); c.nontrivial();
  }
  c.require(used == e.size(), "extra", [&] { return cat(e.size(), " elements, ", used, " expected\n", r.err, o); });
}
static const pbt::Property P = {"C30", "runs of 1-3 image file measurements with images of other size, spacing, origin, component type, number of channels and pixels, and unreadable ones, under random tolerances; every element of the report is checked against the hand-written images and a brute-force difference, and the written pictures are read back; non-trivial: an image disagrees; distinct by the drawn choices",
  run, 24000, 300000, 0, 0, 0, 20, {"images have at most three dimensions", "a picture of a constant slice is only checked for its size", "images of one run have different file names", "channels of a pixel are equal"}};
PBT_MAIN(P)
