// C22: image measurements match exactly when geometry and pixels agree.
#include "images.h"
#include "itktfCompareVisitor.h"
using namespace model;

struct Step { int what = 0; Par par; unsigned npix = 0; std::string name, file; long val = 0; }; // 0 image file, 1 tolerance, 2 tolerance off, 3 integer
static bool isFile(const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISREG(st.st_mode) && st.st_size > 0; }

static void files(Ctx &c, const std::string &R) {
  Source &s = c.s; size_t n = 1 + s.below(4); std::vector<Step> steps; std::vector<Entry> base; std::string d;
  std::vector<ImgFile> ti, bi; Par par; unsigned npix = 0; int want = 0; bool pixels = false;
  const std::string lev[] = {R + "/b/", R + "/p/", R + "/w/itkdata/", R + "/w/"}; bool two = s.chance(1, 3);
  struct Exp { std::vector<std::string> names; int kind; unsigned long cnt; std::string quiet; }; std::vector<Exp> rep; // what the report has to show
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 2)) { Step t; t.what = s.chance(1, 6) ? 2 : 1; if (t.what == 1) { t.par = genPar(s); t.npix = (unsigned)s.weighted({4, 2, 2, 1, 1, 1}); par = t.par; npix = t.npix; } else { par = Par(); npix = 0; } steps.push_back(t); d += t.what == 2 ? std::string("tolerance off\n") : cat("tolerance: intensity ", par.thr, ", pixels ", npix, ", radius ", par.rad, "\n"); }
    Step t; t.name = cat("img", i, s.pick({std::string(), std::string(" <&>"), std::string("\""), std::string(" x")})); std::string fn = cat("i", i, ".mha"); t.file = s.coin() ? "../t/" + fn : R + "/t/" + fn;
    ImgFile b = genImage(s), g = genNearImage(s, b); if (s.chance(1, 150)) { size_t k; genBigPair(s, b, g, k); c.label("large image"); if (s.coin()) { Step q; q.what = 1; q.npix = npix = (unsigned)(k + s.below(3) - 1); q.par = par = Par(); steps.push_back(q); d += cat("tolerance: pixels ", npix, "\n"); } } if (s.chance(1, 12)) b.bad = 1 + (int)s.below(4);
    for (int l = 0; l < 4; ++l) { unlink((lev[l] + fn).c_str()); rmdir((lev[l] + fn).c_str()); }
    Entry e; e.file = true; e.type = "image/itk"; e.name = t.name; e.content = s.pick({std::string(), std::string("some/where/")}) + fn;
    int at = 0; if (s.chance(1, 4)) { at = 1 + (int)s.below(3); if (at == 1 && !two) at = 2; if (at == 3) e.content = fn; }
    writeImage(b, lev[at] + fn); writeImage(g, R + "/t/" + fn); steps.push_back(t);
    bool own = !at && s.chance(1, 8); if (!own && b.bad != 1 && b.bad != 4 && s.chance(1, 4)) { ImgFile o = genNearImage(s, b); for (int l = at + 1; l < 4; ++l) if (s.coin()) { writeImage(o, lev[l] + fn); c.label("another file of the name later in the search"); } }
    if (at) { c.label(cat("baseline image ", at == 1 ? "in the second directory" : at == 2 ? "in the data directory" : "in the current directory")); d += cat("baseline in ", at == 1 ? "the second -P directory" : at == 2 ? "the data directory" : "the current directory", "\n"); }
    if (own) { e.content = t.file; if (s.coin()) { b.bad = 1 + 3 * (int)s.coin(); writeImage(b, R + "/b/" + fn); } if (b.bad == 1 || b.bad == 4) { b = g; c.label("test file as baseline"); } }
    d += cat(quote(t.name), " from ", t.file, "\n  baseline ", quote(e.content), " ", show(b), "\n  test     ", show(g), "\n");
    bool unmatched = false; if (s.chance(1, 16)) { e.name += "x"; unmatched = true; } else if (s.chance(1, 20)) { e.type = s.pick({std::string("text/plain"), std::string("image/png")}); unmatched = true; }
    bool drop = i + 1 == n && s.chance(1, 12); if (drop) unmatched = true; else base.push_back(e);
    Exp x; x.kind = 0; x.cnt = 0;
    if (unmatched) { ++want; x.names = {t.name}; x.kind = 4; c.label("unmatched"); }
    else if (b.bad || g.bad) { ++want; x.names = {t.name}; x.kind = 3; c.label("unreadable"); }
    else {
      bool sz = sameSize(b, g), geo = sameSpacing(b, g) && sameOrigin(b, g); unsigned long cnt = sz ? differing(b, g, par) : 0; bool m = sz && geo && cnt <= npix;
      if (m) { x.quiet = t.name; c.label(cnt ? "match within tolerance" : "match"); } else { ++want; x.kind = sz ? 1 : 2; x.cnt = cnt; x.names = {t.name}; c.label(!sz ? "size differs" : !geo ? "spacing or origin differs" : "pixels differ"); }
      if (sz && cnt) pixels = true; if (!geo || !sz) pixels = true;
    }
    rep.push_back(x);
    if (s.chance(1, 3) && !drop) { Step q; q.what = 3; q.name = cat("int", i); q.val = s.range(0, 3); steps.push_back(q); Entry z; z.name = q.name; z.type = "numeric/integer"; long bv = s.coin() ? q.val : q.val + 1; z.content = cat(bv); base.push_back(z); if (bv != q.val) ++want; d += cat(q.name, " ", q.val, " against ", bv, "\n"); }
  }
  std::string bx = R + "/b.xml", ox = R + "/o.xml"; bool toFile = s.coin(); pbt::writeFile(bx, writeDoc(base)); c.describe(cat(d, toFile ? "report to a file\n" : "")); size_t calls = 0;
  ItkTest t; t.body = [&](ItkTest &q) { for (auto &p : steps) { switch (p.what) { case 0: q.MeasurementInsightFileImage(p.file, p.name); break; case 1: q.SetImageInsightTolerance(p.par.thr, p.npix, p.par.rad); break; case 2: q.SetImageInsightToleranceOff(); break; default: q.MeasurementNumericInteger(p.val, p.name); } ++calls; } return 0; };
  std::vector<std::string> argv = {"prog", "-I", bx}; if (two) { argv.push_back("-P"); argv.push_back(R + "/p"); } argv.push_back("-P"); argv.push_back(R + "/b"); if (toFile) { argv.push_back("-O"); argv.push_back(ox); }
  Result r = runItk(t, argv);
  c.require(calls == steps.size() && t.done, "ended", [&] { return cat("the run ended early: ", r.err); });
  c.require(r.ret == want, "count", [&] { return cat("returned ", r.ret, ", should be ", want, "\n", r.err, r.out); });
  if (pixels) c.nontrivial();
  if (toFile) { // the report, an XML fragment
    std::string o = pbt::readFile(ox); Doc doc = parseXml("<r>" + o + "</r>"); c.require(doc.ok, "report-form", [&] { return doc.error + "\n" + o; }); size_t k = 0; const std::vector<Elem> &e = doc.root.kids;
    auto find = [&](const std::string &tag, const std::string &nm) -> const Elem * { while (k < e.size()) { const Elem *x = &e[k++]; const std::string *a = x->get("name"); if (x->tag == tag && a && *a == nm) return x; } return 0; };
    for (auto &x : rep) {
      if (x.kind == 0) { for (auto &q : e) { const std::string *a = q.get("name"); c.require(!a || a->find(x.quiet) == std::string::npos || (x.quiet.size() == 4 && a->find(x.quiet + " ") != std::string::npos) || (x.quiet.size() == 4 && a->find(x.quiet + "\"") != std::string::npos), "reported-match", [&] { return cat("the matching image ", quote(x.quiet), " is reported\n", o); }); } continue; }
      const std::string &nm = x.names[0]; const Elem *a = 0, *b = 0; const char *need = "";
      if (x.kind == 1) { a = find("DartMeasurement", "ImageError " + nm); need = "the number of differing pixels"; if (a) c.require(strtod(a->text.c_str(), 0) == (double)x.cnt, "reported-count", [&] { return cat("reports ", a->text, " differing pixels of ", quote(nm), ", should be ", x.cnt, "\n", o); });
        for (int i = 0; a && i < 3; ++i) { b = find("DartMeasurementFile", "Difference " + nm); c.require(b && isFile(b->text), "reported-images", [&] { return cat("three images for ", quote(nm), " should be written and named\n", o, r.err); }); } }
      else if (x.kind == 2) { a = find("DartMeasurement", "Baseline Size " + nm); b = a ? find("DartMeasurement", "Test ImageSize " + nm) : 0; if (!b) a = 0; need = "both sizes"; }
      else if (x.kind == 3) { a = find("DartMeasurementFile", "Test " + nm); b = a ? find("DartMeasurementFile", "Baseline " + nm) : 0; if (!b) a = 0; need = "both file names"; }
      else { a = find("DartMeasurementFile", "Unmatched " + nm); need = "the unmatched measurement"; }
      c.require(a != 0, "report", [&] { return cat("the report should show ", need, " of ", quote(nm), "\n", o, r.err); });
    }
  }
}
// recorded, then replayed with the same or a changed image in memory
static void memory(Ctx &c, const std::string &R) {
  Source &s = c.s; typedef itk::Image<float, 2> I; size_t n = 1 + s.below(3); std::vector<Img> rec, rep; std::string d; int want = 0; Par par = genPar(s); unsigned npix = (unsigned)s.below(3);
  for (size_t i = 0; i < n; ++i) { Img m; m.size = {1 + (long)s.below(6), 1 + (long)s.below(6)}; for (long k = 0; k < m.size[0] * m.size[1]; ++k) m.px.push_back({(double)s.range(0, 9)}); Img q = m; if (s.coin()) { size_t k = 1 + s.below(4); for (size_t j = 0; j < k; ++j) q.px[s.below(q.px.size())][0] += s.pick({1.0, 2.0, 0.5}); } rec.push_back(m); rep.push_back(q); unsigned long cnt = brute(m, q, par).n; if (cnt) c.nontrivial(); want += cnt > npix; d += cat("recorded ", show(m), "\nreplayed ", show(q), "\n"); }
  c.describe(cat("images in memory, tolerance: intensity ", par.thr, ", pixels ", npix, ", radius ", par.rad, "\n", d)); c.label("in memory");
  auto body = [&](const std::vector<Img> &v) { return [&](ItkTest &t) { t.SetImageInsightTolerance(par.thr, npix, par.rad); for (size_t i = 0; i < v.size(); ++i) { I::Pointer im = I::New(); I::RegionType g; I::SizeType z; z[0] = v[i].size[0]; z[1] = v[i].size[1]; g.SetSize(z); im->SetRegions(g); im->Allocate(); for (size_t k = 0; k < v[i].px.size(); ++k) im->GetBufferPointer()[k] = (float)v[i].px[k][0]; t.MeasurementInsightImage<I>(im, cat("m", i)); } return 0; }; };
  ItkTest a; a.body = body(rec); Result r = runItk(a, {"prog", "-O", R + "/rec.xml", "x"}); c.require(r.ret == 0 && a.done, "record", [&] { return cat("recording returned ", r.ret, "\n", r.err); });
  ItkTest b; b.body = body(rep); Result q = runItk(b, {"prog", "-I", R + "/rec.xml", "x"}); c.require(b.done && q.ret == want, "memory-count", [&] { return cat("replaying returned ", q.ret, ", should be ", want, "\n", q.err, q.out, pbt::readFile(R + "/rec.xml")); });
}
static void replay(Ctx &c, const std::string &R) { // a recorded image replays from its directory
  Source &s = c.s; ImgFile f = genImage(s); std::string fn = s.pick({std::string("r.mha"), std::string("a b.mha"), std::string("<&>.mha")}); writeImage(f, R + "/t/" + fn); unlink((R + "/b/" + fn).c_str()); std::string file = s.coin() ? "../t/" + fn : R + "/t/" + fn, nm = genName(s);
  c.describe(cat("record and replay ", quote(nm), " from ", file, "\n")); c.label("recorded and replayed"); c.nontrivial();
  auto body = [&](ItkTest &t) { t.MeasurementInsightFileImage(file, nm); return 0; };
  ItkTest a; a.body = body; Result r = runItk(a, {"prog"}); Doc doc = parseXml(r.out); c.require(r.ret == 0 && doc.ok && doc.root.kids.size() == 1, "record", [&] { return r.err + r.out; }); const Elem &e = doc.root.kids[0];
  c.require(e.tag == "DartMeasurementFile" && e.get("name") && *e.get("name") == nm && e.get("type") && *e.get("type") == "image/itk" && e.text == fn, "record-form", [&] { return r.out; });
  pbt::writeFile(R + "/b.xml", r.out); ItkTest b; b.body = body; Result q = runItk(b, {"prog", "-P", R + "/t", "-I", R + "/b.xml"}); c.require(q.ret == 0 && b.done, "replay", [&] { return cat("returned ", q.ret, "\n", q.err, q.out); });
}
// a comparison visitor of one's own: exact until it is told otherwise
static void visitor(Ctx &c, const std::string &R) {
  Source &s = c.s; std::unique_ptr<itk::CompareVisitor> v(new itk::CompareVisitor); Par par; unsigned npix = 0; size_t n = 1 + s.below(3); std::string d; c.label("a visitor of one's own");
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 2)) { if (s.chance(1, 3)) { v->SetImageInsightToleranceOff(); par = Par(); npix = 0; d += "tolerance off\n"; } else { par = genPar(s); par.rad = s.chance(1, 4) ? 0 : par.rad; npix = (unsigned)s.below(4); if (!npix && !par.rad && s.coin()) v->SetImageInsightTolerance(par.thr); else if (!par.rad && s.coin()) v->SetImageInsightTolerance(par.thr, npix); else v->SetImageInsightTolerance(par.thr, npix, par.rad); d += cat("tolerance: intensity ", par.thr, ", pixels ", npix, ", radius ", par.rad, "\n"); } }
    ImgFile b = genImage(s), g = genNearImage(s, b); if (s.chance(1, 10)) (s.coin() ? b : g).bad = 1 + (int)s.below(3); std::string bp = cat(R, "/b/v", i, ".mha"), tp = cat(R, "/t/v", i, ".mha"); writeImage(b, bp); writeImage(g, tp);
    testutil::MeasurementFile m, q; m.SetAttributeType("image/itk"); q.SetAttributeType("image/itk"); m.SetAttributeName("a"); q.SetAttributeName("a"); m.SetFileName(tp); q.SetFileName(bp); v->SetBaselineMeasurement(&q); d += cat("  baseline ", show(b), "\n  test     ", show(g), "\n"); c.describe(d); d.clear();
    if (s.coin()) m.AcceptVisitor(*v); else static_cast<testutil::CompareVisitor &>(*v).Visit(m);
    bool bad = b.bad || g.bad, want = !bad && sameSize(b, g) && sameSpacing(b, g) && sameOrigin(b, g) && differing(b, g, par) <= npix; if (!want || (!bad && differing(b, g, Par()))) c.nontrivial();
    c.require(v->GetResult() == want, "visitor", [&] { return cat("says that image ", i, " is ", want ? "different" : "equal"); });
    if (s.chance(1, 4)) { testutil::DoubleNumeric x, y; x.SetAttributeName("n"); y.SetAttributeName("n"); double k = s.coin() ? 2 : 2.5; x.SetValue(2); y.SetValue(k); v->SetBaselineMeasurement(&y); x.AcceptVisitor(*v); c.require(v->GetResult() == (k == 2), "visitor-number", [&] { return cat("says that 2 and ", k, " are ", v->GetResult() ? "equal" : "different"); }); }
  }
}
static void run(Ctx &c) {
  registerImageIO(); Capture cap; const std::string &R = c.scratch; static std::string done; if (done != R) { for (auto d : {"/b", "/t", "/w", "/p", "/w/itkdata"}) mkdir((R + d).c_str(), 0755); done = R; }
  Chdir cd(R + "/w"); if (!cd.ok) throw pbt::Discard();
  switch (c.s.weighted({16, 2, 2, 3})) { case 0: files(c, R); break; case 1: memory(c, R); break; case 3: visitor(c, R); break; default: replay(c, R); }
}
static const pbt::Property P = {"C22", "runs of 1-4 image file measurements (2- and 3-dimensional images of several pixel types, hand-written, found anywhere in the search path, the configured data directory or the current one, with equal, nearly equal and different size, spacing, origin and pixels, and missing, empty, garbage and directory files) under changing tolerances, mixed with scalar measurements, against a brute-force pixel count; the report is read back; images in memory and recorded files are replayed; comparison visitors used directly, with and without a tolerance; non-trivial: some geometry or pixel differs, or a replay; distinct by the drawn choices",
  run, 20000, 200000, 0, 0, 0, 20, {"pixels are finite", "orientation is not part of the comparison", "images have at most three dimensions"}};
PBT_MAIN(P)
