// C27: the image comparison tool applies each option to the images after it.
#include "images.h"
using namespace model;
extern int itktfImageCompare_main(int argc, char *argv[]);

static Result tool(const std::vector<std::string> &argv) { Args a(argv); Result r; Capture c; r.ret = itktfImageCompare_main(a.n, &a.p[0]); r.out = c.out.str(); r.err = c.err.str(); return r; }
static void run(Ctx &c) {
  registerImageIO(); Source &s = c.s; const std::string &R = c.scratch; static std::string done; if (done != R) { for (auto d : {"/b", "/t", "/w"}) mkdir((R + d).c_str(), 0755); done = R; }
  Chdir cd(R + "/w"); if (!cd.ok) throw pbt::Discard();
  std::vector<std::string> av = {"itktfImageCompare"}, tail; std::vector<Entry> base; std::string d; Par par; unsigned npix = 0; int want = 0, images = 0; bool bad = false, opt = false, decided = false; std::vector<std::string> files; std::vector<bool> ms;
  size_t n = s.chance(1, 30) ? 0 : 1 + (s.chance(1, 30) ? s.below(40) : s.below(9)); ImgFile pb, pt; bool have = false;
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(2, 5)) { // an option
      std::string o, v; int k = (int)s.below(3);
      if (k == 0) { static const char *const t[] = {"1", "0", "0.5", "2", "1.5", "1e1", "5"}; v = s.pick(t); o = "--intensityTolerance"; if (!bad) par.thr = atof(v.c_str()); }
      else if (k == 1) { long x = s.chance(1, 8) ? s.pick({255L, 256L, 257L, 1000L, 32768L, 65535L, 65536L, 65537L, 70000L, 131072L, 1000000L, 2147483647L, 4294967295L}) : s.range(0, 4); v = cat(x); o = "--numberOfPixelTolerance"; if (!bad) npix = (unsigned)x; }
      else { int x = (int)s.range(0, 2); v = cat(x); o = "--radiusTolerance"; if (!bad) par.rad = x; }
      if (s.chance(1, 25)) { bad = true;
        switch (s.below(4)) { case 0: tail.push_back(s.pick({std::string("-x"), std::string("--"), std::string("-"), std::string("--intensitytolerance"), std::string("--intensityToleranc"), std::string("--radiusTolerance2"), std::string("-I")})); break;
          case 1: if (i + 1 == n) { tail.push_back(o); break; } // value missing
            [[fallthrough]];
          default: tail.push_back(o); tail.push_back(k == 0 ? s.pick({std::string(""), std::string("x"), std::string("1x"), std::string("1,5"), std::string("one"), std::string("--radiusTolerance"), std::string("1 2")}) : s.pick({std::string(""), std::string("x"), std::string("1x"), std::string("1.5"), std::string("-1"), std::string("--"), std::string("1 2"), std::string("i0.mha")})); }
      } else { tail.push_back(o); tail.push_back(v); opt = true; }
      continue;
    }
    std::string fn = cat("i", images, ".mha"), file = s.coin() ? "../t/" + fn : R + "/t/" + fn;
    ImgFile b = have && s.coin() ? pb : genImage(s), g = have && s.coin() && s.coin() ? pt : genNearImage(s, b); if (g.m.size != b.m.size && s.coin()) g = genNearImage(s, b); if (s.chance(1, 120)) { size_t k; genBigPair(s, b, g, k); c.label("large image"); } pb = b; pt = g; have = true;
    writeImage(b, R + "/b/" + fn); writeImage(g, R + "/t/" + fn); if (s.chance(1, 40)) { file = ""; g.bad = 1; }
    Entry e; e.file = true; e.type = "image/itk"; e.name = cat("ImageFile", images); e.content = fn; bool match = !b.bad && !g.bad && sameSize(b, g) && sameSpacing(b, g) && sameOrigin(b, g) && differing(b, g, par) <= npix;
    if (!b.bad && !g.bad && sameSize(b, g) && differing(b, g, Par())) decided = decided || opt;
    if (s.chance(1, 30)) { e.name += "0"; match = false; }
    d += cat("  ", fn, " (tolerance ", par.thr, ", ", npix, " pixels, radius ", par.rad, ")\n    baseline ", show(b), "\n    test     ", show(g), "\n");
    ++images; tail.push_back(file); files.push_back(file); base.push_back(e); if (!bad) ms.push_back(match); else ms.push_back(false);
  }
  if (!base.empty() && s.chance(1, 16)) { base.pop_back(); ms.back() = false; c.label("more images than baselines"); }
  for (bool m : ms) want += !m;
  std::string bx = R + "/b.xml"; pbt::writeFile(bx, writeDoc(base)); bool rec = s.chance(1, 10);
  if (!rec) { av.push_back("-I"); av.push_back(bx); av.push_back("-P"); av.push_back(R + "/b"); } else if (!tail.empty() && tail[0] == "-I") { tail[0] = "-x"; }
  if (!rec && !tail.empty() && tail[0] == "-I") tail[0] = "-x";
  av.insert(av.end(), tail.begin(), tail.end()); std::string a; for (auto &x : tail) a += quote(x) + " "; c.describe(cat(rec ? "recording: " : "arguments: ", a, "\n", d));
  Result r = tool(av);
  if (bad) { c.require(r.ret != 0, "bad-option", [&] { return cat("returned 0\n", r.err, r.out); }); c.label("bad option"); c.nontrivial(); return; }
  if (rec) { c.require(r.ret == 0, "record", [&] { return cat("recording returned ", r.ret, "\n", r.err); }); Doc doc = parseXml(r.out); c.require(doc.ok && doc.root.kids.size() == files.size(), "record-document", [&] { return r.out; });
    for (size_t i = 0; i < files.size(); ++i) { const Elem &e = doc.root.kids[i]; std::string t = files[i].substr(files[i].rfind('/') + 1); c.require(e.tag == "DartMeasurementFile" && e.get("name") && *e.get("name") == cat("ImageFile", i) && e.get("type") && *e.get("type") == "image/itk" && e.text == t, "record-entry", [&] { return r.out; }); }
    if (files.size() > 1) c.nontrivial(); c.label("recording"); return; }
  c.require(r.ret == want, "count", [&] { return cat("returned ", r.ret, ", should be ", want, "\n", r.err, r.out); });
  if (decided) c.nontrivial(); c.label(want ? "disagreements" : "all match"); if (decided) c.label("differing pixels under an option");
}
static const pbt::Property P = {"C27", "command lines of the tool with up to 9 images and tolerance options in any order, unknown options and unusable values, against baselines of equal, nearly equal, different and unreadable images, judged image by image under the options before it; also recording; non-trivial: an image with differing pixels after an option, an option error, or a recording of several images; distinct by the drawn choices",
  run, 15000, 160000, 0, 0, 0, 20, {"no option values with signs, spaces around them or beyond the type's range", "fewer than 256 images"}};
PBT_MAIN(P)
