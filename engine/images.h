// Images as plain numbers, the brute-force difference of two, and image files.
#ifndef VERIF_IMAGES_H
#define VERIF_IMAGES_H
#include "itkmodel.h"
#include "itkMetaImageIOFactory.h"
#include "itkPNGImageIOFactory.h"

namespace model {
typedef long double L;
// the pixels of both images as lists of components, x fastest
struct Img { std::vector<long> size; std::vector<std::vector<double> > px; };
struct Par { double thr = 0; unsigned rad = 0; bool ign = false; unsigned units = 1; };
struct Pix { double m2 = 0; bool differs = false; bool skip = false; std::vector<std::vector<double> > cand; };
struct Ref { unsigned long n = 0; L total = 0; std::vector<Pix> p; bool close = false; };

static inline std::vector<long> posOf(size_t k, const std::vector<long> &size) { std::vector<long> p; for (long n : size) { p.push_back((long)(k % n)); k /= n; } return p; }
static inline size_t at(const std::vector<long> &p, const std::vector<long> &size) { size_t k = 0; for (size_t d = size.size(); d-- > 0;) k = k * size[d] + p[d]; return k; }

static inline Ref brute(const Img &valid, const Img &test, const Par &a) {
  Ref r; size_t n = valid.px.size(), D = valid.size.size(); long R = a.rad; double thr2 = a.thr * a.thr;
  r.p.resize(n); long p[8], o[8];
  for (size_t k = 0; k < n; ++k) {
    { size_t j = k; for (size_t d = 0; d < D; ++d) { p[d] = (long)(j % valid.size[d]); j /= valid.size[d]; o[d] = -R; } } Pix &x = r.p[k]; bool first = true;
    for (size_t d = 0; d < D; ++d) if (a.ign && (p[d] < R || p[d] + R >= valid.size[d])) x.skip = true;
    if (!x.skip) {
      const std::vector<double> &v = valid.px[k]; std::vector<size_t> best;
      while (true) {
        size_t q = 0; for (size_t d = D; d-- > 0;) { long e = p[d] + o[d]; if (e < 0) e = 0; if (e >= test.size[d]) e = test.size[d] - 1; q = q * test.size[d] + e; }
        const std::vector<double> &t = test.px[q]; double m = 0; for (size_t i = 0; i < t.size(); ++i) { double df = v[i] - t[i]; m += df * df; }
        if (first || m < x.m2) { x.m2 = m; best.clear(); first = false; }
        if (m == x.m2 && m > thr2) best.push_back(q);
        size_t d = 0; while (d < D && ++o[d] > R) o[d++] = -R;
        if (d == D) break;
      }
      for (size_t q : best) { std::vector<double> df; for (size_t i = 0; i < v.size(); ++i) df.push_back(v[i] - test.px[q][i]); x.cand.push_back(df); }
      x.differs = x.m2 > thr2;
      if (x.differs) { ++r.n; r.total += std::sqrt((L)x.m2); }
    }
  }
  return r;
}
static inline std::string show(const Img &m) { std::string o; for (auto &p : m.px) { if (p.size() > 1) o += "("; for (size_t i = 0; i < p.size(); ++i) o += cat(i ? "," : "", p[i]); o += p.size() > 1 ? ") " : " "; if (o.size() > 1500) { o += "..."; break; } } return o; }
static inline std::string show(const Par &a) { return cat("threshold ", a.thr, " radius ", a.rad, a.ign ? " boundary ignored" : "", " work units ", a.units); }


// ---- files, written here and not by the toolkit
struct ImgFile {
  Img m; std::vector<double> spacing, origin; int type = 0; // MET_ type
  int bad = 0;                                              // 0 readable, 1 missing, 2 empty, 3 garbage, 4 directory
};
static const char *const MET[] = {"MET_DOUBLE", "MET_FLOAT", "MET_SHORT", "MET_UCHAR"};
template <class T> static inline void putRaw(std::string &o, double v) { T t = (T)v; o.append((const char *)&t, sizeof t); }
static inline std::string mha(const ImgFile &f) {
  std::string o = cat("ObjectType = Image\nNDims = ", f.m.size.size(), "\nBinaryData = True\nBinaryDataByteOrderMSB = False\nCompressedData = False\n");
  auto list = [&](const char *k, const std::vector<double> &v) { o += cat(k, " ="); for (double d : v) { char b[40]; snprintf(b, sizeof b, " %.17g", d); o += b; } o += "\n"; };
  list("Offset", f.origin); list("ElementSpacing", f.spacing); o += "DimSize ="; for (long n : f.m.size) o += cat(" ", n);
  o += cat("\nElementType = ", MET[f.type], "\nElementDataFile = LOCAL\n");
  for (auto &p : f.m.px) switch (f.type) { case 0: putRaw<double>(o, p[0]); break; case 1: putRaw<float>(o, p[0]); break; case 2: putRaw<short>(o, p[0]); break; default: putRaw<unsigned char>(o, p[0]); }
  return o;
}
static inline void writeImage(const ImgFile &f, const std::string &path) {
  rmdir(path.c_str());
  switch (f.bad) { case 0: pbt::writeFile(path, mha(f)); break; case 1: unlink(path.c_str()); break; case 2: pbt::writeFile(path, ""); break; case 3: pbt::writeFile(path, "this is no image\n"); break; default: unlink(path.c_str()); mkdir(path.c_str(), 0755); }
}
static inline std::string show(const ImgFile &f) {
  static const char *bad[] = {"", "missing", "an empty file", "a text file", "a directory"}; if (f.bad) return bad[f.bad];
  std::string o = MET[f.type]; o += " size"; for (long n : f.m.size) o += cat(" ", n); o += " spacing"; for (double d : f.spacing) o += cat(" ", d); o += " origin"; for (double d : f.origin) o += cat(" ", d); return o + " pixels " + show(f.m); }
static inline std::vector<double> pad(std::vector<double> v, double x) { while (v.size() < 3) v.push_back(x); return v; }
static inline std::vector<long> pad(std::vector<long> v) { while (v.size() < 3) v.push_back(1); return v; }
// do the geometries agree, seen as three-dimensional images
static inline bool sameSize(const ImgFile &a, const ImgFile &b) { return pad(a.m.size) == pad(b.m.size); }
static inline bool sameSpacing(const ImgFile &a, const ImgFile &b) { return pad(a.spacing, 1) == pad(b.spacing, 1); }
static inline bool sameOrigin(const ImgFile &a, const ImgFile &b) { return pad(a.origin, 0) == pad(b.origin, 0); }
static inline unsigned long differing(const ImgFile &base, const ImgFile &test, const Par &p) { Img a = base.m, b = test.m; a.size = pad(a.size); b.size = pad(b.size); return brute(a, b, p).n; }
static inline ImgFile genImage(Source &s) {
  ImgFile f; size_t D = 1 + s.weighted({0, 3, 2, 1}); if (D > 3) D = 1; if (D < 2) D = 2; long cap = D == 2 ? 6 : 4; size_t n = 1;
  for (size_t d = 0; d < D; ++d) { f.m.size.push_back(1 + (long)s.below(cap)); n *= f.m.size.back(); f.spacing.push_back(s.chance(1, 3) ? s.pick({0.5, 2.0, 1.25, 0.1, 0.352778, 1e-7, 2.5e-4, 1e6}) : 1); f.origin.push_back(s.chance(1, 3) ? s.pick({0.5, -3.0, 10.25, 0.1, 1e-8, 123456.75}) : 0); }
  if (D == 3 && s.chance(1, 3)) { n /= f.m.size[2]; f.m.size[2] = 1; }
  f.type = (int)s.below(4); for (size_t k = 0; k < n; ++k) f.m.px.push_back({(double)s.range(0, 12)}); return f;
}
// an image that agrees, or nearly
static inline ImgFile genNearImage(Source &s, const ImgFile &f) {
  ImgFile g = f; size_t n = f.m.px.size();
  switch (s.below(12)) {
    case 0: break;
    case 10: { std::vector<double> &v = s.coin() ? g.spacing : g.origin; if (s.coin()) std::swap(v[0], v[1]); else { double e = s.pick({0.25, 0.5}); v[0] += e; v[1] -= v[1] > e || &v == &g.origin ? e : 0; } break; }
    case 11: { if (s.coin()) std::swap(g.m.size[0], g.m.size[1]); else { double &o = g.origin[s.below(g.origin.size())]; o = s.coin() ? -o : o + s.pick({1e-5, -1e-4}); } break; }
    case 1: { static const double e[] = {0.25, 1, -0.5}; double &o = g.origin[s.below(g.origin.size())]; if (s.chance(1, 3)) o += s.pick({1e-7, -1e-7, 3e-9, 1e-6}); else if (s.chance(1, 4)) o = o * (1 + s.pick({1e-7, -1e-9, 1e-12})); else o += s.pick(e); break; }
    case 2: { static const double e[] = {0.25, 1, 0.001}; double &o = g.spacing[s.below(g.spacing.size())]; if (s.chance(1, 3)) o *= s.pick({2.0, 1.5, 1 + 1e-7, 1 - 1e-9, 1 + 1e-12}); else o += s.pick(e); break; }
    case 3: { size_t d = s.below(g.m.size.size()); g.m.size[d] += 1; size_t t = 1; for (long l : g.m.size) t *= l; g.m.px.resize(t, {3.0}); break; }
    case 4: g.type = (int)s.below(4); break;
    case 5: g.bad = 1 + (int)s.below(4); break;
    case 6: { if (g.m.size.size() == 2) { g.m.size.push_back(1); g.spacing.push_back(s.coin() ? 1 : 2); g.origin.push_back(s.coin() ? 0 : 1); } break; }
    default: { size_t m = 1 + s.below(5); for (size_t i = 0; i < m; ++i) { double &p = g.m.px[s.below(n)][0]; p += s.pick({1.0, 2.0, -1.0, 5.0}); if (p < 0) p = 0; } }
  }
  return g;
}
// a large pair of which a chosen number of pixels differ by one
static inline void genBigPair(Source &s, ImgFile &b, ImgFile &g, size_t &n) {
  static const size_t few[] = {127, 128, 255, 256, 257, 511, 512, 513, 768, 1000, 1024, 2048, 4096, 32767, 32768}, many[] = {65535, 65536, 65537, 70000, 131072};
  n = s.chance(1, 4) ? s.pick(many) : s.pick(few); long w = n < 3000 ? 60 + (long)s.below(30) : 300 + (long)s.below(90), h = (long)n / w + 1 + (long)s.below(4); b = ImgFile(); b.m.size = {w, h}; b.spacing = {1, 1}; b.origin = {0, 0}; b.type = (int)s.below(4); size_t off = s.below((size_t)(w * h) - n + 1);
  for (long k = 0; k < w * h; ++k) b.m.px.push_back({(double)(k % 3)}); g = b; for (size_t k = off; k < off + n; ++k) g.m.px[k][0] += 1;
}
static inline Par genPar(Source &s) { Par p; if (s.chance(1, 4)) return p; p.thr = s.pick({0.0, 1.0, 0.5, 2.0, 1.5}); p.rad = (unsigned)s.weighted({3, 2, 1}); return p; }
static inline void registerImageIO() { static bool done = false; if (!done) { done = true; itk::MetaImageIOFactory::RegisterOneFactory(); itk::PNGImageIOFactory::RegisterOneFactory(); itk::Object::GlobalWarningDisplayOff(); } }
} // namespace model
#endif
