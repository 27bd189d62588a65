// C21: the difference filter's statistics and output against a brute force.
#include "images.h"
#include <complex>
#include "itkVectorImage.h"
#include "itkNumericTraitsVectorPixel.h"
#include "itkNumericTraitsVariableLengthVectorPixel.h"
using namespace model;

// ---- pixel types
template <class T> struct PT { enum { N = 1 }; static T make(const std::vector<double> &v) { return (T)v[0]; } static double get(const T &p, int) { return (double)p; } };
template <class T, unsigned D> struct PT<itk::Vector<T, D> > { enum { N = D }; static itk::Vector<T, D> make(const std::vector<double> &v) { itk::Vector<T, D> r; for (unsigned i = 0; i < D; ++i) r[i] = (T)v[i]; return r; } static double get(const itk::Vector<T, D> &p, int i) { return p[i]; } };
template <class T> struct PT<std::complex<T> > { enum { N = 2 }; static std::complex<T> make(const std::vector<double> &v) { return std::complex<T>((T)v[0], (T)v[1]); } static double get(const std::complex<T> &p, int i) { return i ? p.imag() : p.real(); } };

// variable length vectors are stored as a flat buffer
template <class I> struct Acc { enum { N = PT<typename I::PixelType>::N }; static void prepare(I *) {} static void put(I *i, size_t k, const std::vector<double> &v) { i->GetBufferPointer()[k] = PT<typename I::PixelType>::make(v); }
  static std::vector<double> get(const I *i, size_t k) { std::vector<double> g; for (int j = 0; j < N; ++j) g.push_back(PT<typename I::PixelType>::get(i->GetBufferPointer()[k], j)); return g; } };
template <class T, unsigned D> struct Acc<itk::VectorImage<T, D> > { typedef itk::VectorImage<T, D> I; enum { N = 3 }; static void prepare(I *i) { i->SetNumberOfComponentsPerPixel(3); } static void put(I *i, size_t k, const std::vector<double> &v) { for (int j = 0; j < N; ++j) i->GetBufferPointer()[k * N + j] = (T)v[j]; }
  static std::vector<double> get(const I *i, size_t k) { std::vector<double> g; for (int j = 0; j < N; ++j) g.push_back(i->GetBufferPointer()[k * N + j]); return g; } };

template <class I> static typename I::Pointer image(const Img &m, const std::vector<long> &start) {
  typename I::Pointer r = I::New(); typename I::RegionType g; typename I::IndexType ix; typename I::SizeType sz;
  for (unsigned d = 0; d < I::ImageDimension; ++d) { ix[d] = start[d]; sz[d] = m.size[d]; }
  g.SetIndex(ix); g.SetSize(sz); r->SetRegions(g); Acc<I>::prepare(r); r->Allocate();
  for (size_t k = 0; k < m.px.size(); ++k) Acc<I>::put(r, k, m.px[k]);
  return r;
}
template <class In, class Out> static void filter(Ctx &c, Img valid, Img test, const std::vector<long> &start) {
  Source &s = c.s; const int N = Acc<In>::N;
  typedef itk::tf::DifferenceImageFilter<In, Out> F;
  typename In::Pointer v = image<In>(valid, start), t = image<In>(test, start);
  if (s.chance(1, 4)) { typename In::PointType o; o.Fill(3.5); t->SetOrigin(o); typename In::SpacingType sp; sp.Fill(2); t->SetSpacing(sp); c.label("other geometry"); }
  typename F::Pointer f = F::New(); f->SetValidInput(v); f->SetTestInput(t);
  size_t rounds = 1 + s.below(3);
  for (size_t r = 0; r < rounds; ++r) {
    Par a; static const double th[] = {0, 1, 0.5, 2, 0.25, 3.5, 5, 16, 100}; a.thr = s.pick(th); a.rad = (unsigned)s.weighted({4, 4, 2, 1}); a.ign = s.chance(1, 3); a.units = s.coin() ? 1 : (unsigned)s.range(2, 24);
    if (r && s.chance(1, 3)) { // a changed image
      size_t k = s.below(test.px.size()); test.px[k][0] += 1; Acc<In>::put(t, k, test.px[k]); test.px[k] = Acc<In>::get(t, k); t->Modified(); c.label("image changed between updates"); }
    c.describe(cat("  ", show(a), "\n"));
    bool fresh = !r && s.chance(1, 4); // a new filter is set to zeros
    if (!fresh || a.thr) f->SetMagnitudeThreshold(a.thr); if (!fresh || a.rad) f->SetToleranceRadius(a.rad); if (!fresh || a.ign) f->SetIgnoreBoundaryPixels(a.ign); f->SetNumberOfWorkUnits(a.units); if (fresh && !a.thr) c.label("parameters left as they are");
    try { f->UpdateLargestPossibleRegion(); } catch (const itk::ExceptionObject &e) { c.check(false, "exception", e.GetDescription()); }
    Ref w = brute(valid, test, a);
    c.require(f->GetNumberOfPixelsWithDifferences() == w.n, "count", [&] { return cat("counts ", f->GetNumberOfPixelsWithDifferences(), " differing pixels, should be ", w.n); });
    double tot = f->GetTotalMagnitude(), mean = f->GetMeanMagnitude(); L wm = w.total / (L)valid.px.size();
    c.require(std::fabs(tot - (double)w.total) <= 1e-9 * (double)w.total, "total", [&] { return cat("sum of differences ", tot, ", should be ", (double)w.total); });
    c.require(std::fabs(mean - (double)wm) <= 1e-9 * (double)wm, "mean", [&] { return cat("mean difference ", mean, ", should be ", (double)wm); });
    const Out *o = f->GetOutput();
    c.require(o->GetBufferedRegion() == v->GetLargestPossibleRegion(), "output-region", [&] { return std::string("the difference image has another region"); });
    for (size_t k = 0; k < w.p.size(); ++k) {
      const Pix &x = w.p[k]; bool ok = false; std::vector<double> g = Acc<Out>::get(o, k);
      if (!x.differs) { ok = true; for (double e : g) ok = ok && e == 0; }
      else for (auto &q : x.cand) { bool e = true; for (int i = 0; i < N; ++i) e = e && q[i] == g[i]; ok = ok || e; }
      c.require(ok, "output", [&] { std::string p, gs; for (long e : posOf(k, valid.size)) p += cat(e, " "); for (double e : g) gs += cat(e, " "); return cat("difference image at ", p, "is ", gs, ", should be ", x.differs ? "a difference of magnitude " : "zero", x.differs ? cat(std::sqrt(x.m2)) : std::string()); });
    }
    if (w.n && (a.rad || a.thr > 0)) c.nontrivial();
    c.label(w.n ? "differing pixels" : "no differing pixel"); if (a.units > 1) c.label("several work units"); if (a.ign) c.label("boundary ignored"); c.label(cat("radius ", a.rad));
  }
}
// ---- the comparison of two images in memory
template <class I> static void compare(Ctx &c, const Img &valid, const Img &test, const std::vector<long> &start) {
  Source &s = c.s; const unsigned D = I::ImageDimension; typename I::Pointer v = image<I>(valid, start), t = image<I>(test, start);
  typename I::ConstPointer cv = v.GetPointer(), ct = t.GetPointer();
  Par a; static const double th[] = {0, 1, 0.5, 2, 0.25, 3.5, 5}; a.thr = s.pick(th); a.rad = (unsigned)s.weighted({4, 3, 1}); unsigned npix = (unsigned)s.size(20); int mode = (int)s.below(6);
  c.describe(cat("  compared with ", show(a), " tolerated pixels ", npix, mode == 1 ? " in a region" : mode == 2 ? " in a region, no tolerance" : mode == 3 ? " with another size" : mode == 4 ? " in a region, the test image of another size" : mode == 5 ? " as files" : "", "\n"));
  unsigned long got, want; typename I::RegionType reg; std::string rd;
  if (mode == 3) { Img o = test; unsigned d = (unsigned)s.below(D); bool same = false; if (D > 1 && s.coin()) { unsigned e = (d + 1) % D; if (o.size[d] != o.size[e]) { std::swap(o.size[d], o.size[e]); same = true; } else if (o.size[d] % 2 == 0) { o.size[d] /= 2; o.size[e] *= 2; same = true; } if (same) c.label("different size, as many pixels"); } if (!same) o.size[d] += 1; if (!same) o.px.resize(o.px.size() / test.size[d] * o.size[d], o.px[0]); typename I::Pointer u = image<I>(o, start); typename I::ConstPointer cu = u.GetPointer();
    bool swap = s.coin(); got = itk::Regression::CompareImage<I>(swap ? cv : cu, swap ? cu : cv, a.thr, npix, a.rad); want = 1; c.require(got > 0, "size", [&] { return std::string("images of different size compare equal"); }); c.label("different size"); return; }
  Ref w;
  if (mode == 5) { // the call that takes file names
    ImgFile fa, fb; fa.m = valid; fb.m = test; fa.spacing = fb.spacing = std::vector<double>(D, 1); fa.origin = fb.origin = std::vector<double>(D, 0); std::string dir = c.scratch + "/", p = dir + "a.mha", q = dir + "b.mha"; bool bad = s.chance(1, 8), first = s.coin();
    registerImageIO(); writeImage(fa, p); writeImage(fb, q); if (bad) { (first ? fa : fb).bad = 1 + (int)s.below(4); writeImage(first ? fa : fb, first ? p : q); c.describe(cat("  ", first ? "baseline " : "test ", show(first ? fa : fb), "\n")); c.label("unreadable file"); }
    bool thrown = false; got = 0; try { got = itk::Regression::CompareImage<I>(fileutil::PathName(q), fileutil::PathName(p), a.thr, npix, a.rad); } catch (const std::exception &e) { thrown = true; if (!bad) c.check(false, "exception", e.what()); }
    c.label("compared as files"); if (bad) { c.require(thrown || got, "unreadable", [] { return std::string("an unreadable file compares equal"); }); return; }
    w = brute(valid, test, a); want = w.n;
  } else if (mode == 0) { got = itk::Regression::CompareImage<I>(ct, cv, a.thr, npix, a.rad); w = brute(valid, test, a); want = w.n; }
  else {
    typename I::IndexType ix; typename I::SizeType sz; std::vector<long> lo, n; for (unsigned d = 0; d < D; ++d) { lo.push_back((long)s.below(valid.size[d])); n.push_back(1 + (long)s.below(valid.size[d] - lo[d])); ix[d] = start[d] + lo[d]; sz[d] = n[d]; rd += cat(" ", lo[d], "+", n[d]); }
    reg.SetIndex(ix); reg.SetSize(sz); if (reg == typename I::RegionType()) throw pbt::Discard();
    Img u = test; if (mode == 4) { // another size, so the region may reach out of it
      size_t m = 1; for (unsigned d = 0; d < D; ++d) { u.size[d] = s.chance(1, 4) ? 1 + (long)s.below(valid.size[d] + 3) : valid.size[d] + (s.coin() ? (long)s.below(3) : 0); m *= u.size[d]; if (s.chance(1, 12)) { sz[d] = n[d] += (long)s.below(4); } rd += cat(" of ", u.size[d]); } reg.SetSize(sz);
      u.px.clear(); for (size_t k = 0; k < m; ++k) { std::vector<long> p = posOf(k, u.size); bool in = true; for (unsigned d = 0; d < D; ++d) in = in && p[d] < test.size[d]; u.px.push_back(in ? test.px[at(p, test.size)] : test.px[k % test.px.size()]); }
      t = image<I>(u, start); ct = t.GetPointer(); bool in = true; for (unsigned d = 0; d < D; ++d) in = in && lo[d] + n[d] <= u.size[d] && lo[d] + n[d] <= valid.size[d];
      c.label(in ? "region, other size" : "region out of an image"); if (!in) { c.describe(cat("  region", rd, "\n")); bool thrown = false; got = 0; try { got = itk::Regression::CompareImage<I>(ct, cv, a.thr, 0, a.rad, reg); } catch (const std::exception &) { thrown = true; } c.require(thrown || got, "outside", [] { return std::string("images compare equal in a region that is not in both"); }); return; } }
    if (mode == 2) { a = Par(); npix = 0; }
    w = brute(valid, u, a); want = 0; for (size_t k = 0; k < w.p.size(); ++k) { std::vector<long> p = posOf(k, valid.size); bool in = true; for (unsigned d = 0; d < D; ++d) in = in && p[d] >= lo[d] && p[d] < lo[d] + n[d]; want += in && w.p[k].differs; }
    c.describe(cat("  region", rd, "\n")); got = mode == 2 ? itk::Regression::CompareImage<I>(ct, cv, reg) : itk::Regression::CompareImage<I>(ct, cv, a.thr, npix, a.rad, reg); c.label("region");
  }
  unsigned long cnt = want; want = cnt > npix ? cnt - npix : 0;
  c.require(got == want, "compare", [&] { return cat("comparing returns ", got, ", should be ", want, " (", cnt, " differing pixels)"); });
  if (cnt) c.nontrivial(); c.label(want ? "compare: different" : cnt ? "compare: tolerated" : "compare: equal");
}
template <unsigned D> static void dim(Ctx &c) {
  Source &s = c.s; Img a, b; std::vector<long> start; size_t n = 1; long cap = D == 1 ? 40 : D == 2 ? 12 : 6;
  for (unsigned d = 0; d < D; ++d) { long k = 1 + (long)s.below(cap); a.size.push_back(k); n *= k; start.push_back(s.chance(1, 4) ? s.range(-5, 5) : 0); }
  b.size = a.size; static const std::vector<int> types[] = {{0, 3, 5}, {0, 1, 2, 7}, {0, 4, 6, 8}}; int ty = s.pick(types[D - 1]); int comp = ty == 5 ? 2 : ty == 6 || ty == 8 ? 3 : ty == 7 ? 2 : 1;
  bool integral = ty == 2 || ty == 3 || ty == 4; long lo = ty == 2 ? 0 : -20, hi = 20; unsigned style = (unsigned)s.below(4);
  auto val = [&] { double x = (double)s.range(lo, hi); if (!integral && s.chance(1, 3)) x += s.pick({0.25, 0.5, -0.75}); if (s.chance(1, 40)) x = ty == 2 ? 255 : ty == 3 ? (s.coin() ? 32767 : -32768) : 4000; return x; };
  auto pix = [&] { std::vector<double> p; for (int i = 0; i < comp; ++i) p.push_back(val()); return p; };
  std::vector<std::vector<double> > pool; for (int i = 0; i < 4; ++i) pool.push_back(pix());
  for (size_t k = 0; k < n; ++k) a.px.push_back(style == 0 ? s.pick(pool) : pix());
  b = a;
  if (style == 1) for (auto &p : b.px) p = pix();
  else if (style == 2) { b.px = a.px; for (size_t k = 0; k + 1 < n; ++k) b.px[k] = a.px[k + 1]; } // shifted along x
  else { size_t m = s.size(n); for (size_t i = 0; i < m; ++i) { auto &p = b.px[s.below(n)]; if (s.coin()) p = s.pick(pool); else { double x = p[0] + (s.coin() ? 1 : -1) * s.pick({1.0, 2.0, 3.0}); if (ty != 2 || (x >= 0 && x <= 255)) { if (ty != 3 || std::fabs(x) <= 32767) p[0] = x; } } } }
  static const char *const tn[] = {"double", "float", "unsigned char to double", "short to float", "int", "vector of 2 float", "vector of 3 double", "complex double", "variable length vector"};
  std::string sz; for (long k : a.size) sz += cat(k, " "); c.describe(cat("size ", sz, tn[ty], "\nbaseline ", show(a), "\ntest     ", show(b), "\n")); c.label(cat(D, "-dimensional")); c.label(tn[ty]);
  using namespace itk;
  if (ty == 0 && s.chance(1, 3)) { compare<Image<double, D> >(c, a, b, start); return; }
  if (ty == 0) { filter<Image<double, D>, Image<double, D> >(c, a, b, start); return; }
  if constexpr (D == 1) {
    if (ty == 3) filter<Image<short, D>, Image<float, D> >(c, a, b, start);
    else filter<Image<Vector<float, 2>, D>, Image<Vector<float, 2>, D> >(c, a, b, start);
  } else if constexpr (D == 2) {
    if (ty == 1) filter<Image<float, D>, Image<float, D> >(c, a, b, start);
    else if (ty == 2) filter<Image<unsigned char, D>, Image<double, D> >(c, a, b, start);
    else filter<Image<std::complex<double>, D>, Image<std::complex<double>, D> >(c, a, b, start);
  } else {
    if (ty == 4) filter<Image<int, D>, Image<int, D> >(c, a, b, start);
    else if (ty == 6) filter<Image<Vector<double, 3>, D>, Image<Vector<double, 3>, D> >(c, a, b, start);
    else filter<VectorImage<double, D>, VectorImage<double, D> >(c, a, b, start);
  }
}
// large enough that the threads really run at the same time
static void large(Ctx &c) {
  Source &s = c.s; Img a, b; long w = s.range(100, 400), h = s.range(50, 200), m = s.range(2, 9), off = s.range(0, 3); a.size = {w, h};
  for (long k = 0; k < w * h; ++k) { a.px.push_back({(double)(k * 7 % m)}); b.px.push_back({(double)(k * 5 % m + off)}); }
  b.size = a.size; size_t exact = 0; if (s.chance(1, 4)) { ImgFile x, y; genBigPair(s, x, y, exact); a = x.m; b = y.m; w = a.size[0]; h = a.size[1]; }
  if (exact) c.describe(cat("size ", w, " ", h, " double, ", exact, " pixels one higher\n")); else c.describe(cat("size ", w, " ", h, " double, pixel k is 7k mod ", m, " and 5k mod ", m, " plus ", off, "\n")); c.label("large"); Par p; p.units = (unsigned)s.range(2, 24);
  typedef itk::Image<double, 2> I; typedef itk::tf::DifferenceImageFilter<I, I> F; typename I::Pointer v = image<I>(a, {0, 0}), t = image<I>(b, {0, 0}); F::Pointer f = F::New(); f->SetValidInput(v); f->SetTestInput(t); f->SetNumberOfWorkUnits(p.units);
  c.describe(cat("  ", show(p), "\n")); f->Update(); Ref r = brute(a, b, p); if (r.n) c.nontrivial();
  c.require(f->GetNumberOfPixelsWithDifferences() == r.n, "count", [&] { return cat("counts ", f->GetNumberOfPixelsWithDifferences(), " differing pixels, should be ", r.n); });
  c.require(std::fabs(f->GetTotalMagnitude() - (double)r.total) <= 1e-9 * (double)r.total, "total", [&] { return cat("sum of differences ", f->GetTotalMagnitude(), ", should be ", (double)r.total); });
  I::ConstPointer cv = v.GetPointer(), ct = t.GetPointer(); unsigned npix = (unsigned)(s.coin() || !r.n ? 0 : s.coin() ? r.n - 1 : s.below(r.n + 2)); unsigned long got = itk::Regression::CompareImage<I>(ct, cv, 0, npix, 0), want = r.n > npix ? r.n - npix : 0;
  c.require(got == want, "compare", [&] { return cat("comparing with ", npix, " tolerated pixels returns ", got, ", should be ", want, " (", r.n, " differing pixels)"); });
}
static void run(Ctx &c) { Capture cap; if (c.s.chance(1, 200)) { large(c); return; } switch (c.s.below(3)) { case 0: dim<2>(c); break; case 1: dim<1>(c); break; default: dim<3>(c); } }
static const pbt::Property P = {"C21", "pairs of 1- to 3-dimensional images of equal size (scalar, vector and complex pixels, independent, shifted or locally changed), any start index and physical location, thresholds, radii 0 to 3, boundary ignored or not, 1 to 24 work units, with the parameters or an image changed between updates of one filter; count, sum, mean and difference image against a brute-force search, and comparison calls with tolerated pixels, regions (also of images of different size, and out of one of them) and file names; non-trivial: differing pixels at a radius or threshold above 0; distinct by the drawn choices",
  run, 60000, 500000, 0, 0, 0, 20, {"pixels are finite and exactly representable", "differences fit in the output pixel type", "the mean is over all pixels of the image"}};
PBT_MAIN(P)
