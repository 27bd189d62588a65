// C36: measuring an image in memory records it in a file of its own that holds it.
#include "images.h"
#include "itkImageFileReader.h"
#include "itkRGBPixel.h"
#include "itkVector.h"
#include <set>
using namespace model;

namespace {
struct Mem { int ty = 0; std::string name; std::vector<long> size, start; std::vector<double> sp, org, dir, px; int comp() const { return ty == 4 ? 3 : ty == 5 ? 2 : 1; } };
static const char *const TN[] = {"unsigned char", "short", "float", "double", "RGB", "vector of 2 float"};
template <class P> struct Px { typedef P V; enum { N = 1 }; static V &at(P *b, size_t i) { return b[i]; } };
template <> struct Px<itk::RGBPixel<unsigned char> > { typedef unsigned char V; enum { N = 3 }; static V &at(itk::RGBPixel<unsigned char> *b, size_t i) { return b[i / 3][i % 3]; } };
template <> struct Px<itk::Vector<float, 2> > { typedef float V; enum { N = 2 }; static V &at(itk::Vector<float, 2> *b, size_t i) { return b[i / 2][i % 2]; } };
}
template <class I> static typename I::Pointer build(const Mem &m) {
  typedef typename I::PixelType P; const unsigned D = I::ImageDimension; typename I::Pointer r = I::New(); typename I::RegionType g; typename I::SpacingType sp; typename I::PointType o; typename I::DirectionType d;
  for (unsigned i = 0; i < D; ++i) { g.SetIndex(i, m.start[i]); g.SetSize(i, m.size[i]); sp[i] = m.sp[i]; o[i] = m.org[i]; for (unsigned j = 0; j < D; ++j) d[i][j] = m.dir[i * D + j]; }
  r->SetRegions(g); r->SetSpacing(sp); r->SetOrigin(o); r->SetDirection(d); r->Allocate(); for (size_t k = 0; k < m.px.size(); ++k) Px<P>::at(r->GetBufferPointer(), k) = (typename Px<P>::V)m.px[k]; return r; }
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
// what of the image differs; shift: the file places the first pixel at the origin
template <class I> static std::string differs(const I *r, const Mem &m, bool file) {
  typedef typename I::PixelType P; const unsigned D = I::ImageDimension; typename I::RegionType g = r->GetLargestPossibleRegion();
  for (unsigned i = 0; i < D; ++i) { double o = m.org[i]; if (file) for (unsigned j = 0; j < D; ++j) o += m.dir[i * D + j] * m.sp[j] * m.start[j];
    if ((long)g.GetSize(i) != m.size[i]) return cat("size ", g.GetSize(i), " in direction ", i); if (!close(r->GetSpacing()[i], m.sp[i])) return cat("spacing ", r->GetSpacing()[i]); if (!close(r->GetOrigin()[i], o)) return cat("origin ", r->GetOrigin()[i], " not ", o);
    if (!file && g.GetIndex(i) != m.start[i]) return cat("index ", g.GetIndex(i)); for (unsigned j = 0; j < D; ++j) if (!close(r->GetDirection()[i][j], m.dir[i * D + j])) return cat("direction ", r->GetDirection()[i][j]); }
  for (size_t k = 0; k < m.px.size(); ++k) { double v = (double)Px<P>::at(const_cast<I *>(r)->GetBufferPointer(), k); if (v != m.px[k]) return cat("value ", k, " is ", v, ", not ", m.px[k]); }
  return ""; }
template <class I> static std::string fileDiffers(const std::string &f, const Mem &m) { typedef itk::ImageFileReader<I> R; typename R::Pointer r = R::New(); r->SetFileName(f); try { r->Update(); } catch (itk::ExceptionObject &e) { return std::string("unreadable: ") + e.GetDescription(); } 
  if ((int)r->GetImageIO()->GetNumberOfComponents() != Px<typename I::PixelType>::N || r->GetImageIO()->GetNumberOfDimensions() != I::ImageDimension) return "other pixels or dimension"; if (r->GetImageIO()->GetComponentType() != itk::ImageIOBase::MapPixelType<typename Px<typename I::PixelType>::V>::CType) return "other pixel type"; return differs<I>(r->GetOutput(), m, true); }
struct Held { Mem m; std::function<int(ItkTest &)> measure; std::function<std::string()> memory; std::function<std::string(const std::string &)> file; };
template <class I> static Held hold(const Mem &m) { typename I::Pointer p = build<I>(m); Held h; h.m = m; h.measure = [p, m](ItkTest &t) { return t.MeasurementInsightImage<I>(p, m.name); }; h.memory = [p, m] { return differs<I>(p.GetPointer(), m, false); }; h.file = [m](const std::string &f) { return fileDiffers<I>(f, m); }; return h; }
template <unsigned D> static Held holdD(const Mem &m) { using itk::Image; switch (m.ty) { case 0: return hold<Image<unsigned char, D> >(m); case 1: return hold<Image<short, D> >(m); case 2: return hold<Image<float, D> >(m); case 3: return hold<Image<double, D> >(m); case 4: return hold<Image<itk::RGBPixel<unsigned char>, D> >(m); default: return hold<Image<itk::Vector<float, 2>, D> >(m); } }
static Held hold(const Mem &m) { return m.size.size() == 2 ? holdD<2>(m) : holdD<3>(m); }
static Mem genMem(Source &s, size_t i) {
  Mem m; m.ty = (int)s.below(6); m.name = s.chance(1, 3) ? s.pick({std::string("img"), std::string("a <&> b"), std::string("\"q\""), std::string("../x"), std::string("")}) : cat("img", i); size_t D = 2 + s.weighted({2, 1}), n = 1; bool shift = s.chance(1, 3);
  for (size_t d = 0; d < D; ++d) { m.size.push_back(1 + (long)s.below(D == 2 ? 6 : 3)); n *= m.size[d]; m.start.push_back(shift ? s.range(-4, 4) : 0); m.sp.push_back(s.chance(1, 3) ? s.pick({0.5, 2.0, 1.25}) : 1); m.org.push_back(s.chance(1, 3) ? s.pick({0.5, -3.0, 10.25}) : 0); }
  m.dir.assign(D * D, 0); std::vector<size_t> perm; for (size_t d = 0; d < D; ++d) perm.push_back(d); if (s.chance(1, 4)) std::swap(perm[0], perm[1]); for (size_t d = 0; d < D; ++d) m.dir[d * D + perm[d]] = s.chance(1, 8) ? -1 : 1;
  n *= m.comp(); bool one = s.chance(1, 8); double first = 0; for (size_t k = 0; k < n; ++k) { double v; switch (m.ty) { case 0: case 4: v = (double)s.below(256); break; case 1: v = s.chance(1, 8) ? s.pick({-32768.0, 32767.0}) : (double)s.range(-300, 300); break; case 2: case 5: v = s.range(-1000, 1000) / 8.0; break; default: v = s.chance(1, 4) ? s.range(-100000, 100000) / 7.0 : (double)s.range(-9, 9); } if (!k) first = v; m.px.push_back(one ? first : v); }
  return m; }
static std::string list(const std::vector<double> &v) { std::string o; for (double d : v) { if (o.size() > 400) return o + " ..."; o += cat(" ", d); } return o; }
static std::string list(const std::vector<long> &v) { std::string o; for (long d : v) o += cat(" ", d); return o; }
static std::string show(const Mem &m) { return cat("  ", quote(m.name), " ", TN[m.ty], " size", list(m.size), " index", list(m.start), " spacing", list(m.sp), " origin", list(m.org), " direction", list(m.dir), " values", list(m.px), "\n"); }
static void run(Ctx &c) {
  registerImageIO(); Source &s = c.s; const std::string &R = c.scratch; static std::string done; if (done != R) { for (auto d : {"/w", "/v"}) mkdir((R + d).c_str(), 0755); done = R; }
  std::string bx = R + "/b.xml", ox = R + "/o.xml"; size_t n = 1 + s.below(3); std::vector<Held> v; std::string d; std::set<int> changed;
  for (size_t i = 0; i < n; ++i) { Mem m = genMem(s, i); if (i && s.chance(1, 4)) { std::string nm = m.name; m = v[0].m; if (s.coin()) m.name = nm; } v.push_back(hold(m)); d += show(m); }
  // the images of the second run: one value, or the place, differs
  int how = (int)s.weighted({3, 3, 2}); std::vector<Held> w = v; // 0 same, 1 a value differs, 2 not written
  if (how == 1) for (size_t i = 0; i < n; ++i) if (s.coin() || n == 1) { Mem m = v[i].m; size_t k = s.below(m.px.size()); double &x = m.px[k]; x += x >= 255 && (m.ty == 0 || m.ty == 4) ? -1 : x >= 32767 ? -1 : 1; w[i] = hold(m); if (m.ty < 4) changed.insert((int)i); else changed.insert(-1); d += cat("  second run: value ", k, " of image ", i, " is ", x, "\n"); }
  c.describe(d + (how == 2 ? "the working directory is gone\n" : "")); auto body = [&](std::vector<Held> &h, std::vector<int> *rs) { return [&h, rs](ItkTest &t) { for (auto &x : h) { int r = x.measure(t); if (rs) rs->push_back(r); } return 0; }; };
  if (how == 2) { // nowhere to write the image to
    std::string g = R + "/gone"; mkdir(g.c_str(), 0755); size_t at = s.below(n); Result r; bool cmp = s.coin(); ItkTest t; Chdir cd(g); rmdir(g.c_str());
    if (cmp) { std::vector<Entry> b; for (auto &x : v) { Entry e; e.file = true; e.type = "image/itk"; e.name = x.m.name; e.content = "x.mha"; b.push_back(e); } pbt::writeFile(bx, writeDoc(b)); }
    (void)at; t.body = body(v, 0); std::vector<std::string> a = {"prog", "-O", ox}; if (cmp) { a.push_back("-I"); a.push_back(bx); } if (s.coin()) { a.push_back("-R"); a.push_back("0"); }
    r = runItk(t, a); c.require(r.ret != 0, "unwritten", [&] { return cat("returned ", r.ret, " although no image could be written\n", r.err, pbt::readFile(ox)); }); c.label("not written"); c.nontrivial(); return; }
  std::vector<int> rs; std::vector<std::string> files; std::string extra = s.pick({std::string("one"), std::string("two"), std::string("a b")});
  { Chdir cd(R + "/w"); ItkTest t; t.body = body(v, &rs); Result r = runItk(t, {"prog", "-O", ox, extra}); std::string o = pbt::readFile(ox); c.require(t.done && r.ret == 0 && rs == std::vector<int>(n, 0), "record", [&] { return cat("recording returned ", r.ret, "\n", r.err, o); });
    Doc x = parseXml(o); c.require(x.ok && x.root.kids.size() == n, "entries", [&] { return cat(x.root.kids.size(), " entries\n", o); });
    for (size_t i = 0; i < n; ++i) { const Elem &e = x.root.kids[i]; c.require(e.tag == "DartMeasurementFile" && e.get("name") && *e.get("name") == v[i].m.name && e.get("type") && *e.get("type") == "image/itk", "entry", [&] { return cat("entry ", i, "\n", o); }); files.push_back(e.text);
      c.require(v[i].memory().empty(), "memory", [&] { return cat("measuring changed image ", i, ": ", v[i].memory()); }); }
    for (size_t i = 0; i < n; ++i) { std::string q = v[i].file(files[i]); c.require(q.empty(), "file", [&] { return cat("the file of image ", i, ", ", files[i], ": ", q); }); }
    c.require(std::set<std::string>(files.begin(), files.end()).size() == n, "distinct", [&] { return cat("two images share a file\n", o); }); pbt::writeFile(bx, o); }
  { Chdir cd(R + "/v"); ItkTest t; rs.clear(); t.body = body(w, &rs); Result r = runItk(t, {"prog", "-I", bx, "-P", R + "/w", "-O", ox, extra}); int want = 0; bool judge = !changed.count(-1); for (int k : changed) want += k >= 0;
    c.require(t.done && t.GetCompareMode() && (how == 1 || r.ret == 0), "replay", [&] { return cat("the second run, with the same images, returned ", r.ret, "\n", r.err, pbt::readFile(ox)); });
    if (judge) { c.require(r.ret == want, "compare", [&] { return cat("the second run returned ", r.ret, ", should be ", want, "\n", r.err, pbt::readFile(ox)); }); for (size_t i = 0; i < n; ++i) c.require((rs[i] != 0) == (changed.count((int)i) != 0), "call", [&] { return cat("measuring image ", i, " returned ", rs[i]); }); }
    for (size_t i = 0; i < n; ++i) { std::string q = v[i].file(R + "/w/" + files[i]); c.require(q.empty(), "baseline-kept", [&] { return cat("after the second run the baseline file of image ", i, ": ", q); }); c.require(w[i].memory().empty(), "memory", [&] { return cat("measuring changed image ", i, ": ", w[i].memory()); }); } c.label(how ? "something differs" : "same"); c.nontrivial();
    for (auto &f : files) unlink((R + "/w/" + f).c_str()); if (s.chance(1, 8)) {} }
  for (auto &x : v) { c.label(TN[x.m.ty]); c.label(x.m.size.size() == 2 ? "2-dimensional" : "3-dimensional"); }
}
static const pbt::Property P = {"C36", "one to three images in memory (unsigned char, short, float, double, RGB and vector pixels, two and three dimensions, any start index, spacing, origin and axis permutation or flip) measured by a recording run and again, the same or with a changed value, by a comparing run in another directory, or where nothing can be written; the written files are read back and compared; non-trivial: every run; distinct by the drawn choices",
  run, 8000, 100000, 0, 0, 0, 20, {"pixel values are finite", "images of several components are only required to replay clean, not to be compared"}};
PBT_MAIN(P)
