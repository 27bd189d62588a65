// Composite values of the image toolkit: the calls that measure them and what they should record.
#ifndef VERIF_COMPOSITE_H
#define VERIF_COMPOSITE_H
#include "itkmodel.h"

namespace model {
enum { SIZE, INDEX, REGION, POINT, VECTOR, ARRAY, MATRIX, NK };
static const char *const KN[] = {"size", "index", "region", "point", "vector", "fixed array", "matrix"};
static const char *const TN[] = {"double", "float", "int", "unsigned char"};
static const int RC[][2] = {{1, 1}, {2, 2}, {3, 3}, {2, 3}, {3, 2}, {1, 4}, {4, 4}, {4, 1}, {3, 4}, {2, 11}, {12, 2}};
struct Val { int kind = 0, dim = 1, cols = 0, type = 0, tolerant = -1; std::string name; std::vector<long> z; std::vector<double> x; };

// ---- the calls
template <unsigned D, class Tst> static int callInt(Tst &t, const Val &v) {
  itk::Size<D> s; itk::Index<D> i;
  for (unsigned k = 0; k < D; ++k) { i[k] = v.z[k]; s[k] = (itk::SizeValueType)v.z[v.kind == REGION ? D + k : k]; }
  if (v.kind == SIZE) return v.tolerant < 0 ? t.MeasurementInsightSize(s, v.name) : t.MeasurementInsightSize(s, v.name, v.tolerant != 0);
  else if (v.kind == INDEX) return v.tolerant < 0 ? t.MeasurementInsightIndex(i, v.name) : t.MeasurementInsightIndex(i, v.name, v.tolerant != 0);
  else { itk::ImageRegion<D> r(i, s); return v.tolerant < 0 ? t.MeasurementInsightRegion(r, v.name) : t.MeasurementInsightRegion(r, v.name, v.tolerant != 0); }
}
template <class T, unsigned D, class Tst> static int callReal(Tst &t, const Val &v) {
  if (v.kind == POINT) { itk::Point<T, D> p; for (unsigned k = 0; k < D; ++k) p[k] = (T)v.x[k]; return v.tolerant < 0 ? t.MeasurementInsightPoint(p, v.name) : t.MeasurementInsightPoint(p, v.name, v.tolerant != 0); }
  else if (v.kind == VECTOR) { itk::Vector<T, D> p; for (unsigned k = 0; k < D; ++k) p[k] = (T)v.x[k]; return v.tolerant < 0 ? t.MeasurementInsightVector(p, v.name) : t.MeasurementInsightVector(p, v.name, v.tolerant != 0); }
  else { itk::FixedArray<T, D> p; for (unsigned k = 0; k < D; ++k) p[k] = (T)v.x[k]; return v.tolerant < 0 ? t.MeasurementInsightFixedArray(p, v.name) : t.MeasurementInsightFixedArray(p, v.name, v.tolerant != 0); }
}
template <class T, class Tst> static int callDim(Tst &t, const Val &v) { switch (v.dim) { case 1: return callReal<T, 1>(t, v); case 2: return callReal<T, 2>(t, v); case 3: return callReal<T, 3>(t, v); case 4: return callReal<T, 4>(t, v); case 6: return callReal<T, 6>(t, v); case 12: return callReal<T, 12>(t, v); default: return callReal<T, 17>(t, v); } }
template <class T, unsigned R, unsigned C, class Tst> static int callMat(Tst &t, const Val &v) {
  itk::Matrix<T, R, C> m; for (unsigned i = 0; i < R; ++i) for (unsigned j = 0; j < C; ++j) m[i][j] = (T)v.x[i * C + j];
  return v.tolerant < 0 ? t.MeasurementInsightMatrix(m, v.name) : t.MeasurementInsightMatrix(m, v.name, v.tolerant != 0);
}
template <class T, class Tst> static int callMatDim(Tst &t, const Val &v) {
  switch (v.dim * 10 + v.cols) { case 11: return callMat<T, 1, 1>(t, v); case 22: return callMat<T, 2, 2>(t, v); case 33: return callMat<T, 3, 3>(t, v); case 23: return callMat<T, 2, 3>(t, v); case 32: return callMat<T, 3, 2>(t, v);
    case 14: return callMat<T, 1, 4>(t, v); case 44: return callMat<T, 4, 4>(t, v); case 41: return callMat<T, 4, 1>(t, v); case 34: return callMat<T, 3, 4>(t, v); case 2*10+11: return callMat<T, 2, 11>(t, v); default: return callMat<T, 12, 2>(t, v); }
}
template <class Tst> static int call(Tst &t, const Val &v) {
  if (v.kind <= REGION) switch (v.dim) { case 1: return callInt<1>(t, v); case 2: return callInt<2>(t, v); case 3: return callInt<3>(t, v); case 4: return callInt<4>(t, v); case 6: return callInt<6>(t, v); case 11: return callInt<11>(t, v); case 12: return callInt<12>(t, v); default: return callInt<17>(t, v); }
  else if (v.kind == MATRIX) { if (v.type == 0) return callMatDim<double>(t, v); else return callMatDim<float>(t, v); }
  else switch (v.type) { case 0: return callDim<double>(t, v); case 1: return callDim<float>(t, v); case 2: return callDim<int>(t, v); default: return callDim<unsigned char>(t, v); }
}
// ---- what they should record: one numeric measurement per component
static inline void expand(const Val &v, std::vector<Op> &ops) {
  bool real = v.kind > REGION;
  size_t n = real ? v.x.size() : v.z.size();
  for (size_t k = 0; k < n; ++k) {
    Op o; o.kind = real ? DOUBLE : INTEGER; o.tolerant = v.tolerant >= 0 ? v.tolerant : real;
    if (real) o.d = v.x[k]; else o.i = v.z[k];
    if (v.kind == REGION) o.name = cat(v.name, k < (size_t)v.dim ? " Index_" : " Size_", k % v.dim);
    else if (v.kind == MATRIX) o.name = cat(v.name, "_", k / v.cols, "_", k % v.cols);
    else o.name = cat(v.name, "_", k);
    ops.push_back(o);
  }
}
static inline Val genVal(Source &s) {
  Val v; v.kind = (int)s.below(NK); v.name = genName(s); v.tolerant = (int)s.below(3) - 1;
  if (v.kind == MATRIX) { const int *rc = RC[s.chance(1, 12) ? 9 + s.below(2) : s.below(9)]; v.dim = rc[0]; v.cols = rc[1]; v.type = (int)s.below(2); }
  else { static const int d[] = {2, 3, 1, 4, 6}; v.dim = s.chance(1, 12) ? s.pick({12, 17}) : s.pick(d); v.type = v.kind > REGION ? (int)s.below(4) : 0; }
  int n = v.kind == MATRIX ? v.dim * v.cols : v.kind == REGION ? 2 * v.dim : v.dim;
  bool distinct = s.coin(); // distinct small values show an exchanged component
  for (int k = 0; k < n; ++k) {
    if (v.kind <= REGION) { long l = distinct ? 10 + 7 * k + (long)s.below(5) : genLong(s); if (v.kind == SIZE || (v.kind == REGION && k >= v.dim)) l = l < 0 ? ~l : l; v.z.push_back(l); }
    else { double x = distinct ? (10 + 7 * k + (double)s.below(5)) * (v.type < 2 && s.coin() ? 0.37 : 1) : genDouble(s);
      if (v.type == 1) { float f = distinct ? (float)x : genFloat(s); x = f; } else if (v.type == 2) x = (double)(int)(distinct ? (long)x : genLong(s)); else if (v.type == 3) x = (double)(unsigned char)(distinct ? (long)x : s.range(0, 255));
      v.x.push_back(x); }
  }
  return v;
}
static inline std::string show(const Val &v) {
  std::string r = cat("  ", KN[v.kind], v.kind > REGION ? cat(" of ", TN[v.type]) : std::string(), " ", v.dim, v.kind == MATRIX ? cat("x", v.cols) : std::string(), " ", quote(v.name), v.tolerant < 0 ? "" : v.tolerant ? " tolerant" : " exact", ":");
  std::ostringstream o; o.precision(17); for (long l : v.z) o << " " << l; for (double d : v.x) o << " " << d; return r + o.str() + "\n";
}
} // namespace model
#endif
