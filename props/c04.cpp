// C04: the tolerant comparison is the documented relation.
#include "model.h"
#include <memory>
using namespace model; using namespace testutil;

static DataMeasurement *make(const std::string &type, const std::string &text) { DataMeasurement *m = CreateDataMeasurement(type); m->SetAttributeName("n"); m->SetContent(text); return m; }
// a tolerance around the one that just makes u and v match
static double genEdgeTol(Source &s, long double u, long double v) {
  long double m = std::max(std::fabs(u), std::fabs(v)), d = std::fabs(u - v);
  if (m == 0 || d == 0 || !std::isfinite(d / m)) return genTol(s);
  double t = (double)(d / m);
  switch (s.below(6)) { case 0: return t; case 1: return t * 1.0001; case 2: return t * 0.9999; case 3: return t * 2; case 4: return t / 2; default: return -t * 1.01; }
}
static void run(Ctx &c) {
  Source &s = c.s;
  Kind k = (Kind)(INTEGER + s.below(3));
  Op a; a.kind = k; a.i = genLong(s); a.f = genFloat(s); a.d = genDouble(s); a.name = "n";
  Op b = a;
  double tol = genTol(s);
  // the second value: near the first, small multiples of 1/16 (exact in any arithmetic), tiny, or unrelated
  switch (s.below(6)) {
    case 0: b.i = (long)((unsigned long)a.i + s.range(-4, 4)); b.f = std::nextafter(a.f, s.coin() ? INFINITY : -INFINITY); b.d = std::nextafter(a.d, s.coin() ? INFINITY : -INFINITY); break;
    case 1: { double n = genNear(s, k == INTEGER ? (double)a.i : k == FLOAT ? a.f : a.d, tol); b.d = n; b.f = (float)n; if (std::fabs(n) < 9e18) b.i = (long)n; break; }
    case 2: { long x = s.range(-160, 160), y = s.range(-160, 160); a.i = x; b.i = y; a.f = x / 16.f; b.f = y / 16.f; a.d = x / 16.0; b.d = y / 16.0; tol = s.range(0, 32) / 16.0; break; }
    case 3: { double e = k == FLOAT ? FLT_EPSILON : DBL_EPSILON; static const double f[] = {0, 0.5, 0.999, 1.001, -0.5, -1.001, 1e-5, 2, -0.999}; a.d = e * s.pick(f); b.d = e * s.pick(f); a.f = (float)a.d; b.f = (float)b.d; a.i = s.range(-2, 2); b.i = s.range(-2, 2); break; }
    case 4: b.i = (long)(0 - (unsigned long)a.i); b.f = -a.f; b.d = -a.d; break;
    default: b.i = genLong(s); b.f = genFloat(s); b.d = genDouble(s);
  }
  std::string ta = contentOf(a), tb = contentOf(b);
  if (s.chance(1, 8)) tb = genNumText(s, k); if (s.chance(1, 16)) ta = genNumText(s, k); if (s.chance(1, 16)) tb = ta;
  long double u = 0, v = 0; int pa = parseNumber(k, ta, u), pb = parseNumber(k, tb, v);
  if (pa == 1 && pb == 1 && s.coin()) tol = genEdgeTol(s, u, v);
  c.describe(cat(KIND_TYPE[k], " ", quote(ta), " and ", quote(tb)));
  { std::ostringstream o; o.precision(17); o << ", tolerance " << tol << "\n"; c.describe(o.str()); }
  std::unique_ptr<DataMeasurement> A(make(KIND_TYPE[k], ta)), B(make(KIND_TYPE[k], tb));
  NumericData *na = dynamic_cast<NumericData *>(A.get()), *nb = dynamic_cast<NumericData *>(B.get());
  bool ab = na->IsEqualTolerant(*nb, tol), ba = nb->IsEqualTolerant(*na, tol);
  // the relation itself; a tolerance of 0 given directly compares the numbers
  int want = ta == tb ? 1 : pa == 0 || pb == 0 ? 0 : pa == 2 || pb == 2 ? 2 : tolJudge(k, u, v, tol);
  if (want != 2 && pa == 1 && pb == 1 && k != INTEGER && ta != tb && tolJudge(k, strtold(ta.c_str(), 0), strtold(tb.c_str(), 0), tol) != want) want = 2;
  c.require(ab == ba, "asymmetric", [&] { return cat("first against second ", ab, ", second against first ", ba); });
  c.require(want == 2 || ab == (want == 1), "relation", [&] { return cat("match is ", ab, ", should be ", want); });
  std::unique_ptr<DataMeasurement> A2(make(KIND_TYPE[k], ta));
  c.check(na->IsEqualTolerant(*dynamic_cast<NumericData *>(A2.get()), tol), "irreflexive", "a value does not match itself");
  double bigger = tol * (1 + s.range(0, 100) / 16.0); if (s.coin()) bigger = std::fabs(bigger) + std::fabs(genTol(s)); 
  if (std::isfinite(bigger) && std::fabs(bigger) >= std::fabs(tol)) c.require(!ab || na->IsEqualTolerant(*nb, bigger), "not-monotone", [&] { return cat("matches, but not under the larger tolerance ", bigger); });
  c.check(na->IsEqualTolerant(*nb, -tol) == ab, "sign-of-tolerance", "the sign of the tolerance matters");
  // through the visitor and, now and then, a run
  int runWant = tol == 0 ? ta == tb : want;
  {
    CompareVisitor vis; vis.SetBaselineMeasurement(A.get());
    if (s.coin()) { vis.SetTolerance(genTol(s)); } vis.SetTolerance(tol); B->AcceptVisitor(vis);
    c.require(runWant == 2 || vis.GetResult() == (runWant == 1), "visitor", [&] { return cat("match is ", vis.GetResult(), ", should be ", runWant); });
    vis.SetToleranceOff(); B->AcceptVisitor(vis);
    c.require(vis.GetResult() == (ta == tb), "visitor-exact", [&] { return cat("without tolerance: match is ", vis.GetResult(), ", should be ", ta == tb); });
    c.check(A->GetContent() == ta && B->GetContent() == tb, "modified", "comparing changed a value");
  }
  { // another kind of number never matches
    Kind k2 = (Kind)(INTEGER + (k - INTEGER + 1 + s.below(3)) % 4); std::unique_ptr<DataMeasurement> X(make(KIND_TYPE[k2], ta));
    c.check(!na->IsEqualTolerant(*dynamic_cast<NumericData *>(X.get()), tol), "kinds", "a number of another type matches");
  }
  if (s.chance(1, 8)) {
    std::string f = c.scratch + "/b.xml"; Op o = b; o.name = "n"; bool tf = s.coin(); o.tolerant = tf; std::string t = contentOf(o);
    Entry e; e.name = "n"; e.type = KIND_TYPE[k]; e.content = ta; pbt::writeFile(f, writeDoc({e}));
    int w = !tf ? ta == t : numMatch(k, ta, t, tol);
    Scripted sc; sc.ops = {o}; sc.SetRelativeTolerance(tol); Result r = runMain(sc, {"p", "-I", f});
    c.require(w == 2 || r.ret == !w, "run", [&] { return cat(tf ? "tolerant" : "exact", " measurement of ", quote(t), " returned ", r.ret, ", should be ", !w, "\n", r.err); });
    c.label("also through a run");
  }
  if (ta != tb) c.nontrivial();
  c.label(want == 2 ? "not judged" : want ? "match" : "no match");
  if (pa == 0 || pb == 0) c.label("not a finite number");
  if (want == 1 && ta != tb) c.label("match of different values");
}
static const pbt::Property P = {"C04", "pairs of numbers of one type (neighbours, near the tolerance edge, exactly representable, around epsilon, opposite signs, extremes, non-numbers) and tolerances chosen at the edge; judged by 113-bit arithmetic directly, through the visitor and through runs; symmetry, reflexivity, monotony; non-trivial: different texts; distinct by the drawn choices",
  run, 600000, 5000000, 60000, 2000000, 400, 5,
  {"pairs within a few rounding errors of the tolerance boundary, and texts that read as numbers only in part, are not judged"}};
PBT_MAIN(P)
