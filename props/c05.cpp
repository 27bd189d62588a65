// C05: recorded numbers keep their value.
#include "model.h"
#include <memory>
using namespace model; using namespace testutil;

// distance of the exact decimal text to the value, against half a unit of the
// value's n-th significant digit
static bool within(const std::string &text, Q v, int digits) {
  if (v == 0) return strtod(text.c_str(), 0) == 0;
  char b[64]; snprintf(b, sizeof b, "%.25Le", (long double)v); int ex = atoi(strchr(b, 'e') + 1);
  // text as exact decimal -> compare mantissas in decimal: scale both by 10^(digits-1-ex)
  // text has at most 17 digits: read digits and exponent
  std::string d; int point = -1, e10 = 0; size_t i = 0; bool neg = false;
  if (text[i] == '-') { neg = true; ++i; }
  for (; i < text.size(); ++i) { if (text[i] == '.') { if (point >= 0) return false; point = (int)d.size(); } else if (text[i] == 'e') { e10 = atoi(text.c_str() + i + 1); break; } else if (isdigit((unsigned char)text[i])) d += text[i]; else return false; }
  if (neg != (v < 0) || d.empty() || d.size() > 60) return false;
  if (point < 0) point = (int)d.size();
  int sc = e10 + point - (int)d.size(); // value = D * 10^sc
  // unit of the digits-th digit: 10^(ex-digits+1); work in units of it
  Q D = 0; int used = 0; int k = sc; std::string z = d;
  size_t nz = z.find_first_not_of('0'); if (nz == std::string::npos) return false; z = z.substr(nz);
  if (z.size() > 30) return false;
  for (char ch : z) D = D * 10 + (ch - '0');
  Q V = v < 0 ? -v : v;
  int unit = ex - digits + 1;
  auto scale = [](Q x, int p) { while (p >= 1) { x *= 10; --p; } while (p <= -1) { x /= 10; ++p; } return x; };
  Q t = scale(D, k - unit), w = scale(V, -unit), diff = t > w ? t - w : w - t; (void)used;
  return diff <= (Q)0.5 * (1 + (Q)1e-9);
}
static void run(Ctx &c) {
  Source &s = c.s;
  Op a; a.kind = (Kind)(INTEGER + s.below(4)); a.i = genLong(s); a.f = genFloat(s); a.d = genDouble(s); a.b = s.coin(); a.name = genName(s);
  if (a.kind == FLOAT) while (!std::isfinite(a.f)) a.f = s.range(0, 1000) / 7.f;
  if (a.kind == DOUBLE) while (!std::isfinite(a.d)) a.d = s.range(0, 1000) / 7.0;
  Op b = a; b.name = genName(s);
  // a second one, often next to the first
  if (s.coin()) { b.i = (long)((unsigned long)a.i + s.range(-3, 3)); b.f = std::nextafter(a.f, s.coin() ? FLT_MAX : -FLT_MAX); b.d = std::nextafter(a.d, s.coin() ? DBL_MAX : -DBL_MAX); }
  else if (s.coin()) { b.f = a.f * (1 + s.range(-30, 30) * 1e-7f); b.d = a.d * (1 + s.range(-30, 30) * 1e-16); b.i = genLong(s); }
  else { b.i = genLong(s); b.f = genFloat(s); b.d = genDouble(s); }
  b.b = !a.b; if (!std::isfinite(b.f)) b.f = 1; if (!std::isfinite(b.d)) b.d = 1;
  a.tolerant = b.tolerant = -1;
  c.describe(show(a) + "\n" + show(b) + "\n");
  Scripted t; t.ops = {a, b};
  Result r = runMain(t, {"prog"});
  c.require(r.ret == 0, "record", [&] { return r.err; });
  Doc d = parseXml(r.out);
  c.require(d.ok && d.root.kids.size() == 2, "document", [&] { return d.error + r.out; });
  std::string txt[2] = {d.root.kids[0].text, d.root.kids[1].text};
  for (int k = 0; k < 2; ++k) {
    const Op &o = k ? b : a; const std::string &x = txt[k];
    const std::string *ty = d.root.kids[k].get("type"); c.require(ty && *ty == KIND_TYPE[o.kind], "type", [&] { return r.out; });
    switch (o.kind) {
      case INTEGER: { IntegerNumeric n; n.SetContent(x); char *e; errno = 0; long v = strtol(x.c_str(), &e, 10);
        c.require(!x.empty() && !*e && !errno && v == o.i, "integer-text", [&] { return cat(o.i, " recorded as ", quote(x)); });
        c.require((long)n.GetValue() == o.i, "integer-value", [&] { return cat(o.i, " reads back as ", n.GetValue()); }); break; }
      case BOOLEAN: { BooleanNumeric n; n.SetContent(x); c.require(x == (o.b ? "1" : "0") && n.GetValue() == o.b, "boolean", [&] { return quote(x); }); break; }
      case FLOAT: { FloatNumeric n; n.SetContent(x); c.require(within(x, o.f, 7), "float-text", [&] { return cat(show(o), " recorded as ", quote(x)); });
        float back = n.GetValue(); float half = std::max(std::nextafter(std::fabs(o.f), (float)INFINITY) - std::fabs(o.f), 1.5e-45f); if (!std::isfinite(half)) half = std::fabs(o.f) * FLT_EPSILON;
        long double tol = 0.5L * std::pow(10.0L, std::floor(std::log10(std::max((long double)std::fabs(o.f), 1e-60L))) - 6) * 1.0001L + half;
        c.require(std::fabs((long double)back - o.f) <= tol && std::signbit(back) == std::signbit(o.f), "float-value", [&] { return cat(show(o), " (", quote(x), ") reads back as ", show([&] { Op q = o; q.f = back; return q; }())); }); break; }
      default: { DoubleNumeric n; n.SetContent(x); c.require(within(x, o.d, 16), "double-text", [&] { return cat(show(o), " recorded as ", quote(x)); });
        if (strtold(x.c_str(), 0) > (long double)DBL_MAX || strtold(x.c_str(), 0) < -(long double)DBL_MAX) break; // 16 digits of the largest double are more than it
        double back = n.GetValue(); long double half = std::max((long double)(std::nextafter(std::fabs(o.d), INFINITY) - std::fabs(o.d)), 5e-324L); if (!std::isfinite(half)) half = std::fabs(o.d) * DBL_EPSILON;
        long double tol = o.d == 0 ? 0 : 0.5L * std::pow(10.0L, std::floor(std::log10((long double)std::fabs(o.d))) - 15) * 1.0001L + half;
        c.require(std::fabs((long double)back - (long double)o.d) <= tol && std::signbit(back) == std::signbit(o.d), "double-value", [&] { return cat(show(o), " (", quote(x), ") reads back as ", show([&] { Op q = o; q.d = back; return q; }())); }); break; }
    }
  }
  if (a.kind == INTEGER && a.i != b.i) c.check(txt[0] != txt[1], "integers-collide", "two integers are recorded alike");
  if (a.kind == FLOAT || a.kind == DOUBLE) { // order
    long double x = a.kind == FLOAT ? a.f : a.d, y = a.kind == FLOAT ? b.f : b.d, u = strtold(txt[0].c_str(), 0), v = strtold(txt[1].c_str(), 0);
    c.require(!(x < y) || u <= v, "order", [&] { return cat(txt[0], " ", txt[1]); }); c.require(!(x > y) || u >= v, "order", [&] { return cat(txt[0], " ", txt[1]); });
    c.require(!(x == y) || u == v, "same-value", [&] { return cat(txt[0], " ", txt[1]); });
  }
  c.nontrivial();
  c.label(KIND_TYPE[a.kind]);
}
static const pbt::Property P = {"C05", "pairs of numbers of one type (extremes, subnormals, neighbours, powers of two and ten) recorded by the real framework; the recorded text is read by an independent parser and by the framework; every case is non-trivial; distinct by the drawn choices",
  run, 400000, 3000000, 40000, 1500000, 300, 5, {}};
PBT_MAIN(P)
