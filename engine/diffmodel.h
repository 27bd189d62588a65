// Reader and checker for the output of testutil::Diff.
#ifndef VERIF_DIFFMODEL_H
#define VERIF_DIFFMODEL_H
#include "pbt.h"
#include <algorithm>
#include <map>
namespace model {
struct DiffCmd { char op; long f0, f1, t0, t1; std::vector<std::string> del, ins; }; // 1-based inclusive; 'a': f0 = line after which; 'd': t0 unused
static inline std::vector<std::string> linesOf(const std::string &s) {
  std::vector<std::string> v(1); for (char c : s) if (c == '\n') v.push_back(""); else v.back() += c; return v;
}
struct DiffReader {
  const std::string &s; size_t i = 0; std::string err;
  std::vector<DiffCmd> cmds; long deleted = 0, inserted = 0;
  DiffReader(const std::string &t) : s(t) {}
  bool fail(const std::string &e) { if (err.empty()) err = e + " at offset " + std::to_string(i); return false; }
  bool num(long &n) { if (i >= s.size() || !isdigit((unsigned char)s[i])) return fail("line number expected"); n = 0; while (i < s.size() && isdigit((unsigned char)s[i])) n = n * 10 + (s[i++] - '0'); return true; }
  bool rng(long &a, long &b) { if (!num(a)) return false; b = a; if (i < s.size() && s[i] == ',') { ++i; if (!num(b)) return false; if (b <= a) return fail("empty range"); } return true; }
  bool line(const char *prefix, std::string &o) { if (s.compare(i, 2, prefix)) return fail(std::string("line with prefix '") + prefix + "' expected"); size_t e = s.find('\n', i); if (e == std::string::npos) return fail("unterminated line"); o = s.substr(i + 2, e - i - 2); i = e + 1; return true; }
  bool read() {
    while (i < s.size()) {
      DiffCmd c; if (!rng(c.f0, c.f1)) return false;
      if (i >= s.size()) return fail("command letter expected"); c.op = s[i++];
      if (c.op != 'a' && c.op != 'd' && c.op != 'c') return fail("unknown command letter");
      if (!rng(c.t0, c.t1)) return false;
      if (i >= s.size() || s[i] != '\n') return fail("end of command line expected"); ++i;
      if (c.op == 'a' && c.f0 != c.f1) return fail("range before 'a'");
      if (c.op == 'd' && c.t0 != c.t1) return fail("range after 'd'");
      if (c.op != 'a') for (long k = c.f0; k <= c.f1; ++k) { c.del.push_back(""); if (!line("< ", c.del.back())) return false; }
      if (c.op == 'c') { if (s.compare(i, 3, "---") ) return fail("separator expected"); while (i < s.size() && s[i] == '-') ++i; if (i >= s.size() || s[i] != '\n') return fail("separator expected"); ++i; }
      if (c.op != 'd') for (long k = c.t0; k <= c.t1; ++k) { c.ins.push_back(""); if (!line("> ", c.ins.back())) return false; }
      deleted += (long)c.del.size(); inserted += (long)c.ins.size(); cmds.push_back(c);
    }
    return true;
  }
  // applies the script to the lines of 'from'; every quoted line and both
  // line numbers of every command are checked on the way
  bool apply(const std::string &from, const std::string &to) {
    std::vector<std::string> a = linesOf(from), b = linesOf(to), out; size_t x = 0; // x: lines of a consumed
    i = 0;
    for (auto &c : cmds) {
      size_t at = c.op == 'a' ? (size_t)c.f0 : (size_t)c.f0 - 1;   // lines of a before the change
      if (c.op != 'a' && c.f0 < 1) return fail("line number 0");
      if (at < x) return fail("commands overlap or go backwards");
      if (at > a.size()) return fail("line number past the end of the first text");
      while (x < at) out.push_back(a[x++]);
      for (auto &l : c.del) { if (x >= a.size()) return fail("deletes past the end"); if (a[x] != l) return fail("quoted deleted line is not line " + std::to_string(x + 1) + " of the first text"); ++x; }
      if (c.op != 'd' && (size_t)c.t0 != out.size() + 1) return fail("line number of the second text is " + std::to_string(c.t0) + ", should be " + std::to_string(out.size() + 1));
      if (c.op == 'd' && (size_t)c.t0 != out.size() && (size_t)c.t0 != out.size() + 1) return fail("line number after 'd' is " + std::to_string(c.t0) + ", deleted lines would be at " + std::to_string(out.size() + 1));
      for (auto &l : c.ins) out.push_back(l);
    }
    while (x < a.size()) out.push_back(a[x++]);
    if (out != b) return fail("applying the commands to the first text does not give the second");
    return true;
  }
};
__attribute__((no_sanitize("address", "undefined"))) static inline long lcsNum(const int *a, size_t n, const int *b, size_t m, int *p, int *q) {
  for (size_t j = 0; j <= m; ++j) p[j] = q[j] = 0;
  for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < m; ++j) q[j + 1] = a[i] == b[j] ? p[j] + 1 : p[j + 1] > q[j] ? p[j + 1] : q[j]; int *t = p; p = q; q = t; }
  return p[m];
}
static inline long lcsLen(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  size_t pre = 0, na = a.size(), nb = b.size(); while (pre < na && pre < nb && a[pre] == b[pre]) ++pre;
  while (na > pre && nb > pre && a[na - 1] == b[nb - 1]) { --na; --nb; }
  long common = (long)pre + (long)(a.size() - na); std::map<std::string, int> ids; std::vector<int> x, y, p(nb - pre + 1), q(nb - pre + 1);
  for (size_t i = pre; i < na; ++i) x.push_back(ids.insert({a[i], (int)ids.size()}).first->second);
  for (size_t i = pre; i < nb; ++i) y.push_back(ids.insert({b[i], (int)ids.size()}).first->second);
  return common + lcsNum(x.data(), x.size(), y.data(), y.size(), p.data(), q.data());
}
// Pairs of texts for the diff: few distinct lines, lines whose naive hashes
// collide, edits of one another, unrelated, or very different in length.
static inline std::string genDiffLine(pbt::Source &s, int alpha) {
  // rotate-by-7 additive hashes of size_t: pairs that collide (64 bits: a step
  // of 1 seven places up equals 128; ten places up equals 64)
  static const std::string coll[] = {"ab", std::string("b\xe2"), "Aaaaaaaaaaa", "Baaaaaaaaa!", "ba", std::string("a\xe1") , "", " "};
  if (alpha == 0) return coll[s.below(8)];
  if (alpha == 1) return std::string(1, (char)('a' + s.below(2)));
  if (alpha == 2) return std::string(1, (char)('a' + s.below(4)));
  if (alpha == 3) return std::string(1, (char)('a' + s.below(26)));
  std::string r; size_t n = s.size(20); for (size_t i = 0; i < n; ++i) { char ch = (char)s.range(1, 255); r += ch == '\n' ? ' ' : ch; } return r;
}
static inline std::string joinLines(const std::vector<std::string> &v) { std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += '\n'; r += v[i]; } return r; }
static inline void genDiffPair(pbt::Source &s, std::string &a, std::string &b, size_t maxLines) {
  int alpha = (int)s.below(5);
  std::vector<std::string> x, y; size_t n = s.size(maxLines);
  for (size_t i = 0; i < n; ++i) x.push_back(genDiffLine(s, alpha));
  switch (s.below(4)) {
    case 0: { size_t m = s.size(maxLines); for (size_t i = 0; i < m; ++i) y.push_back(genDiffLine(s, alpha)); break; }
    case 1: { y = x; size_t k = s.size(12); for (size_t i = 0; i < k; ++i) { size_t p = s.below(y.size() + 1); switch (s.below(3)) { case 0: y.insert(y.begin() + p, genDiffLine(s, alpha)); break; case 1: if (p < y.size()) y.erase(y.begin() + p); break; default: if (p < y.size()) y[p] = genDiffLine(s, alpha); } } break; }
    case 2: { y = x; size_t k = s.below(4); for (size_t i = 0; i < k && !y.empty(); ++i) { size_t p = s.below(y.size()), q = p + s.below(y.size() - p + 1); std::vector<std::string> blk(y.begin() + p, y.begin() + q); y.erase(y.begin() + p, y.begin() + q); size_t r = s.below(y.size() + 1); y.insert(y.begin() + r, blk.begin(), blk.end()); } break; }
    default: { y = x; if (!y.empty()) { size_t p = s.below(y.size()), q = p + s.below(y.size() - p + 1); y.erase(y.begin() + p, y.begin() + q); } if (s.coin()) std::swap(x, y); break; }
  }
  a = joinLines(x); b = joinLines(y);
  if (s.chance(1, 8)) a += '\n'; if (s.chance(1, 8)) b += '\n';
}
// Long texts that differ in few places far apart.
static inline void genLongPair(pbt::Source &s, std::string &a, std::string &b, size_t maxLines) {
  size_t n = s.range((long)maxLines / 8, (long)maxLines), alpha = (size_t)s.pick({2, 30, 1000000}); uint64_t x = s.below(1 << 20) + 1; std::vector<std::string> u, v;
  for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; u.push_back("l" + std::to_string((x >> 33) % alpha)); }
  v = u; size_t k = s.below(7); for (size_t i = 0; i < k; ++i) { size_t p = s.below(v.size() + 1); switch (s.below(4)) { case 0: v.insert(v.begin() + p, "new"); break; case 1: if (p < v.size()) v.erase(v.begin() + p); break; case 2: if (p < v.size()) v[p] = "changed"; break; default: { size_t m = std::min(v.size() - p, (size_t)s.below(30)); v.erase(v.begin() + p, v.begin() + p + m); } } }
  if (s.coin()) std::swap(u, v);
  a = joinLines(u); b = joinLines(v);
}
// Long texts with many differences: unrelated over an alphabet, or one with
// changes all over; now and then lines of thousands of characters.
static inline void genManyPair(pbt::Source &s, std::string &a, std::string &b, size_t maxLines) {
  static const uint64_t alphas[] = {2, 4, 12, 60, 1000000}; uint64_t alpha = s.pick(alphas), x = s.below(1 << 20) + 1; size_t n = (size_t)s.range((long)maxLines / 20, (long)maxLines), m = n, wide = s.chance(1, 6) ? (size_t)s.range(100, 3000) : 0;
  auto rnd = [&] { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 33; };
  auto ln = [&] { std::string r = "abcdefgh"[rnd() % 8 < 7 ? 0 : 1] + std::to_string(rnd() % alpha); if (wide && rnd() % 8 == 0) r.append(rnd() % wide, '-'); return r; };
  if (wide && n > 300) n = m = 300; if (alpha > 1000) n = m = n / 3 + 1;
  std::vector<std::string> u, v; for (size_t i = 0; i < n; ++i) u.push_back(ln());
  if (s.coin()) { if (s.coin()) m = (size_t)s.below(n + 1); for (size_t i = 0; i < m; ++i) v.push_back(ln()); }
  else { uint64_t rate = (uint64_t)s.pick({2, 3, 8, 20}); for (auto &l : u) switch (rnd() % rate ? 3 : rnd() % 3) { case 0: v.push_back(ln()); break; case 1: break; case 2: v.push_back(l); v.push_back(ln()); break; default: v.push_back(l); } }
  if (s.coin()) std::swap(u, v);
  a = joinLines(u); b = joinLines(v);
}
} // namespace model
#endif
