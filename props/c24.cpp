// C24: generated output file names.
#include "images.h"
#include <set>
using namespace model;

static std::string tailOf(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
struct Call { std::string ext, root; int how = 0; }; // 0 no root given, 1 root (maybe empty), 2 an image measured
static std::string genArg(Source &s) {
  static const std::string common[] = {"a", "b", "x.mha", "-v", "--", "", "a b", "/abs/path.png", "1", "-q"};
  if (s.coin()) return s.pick(common); std::string r; size_t n = s.size(s.chance(1, 10) ? 600 : 60); for (size_t i = 0; i < n; ++i) r += s.chance(1, 12) ? (char)s.range(128, 255) : (char)s.range(32, 126); return r;
}
static std::vector<std::string> names(Ctx &c, const std::vector<std::string> &argv, const std::vector<Call> &calls, int ret) {
  std::vector<std::string> v; ItkTest t; t.body = [&](ItkTest &q) {
    for (auto &k : calls) { if (k.how == 0) v.push_back(q.GenerateFileName(k.ext)); else if (k.how == 1) v.push_back(q.GenerateFileName(k.ext, k.root));
      else { typedef itk::Image<unsigned char, 2> I; I::Pointer im = I::New(); I::RegionType g; I::SizeType z; z.Fill(1); g.SetSize(z); im->SetRegions(g); im->Allocate(true); q.MeasurementInsightImage<I>(im, "image"); v.push_back(""); } }
    return ret; };
  Result r = runItk(t, argv); c.require(t.done, "run", [&] { return r.err; });
  Doc d = parseXml(r.out); size_t m = 0; for (auto &k : calls) m += k.how == 2;
  if (m) { c.require(d.ok && d.root.kids.size() == m, "record", [&] { return r.out; }); size_t j = 0; for (size_t i = 0; i < calls.size(); ++i) if (calls[i].how == 2) v[i] = d.root.kids[j++].text; }
  return v;
}
static void run(Ctx &c) {
  registerImageIO(); Capture cap; Source &s = c.s; static std::string done; const std::string &R = c.scratch; if (done != R) { mkdir((R + "/w").c_str(), 0755); mkdir((R + "/w2").c_str(), 0755); done = R; }
  std::vector<std::string> argv; argv.push_back(s.pick({std::string("prog"), std::string("./prog"), std::string("/usr/bin/prog"), std::string("bin/prog"), std::string("a_b_1.x"), std::string("p q"), std::string(".")}));
  bool img = argv[0] == "prog" || argv[0] == "p q" || argv[0] == "a_b_1.x";
  size_t na = s.size(s.chance(1, 6) ? 60 : 8); for (size_t i = 0; i < na; ++i) { std::string a = genArg(s); argv.push_back(a); }
  if (argv.size() > 1 && (argv[1] == "-I" || argv[1] == "-O" || argv[1] == "-R" || argv[1] == "-P")) argv[1] = "x";
  if (s.chance(1, 4)) argv.insert(argv.begin() + 1, {"-P", s.pick({std::string("/"), std::string(".")})});
  std::vector<Call> calls; size_t n = 1 + (s.chance(1, 20) ? s.below(300) : s.below(8)); bool huge = s.chance(1, 12000); if (huge) n = 65530 + s.below(200); std::string d;
  static const std::string ext[] = {"mha", "png", "", "tar.gz", "x y"}; static const std::string roots[] = {"", "/tmp", "out", "/tmp/", "a b", "./o/p", "/", "."};
  for (size_t i = 0; i < n; ++i) { if (i >= 300) { calls.push_back(calls[i % 300]); continue; } Call k; k.ext = s.pick(ext); k.how = (int)s.weighted({3, 4, img && n < 10 ? 1u : 0u}); if (k.how == 1) k.root = s.pick(roots); else if (k.how == 2) k.ext = "mha"; calls.push_back(k); if (i < 12) d += k.how == 2 ? std::string("  an image measured\n") : cat("  ", quote(k.ext), k.how ? cat(" in ", quote(k.root)) : std::string(), "\n"); }
  std::string a; for (auto &x : argv) a += quote(x) + " "; c.describe(cat("command line: ", a, "\n", n, " calls\n", d)); c.nontrivial(); c.label(huge ? "more than 65000 calls" : n > 8 ? "many calls" : "few calls"); c.label(argv[0]);
  std::vector<std::string> v; { Chdir cd(R + "/w"); if (!cd.ok) throw pbt::Discard(); v = names(c, argv, calls, 0); }
  // form
  std::string hash; std::string all; for (auto &x : v) { all += "  " + quote(x) + "\n"; if (all.size() > 2000) break; }
  for (size_t i = 0; i < n; ++i) {
    const Call &k = calls[i]; bool root = k.how == 1 && !k.root.empty(); std::string pre = root || k.how == 2 ? tailOf(argv[0]) : argv[0], x = v[i];
    if (root) { std::string rt = k.root; while (rt.size() > 1 && rt.back() == '/') rt.pop_back(); std::string p = rt == "/" ? "/" : rt + "/"; bool ok = x.compare(0, p.size(), p) == 0; if (!ok && rt == ".") ok = x.find('/') == std::string::npos, p = ""; c.require(ok, "root", [&] { return cat(quote(x), " should be in ", quote(k.root)); }); x = x.substr(p.size()); while (!x.empty() && x[0] == '/') x.erase(0, 1); }
    std::string suf = cat("_", std::hex, i + 1, ".", k.ext), suf10 = cat("_", i + 1, ".", k.ext); bool ok = x.compare(0, pre.size() + 1, pre + "_") == 0; std::string rest = ok ? x.substr(pre.size() + 1) : ""; size_t u = rest.find('_'); ok = ok && u != std::string::npos && u > 0;
    std::string h = ok ? rest.substr(0, u) : "", tail = ok ? rest.substr(u) : ""; ok = ok && (tail == suf || tail == suf10) && h.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
    c.require(ok, "form", [&] { return cat("name ", i + 1, " is ", quote(v[i]), ", should be ", pre, "_HASH_", i + 1, ".", k.ext, "\n", all); });
    if (hash.empty()) hash = h; c.require(hash == h, "hash", [&] { return cat("the hash changed within a run\n", all); });
  }
  std::set<std::string> seen; for (auto &x : v) c.require(seen.insert(tailOf(x)).second, "repeat", [&] { return cat(quote(x), " repeats\n", all); });
  // the same command line elsewhere, with another outcome of the test
  { Chdir cd(R + "/w2"); if (!cd.ok) throw pbt::Discard(); if (s.coin()) { ItkTest o; runItk(o, {"other", "run"}); } std::vector<std::string> w = names(c, argv, calls, s.coin() ? 3 : 0);
    c.require(w == v, "reproducible", [&] { std::string o; for (size_t i = 0; i < w.size() && i < 12; ++i) o += "  " + quote(w[i]) + "\n"; return cat("first\n", all, "then\n", o); }); }
  // a prefix of the calls gives a prefix of the names
  // another command line
  std::vector<std::string> other = argv; size_t k = s.chance(1, 3) ? other.size() - 1 : s.below(other.size()); if (k > 0 && !other[k].empty() && !(other[1] == "-P" && k <= 2)) {
    std::string &x = other[k]; size_t i = s.chance(1, 3) ? x.size() - 1 : s.below(x.size()); char o = x[i]; x[i] = (char)(o ^ (1 << s.below(7))); if (x[i] && x[i] != o && !((x == "-I" || x == "-O" || x == "-R" || x == "-P"))) {
      std::vector<Call> one(1); one[0].ext = "mha"; Chdir cd(R + "/w"); std::vector<std::string> p = names(c, argv, one, 0), q = names(c, other, one, 0);
      c.require(p[0] != q[0], "other-command-line", [&] { return cat("argument ", k, " changed to ", quote(x), ": both give ", quote(p[0])); }); c.label("one character changed"); } }
}
static const pbt::Property P = {"C24", "command lines (program by name, relative and absolute path; arguments of any bytes) and 1-300 (rarely up to 65730) calls with random extensions and roots, also as images measured in memory; form, counting, distinctness and the common hash are checked, the same command line is run again in another directory with another outcome, and with one character changed; non-trivial: all; distinct by the drawn choices",
  run, 120000, 900000, 0, 0, 0, 10, {"extensions hold no slash", "the program name is not empty and does not end in a slash"}};
PBT_MAIN(P)
