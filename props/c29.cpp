// C29: runs are independent of each other and release what they used.
#include "model.h"
#include <dirent.h>
#include <memory>
using namespace model;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {
struct Spec { // one run
  size_t obj = 0; bool reset = true; std::vector<std::pair<int, std::string> > set; // settings made through the class before the run
  std::vector<std::string> argv; std::vector<Op> ops; int ret = 0; int thrown = -1; int nested = -1; size_t nestedAt = 0; std::string text;
};
struct Settings { std::string in, out; int exp = 0; fileutil::PathList path; double tol = FLT_EPSILON * 64; };
struct Seen { int ret = 0; std::string out, err, file; std::vector<int> results; std::vector<std::string> args; bool ran = false, compare = false, modeAfter = false; Settings st; };
const char *const SETN[] = {"input", "output", "expected return", "search path", "tolerance", "prepended path"};
}
static std::string undated(const std::string &s) { size_t a = s.find("<!--"), b = s.find("-->"); return a == std::string::npos || b == std::string::npos ? s : s.substr(0, a) + s.substr(b); }
static size_t descriptors() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
static Settings settingsOf(testutil::RegressionTest &t) { Settings x; x.in = t.GetInFileName(); x.out = t.GetOutFileName(); x.exp = t.GetExpectedReturn(); x.path = t.GetInFileSearchPath(); x.tol = t.GetRelativeTolerance(); return x; }
static void give(testutil::RegressionTest &t, const Settings &x) { t.SetInFileName(x.in); t.SetOutFileName(x.out); t.SetExpectedReturn(x.exp); t.SetInFileSearchPath(x.path); t.SetRelativeTolerance(x.tol); }
static std::string show(const Settings &x) { std::string p; for (auto &q : x.path) p += " " + q.GetPathName(); return cat("input ", quote(x.in), " output ", quote(x.out), " expected ", x.exp, " path", p, " tolerance ", x.tol); }
static bool same(const Settings &a, const Settings &b) { if (a.path.size() != b.path.size()) return false; auto i = a.path.begin(), j = b.path.begin(); for (; i != a.path.end(); ++i, ++j) if (i->GetPathName() != j->GetPathName()) return false; return a.in == b.in && a.out == b.out && a.exp == b.exp && (a.tol == b.tol || (std::isnan(a.tol) && std::isnan(b.tol))); }
static void prepare(testutil::RegressionTest &t, const Spec &p) {
  for (auto &x : p.set) switch (x.first) { case 0: t.SetInFileName(x.second); break; case 1: t.SetOutFileName(x.second); break; case 2: t.SetExpectedReturn(atoi(x.second.c_str())); break;
    case 3: { fileutil::PathList l; if (!x.second.empty()) l.push_back(fileutil::PathName(x.second)); t.SetInFileSearchPath(l); break; } case 4: t.SetRelativeTolerance(strtod(x.second.c_str(), 0)); break; default: t.PrependInFileSearchPath(fileutil::PathName(x.second)); }
}
static Seen go(Scripted &t, const Spec &p, const std::string &R, std::function<void(int)> nest) {
  Seen r; t.ops = p.ops; t.ret = p.ret; t.seen.clear(); t.results.clear(); t.ran = t.inCompare = false;
  t.hook = [&](int i) { if (nest) nest(i); if (i == p.thrown) throw std::runtime_error("thrown by the body"); };
  unlink((R + "/o.xml").c_str()); Result q = runMain(t, p.argv); t.hook = nullptr;
  r.ret = q.ret; r.out = undated(q.out); r.err = q.err; r.file = undated(pbt::readFile(R + "/o.xml")); r.results = t.results; r.args = t.seen; r.ran = t.ran; r.compare = t.inCompare; r.modeAfter = t.GetCompareMode(); r.st = settingsOf(t); return r;
}
static std::string differ(const Seen &a, const Seen &b) {
  if (a.ret != b.ret) return cat("returns ", a.ret, " instead of ", b.ret); if (a.ran != b.ran) return a.ran ? "the body ran" : "the body did not run"; if (a.compare != b.compare || a.modeAfter != b.modeAfter) return "another mode";
  if (a.results != b.results) return "the measurement calls return other values"; if (a.args != b.args) return "the body gets other arguments"; if (a.out != b.out) return cat("prints\n", quote(a.out, 2000), "\ninstead of\n", quote(b.out, 2000)); if (a.err != b.err) return cat("messages\n", quote(a.err, 2000), "\ninstead of\n", quote(b.err, 2000));
  if (a.file != b.file) return cat("writes\n", quote(a.file, 2000), "\ninstead of\n", quote(b.file, 2000)); if (!same(a.st, b.st)) return cat("leaves the settings ", show(a.st), "\ninstead of ", show(b.st)); return "";
}
static std::string problem; static const char *ptag;
static void play(const std::vector<Spec> &runs, size_t nobj, const std::string &R) {
  std::vector<std::unique_ptr<Scripted> > obj; for (size_t i = 0; i < nobj; ++i) obj.emplace_back(new Scripted);
  for (size_t k = 0; k < runs.size(); ++k) {
    const Spec &p = runs[k]; Scripted &t = *obj[p.obj]; std::string when = cat("run ", k + 1);
    if (p.reset) give(t, Settings());
    Settings before = settingsOf(t); prepare(t, p); Settings start = settingsOf(t);
    Seen inner, innerAlone; bool nestedRan = false; const Spec *in = p.nested >= 0 ? &runs[p.nested] : 0;
    std::function<void(int)> nest; Spec alone;
    if (in) { alone = *in; nest = [&](int i) { if ((size_t)i == p.nestedAt && !nestedRan) { nestedRan = true; std::string keep = pbt::readFile(R + "/o.xml"); Scripted n; prepare(n, alone); Result q; Args a(alone.argv); n.ops = alone.ops; n.ret = alone.ret; n.hook = [&](int j) { if (j == alone.thrown) throw std::runtime_error("thrown by the body"); }; Capture c; inner.ret = n.Main(a.n, &a.p[0]); inner.out = undated(c.out.str()); inner.results = n.results; } }; }
    size_t fd = descriptors(); Seen a = go(t, p, R, nest); size_t fd2 = descriptors();
    if (fd2 > fd) { ptag = "descriptors"; problem = cat(when, " leaves ", fd2 - fd, " files open"); return; }
    Scripted f; give(f, start); Seen b = go(f, p, R, nullptr); std::string d = differ(a, b);
    if (!d.empty()) { ptag = "dependent"; problem = cat(when, ", compared with the same run of a fresh object (", show(start), "): ", d); return; }
    if (nestedRan) { Scripted n; prepare(n, alone); Spec al = alone; Seen x = go(n, al, R, nullptr); if (x.ret != inner.ret || x.out != inner.out || x.results != inner.results) { ptag = "nested"; problem = cat("the run within ", when, " returned ", inner.ret, " and printed ", quote(inner.out, 1500), ", alone ", x.ret, " and ", quote(x.out, 1500)); return; } }
  }
  size_t fd = descriptors(); obj.clear(); if (descriptors() > fd) { ptag = "descriptors"; problem = "files are opened by the destructor"; }
}
static Spec genRun(Source &s, const std::string &R, size_t k, bool nested) {
  Spec p; p.reset = !s.chance(1, 3); std::string d; p.ops = genOps(s, 6); double tol = FLT_EPSILON * 64;
  std::vector<Entry> base = genBaseline(s, p.ops, tol); std::string bf = cat("b", k, ".xml"), doc = writeDoc(base);
  enum { NONE, THROW, NO_BASE, BAD_BASE, O_NODIR, O_ISDIR, FULL, P_BAD } fail = NONE; if (s.chance(1, 3)) fail = s.pick({THROW, THROW, NO_BASE, BAD_BASE, BAD_BASE, O_NODIR, O_ISDIR, FULL, P_BAD});
  if (fail == BAD_BASE) { size_t cut = s.below(3); if (cut == 0) doc.resize(s.below(doc.size() - 9)); else if (cut == 1) doc += "<x>"; else doc.insert(doc.rfind("</output>"), "&nope;"); }
  pbt::writeFile(R + "/" + bf, doc);
  p.argv = {"prog"}; bool compare = s.chance(3, 5) || fail == NO_BASE || fail == BAD_BASE;
  auto set = [&](int w, const std::string &v) { p.set.push_back({w, v}); d += cat("  set ", SETN[w], " ", quote(v), "\n"); };
  auto opt = [&](const std::string &o, const std::string &v) { p.argv.push_back(o); p.argv.push_back(v); };
  if (compare) { std::string f = fail == NO_BASE ? R + "/none.xml" : R + "/" + bf; switch (s.below(3)) { case 0: opt("-I", f); break; case 1: set(0, f); break; default: set(0, fail == NO_BASE ? "none.xml" : bf); set(s.coin() ? 3 : 5, R); } } else if (s.coin()) set(0, "");
  if (fail == O_NODIR || fail == O_ISDIR) { std::string f = fail == O_NODIR ? R + "/none/o.xml" : R + "/dir"; if (s.coin()) opt("-O", f); else set(1, f); }
  else if (fail == FULL) { if (s.coin()) opt("-O", "/dev/full"); else set(1, "/dev/full"); }
  else if (!nested && s.coin()) { if (s.coin()) opt("-O", R + "/o.xml"); else set(1, R + "/o.xml"); } else if (s.coin()) set(1, "");
  if (s.chance(1, 4)) { int e = (int)s.range(-1, 3); if (s.coin()) opt("-R", cat(e)); else set(2, cat(e)); p.ret = s.coin() ? e : 0; } else if (s.chance(1, 6)) p.ret = (int)s.range(1, 3);
  if (s.chance(1, 5)) set(4, s.pick({std::string("0"), std::string("0.1"), std::string("1"), std::string("1e-3")}));
  if (fail == P_BAD) opt("-P", R + "/none"); else if (s.chance(1, 6)) opt("-P", R);
  if (s.coin()) p.argv.push_back(cat("arg", k)); if (fail == THROW) p.thrown = (int)s.below(p.ops.size() + 1);
  std::string a; for (auto &x : p.argv) a += " " + x; p.text = cat(p.reset ? "  settings reset\n" : "", d, "  arguments", a, ", body returns ", p.ret, p.thrown >= 0 ? cat(", throws before step ", p.thrown) : std::string(), "\n", model::show(p.ops), compare ? "  baseline:\n" + model::show(base) : std::string(), fail == BAD_BASE ? "  baseline malformed\n" : ""); return p;
}
static void run(Ctx &c) {
  Source &s = c.s; const std::string &R = c.scratch; static std::string done; if (done != R) { mkdir((R + "/dir").c_str(), 0755); mkdir((R + "/w").c_str(), 0755); done = R; }
  std::vector<Spec> runs; size_t nobj = 1 + s.below(2), n = 2 + s.below(c.thorough ? 6 : 4); std::string d;
  for (size_t k = 0; k < n; ++k) { Spec p = genRun(s, R, k, false); p.obj = s.below(nobj); d += cat("run ", k + 1, " on object ", p.obj, ":\n", p.text); runs.push_back(p); }
  if (s.chance(1, 3)) { Spec p = genRun(s, R, n, true); p.obj = 0; p.reset = true; runs.push_back(p); size_t h = s.below(n); runs[h].nested = (int)n; runs[h].nestedAt = s.below(runs[h].ops.size() + 1); d += cat("within run ", h + 1, " before step ", runs[h].nestedAt, ", another object runs (and at the end again):\n", p.text); c.label("nested"); }
  c.describe(d); problem.clear(); { Capture cap; play(runs, nobj, R); }
  if (!problem.empty()) throw pbt::Failure{ptag, problem};
  if (s.chance(1, 5)) { long leak = 0; Capture cap; for (int r = 0; r < 4; ++r) { size_t b0 = __sanitizer_get_current_allocated_bytes(); play(runs, nobj, R); long dl = (long)__sanitizer_get_current_allocated_bytes() - (long)b0; if (r && (r == 1 || dl < leak)) leak = dl; }
    c.require(leak <= 0, "leak", [&] { return cat("every repetition of the history leaves ", leak, " bytes allocated"); }); c.label("leak measured"); }
  c.nontrivial(); bool failed = false; for (auto &p : runs) if (p.thrown >= 0) failed = true; c.label(failed ? "a run throws" : "no exception");
}
static const pbt::Property P = {"C29", "histories of 2-7 runs (recording and comparing, to files and standard output, failing in the body, on missing, malformed and unwritable files) on 1-2 test objects with settings kept or reset in between, also a run within another's body; each run is compared with the same run of a fresh object, with the descriptors and the allocation balance; non-trivial: all; distinct by the drawn choices",
  run, 20000, 400000, 0, 0, 0, 20, {"the creation comment of a document (host and time) is left out"}};
PBT_MAIN(P)
