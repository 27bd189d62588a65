// C33: settings take effect as made, and the baseline is the first file of its name.
#include "model.h"
using namespace model;

namespace {
const int ND = 4;
const char *const NAMES[] = {"b.xml", "sub/b.xml", "other.xml", "a b.xml"};
struct Call { int what; std::string v; std::vector<std::string> list; double tol = 0; int n = 0; };
}
static bool regular(const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISREG(st.st_mode); }
static std::string join(const std::string &d, const std::string &n) { if (n[0] == '/' || d.empty()) return n; return d.back() == '/' ? d + n : d + "/" + n; }
// baseline number k: measurement k agrees, the others do not; one more within a tolerance
static std::string doc(int k) { std::vector<Entry> v; for (int i = 0; i < ND + 2; ++i) { Entry e; e.name = cat("m", i); e.type = "numeric/integer"; e.content = i == k ? "1" : "0"; v.push_back(e); } Entry e; e.name = "t"; e.type = "numeric/double"; e.content = "100"; v.push_back(e); return writeDoc(v); }
static void place(const std::string &p, int what, int k) { // what: 0 none, 1 file, 2 directory, 3 dangling link, 4 link to a file, 5 fifo, 6 link to a directory, 7 malformed file
  switch (what) { case 0: break; case 1: pbt::writeFile(p, doc(k)); break; case 2: mkdir(p.c_str(), 0755); break; case 3: if (symlink("nowhere", p.c_str())) {} break; case 4: pbt::writeFile(p + ".real", doc(k)); if (symlink((p + ".real").c_str(), p.c_str())) {} break; case 5: mkfifo(p.c_str(), 0644); break; case 6: if (symlink("..", p.c_str())) {} break; default: pbt::writeFile(p, doc(k).substr(0, 60)); }
}
static void run(Ctx &c) {
  Source &s = c.s; pbt::emptyDir(c.scratch); std::string R = c.scratch, W = R + "/w", d; mkdir(W.c_str(), 0755); mkdir((W + "/sub").c_str(), 0755);
  static const char *PL[] = {"nothing", "a file", "a directory", "a dangling link", "a link to a file", "a fifo", "a link to a directory", "a malformed file"};
  std::string name = s.pick(NAMES); int nd = 1 + (int)s.below(ND);
  for (int k = 0; k <= nd; ++k) { // k == nd: the working directory
    std::string D = k == nd ? W : cat(R, "/d", k); if (k < nd) { mkdir(D.c_str(), 0755); if (name == NAMES[1] && s.chance(5, 6)) mkdir((D + "/sub").c_str(), 0755); }
    int what = (int)s.weighted({4, 6, 1, 1, 1, k == nd ? 0u : 1u, 1, 1}); struct stat ps; if (stat((D + "/" + name.substr(0, name.find('/') == std::string::npos ? 0 : name.find('/'))).c_str(), &ps)) what = 0; place(D + "/" + name, what, k == nd ? ND : k); d += cat(k == nd ? std::string("working directory") : cat("d", k), ": ", PL[what], "\n"); }
  char old[8192]; if (!getcwd(old, sizeof old)) throw pbt::Discard(); struct Back { const char *o; ~Back() { if (chdir(o)) {} } } back{old}; if (chdir(W.c_str())) throw pbt::Discard();
  auto dirName = [&] { int k = (int)s.below(nd + 2); if (k == nd + 1) return std::string(s.pick({std::string("."), std::string("../w"), std::string("nowhere"), std::string("")})); std::string p = k == nd ? std::string(".") : s.coin() ? cat("../d", k) : cat(R, "/d", k); if (s.chance(1, 6)) p += "/"; return p; };
  Scripted t; std::string in, out; std::vector<std::string> path; double tol = FLT_EPSILON * 64; int exp = 0;
  auto look = [&](const char *when) {
    std::vector<std::string> p; for (auto &q : t.GetInFileSearchPath()) p.push_back(q.GetPathName());
    c.require(t.GetInFileName() == in && t.GetOutFileName() == out && t.GetExpectedReturn() == exp && t.GetRelativeTolerance() == tol && p == path, "settings", [&] { std::string o; for (auto &x : p) o += " " + quote(x); return cat(when, ": input ", quote(t.GetInFileName()), " output ", quote(t.GetOutFileName()), " expected ", t.GetExpectedReturn(), " tolerance ", t.GetRelativeTolerance(), " path", o); }); };
  auto resolve = [&] { std::string f = in; for (auto &p : path) if (regular(join(p, in))) { f = join(p, in); break; } return f; };
  auto mode = [&](const char *when) { bool want = !in.empty() && regular(resolve()); c.require(t.GetCompareMode() == want, "mode", [&] { return cat(when, ": compare mode ", !want, " with input ", quote(in), ", the file would be ", quote(resolve())); }); };
  size_t n = s.size(10);
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({4, 2, 3, 1, 1, 1})) {
      case 0: in = s.chance(1, 8) ? "" : s.chance(1, 6) ? cat(R, "/d0/", name) : s.chance(1, 10) ? std::string("absent.xml") : name; t.SetInFileName(in); d += cat("SetInFileName ", quote(in), "\n"); break;
      case 1: { path.clear(); fileutil::PathList l; size_t m = s.below(4); d += "SetInFileSearchPath"; for (size_t j = 0; j < m; ++j) { path.push_back(dirName()); l.push_back(fileutil::PathName(path.back())); d += " " + quote(path.back()); } d += "\n"; t.SetInFileSearchPath(l); break; }
      case 2: { std::string p = dirName(); path.insert(path.begin(), p); t.PrependInFileSearchPath(fileutil::PathName(p)); d += cat("PrependInFileSearchPath ", quote(p), "\n"); break; }
      case 3: out = s.coin() ? "" : s.coin() ? "out1.xml" : R + "/out2.xml"; t.SetOutFileName(out); d += cat("SetOutFileName ", quote(out), "\n"); break;
      case 4: exp = (int)s.range(-2, 3); t.SetExpectedReturn(exp); d += cat("SetExpectedReturn ", exp, "\n"); break;
      default: tol = s.pick({0.0, 0.001, 0.02, 0.05, 0.5, 3.0, -0.02}); t.SetRelativeTolerance(tol); d += cat("SetRelativeTolerance ", tol, "\n"); }
    look(cat("after setting ", i + 1).c_str()); mode(cat("after setting ", i + 1).c_str());
  }
  std::vector<std::string> argv = {"prog"}; size_t m = s.below(4); bool fails = false; std::string in2 = in, out2 = out;
  for (size_t i = 0; i < m && !fails; ++i) switch (s.below(4)) {
    case 0: { std::string v = s.chance(1, 4) ? cat(R, "/d0/", name) : name; argv.insert(argv.end(), {"-I", v}); if (!regular(v)) fails = true; in2 = v; break; }
    case 1: out2 = s.coin() ? std::string("out3.xml") : R + "/out4.xml"; argv.insert(argv.end(), {"-O", out2}); break;
    case 2: exp = (int)s.range(-2, 3); argv.insert(argv.end(), {"-R", cat(exp)}); break;
    default: { std::string p = dirName(); struct stat st; if (p.empty()) p = "."; argv.insert(argv.end(), {"-P", p}); if (stat(p.c_str(), &st) || !S_ISDIR(st.st_mode)) fails = true; else path.insert(path.begin(), p); } }
  for (auto &a : argv) d += a + " ";
  for (int i = 0; i < ND + 2; ++i) { Op o; o.kind = INTEGER; o.name = cat("m", i); o.i = 1; t.ops.push_back(o); } Op o; o.kind = DOUBLE; o.name = "t"; o.d = s.pick({100.0, 100.01, 101.0, 104.0, 140.0, 350.0}); t.ops.push_back(o); d += cat("\nmeasures m0..m", ND + 1, " as 1 and t as ", o.d, "; t.ret expected\n");
  if (!fails) { in = in2; out = out2; } t.ret = exp; c.describe(d);
  std::string f = in.empty() ? "" : resolve(); bool bad = fails || (!in.empty() && (!regular(f) || pbt::readFile(f).find("</output>") == std::string::npos)); int which = -1;
  if (!bad && !in.empty()) { Doc p = parseXml(pbt::readFile(f)); for (size_t k = 0; k + 1 < p.root.kids.size(); ++k) if (p.root.kids[k].text == "1") which = (int)k; }
  // opening something that is no file could block
  struct stat st; if (!fails && !in.empty() && !stat(f.c_str(), &st) && S_ISFIFO(st.st_mode)) { c.label("fifo named itself"); return; }
  Result r = runMain(t, argv); auto ctx = [&] { std::string x; for (int q : t.results) x += cat(" ", q); return cat("the run returned ", r.ret, ", the calls", x, ", the baseline is ", quote(f), " (number ", which, ")\n", r.err); };
  if (bad) { c.require(r.ret != 0 && !t.ran, "bad-baseline", ctx); c.label(fails ? "unusable option" : "no usable baseline"); c.nontrivial(); return; }
  c.require(t.ran && t.inCompare == !in.empty(), "ran", ctx); look("after the run");
  std::string got = out.empty() ? r.out : pbt::readFile(out); c.require(out.empty() || r.out.empty(), "output", [&] { return cat("the output should be in ", quote(out), "\n", ctx(), r.out); });
  if (in.empty()) { Doc p = parseXml(got); c.require(r.ret == 0 && p.ok && p.root.kids.size() == t.ops.size(), "record", [&] { return cat("the output should be a document of ", t.ops.size(), " measurements in ", quote(out), "\n", got, ctx()); }); c.label("record"); if (n || m) c.nontrivial(); return; }
  int tm = numMatch(DOUBLE, "100", contentOf(o), tol); for (int i = 0; i < ND + 2; ++i) c.require((t.results[i] == 0) == (i == which), "another-baseline", ctx);
  if (tm != 2) { c.require((t.results[ND + 2] == 0) == (tm == 1), "tolerance", [&] { return cat(o.d, " against 100 under tolerance ", tol, "\n", ctx()); }); c.require(r.ret == ND + 1 + (tm == 0), "count", ctx); }
  c.require(!got.empty(), "report", ctx); c.nontrivial(); c.label(which == ND ? "baseline as named" : "baseline from the search path");
}
static const pbt::Property P = {"C33", "sequences of settings (input name, output name, expected return, search path, prepended path, tolerance) followed by options, over 1-4 directories holding files, directories, links, fifos and malformed files of the name; the getters and the mode are compared after every step, and the run shows which baseline, output and tolerance it used; non-trivial: a comparison, a failing run or a record with settings; distinct by the drawn choices",
  run, 50000, 600000, 0, 0, 0, 10, {"a baseline name that is itself a fifo is not opened"}};
PBT_MAIN(P)
