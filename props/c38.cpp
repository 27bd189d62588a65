// C38: runs in different threads do not influence each other.
#include "model.h"
#include "TestingFramework/tfBase64.h"
#include "TestingFramework/tfDiff.h"
#include "FileUtilities/FileUtilities.h"
#include <condition_variable>
#include <mutex>
#include <sched.h>
#include <thread>
using namespace model;

namespace {
const int MAXT = 4;
struct Cfg { std::vector<Op> ops; std::vector<Entry> base; bool compare = false, throws = false; int expected = 0, ret = 0, extra = 0; std::string blob, dir; unsigned yields = 0; };
struct Out { int ret = 0; bool ran = false; std::vector<int> results; std::string text, extra; };
// one thread at a time, in a drawn order, or all at once
struct Baton {
  std::mutex m; std::condition_variable cv; std::vector<int> order; size_t pos = 0; bool gone[MAXT] = {}; int n = 0, cur = -1;
  void next() { cur = -1; for (size_t k = 0; k < order.size() * 2 && cur < 0; ++k, ++pos) if (!gone[order[pos % order.size()]]) cur = order[pos % order.size()]; for (int i = 0; i < n && cur < 0; ++i) if (!gone[i]) cur = i; }
  void enter(int me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cur == me; }); }
  void pass(int me) { std::unique_lock<std::mutex> l(m); next(); cv.notify_all(); cv.wait(l, [&] { return cur == me; }); }
  void leave(int me) { std::unique_lock<std::mutex> l(m); gone[me] = true; next(); cv.notify_all(); }
};
}
static Out runOne(const Cfg &g, const std::string &file, const std::function<void(int)> &at) {
  Out o; Scripted t; t.ops = g.ops; t.ret = g.ret; std::string extra;
  t.hook = [&](int k) { at(k);
    if (g.extra & 1) { testutil::Base64 b; b.SetAddNewLines(k % 2); std::string e = b.Encode(g.blob.data(), g.blob.size()); std::vector<char> d(g.blob.size() + 4); size_t n = e.empty() ? 0 : b.Decode(e, &d[0]); extra += e + std::string(&d[0], n); at(k); }
    if (g.extra & 2) { std::ostringstream d; testutil::Diff(g.blob, g.blob.substr(g.blob.size() / 2) + "x\n" + g.blob, d); extra += d.str(); at(k); }
    if (g.extra & 4) { fileutil::PathName p(g.dir); extra += p.Tail().GetPathName() + p.DirectoryName().GetPathName() + p.Extension() + (p.IsDirectory() ? "d" : "f"); fileutil::PathList l = fileutil::GetPathListFromColonSeparatedList(g.dir + ":" + g.blob.substr(0, 20)); extra += pbt::cat(l.size()) + fileutil::PathName("b.xml").SearchPathList(l).GetPathName(); p.Append("x"); extra += p.GetPathName(); at(k); }
    if (g.extra & 8) { testutil::DoubleNumeric a, b; a.SetValue(k + 0.5); b = a; b.SetContentAsData(g.blob.data(), g.blob.size()); extra += a == b ? "=" : "!"; std::ostringstream p; p << a << b; extra += p.str(); at(k); }
    if (g.throws && k == (int)g.ops.size()) throw std::runtime_error("the test fails"); };
  std::vector<std::string> argv = {"prog", "-O", file, "-R", pbt::cat(g.expected)}; if (g.compare) { argv.push_back("-I"); argv.push_back(g.dir + "/b.xml"); } argv.push_back("-P"); argv.push_back(g.dir);
  Args a(argv); o.ret = t.Main(a.n, &a.p[0]); o.ran = t.ran; o.results = t.results; o.text = pbt::readFile(file); o.extra = extra; return o;
}
static std::string canon(const Cfg &g, const std::string &t) { // the elements; the time of a record may differ
  Doc d = parseXml(g.compare ? "<r>" + t + "</r>" : t); std::string r; if (!d.ok) { size_t i = t.find("-->"); return "not well-formed: " + (i == std::string::npos ? t : t.substr(i)); } for (auto &e : d.root.kids) { r += e.tag; for (auto &a : e.attr) r += " " + a.first + "=" + quote(a.second); r += ": " + quote(e.text, 3000) + "\n"; } return r; }
static Cfg genCfg(Source &s, const std::string &dir) {
  Cfg g; g.dir = dir; size_t n = 1 + s.below(8);
  while (g.ops.size() < n) { Op o; if (s.chance(1, 8)) { o.kind = FILE_TEXT; o.name = genName(s); o.text = s.chance(1, 3) ? dir + "/absent" : dir + "/f.txt"; } else { o = genOp(s); if (o.text.size() > 4000) o.text.resize(4000); if (o.name.size() > 300) o.name.resize(300); } g.ops.push_back(o); }
  g.compare = s.chance(2, 3); if (g.compare) { g.base = genBaseline(s, g.ops, FLT_EPSILON * 64); encodeSome(s, g.base, true); for (auto &e : g.base) if (e.file) e.content = "f.txt"; }
  g.throws = s.chance(1, 12); g.expected = s.chance(1, 6) ? 3 : 0; g.ret = s.chance(1, 6) ? 3 : 0; g.extra = (int)s.below(16); size_t m = s.below(200); for (size_t i = 0; i < m; ++i) g.blob += i % 9 == 8 ? '\n' : (char)s.range('a', 'e'); g.yields = (unsigned)s.below(1 << 16); return g;
}
static void run(Ctx &c) {
  Source &s = c.s; const std::string &R = c.scratch; int n = 2 + (int)s.below(MAXT - 1); static std::string done; if (done != R) { for (int i = 0; i < MAXT; ++i) mkdir(cat(R, "/t", i).c_str(), 0755); done = R; }
  std::vector<Cfg> g; for (int i = 0; i < n; ++i) { if (i && s.chance(1, 4)) { g.push_back(g[s.below(i)]); continue; } /* the same test with the same files */ std::string d = cat(R, "/t", i); g.push_back(genCfg(s, d)); pbt::writeFile(d + "/b.xml", writeDoc(g.back().base)); pbt::writeFile(d + "/f.txt", cat("file ", i, "\n")); }
  bool baton = s.chance(1, 3); std::vector<int> order; if (baton) { size_t m = 4 + s.below(40); for (size_t i = 0; i < m; ++i) order.push_back((int)s.below(n)); }
  std::string d; for (int i = 0; i < n; ++i) d += cat("thread ", i, ": ", g[i].compare ? "compare" : "record", g[i].throws ? ", throws at the end" : "", ", body returns ", g[i].ret, ", expected ", g[i].expected, ", other work ", g[i].extra, " in ", g[i].dir, "\n", show(g[i].ops), g[i].compare ? "baseline:\n" + show(g[i].base) : std::string()); d += baton ? "one at a time, in the order" : "all at once"; for (int k : order) d += cat(" ", k); c.describe(d + "\n");
  std::vector<Out> want, got(n); for (int i = 0; i < n; ++i) want.push_back(runOne(g[i], cat(R, "/o", i, ".xml"), [](int) {}));
  for (int rep = 0; rep < (baton ? 1 : 2); ++rep) {
    Baton b; b.order = order; b.n = n; if (baton) b.next(); std::mutex gate; std::vector<std::thread> th; gate.lock();
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
      if (baton) b.enter(i); else { gate.lock(); gate.unlock(); }
      unsigned y = g[i].yields; int calls = 0; got[i] = runOne(g[i], cat(R, "/p", i, ".xml"), [&](int) { if (baton) b.pass(i); else if (y >> (calls++ % 16) & 1) sched_yield(); });
      if (baton) b.leave(i); });
    gate.unlock(); for (auto &t : th) t.join();
    for (int i = 0; i < n; ++i) {
      c.require(got[i].ret == want[i].ret && got[i].ran == want[i].ran, "result", [&] { return cat("thread ", i, " got ", got[i].ret, ", alone ", want[i].ret); });
      c.require(got[i].results == want[i].results, "calls", [&] { return cat("the measurement calls of thread ", i, " gave other results than alone"); });
      std::string a = canon(g[i], want[i].text), b2 = canon(g[i], got[i].text); c.require(a == b2, "output", [&] { return cat("thread ", i, " wrote\n", b2, "alone\n", a); });
      c.require(got[i].extra == want[i].extra, "other-work", [&] { return cat("thread ", i, " got\n", quote(got[i].extra, 1500), "\nalone\n", quote(want[i].extra, 1500)); }); } }
  c.nontrivial(); c.label(baton ? "one at a time" : "all at once"); c.label(cat(n, " threads"));
}
static const pbt::Property P = {"C38", "2-4 threads, each with a test object, files and settings of its own (recording or comparing scripts with disagreements, encoded baselines, files, exceptions; base64, diffs, paths and measurement objects on the side), run all at once with random yields, or one at a time in a drawn order of switches between the measurements; each must give what it gives alone, and the thread sanitizer watches every memory access of the framework; non-trivial: all; distinct by the drawn choices",
  run, 20000, 300000, 0, 0, 0, 60, {"the tests do not write to standard output and do not change the working directory"}};
PBT_MAIN(P)
