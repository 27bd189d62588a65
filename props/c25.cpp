// C25: a recording that could not be written is not a success.
#include "model.h"
#include <signal.h>
#include <sys/resource.h>
using namespace model;

struct Limited : std::streambuf { // takes n bytes, then fails
  size_t n; std::string got; int chunk; bool syncFails;
  long refuse = -1; // writes that fail before it takes more again; -1: all of them
  Limited(size_t k, int ch, bool sf) : n(k), chunk(ch), syncFails(sf) {}
  void failed() { if (refuse > 0 && --refuse == 0) n = (size_t)-1; }
  int_type overflow(int_type ch) override { if (got.size() >= n) { failed(); return traits_type::eof(); } got += (char)ch; return ch; }
  std::streamsize xsputn(const char *p, std::streamsize k) override { size_t left = n - got.size(), m = (size_t)k < left ? k : left; got.append(p, m); if (m < (size_t)k) failed(); return m; }
  int sync() override { return syncFails && got.size() >= n ? -1 : 0; }
};
struct FileLimit { // writes beyond k bytes fail while this is alive
  rlimit old; bool ok;
  FileLimit(rlim_t k) { signal(SIGXFSZ, SIG_IGN); ok = !getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = k; ok = ok && !setrlimit(RLIMIT_FSIZE, &r); }
  void lift() { setrlimit(RLIMIT_FSIZE, &old); }
  ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static std::string undated(const std::string &s) { size_t i = s.find("<!--"), j = s.find("-->"); return i == std::string::npos || j == std::string::npos || j < i ? s : s.substr(0, i) + s.substr(j + 3); }
static void run(Ctx &c) {
  Source &s = c.s; std::vector<Op> ops = genOps(s, s.chance(1, 10) ? 60 : 8); if (s.chance(1, 4)) { Op o; o.kind = PLAIN; o.name = "large"; std::string u = "line of text\n"; size_t n = s.below(40000); while (o.text.size() < n) o.text += u; ops.insert(ops.begin() + s.below(ops.size() + 1), o); }
  std::string f = c.scratch + "/out.xml"; int ret = s.coin() ? 0 : (int)s.range(-3, 300);
  // the whole document
  std::string whole; { Scripted t; t.ops = ops; Result r = runMain(t, {"prog"}); c.require(r.ret == 0, "record", [&] { return r.err; }); whole = r.out; }
  size_t k; switch (s.below(6)) { case 0: k = s.below(200) < whole.size() ? s.below(200) : 0; break; case 1: k = whole.size() - 1 - s.below(12); break; case 2: k = whole.size() + s.below(3); break; case 3: { size_t at = whole.find('\n', s.below(whole.size())); k = at == std::string::npos ? whole.size() - 1 : at + s.below(2); break; } default: k = s.below(whole.size()); }
  int how = (int)s.weighted({5, 3, 1}); bool old = s.coin(); bool passes = s.chance(1, 3); size_t when = s.below(ops.size() + 1); long refuse = 1 + (long)s.size(8); // the failure may pass
  static const char *names[] = {"the file may not grow beyond", "standard output fails after", "device full, instead of"};
  c.describe(cat(names[how], " ", k, " of ", whole.size(), " bytes", passes && how == 0 ? cat(", until step ", when + 1) : passes && how == 1 ? cat(", for ", refuse, " writes") : std::string(), "; the body returns ", ret, " as expected\n", show(ops)));
  Scripted t; t.ops = ops; t.ret = ret; t.SetExpectedReturn(ret); int r = 0; std::string got, log; bool exc = false;
  if (how == 0) {
    if (old) pbt::writeFile(f, std::string(s.below(3000), 'x')); else unlink(f.c_str());
    { FileLimit l(k); if (!l.ok) throw pbt::Discard(); if (passes) t.hook = [&](int i) { if ((size_t)i == when) l.lift(); }; Result x = runMain(t, {"prog", "-O", f}); r = x.ret; log = x.err + x.out; } got = pbt::readFile(f);
  } else if (how == 1) {
    Limited b(k, 1, s.coin()); if (passes) b.refuse = refuse; Capture cap; std::cout.rdbuf(&b); std::cout.clear(); Args a({"prog"}); r = t.Main(a.n, &a.p[0]); std::cout.rdbuf(cap.out.rdbuf()); std::cout.clear(); got = b.got; log = cap.err.str();
  } else { k = 0; Result x = runMain(t, {"prog", "-O", "/dev/full"}); r = x.ret; log = x.err + x.out; }
  (void)exc;
  if (how == 1 && k == whole.size() && r != 0) { c.label("failing flush after the last byte"); return; } // the flush itself failed
  auto show = [&] { return cat("returned ", r, ", ", got.size(), " of ", whole.size(), " bytes were written\n", log); };
  bool all = undated(got) == undated(whole);
  if (k < whole.size() && passes && how < 2) { c.require(r != 0 || all, "incomplete-succeeds", show); if (!all) c.nontrivial(); c.label(all ? "nothing was lost" : "the failure passes"); }
  else if (k < whole.size()) { c.require(r != 0, "incomplete-succeeds", show); c.nontrivial(); c.label(how == 2 ? "device full" : k < 160 ? "fails in the head" : k >= whole.size() - 12 ? "fails in the last 12 bytes" : "fails in the middle"); }
  else { c.require(r == 0, "complete-fails", show); c.require(all, "not-complete", [&] { return cat("returned 0, but the document is\n", got); }); c.label("no failure"); }
}
static const pbt::Property P = {"C25", "random scripts recorded while the output file is limited to, or standard output fails after, a generated number of bytes (mostly short of the document: first and last bytes, line ends, anywhere), or goes to a full device, where one failure in three passes during the run; non-trivial: a part of the document was lost; distinct by the drawn choices",
  run, 120000, 2000000, 30000, 600000, 1500, 10, {"SIGXFSZ is ignored, so that a full file is a write error", "errors that only appear when a file is closed are not injected"}};
PBT_MAIN(P)
