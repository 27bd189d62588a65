// C32: whenever a run stops, its output holds everything measured before.
#include "model.h"
#include <signal.h>
#include <sys/wait.h>
using namespace model;

static std::string undated(const std::string &s) { size_t a = s.find("<!--"), b = s.find("-->"); return a == std::string::npos || b == std::string::npos || b < a ? s : s.substr(0, a) + s.substr(b); }
// what a record that stopped early has to hold
static std::string wrongRecord(const std::string &part, const std::vector<Op> &ops, size_t upto) {
  std::vector<const Op *> m; for (size_t i = 0; i < upto; ++i) if (ops[i].measures()) m.push_back(&ops[i]);
  if (m.empty() && part.empty()) return "";
  Doc d = parseXml(part + "</output>"); if (!d.ok) return "closing the output does not give a document: " + d.error;
  if (d.root.kids.size() != m.size()) return cat(d.root.kids.size(), " measurements, should be ", m.size());
  for (size_t i = 0; i < m.size(); ++i) { const Elem &e = d.root.kids[i]; const std::string *n = e.get("name"), *t = e.get("type"); if (!n || *n != m[i]->name || !t || *t != typeOf(*m[i]) || e.text != contentOf(*m[i])) return cat("measurement ", i + 1, " is not ", show(*m[i])); }
  return "";
}
static void run(Ctx &c) {
  Source &s = c.s; const std::string &R = c.scratch; std::string of = R + "/o.xml", bf = R + "/b.xml", tf = R + "/t.xml"; unlink(of.c_str());
  bool compare = s.coin(); std::vector<Op> ops; while (ops.size() < 12 && s.chance(7, 8)) { Op o; if (s.chance(1, 8)) { o.kind = FILE_TEXT; o.name = genName(s); o.text = s.pick({std::string("f0"), std::string("none"), std::string("a&b")}); o.img = (int)s.weighted({4, 2, 2}); } else if (s.chance(1, 10)) { o.kind = SET_TOL; o.tol = genTol(s); } else o = genOp(s); ops.push_back(o); }
  double tol = FLT_EPSILON * 64; std::vector<Entry> base; if (compare) { base = genBaseline(s, ops, tol); pbt::writeFile(bf, writeDoc(base)); }
  size_t at = s.below(ops.size() + 1), before = 0; for (size_t i = 0; i < at; ++i) before += ops[i].measures();
  enum { LOOK, THROW, EXIT, KILL, ABORT } how = (decltype(LOOK))s.weighted({6, 3, 1, 1, 1}); bool toFile = how == LOOK || s.coin();
  static const char *H[] = {"is looked at", "throws", "calls _exit", "is killed", "aborts"};
  c.describe(cat(compare ? "compare" : "record", toFile ? " to a file" : " to standard output", "; the body ", H[how], how == LOOK ? " before every step" : cat(" before step ", at), "\n", show(ops), compare ? "baseline:\n" + show(base) : std::string()));
  std::vector<std::string> argv = {"prog"}; if (compare) { argv.push_back("-I"); argv.push_back(bf); } if (toFile) { argv.push_back("-O"); argv.push_back(of); }
  c.label(H[how]); c.label(compare ? "compare" : "record"); if (before) c.nontrivial();
  std::string got, final; std::vector<std::string> parts; Scripted t; t.ops = ops;
  if (how == LOOK) {
    t.hook = [&](int) { parts.push_back(pbt::readFile(of)); }; Result r = runMain(t, argv); final = pbt::readFile(of); c.require(t.ran && parts.size() == ops.size() + 1, "ended", [&] { return r.err; });
    for (size_t i = 0; i < parts.size(); ++i) {
      c.require(final.compare(0, parts[i].size(), parts[i]) == 0, "prefix", [&] { return cat("before step ", i, " the output holds\n", parts[i], "\nwhich is no beginning of the final\n", final); });
      if (!compare) { std::string w = wrongRecord(parts[i], ops, i); c.require(w.empty(), "lost", [&] { return cat("before step ", i, " the output holds\n", parts[i], "\n", w); }); } }
    got = parts[at]; if (compare) c.require(final == parts[ops.size()], "late", [&] { return cat("the report grows after the body\n", final); });
  } else if (how == THROW) {
    t.hook = [&](int i) { if ((size_t)i == at) throw std::runtime_error("stop"); }; Result r = runMain(t, argv); got = toFile ? pbt::readFile(of) : r.out; c.require(r.ret != 0, "verdict", [&] { return cat("returned ", r.ret); });
  } else {
    fflush(stdout); fflush(stderr); std::cout.flush(); pid_t p = fork(); if (p < 0) throw pbt::Discard();
    if (!p) { int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(toFile ? nul : fd, 1); close(fd);
      t.hook = [&](int i) { if ((size_t)i == at) { if (how == EXIT) _exit(7); if (how == KILL) raise(SIGKILL); abort(); } }; Args a(argv); t.Main(a.n, &a.p[0]); _exit(99); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} c.require(how == EXIT ? WIFEXITED(st) && WEXITSTATUS(st) == 7 : WIFSIGNALED(st) && WTERMSIG(st) == (how == KILL ? SIGKILL : SIGABRT), "child", [&] { return cat("wait status ", st); });
    got = pbt::readFile(of);
  }
  if (compare) { // the report of a run that makes only these measurements
    Scripted q; q.ops.assign(ops.begin(), ops.begin() + at); Result r = runMain(q, {"prog", "-I", bf, "-O", tf}); std::string want = pbt::readFile(tf);
    c.require(got == want, "report", [&] { return cat("the report holds\n", got, "\nshould hold\n", want); }); if (!want.empty()) c.label("something to report");
  } else {
    std::string w = wrongRecord(got, ops, at); c.require(w.empty(), "lost", [&] { return cat("the output holds\n", got, "\n", w); });
    if (how != LOOK) { Scripted q; q.ops.assign(ops.begin(), ops.begin() + at); pbt::writeFile(tf, got); Result r = runMain(q, {"prog", "-I", tf}); c.require(r.ret != 0 && !q.ran, "accepted", [&] { return "the record of a run that stopped early is accepted as a baseline\n" + got; });
      // a complete run afterwards replaces it
      if (s.chance(1, 3)) { Scripted u; u.ops = ops; Result x = runMain(u, {"prog", "-O", of}); std::string full = pbt::readFile(of); size_t e = full.rfind("</output>"); c.require(x.ret == 0 && e != std::string::npos && wrongRecord(full.substr(0, e), ops, ops.size()).empty(), "again", [&] { return "recording again gives\n" + full; }); } }
  }
}
static const pbt::Property P = {"C32", "recording and comparing runs whose body is stopped before a random step by an exception, _exit, SIGKILL or abort (in a child process, on its real standard output or a file), or whose output file is read before every step; records are closed and read by an XML parser, reports compared with a run of only the earlier measurements, and the record of a stopped run is tried as a baseline; non-trivial: a measurement precedes the stop; distinct by the drawn choices",
  run, 24000, 400000, 0, 0, 0, 20, {"a stop is seen as the operating system leaves the file: losing what the kernel holds (power failure) is not modelled"}};
PBT_MAIN(P)
