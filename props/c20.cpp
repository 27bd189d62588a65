// C20: piping a command records its exact output and judges its exit.
#include "model.h"
using namespace model;
int tfPipeToXML_main(int argc, char *argv[]);

static Result tool(const std::vector<std::string> &argv) { Args a(argv); Result r; Capture c; r.ret = tfPipeToXML_main(a.n, &a.p[0]); r.out = c.out.str(); r.err = c.err.str(); return r; }
static std::string genOut(Source &s) {
  switch (s.below(4)) {
    case 0: return s.pick({std::string(), std::string("x"), std::string("a\nb\n"), std::string("&<>\"]]>"), std::string("\n"), std::string("</DartMeasurement>")});
    case 1: { std::string r; size_t n = s.size(60); for (size_t i = 0; i < n; ++i) r += genTextChar(s); return r; }
    case 2: return genText(s, 5000);
    default: { static const size_t ns[] = {1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 200000}; size_t n = s.pick(ns); std::string u, r; size_t k = 1 + s.below(9); for (size_t i = 0; i < k; ++i) u += genTextChar(s); while (r.size() < n) r += u; r.resize(n); return r; }
  }
}
static void run(Ctx &c) {
  Source &s = c.s; std::string top = c.scratch, plan = top + "/plan", rec = top + "/rec.xml"; const char *helper = getenv("PBT_HELPER"); if (!helper) throw pbt::Failure{"setup", "no helper"};
  // the plan
  std::string out = genOut(s), err = s.coin() ? std::string() : genOut(s), p, extra, expectOut; size_t o = 0, e = 0; bool args = s.chance(1, 4), split = s.coin();
  std::vector<std::string> more; if (args) { size_t n = s.size(6); for (size_t i = 0; i < n; ++i) more.push_back(s.chance(1, 4) ? s.pick({std::string("-I"), std::string("-O"), std::string("-R"), std::string(""), std::string("a b"), std::string("--"), std::string("*"), std::string("$HOME"), std::string("\"")}) : genName(s)); }
  bool slow = false; int delays = 0; size_t steps = 0;
  while (o < out.size() || e < err.size()) {
    bool to = o < out.size() && (e >= err.size() || s.coin()); std::string &b = to ? out : err; size_t &k = to ? o : e; size_t left = b.size() - k, n = left;
    if (split && steps < 40) { n = s.coin() ? 1 + s.below(left < 12 ? left : 12) : 1 + s.below(left); }
    p += cat(to ? "o " : "e ", n, "\n"); k += n; ++steps;
    if (!slow && !delays && s.chance(1, 400)) { slow = true; p += cat("s ", 1000000 + s.below(5500000), "\n"); c.label("slow command"); }
    if (delays < 3 && s.chance(1, 12)) { ++delays; p += cat("s ", s.below(15000), "\n"); }
  }
  std::string stdoutText = out;
  if (args) { p += "a 0\n"; for (auto &m : more) stdoutText += m + "\n"; }
  if (s.chance(1, 8)) { p += s.coin() ? "c 1\n" : "c 2\n"; if (s.coin()) p += "s 8000\n"; }
  // how it ends
  static const int sigs[] = {9, 15, 6, 11, 2, 13, 14, 8, 1, 3, 4, 7, 5, 10, 12, 24};
  int how = (int)s.weighted({6, 2, 1}), code = 0; // exits, dies, cannot be started
  if (how == 0) { code = s.coin() ? 0 : s.coin() ? (int)s.range(1, 5) : (int)s.range(0, 255); p += cat("x ", code, "\n"); } else if (how == 1) p += cat("k ", code = s.pick(sigs), "\n");
  int expected = s.coin() ? 0 : s.coin() && how == 0 ? code : s.pick({-1, 1, 2, 9, 15, 134, 137, 255, 6, 11, 3, -9});
  if (how == 1 && s.coin()) expected = s.pick({code, 128 + code, -code, 256 + code, 128 - code, code << 8, code | 128});
  pbt::writeFile(plan, p); pbt::writeFile(plan + ".out", out); pbt::writeFile(plan + ".err", err); unlink(rec.c_str());
  std::vector<std::string> argv = {"tfPipeToXML"}; if (expected || s.coin()) { argv.push_back("-R"); argv.push_back(cat(expected)); }
  std::vector<std::string> cmd = {helper, plan}; if (how == 2) cmd[0] = s.pick({top + "/missing", std::string("/verif-no-such-command"), top, plan, std::string("")});
  for (auto &m : more) cmd.push_back(m);
  bool toFile = s.chance(2, 3); std::string d; for (auto &x : more) d += quote(x) + " ";
  c.describe(cat("the command writes ", quote(out), " to standard output and ", quote(err), " to standard error, by\n", p.size() > 600 ? p.substr(0, 600) + "..." : p, "arguments: ", d, "\n", how == 0 ? cat("exits with ", code) : how == 1 ? cat("dies by signal ", code) : "cannot be started: " + cmd[0], ", expected ", expected, toFile ? ", recorded with -O\n" : ", recorded on standard output\n"));
  std::vector<std::string> a = argv; if (toFile) { a.push_back("-O"); a.push_back(rec); } for (auto &x : cmd) a.push_back(x);
  Result r = tool(a);
  auto show = [&] { return cat("returned ", r.ret, "\n", r.err.substr(0, 2000), r.out.substr(0, 3000)); };
  c.label(how == 0 ? (code == expected ? "exits as expected" : "exits otherwise") : how == 1 ? "dies by a signal" : "cannot be started");
  if (how) { c.require(r.ret != 0, "failed-command-succeeds", show); c.nontrivial(); if (how == 2) return; }
  else if (code != expected) { c.require(code == 0 || r.ret != 0, "unexpected-exit-succeeds", show); } // 0 where another value is expected is left open
  else c.require(r.ret == 0, "record", show);
  if (how == 0) {
  std::string doc = toFile ? pbt::readFile(rec) : r.out; Doc x = parseXml(doc);
  c.require(x.ok, "malformed", [&] { return cat(x.error, "\n", doc.substr(0, 3000)); });
  c.require(x.root.kids.size() == 1, "elements", [&] { return cat(x.root.kids.size(), " measurements\n", doc.substr(0, 3000)); });
  const Elem &el = x.root.kids[0]; const std::string *t = el.get("type");
  c.require(t && *t == "text/plain", "type", [&] { return doc.substr(0, 3000); });
  c.require(el.text == stdoutText, "output", [&] { size_t i = 0; while (i < el.text.size() && i < stdoutText.size() && el.text[i] == stdoutText[i]) ++i; return cat("recorded ", el.text.size(), " bytes instead of ", stdoutText.size(), ", the first difference is at ", i, ": ", quote(el.text.substr(i, 200)), " instead of ", quote(stdoutText.substr(i, 200))); });
  if (!toFile) pbt::writeFile(rec, doc);
  c.label(err.empty() ? "nothing on standard error" : "both streams used"); if (stdoutText.size() > 60000) c.label("more than a pipe holds");
  }
  c.nontrivial();
  if (how == 0 && code != expected) return;
  // against the record
  std::vector<std::string> b = argv; if (how == 1) { Entry en; en.name = "stdout"; en.type = "text/plain"; en.content = stdoutText; pbt::writeFile(rec, writeDoc({en})); }
  b.push_back("-I"); b.push_back(rec); for (auto &y : cmd) b.push_back(y);
  r = tool(b);
  if (how == 1) { c.require(r.ret != 0, "killed-command-matches", show); return; }
  c.require(r.ret == 0, "replay", show);
  if (s.chance(2, 3)) { // and with another output
    std::string z = out;
    if (out.empty()) { z = "y"; pbt::writeFile(plan, "o 1\n" + p); }
    else { size_t i = s.pick({(size_t)0, out.size() - 1, (size_t)s.below(out.size())}); z[i] = z[i] == 'Q' ? 'q' : 'Q'; }
    pbt::writeFile(plan + ".out", z); r = tool(b);
    c.require(r.ret != 0, "difference-unseen", [&] { return cat("the output changed to ", quote(z), "\n", show()); }); c.label("changed output");
  }
}
static const pbt::Property P = {"C20", "generated commands: any printable output and error text, split over interleaved writes with delays, early closing of a stream, arguments, exit codes, fatal signals and commands that cannot be started; recorded, replayed and replayed with one byte changed; distinct by the drawn choices; non-trivial: an output was recorded or the command failed",
  run, 3000, 60000, 0, 0, 900, 20, {"the output is text of printable characters, tabs, newlines and carriage returns", "exit code 0 where another return value is expected is not judged"}};
PBT_MAIN(P)
