// C16: framework options are consumed, everything else is passed through.
#include "model.h"
using namespace model;

static void run(Ctx &c) {
  Source &s = c.s; const std::string &d = c.scratch;
  static std::string made; // the fixed files, once per process
  if (made != d) { pbt::emptyDir(d); mkdir((d + "/p1").c_str(), 0755); mkdir((d + "/p2").c_str(), 0755); mkdir((d + "/-I").c_str(), 0755); pbt::writeFile(d + "/b1.xml", writeDoc({})); pbt::writeFile(d + "/b2.xml", writeDoc({})); pbt::writeFile(d + "/-O", writeDoc({})); made = d; }
  char old[4096]; if (!getcwd(old, sizeof old) || chdir(d.c_str())) throw pbt::Discard();
  struct Back { const char *o; ~Back() { if (chdir(o)) {} } } back{old};
  std::vector<std::string> argv; 
  static const std::string plain[] = {"x", "", "-", "--", "-i", "-o", "-OO", "-I ", " -R", "--I", "-Ifile", "-r", "-p", "-help", "b1.xml", "0", "-1", "P", "-T"};
  static const std::string any[] = {"-I", "-O", "-R", "-P", "x", "", "-x", "o1.xml", "b1.xml"};
  bool wild = s.chance(1, 4);
  if (!s.chance(1, 40)) argv.push_back(s.pick({std::string("prog"), std::string("-I"), std::string(""), std::string("/a/b/prog")}));
  if (!argv.empty()) {
    size_t n = s.size(14);
    if (wild) { for (size_t i = 0; i < n; ++i) argv.push_back(s.coin() ? s.pick(any) : s.pick(plain)); }
    else {
      bool opts = true;
      for (size_t i = 0; i < n; ++i) {
        if (opts && s.chance(1, 8)) opts = false;
        if (!opts && s.coin()) { argv.push_back(s.pick(plain)); continue; }
        std::string abs = s.chance(1, 3) ? d + "/" : std::string();
        switch (s.below(4)) {
          case 0: argv.push_back("-O"); argv.push_back(s.chance(1, 16) ? s.pick({std::string("nodir/o"), std::string("p1"), std::string("")}) : abs + s.pick({std::string("o1.xml"), std::string("o2.xml"), std::string("-R"), std::string("-O2")})); break;
          case 1: argv.push_back("-I"); argv.push_back(s.chance(1, 12) ? s.pick({std::string("missing.xml"), std::string("p1"), std::string(""), std::string("-P")}) : abs + s.pick({std::string("b1.xml"), std::string("b2.xml"), std::string("-O"), std::string("p1/../b1.xml")})); break;
          case 2: argv.push_back("-R"); { long v = s.chance(1, 4) ? (long)(int)s.u64() : s.range(-3, 300); std::string q = cat(v); if (s.chance(1, 4)) q.insert(v < 0 ? 1 : 0, s.range(1, 3), '0'); if (v >= 0 && s.chance(1, 8)) q = "+" + q; argv.push_back(q); break; }
          default: argv.push_back("-P"); argv.push_back(s.chance(1, 12) ? s.pick({std::string("missing"), std::string("b1.xml"), std::string("")}) : abs + s.pick({std::string("p1"), std::string("p2"), std::string("."), std::string("-I"), std::string("p1/")}));
        }
      }
      if (s.chance(1, 6)) argv.push_back(s.pick({std::string("-I"), std::string("-O"), std::string("-R"), std::string("-P")}));
    }
  }
  int ret = (int)s.range(-2, 4); std::string txt; for (auto &a : argv) txt += quote(a) + " ";
  c.describe(cat("arguments: ", txt, "\nthe body returns ", ret, "\n"));
  // outputs of earlier cases
  for (auto &a : argv) { std::string b = a.substr(a.rfind('/') + 1); if (b != "b1.xml" && b != "b2.xml" && b != "-O" && !b.empty() && access(a.c_str(), F_OK) == 0) unlink(b.c_str()); }
  // the reference
  std::string in, out; long expected = 0; std::list<std::string> path; bool fails = false; std::vector<std::string> want; size_t i = 1, used = 0; bool dangling = false, oddR = false;
  auto isFile = [](const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISREG(st.st_mode); };
  auto isDir = [](const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); };
  for (; i < argv.size(); i += 2) {
    const std::string &o = argv[i]; if (o != "-I" && o != "-O" && o != "-R" && o != "-P") break;
    if (i + 1 >= argv.size()) { dangling = true; break; }
    const std::string &v = argv[i + 1]; ++used;
    if (o == "-I") { if (!isFile(v)) { fails = true; break; } in = v; } else if (o == "-O") out = v;
    else if (o == "-R") { char *e; expected = strtol(v.c_str(), &e, 10); if (v.empty() || *e) oddR = true; } else { if (!isDir(v)) { fails = true; break; } path.push_front(v); }
  }
  if (oddR) throw pbt::Discard(); // not a number: nothing is promised
  if (!argv.empty()) want.push_back(argv[0]); for (size_t k = i; k < argv.size() && !fails; ++k) want.push_back(argv[k]);
  if (!out.empty() && (isDir(out) || (out.find('/') != std::string::npos && !isDir(out.substr(0, out.rfind('/')))))) fails = true;
  if (!out.empty() && !in.empty() && (out == in || out == "b1.xml" || out == "b2.xml")) throw pbt::Discard(); // would overwrite the baseline
  if (out == "-O" || out.find("b1.xml") != std::string::npos || out.find("b2.xml") != std::string::npos || out == d + "/-O") throw pbt::Discard();
  Scripted t; t.ret = ret; Result r = runMain(t, argv);
  if (fails) { c.require(r.ret != 0 && !t.ran, "bad-option", [&] { return cat("an unusable option value, but the run returned ", r.ret, t.ran ? " and the body ran" : ""); }); c.label("unusable value"); c.nontrivial(); return; }
  c.require(t.ran, "not-run", [&] { return r.err; });
  c.require(t.seen == want, "passed-on", [&] { std::string g, w; for (auto &x : t.seen) g += quote(x) + " "; for (auto &x : want) w += quote(x) + " "; return cat("the body got ", g, "\nshould get ", w); });
  c.require(t.GetInFileName() == in, "in-file", [&] { return cat("-I is ", quote(t.GetInFileName()), ", should be ", quote(in)); });
  c.require(t.GetOutFileName() == out, "out-file", [&] { return cat("-O is ", quote(t.GetOutFileName()), ", should be ", quote(out)); });
  c.require(t.GetExpectedReturn() == (int)expected, "expected", [&] { return cat("-R is ", t.GetExpectedReturn(), ", should be ", expected); });
  std::list<std::string> got; for (auto &p : t.GetInFileSearchPath()) got.push_back(p.GetPathName());
  c.require(got == path, "path", [&] { std::string g; for (auto &p : got) g += p + ":"; return cat("search path is ", g); });
  c.require(t.inCompare == !in.empty(), "mode", [&] { return std::string("wrong mode"); });
  c.require(r.ret == (ret == (int)expected ? 0 : ret), "result", [&] { return cat("returned ", r.ret); });
  c.require(in.empty() && out.empty() ? r.out.find("<output>") != std::string::npos : r.out.empty(), "output", [&] { return quote(r.out); });
  if (!in.empty() && !out.empty()) c.require(pbt::readFile(out).empty(), "report", [&] { return quote(pbt::readFile(out)); });
  if (in.empty() && !out.empty()) c.require(pbt::readFile(out).find("<output>") != std::string::npos, "record", [&] { return quote(pbt::readFile(out)); });
  if (used || dangling) c.nontrivial(); c.label(dangling ? "option without a value" : used == 0 ? "no option" : used < 3 ? "1-2 options" : "3+ options");
  if (want.size() > 1) c.label("arguments passed on");
}
static const pbt::Property P = {"C16", "random argument lists of the four options (repeated, with usable and unusable values, values that look like options, without value) and ordinary arguments and look-alikes, run in a scratch directory against an independent reading of the list; non-trivial: at least one option; distinct by the drawn choices",
  run, 300000, 3000000, 60000, 1000000, 600, 5, {"-R values are decimal integers", "the output never names the baseline itself"}};
PBT_MAIN(P)
