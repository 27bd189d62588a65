// C03: errors never turn into success; the verdict rule.
#include "model.h"
#include <new>
#include <typeinfo>
using namespace model;

struct Odd {};
static const int NEXC = 19;
static void thrower(int k) {
  switch (k) {
    case 0: throw std::runtime_error("x"); case 1: throw std::logic_error("x"); case 2: throw std::length_error("x"); case 3: throw std::domain_error("x");
    case 4: throw std::out_of_range("x"); case 5: throw std::invalid_argument("x"); case 6: throw std::bad_alloc(); case 7: throw std::bad_cast();
    case 8: throw std::range_error("x"); case 9: throw std::overflow_error("x"); case 10: throw std::underflow_error("x"); case 11: throw std::exception();
    case 12: throw 0; case 13: throw "text"; case 14: throw Odd(); case 15: throw std::ios_base::failure("x"); case 16: throw std::string("x"); case 17: throw (long)-1; default: throw std::bad_typeid();
  }
}
static void run(Ctx &c) {
  Source &s = c.s;
  std::string top = c.scratch + "/w"; pbt::emptyDir(c.scratch); mkdir(top.c_str(), 0755); mkdir((top + "/other").c_str(), 0755); mkdir((top + "/data").c_str(), 0755);
  char old[4096]; if (!getcwd(old, sizeof old)) throw pbt::Discard();
  if (chdir(top.c_str())) throw pbt::Discard();
  struct Back { const char *o; ~Back() { if (chdir(o)) {} } } back{old};
  bool compare = s.chance(2, 3);
  std::vector<Op> ops = genOps(s, 8);
  double tol = std::numeric_limits<float>::epsilon() * 64.0;
  std::vector<Entry> base = genBaseline(s, ops, tol);
  static const int rets[] = {0, 0, 0, 1, -1, 2, 5, 255, 256, -2, INT_MAX, INT_MIN, 3};
  int expected = s.coin() ? 0 : s.pick(rets), ret = s.chance(3, 4) ? expected : s.pick(rets);
  bool viaArg = s.coin();
  std::vector<std::string> argv = {"prog"}; std::string d;
  std::vector<std::vector<std::string> > opt;
  if (viaArg && (expected || s.coin())) opt.push_back({"-R", cat(expected)});
  // how the run fails, if it does
  enum { NONE, THROW, NO_BASE, BAD_BASE, O_NODIR, O_ISDIR, P_BAD, EMPTY_BASE } fail = NONE;
  if (s.chance(2, 5)) fail = compare ? s.pick({THROW, NO_BASE, BAD_BASE, O_NODIR, O_ISDIR, P_BAD, EMPTY_BASE}) : s.pick({THROW, THROW, O_NODIR, O_ISDIR, P_BAD});
  std::string doc = writeDoc(base); int how = 0, exc = (int)s.below(NEXC); size_t at = s.below(ops.size() + 1);
  if (fail == BAD_BASE) { how = (int)s.below(5); switch (how) { case 0: doc.resize(s.below(doc.size() - 10)); break; case 1: doc += "<x>"; break; case 2: doc.insert(doc.rfind("</output>"), "<"); break; case 3: doc.insert(doc.rfind("</output>"), "&nope;"); break; default: doc = "not xml"; }
    Doc p = parseXml(doc); if (p.ok) fail = NONE; }
  if (fail == EMPTY_BASE) doc = "";
  int place = (int)s.below(3); // how the baseline is named: absolute, relative, relative with a directory
  std::string bfile = place == 2 ? top + "/data/b.xml" : top + "/b.xml", bname = place == 0 ? bfile : place == 1 ? "b.xml" : "data/b.xml";
  if (fail != NO_BASE) pbt::writeFile(bfile, doc); else if (s.coin()) mkdir(bfile.c_str(), 0755);
  if (compare) opt.push_back({"-I", bname});
  bool out = s.coin();
  if (fail == O_NODIR) opt.push_back({"-O", "missing/out.xml"}); else if (fail == O_ISDIR) opt.push_back({"-O", "other"}); else if (out) opt.push_back({"-O", s.coin() ? "out.xml" : top + "/out.xml"});
  if (fail == P_BAD) opt.push_back({"-P", s.coin() ? "missing" : "/dev/null"}); else if (s.chance(1, 4)) opt.push_back({"-P", s.coin() ? "data" : top + "/data"});
  for (size_t i = opt.size(); i > 1; --i) std::swap(opt[i - 1], opt[s.below(i)]);
  for (auto &o : opt) for (auto &x : o) argv.push_back(x);
  size_t extra = s.below(3); for (size_t i = 0; i < extra; ++i) argv.push_back(cat("arg", i));
  int side = s.coin() ? 0 : 1 + (int)s.below(6); size_t sideAt = s.below(ops.size() + 1);
  static const char *names[] = {"none", "chdir into a subdirectory", "baseline deleted", "baseline replaced by an empty document", "baseline renamed", "chdir /", "baseline made a directory"};
  static const char *fails[] = {"none", "exception", "no baseline", "malformed baseline", "-O in a missing directory", "-O names a directory", "-P no directory", "empty baseline"};
  for (auto &a : argv) d += a + " ";
  c.describe(cat(d, "\nexpected ", expected, viaArg ? " by option" : " by SetExpectedReturn", ", body returns ", ret, ", failure: ", fails[fail], fail == THROW ? cat(" no. ", exc, " before step ", at) : std::string(), ", side effect before step ", sideAt, ": ", names[side], "\ntest:\n", show(ops), compare ? "baseline:\n" + show(base) : std::string()));
  Scripted t; t.ops = ops; t.ret = ret; if (!viaArg) t.SetExpectedReturn(expected);
  t.hook = [&](int i) {
    if (side && (size_t)i == sideAt) switch (side) {
      case 1: if (chdir("other")) {} break; case 2: unlink(bfile.c_str()); break;
      case 3: pbt::writeFile(bfile, writeDoc({})); break; case 4: rename(bfile.c_str(), (top + "/moved").c_str()); break;
      case 5: if (chdir("/")) {} break; default: unlink(bfile.c_str()); mkdir(bfile.c_str(), 0755); break; }
    if (fail == THROW && (size_t)i == at) thrower(exc);
  };
  Result r = runMain(t, argv);
  auto ctx = [&] { return cat("returned ", r.ret, "\n", r.err, r.out); };
  if (fail != NONE) {
    c.require(r.ret != 0, "failure-succeeds", ctx);
    c.require(fail == THROW || !t.ran, "body-ran", [&] { return "the body ran although the run could not begin: " + ctx(); });
    c.label(cat("fails: ", fails[fail])); c.nontrivial(); return;
  }
  c.require(t.ran, "body-not-run", ctx);
  if (ret != expected) { c.require(r.ret == ret, "other-return", ctx); c.label("body returns another value"); c.nontrivial(); return; }
  if (!compare) { c.require(r.ret == 0, "record", ctx); c.label("clean record"); return; }
  Verdict v = compareModel(ops, base, tol);
  c.require(r.ret >= v.lo && r.ret <= v.hi, "count", [&] { return cat(ctx(), "\nexpected ", v.lo, "..", v.hi); });
  c.label(v.lo ? "compare with disagreements" : "compare, clean"); if (side) c.label("side effect while comparing");
  if (v.lo || side || expected) c.nontrivial();
}
static const pbt::Property P = {"C03", "runs over mode, expected and returned value, option order, failure kind and point (19 exception types, bad baseline, bad output, bad search path), disagreements and what the body does to the working directory and the baseline; non-trivial: a failure, another return value, a disagreement, a side effect or an expected value other than 0; distinct by the drawn choices",
  run, 40000, 1000000, 10000, 400000, 1500, 10, {"Main is called once per test object"}};
PBT_MAIN(P)
