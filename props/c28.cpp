// C28: a measurement call tells its caller whether the measurement agreed.
#include "images.h"
#include "composite.h"
using namespace model;

namespace {
struct Step { int what = 0; Op op; Val val; std::vector<size_t> at; }; // 0 scalar or tolerance, 1 composite, 2 text file, 3 image file; at: baseline positions
struct Rets : ScriptedT<itk::Regression> {
  using itk::Regression::MeasurementInsightFileImage; using itk::Regression::MeasurementInsightSize; using itk::Regression::MeasurementInsightIndex; using itk::Regression::MeasurementInsightRegion; using itk::Regression::MeasurementInsightPoint; using itk::Regression::MeasurementInsightVector; using itk::Regression::MeasurementInsightFixedArray; using itk::Regression::MeasurementInsightMatrix;
  std::vector<Step> steps; bool done = false;
  int Test(int, char **) {
    ran = true;
    for (auto &p : steps) switch (p.what) { case 1: results.push_back(call(*this, p.val)); break; case 3: results.push_back(this->MeasurementInsightFileImage(p.op.text, p.op.name)); break; default: { size_t n = results.size(); doOp(p.op); if (results.size() == n) results.push_back(0); } }
    done = true; return 0; }
};
}
static void run(Ctx &c) {
  registerImageIO(); Capture cap; Source &s = c.s; const std::string &R = c.scratch; static std::string done;
  if (done != R) { for (auto d : {"/t", "/b", "/w"}) mkdir((R + d).c_str(), 0755);
    pbt::writeFile(R + "/t/f0", "x\n"); pbt::writeFile(R + "/b/f0", "x\n"); pbt::writeFile(R + "/t/f1", "x\n"); pbt::writeFile(R + "/b/f1", "y\n"); pbt::writeFile(R + "/t/f2", "x\n"); pbt::writeFile(R + "/b/f3", "x\n");
    ImgFile i; i.m.size = {2, 2}; i.m.px = {{1}, {2}, {3}, {4}}; i.spacing = {1, 1}; i.origin = {0, 0}; for (auto q : {"/t/i0", "/b/i0", "/t/i1", "/t/i2"}) writeImage(i, R + q + ".mha"); i.m.px[3] = {9}; writeImage(i, R + "/b/i1.mha"); i.m.px[3] = {4}; writeImage(i, R + "/b/i3.mha"); done = R; }
  Chdir cd(R + "/w"); if (!cd.ok) throw pbt::Discard();
  std::vector<Step> steps; std::vector<Op> flat; size_t n = 1 + s.size(10), measured = 0; double tol = FLT_EPSILON * 64.0; bool many = false; std::string d;
  for (size_t i = 0; i < n; ++i) {
    Step p; p.what = (int)s.weighted({10, 5, 3, 1});
    if (p.what == 0) { if (s.chance(1, 6)) { p.op.kind = SET_TOL; p.op.tol = genTol(s); } else p.op = genOp(s); }
    else if (p.what == 1) p.val = genVal(s);
    else { p.op.kind = FILE_TEXT; p.op.name = genName(s); p.op.text = cat("../t/", p.what == 2 ? "f" : "i", s.below(4), p.what == 3 ? ".mha" : ""); if (p.what == 2 && s.chance(1, 3)) p.op.img = 1 + (int)s.below(2); }
    size_t b = flat.size();
    if (p.what == 1) { expand(p.val, flat); d += show(p.val); } else { flat.push_back(p.op); d += cat("  ", p.what == 3 ? "image " : "", show(p.op), "\n"); if (p.what > 1) flat.back().text = p.op.text.substr(5); }
    for (size_t k = b; k < flat.size(); ++k) if (flat[k].measures()) p.at.push_back(measured++);
    if (p.at.size() > 1) many = true; steps.push_back(p);
  }
  std::vector<Entry> base; std::string type;
  for (auto &e : genBaseline(s, flat, tol)) { Entry x = e; if (x.file && x.content.size() > 2 && x.content[0] == 'i') x.type = "image/itk"; base.push_back(x); }
  bool record = s.chance(1, 8); Rets t; t.steps = steps; std::vector<std::string> argv = {"prog", "-P", R + "/b"};
  c.describe(cat(record ? "record\n" : "compare\n", d, record ? "" : "baseline:\n" + show(base)));
  if (!record) { pbt::writeFile(R + "/b.xml", writeDoc(base)); argv.push_back("-I"); argv.push_back(R + "/b.xml"); }
  Result r = runMain(t, argv); c.require(t.done && t.results.size() == steps.size(), "ended", [&] { return r.err; });
  auto ctx = [&](size_t i) { std::string o; for (int x : t.results) o += cat(" ", x); return cat("call ", i + 1, ": the calls returned", o, ", the run ", r.ret, "\n", r.err, r.out); };
  if (record) { for (size_t i = 0; i < steps.size(); ++i) c.require(t.results[i] == 0, "record", [&] { return ctx(i); }); c.label("record"); if (measured) c.nontrivial(); return; }
  // the outcome of every measurement
  std::vector<int> each; size_t k = 0, bad = 0; static const int TAB[] = {1, 0, 0, 0};
  std::vector<int> kinds; for (auto &p : steps) for (size_t j = 0; j < p.at.size(); ++j) kinds.push_back(p.what);
  for (auto &o : flat) {
    if (!o.measures()) { tol = o.tol; continue; }
    int m = 3; if (k < base.size()) { const Entry &b = base[k]; std::string ty = kinds[k] == 3 ? "image/itk" : typeOf(o);
      if (o.name != b.name || ty != b.type) m = 0;
      else if (o.kind == FILE_TEXT) m = !b.file ? 2 : b.content == o.text ? TAB[o.text[1] - '0'] != 1 || !o.img ? TAB[o.text[1] - '0'] : 2 : 2;
      else if (b.file) m = 2; else m = matches(o, b, tol); }
    each.push_back(m); ++k;
  }
  for (size_t i = 0; i < steps.size(); ++i) {
    if (steps[i].at.empty()) continue; int differ = 0, open = 0; for (size_t a : steps[i].at) { if (each[a] == 0 || each[a] == 3) ++differ; else if (each[a] == 2) ++open; }
    if (differ) { ++bad; c.require(t.results[i] != 0, "differs", [&] { return "a disagreeing measurement's call returned 0; " + ctx(i); }); } else if (!open) c.require(t.results[i] == 0, "agrees", [&] { return "an agreeing measurement's call returned another value than 0; " + ctx(i); });
  }
  if (!many) { long calls = 0; for (int x : t.results) calls += x != 0; c.require(r.ret == calls, "count", [&] { return cat(calls, " calls reported a disagreement; ", ctx(0)); }); c.label("counted"); }
  if (bad && bad < steps.size()) c.nontrivial(); c.label(bad ? "disagreements" : "clean");
}
static const pbt::Property P = {"C28", "1-11 measurement calls of every kind (scalars, text files, image files, composite values of up to 16 components) and tolerance changes, recorded or compared with a baseline that disagrees here and there; what each call returns is compared with the reference model, and their number with the run's result; non-trivial: a recorded measurement, or some but not all calls disagree; distinct by the drawn choices",
  run, 60000, 1000000, 0, 0, 0, 10, {"a composite call returns zero exactly when all its components agree; which other value is left open"}};
PBT_MAIN(P)
