// C31: a filter watcher prints a filter's events, in order and nothing else.
#include "model.h"
#include "itktf/itktfFilterWatcher.h"
#include "itkEventObject.h"
using namespace model;

namespace {
struct Plan { std::vector<int> ev; }; // what the filter does while it runs: 0 iteration, 1 progress, 2 abort, 3 other events
class Alpha : public itk::ProcessObject {
public:
  typedef Alpha Self; typedef itk::SmartPointer<Self> Pointer; itkNewMacro(Self); itkTypeMacro(Alpha, ProcessObject);
  std::vector<int> ev; static int alive;
  void Go() { this->InvokeEvent(itk::StartEvent()); for (int e : ev) fire(e); this->InvokeEvent(itk::EndEvent()); }
  void fire(int e) { switch (e) { case 0: this->InvokeEvent(itk::IterationEvent()); break; case 1: this->UpdateProgress(0.5f); break; case 2: this->InvokeEvent(itk::AbortEvent()); break; case 3: this->InvokeEvent(itk::UserEvent()); break; case 4: this->Modified(); break; case 5: this->InvokeEvent(itk::StartEvent()); break; default: this->InvokeEvent(itk::EndEvent()); } }
protected:
  Alpha() { ++alive; } ~Alpha() { --alive; }
};
int Alpha::alive = 0;
class TheOtherFilter : public Alpha {
public:
  typedef TheOtherFilter Self; typedef itk::SmartPointer<Self> Pointer; itkNewMacro(Self); itkTypeMacro(TheOtherFilter, Alpha);
};
struct Counting : itk::tf::FilterWatcher { // a user's watcher, which also shows the progress
  Counting(itk::ProcessObject *o, std::ostream &s, const char *c) : itk::tf::FilterWatcher(o, s, c) {}
  void ShowProgress() { os << "."; }
};
struct Watch { std::unique_ptr<itk::tf::FilterWatcher> w; size_t filter, sink; std::string comment; bool counting; };
}
static void run(Ctx &c) {
  Source &s = c.s; Capture cap; size_t nf = 1 + s.below(2); int before = Alpha::alive;
  std::vector<Alpha::Pointer> f; std::vector<std::string> cls; std::vector<bool> held;
  for (size_t i = 0; i < nf; ++i) { bool o = s.coin(); if (o) f.push_back(TheOtherFilter::New().GetPointer()); else f.push_back(Alpha::New()); cls.push_back(o ? "TheOtherFilter" : "Alpha"); }
  std::vector<Alpha *> raw; for (auto &p : f) raw.push_back(p.GetPointer()); held.assign(nf, true);
  std::ostringstream sink[2]; std::string want[3], d; std::vector<Watch> w; size_t n = 1 + s.size(14), gone = 0, heard = 0; bool big = false;
  auto usable = [&](size_t i) { if (held[i]) return true; for (auto &x : w) if (x.filter == i) return true; return false; };
  auto expect = [&](size_t i, int e) { for (auto &x : w) if (x.filter == i) { std::string &o = want[x.sink], q = x.comment; ++heard;
    switch (e) { case 0: o += " # "; break; case 1: if (x.counting) o += "."; break; case 2: o += "\n      ABORT\n"; break; case 5: o += "-------- Start " + cls[i] + " \"" + q + "\" "; break; case 6: o += "\n-------- End " + cls[i] + " \"" + q + "\" \n"; break; default: break; } } };
  auto compare = [&](const char *when) { for (int k = 0; k < 3; ++k) { std::string got = k < 2 ? sink[k].str() : cap.out.str(); c.require(got == want[k], "text", [&] { return cat(when, ": stream ", k == 2 ? "std::cout" : cat(k), " holds\n", quote(got, 2000), "\nshould hold\n", quote(want[k], 2000)); }); } };
  for (size_t k = 0; k < n; ++k) {
    size_t i = s.below(nf); if (!usable(i)) continue;
    switch (s.weighted({3, 2, 3, 4, 1})) {
      case 0: { Watch x; x.filter = i; x.sink = s.below(3); x.counting = s.chance(1, 4); int form = (int)s.below(3); if (form == 0 && !x.counting) x.sink = 2; if (form == 2 || x.counting) x.comment = s.pick({std::string("first pass"), std::string(""), std::string("a \"b\" <&>"), std::string("100%s\n")});
        std::ostream &o = x.sink == 2 ? std::cout : sink[x.sink]; std::string cm = x.comment; // the text need not outlive the call
        if (x.counting) x.w.reset(new Counting(raw[i], o, cm.c_str())); else if (form == 0) x.w.reset(new itk::tf::FilterWatcher(raw[i])); else if (form == 1) x.w.reset(new itk::tf::FilterWatcher(raw[i], o)); else x.w.reset(new itk::tf::FilterWatcher(raw[i], o, cm.c_str()));
        std::string z(cm.size(), 'z'); cm.replace(0, cm.size(), z);
        d += cat("watch filter ", i, " on stream ", x.sink, ", comment ", quote(x.comment), x.counting ? ", showing progress" : "", "\n"); c.require(cls[i] == x.w->GetNameOfClass(), "class", [&] { return std::string(x.w->GetNameOfClass()); }); w.push_back(std::move(x)); break; }
      case 1: if (!w.empty()) { size_t j = s.below(w.size()); d += cat("end watcher ", j, " of filter ", w[j].filter, "\n"); w.erase(w.begin() + j); ++gone; } break;
      case 2: { int e = (int)s.below(7); d += cat("filter ", i, " event ", e, "\n"); c.describe(d); d.clear(); expect(i, e); raw[i]->fire(e); break; }
      case 3: { raw[i]->ev.clear(); size_t m = s.below(5); std::string ev; if (s.chance(1, 10)) { size_t it = s.below(140); raw[i]->ev.assign(it, 0); ev = cat(" ", it, " iterations"); big = big || it > 20; } for (size_t j = 0; j < m; ++j) { raw[i]->ev.push_back((int)s.weighted({4, 2, 1, 1, 1})); ev += cat(" ", raw[i]->ev.back()); } d += cat("filter ", i, " runs:", ev, "\n"); c.describe(d); d.clear();
        expect(i, 5); for (int e : raw[i]->ev) expect(i, e); expect(i, 6); raw[i]->Go(); break; }
      default: d += cat("drop filter ", i, "\n"); f[i] = 0; held[i] = false;
    }
    compare(cat("step ", k + 1).c_str());
  }
  c.describe(d); for (size_t i = 0; i < nf; ++i) if (usable(i)) { d = cat("at the end filter ", i, " iterates\n"); c.describe(d); expect(i, 0); raw[i]->fire(0); } compare("at the end");
  w.clear(); for (size_t i = 0; i < nf; ++i) if (held[i]) raw[i]->fire(0);
  compare("after the last watcher"); f.clear();
  c.require(Alpha::alive == before, "released", [&] { return std::string("a filter is alive after all its watchers and references are gone"); });
  if (heard > 1) c.nontrivial(); c.label(gone ? "a watcher ends before its filter's last event" : "watchers stay"); if (heard > 10) c.label("more than 10 events"); if (big) c.label("more than 20 iterations in a run");
}
static const pbt::Property P = {"C31", "histories over 1-2 filters and any number of watchers (default and given streams and comments, a subclass showing progress): attaching, ending, single events, whole runs with iterations (one in ten with up to 140), progress and aborts, dropping the filter; the streams are compared after every step; non-trivial: at least two events are heard by a watcher; distinct by the drawn choices",
  run, 800000, 6000000, 0, 0, 0, 5, {"the events are raised by a filter made for the check"}};
PBT_MAIN(P)
