// Choice-sequence property-based testing engine (generation, replay, shrinking,
// coverage-guided mode) used by every check in /verif/props.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string tag, msg; };
struct KnownHit { std::string id; };
struct Discard {};

// Every random decision of a case is one draw; a case is its list of draws.
class Source {
public:
  virtual ~Source() {}
  virtual uint64_t raw(uint64_t bound) = 0;   // [0,bound), bound 0: full 64 bits
  uint64_t below(uint64_t bound) { return bound <= 1 ? 0 : raw(bound); }
  uint64_t u64() { return raw(0); }
  // inclusive range; 0 draws lo (so shrinks towards lo)
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo) + 1); }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }
  // a size in [0,max], small mostly, sometimes large
  size_t size(size_t max) {
    unsigned k = (unsigned)below(8);
    size_t cap = k < 3 ? 3 : k < 6 ? 10 : k < 7 ? 40 : max;
    if (cap > max) cap = max;
    return (size_t)below(cap + 1);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
  // index chosen by weight; 0 shrinks to the first
  size_t weighted(const std::vector<unsigned> &w) {
    uint64_t t = 0; for (unsigned x : w) t += x;
    uint64_t r = below(t); size_t i = 0;
    while (r >= w[i]) { r -= w[i]; ++i; }
    return i;
  }
};

class Ctx {
public:
  Ctx(Source &src, const std::string &dir) : s(src), scratch(dir) {}
  Source &s;
  std::string scratch;        // this worker's private, existing directory
  bool thorough = false;
  bool is_nontrivial = false;
  uint64_t key = 0;           // distinguishes non-trivial cases (0: hash of the draws)
  std::vector<std::string> labels;
  std::string text;           // human-readable case, filled by describe()

  void label(const std::string &l) { labels.push_back(l); }
  void nontrivial() { is_nontrivial = true; }
  void describe(const std::string &d) { text += d; if (text.size() > 20000) text.resize(20000); publish(); }
  void publish();             // copies text where the parent finds it after a crash
  void check(bool ok, const std::string &tag, const std::string &msg = "") {
    if (!ok) throw Failure{tag, msg};
  }
  template <class F> void require(bool ok, const char *tag, F msg) {
    if (!ok) throw Failure{tag, msg()};
  }
  // a violation that a committed known finding may explain
  void fail_known(const std::string &id, const std::string &tag, const std::string &msg);
};

struct Property {
  const char *id;
  const char *rule;                 // how cases are made and what is non-trivial
  void (*run)(Ctx &);
  long quick_cases, thorough_cases; // random cases
  long quick_fuzz, thorough_fuzz;   // coverage-guided executions (0: none)
  unsigned fuzz_max_len;
  double cpu_limit_s;               // per-case processor time that counts as a hang
  std::vector<std::string> assumptions;
};

int engine_main(const Property &p, int argc, char **argv);

std::string quote(const std::string &s, size_t max = 400); // printable form
std::string readFile(const std::string &path, bool *ok = 0);
void writeFile(const std::string &path, const std::string &data);
std::string mkTemp(const std::string &dir);   // fresh directory inside dir
void rmTree(const std::string &path);         // refuses anything outside the scratch root
void emptyDir(const std::string &dir);        // removes what is inside (same refusal)
uint64_t hashBytes(const std::string &s, uint64_t h = 1469598103934665603ULL);

template <class... A> std::string cat(const A &...a) {
  std::ostringstream o; using x = int[]; (void)x{0, ((void)(o << a), 0)...}; return o.str();
}
} // namespace pbt

#define PBT_MAIN(P) int main(int argc, char **argv) { return pbt::engine_main(P, argc, argv); }
#endif
