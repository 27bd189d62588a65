// Engine: see pbt.h.  One process tree per run:
//   parent            merges results, shrinks, confirms, writes evidence parts
//   worker (x N)      runs random cases idx = w, w+N, ...
//   fuzz child (x N)  libFuzzer over the byte encoding of the same choices
// Every case is a pure function of its choices; a case that fails is re-run
// three times in fresh processes before it is reported.
#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv,
                                   int (*cb)(const uint8_t *, size_t)) __attribute__((weak));
extern "C" size_t LLVMFuzzerMutate(uint8_t *, size_t, size_t) __attribute__((weak));

namespace pbt {

typedef std::vector<uint64_t> Choices;
static const size_t MAXC = 1 << 17;

struct Shared {
  uint64_t idx;            // case in progress
  uint64_t done;           // cases finished
  uint32_t state;          // 0 running, 1 finished ok, 2 failure, 3 hang, 4 known, 5 discard, 6 overrun
  uint32_t n;
  char tag[96];
  char msg[8192];
  char text[20100];
  uint64_t vals[MAXC];
  uint64_t bounds[MAXC];
};

static Shared *sh = 0;     // the record this process writes
static const Property *P;
static std::string g_scratch;            // scratch root of this run
static std::set<std::string> g_known;
static bool g_thorough = false;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double t0;

// ---------------------------------------------------------------- sources
static void record(uint64_t v, uint64_t b) {
  if (sh->n >= MAXC) { sh->state = 6; throw Discard(); }
  sh->vals[sh->n] = v; sh->bounds[sh->n] = b; ++sh->n;
}
struct SplitMix { uint64_t x; uint64_t next() {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31); } };
struct RandomSource : Source {
  SplitMix r;
  RandomSource(uint64_t seed) { r.x = seed; }
  uint64_t raw(uint64_t b) override {
    uint64_t v = r.next(); if (b) v = (uint64_t)(((unsigned __int128)v * b) >> 64);
    record(v, b); return v; }
};
struct ReplaySource : Source {
  const Choices &c; size_t i = 0;
  ReplaySource(const Choices &c_) : c(c_) {}
  uint64_t raw(uint64_t b) override {
    uint64_t v = i < c.size() ? c[i] : 0; ++i;
    if (b && v >= b) v = b - 1;
    record(v, b); return v; }
};
static int width(uint64_t b) { return b == 0 ? 8 : b <= 256 ? 1 : b <= 65536 ? 2 : b <= (1ULL << 32) ? 4 : 8; }
struct ByteSource : Source {
  const uint8_t *p; size_t n, i = 0;
  ByteSource(const uint8_t *p_, size_t n_) : p(p_), n(n_) {}
  uint64_t raw(uint64_t b) override {
    int w = width(b); uint64_t v = 0;
    for (int k = 0; k < w; ++k) v |= (uint64_t)(i < n ? p[i] : 0) << (8 * k), ++i;
    if (b) v %= b;
    record(v, b); return v; }
};

// ---------------------------------------------------------------- helpers
std::string quote(const std::string &s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    if (i >= max) { o += "\"...(" + std::to_string(s.size()) + " bytes)"; return o; }
    unsigned char c = s[i];
    if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
    else if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
std::string readFile(const std::string &path, bool *ok) {
  std::ifstream f(path.c_str(), std::ios::binary);
  if (ok) *ok = (bool)f;
  std::ostringstream o; if (f) o << f.rdbuf(); return o.str();
}
void writeFile(const std::string &path, const std::string &data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { fprintf(stderr, "engine: cannot write %s: %s\n", path.c_str(), strerror(errno)); _exit(90); }
  size_t i = 0;
  while (i < data.size()) { ssize_t k = write(fd, data.data() + i, data.size() - i); if (k <= 0) _exit(90); i += k; }
  close(fd);
}
std::string mkTemp(const std::string &dir) {
  std::string t = dir + "/tXXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
  if (!mkdtemp(&b[0])) { fprintf(stderr, "engine: mkdtemp %s: %s\n", t.c_str(), strerror(errno)); _exit(90); }
  return &b[0];
}
static bool inside(const std::string &p) {
  return !g_scratch.empty() && p.size() > g_scratch.size() + 1 &&
         p.compare(0, g_scratch.size() + 1, g_scratch + "/") == 0 && p.find("/../") == std::string::npos;
}
// Relative to directory handles and never following links: cannot leave the scratch root.
static void rmAt(int dfd, const char *name) {
  if (unlinkat(dfd, name, 0) == 0) return;
  int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (fd < 0) { fchmodat(dfd, name, 0700, 0); fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); }
  if (fd >= 0) {
    fchmod(fd, 0700);
    DIR *d = fdopendir(fd);
    if (d) { std::vector<std::string> v;
      while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
      for (auto &x : v) rmAt(dirfd(d), x.c_str());
      closedir(d); }
    unlinkat(dfd, name, AT_REMOVEDIR);
  }
}
void rmTree(const std::string &p) {
  if (!inside(p)) { fprintf(stderr, "engine: refusing to remove %s\n", p.c_str()); _exit(90); }
  rmAt(AT_FDCWD, p.c_str());
}
void emptyDir(const std::string &p) {
  if (!inside(p)) { fprintf(stderr, "engine: refusing to empty %s\n", p.c_str()); _exit(90); }
  int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (fd < 0) return;
  DIR *d = fdopendir(fd); std::vector<std::string> v;
  while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
  for (auto &x : v) rmAt(dirfd(d), x.c_str());
  closedir(d);
}
uint64_t hashBytes(const std::string &s, uint64_t h) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h;
}
void Ctx::publish() { if (sh) { size_t n = std::min(text.size(), sizeof(sh->text) - 1); memcpy(sh->text, text.data(), n); sh->text[n] = 0; } }
void Ctx::fail_known(const std::string &id, const std::string &tag, const std::string &msg) {
  if (g_known.count(id)) throw KnownHit{id};
  throw Failure{tag, msg};
}

// ---------------------------------------------------------------- one case
struct Stats {
  uint64_t evals = 0, nontriv = 0, discards = 0, known = 0;
  std::map<std::string, uint64_t> labels;
  std::set<uint64_t> keys;
  std::vector<std::string> samples;
};
static void hangHandler(int) {
  sh->state = 3; snprintf(sh->tag, sizeof sh->tag, "hang");
  snprintf(sh->msg, sizeof sh->msg, "the case used more than %.0f s of processor time", P->cpu_limit_s);
  _exit(78);
}
static void arm(double s) {
  itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = (long)s; v.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &v, 0);
}
static std::string g_dir;
static void setFailure(const std::string &tag, const std::string &msg) {
  snprintf(sh->tag, sizeof sh->tag, "%s", tag.c_str());
  snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  sh->state = 2;
}
// Runs one case; returns its final state.
static unsigned runCase(Source &src, Stats *st) {
  sh->n = 0; sh->state = 0; sh->tag[0] = sh->msg[0] = sh->text[0] = 0;
  Ctx c(src, g_dir); c.thorough = g_thorough;
  arm(P->cpu_limit_s);
  try { P->run(c); sh->state = 1; }
  catch (Failure &f) { setFailure(f.tag, f.msg); }
  catch (KnownHit &k) { sh->state = 4; snprintf(sh->tag, sizeof sh->tag, "%s", k.id.c_str()); }
  catch (Discard &) { if (sh->state != 6) sh->state = 5; }
  catch (std::exception &e) {
    int s; char *nm = abi::__cxa_demangle(typeid(e).name(), 0, 0, &s);
    setFailure(std::string("exception:") + (nm ? nm : typeid(e).name()), std::string("escaped from the code under test: ") + e.what()); }
  catch (...) { setFailure("exception:unknown", "an exception escaped from the code under test"); }
  arm(0);
  if (st) {
    ++st->evals;
    if (sh->state >= 5) ++st->discards;
    if (sh->state == 4) ++st->known;
    if (sh->state == 1) {
      for (auto &l : c.labels) ++st->labels[l];
      if (c.is_nontrivial) {
        ++st->nontriv;
        uint64_t k = c.key;
        if (!k) { k = 7; for (uint32_t i = 0; i < sh->n; ++i) k = (k ^ sh->vals[i]) * 1099511628211ULL + (k >> 29); }
        if (st->keys.size() < 4000000) st->keys.insert(k);
        if (st->samples.size() < 2 && !c.text.empty() && c.text.size() < 3000) st->samples.push_back(c.text);
      }
    }
  }
  ++sh->done;
  return sh->state;
}
static void dumpStats(const Stats &st, const std::string &path) {
  std::ostringstream o;
  o << st.evals << " " << st.nontriv << " " << st.discards << " " << st.known << " " << st.labels.size() << " " << st.keys.size() << " " << st.samples.size() << "\n";
  for (auto &l : st.labels) o << l.second << " " << l.first << "\n";
  for (auto k : st.keys) o << k << "\n";
  for (auto &s : st.samples) o << s.size() << "\n" << s << "\n";
  writeFile(path, o.str());
}
static void loadStats(Stats &st, const std::string &path) {
  std::ifstream f(path.c_str()); if (!f) return;
  uint64_t e, n, d, kn; size_t a, b, s; if (!(f >> e >> n >> d >> kn >> a >> b >> s)) return;
  st.evals += e; st.nontriv += n; st.discards += d; st.known += kn;
  for (size_t i = 0; i < a; ++i) { uint64_t v; std::string l; f >> v; f.get(); std::getline(f, l); st.labels[l] += v; }
  for (size_t i = 0; i < b; ++i) { uint64_t v; f >> v; st.keys.insert(v); }
  for (size_t i = 0; i < s; ++i) { size_t len; f >> len; f.get(); std::string t(len, 0); f.read(&t[0], len); if (st.samples.size() < 6) st.samples.push_back(t); }
}

// ---------------------------------------------------------------- children
static Shared *newShared() {
  void *m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); _exit(90); }
  return (Shared *)m;
}
static void childSetup(const std::string &name) {
  signal(SIGPROF, hangHandler);
  signal(SIGPIPE, SIG_IGN);
  int dn = open("/dev/null", O_RDWR);
  dup2(dn, 0);
  std::string lg = g_scratch + "/log." + name;
  int lf = open(lg.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(lf, 2); dup2(dn, 1);
  close(lf); close(dn);
  g_dir = g_scratch + "/w." + name; mkdir(g_dir.c_str(), 0755);
  // coverage of a sanitizer report goes to fd 2; keep the log small
  if (chdir(g_dir.c_str())) _exit(90);
}
// classify an abnormal end from the log of the child
static void classify(int status, const std::string &name, std::string &tag, std::string &msg) {
  std::string log = readFile(g_scratch + "/log." + name);
  size_t p = log.rfind("SUMMARY: ");
  tag = "crash";
  if (p != std::string::npos) {
    std::string l = log.substr(p + 9, log.find('\n', p) - p - 9);
    size_t a = l.find(": "); std::string k = a == std::string::npos ? l : l.substr(a + 2);
    tag = "crash:" + k.substr(0, k.find(' '));
    size_t q = log.rfind("ERROR: ", p); if (q == std::string::npos) q = log.rfind("WARNING: ThreadSanitizer", p); size_t r = log.rfind("runtime error", p);
    size_t from = q != std::string::npos ? q : r != std::string::npos ? log.rfind('\n', r) + 1 : p;
    msg = log.substr(from, 2500);
  } else if (log.find("Assertion `") != std::string::npos) {
    size_t q = log.rfind("Assertion `"); q = log.rfind('\n', q); q = q == std::string::npos ? 0 : q + 1;
    tag = "crash:assertion"; msg = log.substr(q, 600);
  } else if (WIFSIGNALED(status)) { tag = cat("crash:signal", WTERMSIG(status)); msg = cat("killed by signal ", WTERMSIG(status), "\n", log.size() > 800 ? log.substr(log.size() - 800) : log); }
  else { tag = cat("crash:exit", WEXITSTATUS(status)); msg = cat("the process ended with exit status ", WEXITSTATUS(status), "\n", log.size() > 800 ? log.substr(log.size() - 800) : log); }
}
struct Outcome { bool fail = false; std::string tag, msg, text; Choices used; bool engineError = false; };

// wait for pid with a wall cap; true if it had to be killed
static bool waitCapped(pid_t pid, int &status, double cap) {
  double t = now(); useconds_t nap = 200;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) return false;
    if (now() - t > cap) { kill(pid, SIGKILL); waitpid(pid, &status, 0); return true; }
    usleep(nap); if (nap < 5000) nap += 200;
  }
}
static const double WALL_STUCK = 90;

static Outcome runForked(const std::function<Source *()> &mk, const std::string &name,
                         const std::vector<uint64_t> *history = 0, uint64_t seed = 0) {
  static Shared *s2 = newShared();
  s2->state = 0; s2->n = 0; s2->idx = 0;
  Outcome o; fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    sh = s2; childSetup(name);
    if (history) for (uint64_t i : *history) { RandomSource r(hashBytes(P->id, seed * 1000003 + i)); sh->idx = i; if (runCase(r, 0) == 2) break; }
    else { std::unique_ptr<Source> src(mk()); runCase(*src, 0); }
    fflush(0); _exit(0);
  }
  int status = 0;
  bool stuck = waitCapped(pid, status, WALL_STUCK + (history ? 200 : 0));
  o.text = s2->text; o.used.assign(s2->vals, s2->vals + s2->n);
  if (stuck) { o.fail = true; o.tag = "hang-wall"; o.msg = cat("no progress for ", WALL_STUCK, " s"); }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 90) { o.engineError = true; }
  else if (s2->state == 2 || s2->state == 3) { o.fail = true; o.tag = s2->tag; o.msg = s2->msg; }
  else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) { o.fail = true; classify(status, name, o.tag, o.msg); }
  std::string d = g_scratch + "/w." + name; rmTree(d); unlink((g_scratch + "/log." + name).c_str());
  return o;
}
// a case whose failure depends on the schedule gets several runs (PBT_TRIES)
static Outcome runChoices(const Choices &c) {
  const char *t = getenv("PBT_TRIES"); int n = t ? std::max(1, atoi(t)) : 1; Outcome o;
  for (int k = 0; k < n && !o.fail; ++k) o = runForked([&] { return new ReplaySource(c); }, "r");
  return o; }

// ---------------------------------------------------------------- shrinking
static Choices shrink(Choices best, const std::string &tag, double budget, long &execs) {
  double end = now() + budget;
  auto bad = [&](Choices &c) { // true if still failing the same way; replaces c by what was drawn
    if (now() > end) return false;
    ++execs; Outcome o = runChoices(c);
    if (!o.fail || o.tag != tag) return false;
    if (o.used.size() <= c.size() && !o.used.empty()) c = o.used;
    while (!c.empty() && c.back() == 0) c.pop_back();
    return true; };
  auto simpler = [](const Choices &a, const Choices &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b; };
  { Choices c = best; if (bad(c) && simpler(c, best)) best = c; }
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len = best.size(); len >= 1; len = len > 8 ? len / 2 : len - 1) { // delete blocks
      for (size_t i = best.size() >= len ? best.size() - len + 1 : 0; i-- > 0 && now() < end;) {
        if (i + len > best.size()) continue;
        Choices c = best; c.erase(c.begin() + i, c.begin() + i + len);
        if (bad(c) && simpler(c, best)) { best = c; progress = true; i = i > len ? i - len + 1 : i; }
        else if (len > 4) i = i > len / 2 ? i - len / 2 : 0; // coarser steps for long blocks
      }
    }
    for (size_t i = 0; i + 1 < best.size() && now() < end; ++i) // delete with decrement of an earlier count
      if (best[i] > 0 && best[i] < 64)
        for (size_t k : {1, 2, 3, 5}) {
          bool hit = false;
          for (size_t j = i + 1; j + k <= best.size() && j < i + 12; ++j) {
            Choices c = best; c[i]--; c.erase(c.begin() + j, c.begin() + j + k);
            if (bad(c) && simpler(c, best)) { best = c; progress = true; hit = true; break; }
          }
          if (hit || i + 1 >= best.size()) break;
        }
    for (size_t i = 0; i < best.size() && now() < end; ++i) { // minimise values
      if (!best[i]) continue;
      Choices c = best; c[i] = 0; if (bad(c) && simpler(c, best)) { best = c; progress = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      for (int k = 0; k < 24 && hi - lo > 1 && now() < end; ++k) {
        uint64_t mid = lo + (hi - lo) / 2; if (i >= best.size()) break;
        c = best; c[i] = mid;
        if (bad(c) && simpler(c, best)) { best = c; hi = mid; progress = true; } else lo = mid;
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------- fuzz mode
static Stats *fz = 0; static std::string fzStats; static pid_t fzPid = 0;
static int fuzzOne(const uint8_t *d, size_t n) {
  ByteSource s(d, n);
  unsigned st = runCase(s, fz);
  if (st == 2) _exit(70);
  return st >= 5 ? -1 : 0;
}
static void fuzzDump() { if (fz && getpid() == fzPid) dumpStats(*fz, fzStats); }

static std::string encode(const Shared *s) {
  std::string o;
  for (uint32_t i = 0; i < s->n; ++i) for (int k = 0, w = width(s->bounds[i]); k < w; ++k) o += (char)(s->vals[i] >> (8 * k));
  return o;
}

// ---------------------------------------------------------------- main
static std::string env(const char *n, const char *d) { const char *v = getenv(n); return v && *v ? v : d; }

int engine_main(const Property &p, int argc, char **argv) {
  P = &p; t0 = now();
  g_scratch = env("PBT_SCRATCH", "");
  if (g_scratch.empty() || g_scratch[0] != '/') { fprintf(stderr, "PBT_SCRATCH must name a directory\n"); return 90; }
  g_thorough = env("VERIF_TIER", "quick") == "thorough";
  uint64_t seed = strtoull(env("VERIF_SEED", "1").c_str(), 0, 10);
  { std::istringstream k(env("PBT_KNOWN", "")); std::string w; while (k >> w) g_known.insert(w); }
  std::string replayOut = env("PBT_REPLAY_OUT", ""), partOut = env("PBT_EVIDENCE", "");
  double wallCap = atof(env("PBT_WALL", g_thorough ? "3000" : "240").c_str());
  int N = atoi(env("PBT_WORKERS", "8").c_str());
  long scale = atol(env("PBT_SCALE", "100").c_str());
  setvbuf(stdout, 0, _IOLBF, 0);

  if (argc >= 3 && !strcmp(argv[1], "--replay")) {
    std::ifstream f(argv[2]); std::string key; Choices c; std::vector<uint64_t> hist; uint64_t rs = 0; bool isHist = false;
    while (f >> key) {
      if (key == "choices") { size_t n; f >> n; c.resize(n); for (auto &x : c) f >> x; }
      else if (key == "history") { size_t n; f >> rs >> n; hist.resize(n); for (auto &x : hist) f >> x; isHist = true; }
      else { std::string rest; std::getline(f, rest); }
    }
    Outcome o = isHist ? runForked(0, "r", &hist, rs) : runChoices(c);
    printf("case:\n%s\n", o.text.c_str());
    if (o.fail) { printf("FAILS [%s] %s\n", o.tag.c_str(), o.msg.c_str()); return 1; }
    printf("passes\n"); return 0;
  }

  long total = (g_thorough ? p.thorough_cases : p.quick_cases) * scale / 100;
  long fuzzTotal = (g_thorough ? p.thorough_fuzz : p.quick_fuzz) * scale / 100;
  Stats all; std::string inconclusive;
  struct Found { Choices c; std::string tag, msg, text; uint64_t idx; int worker; std::string stage; };
  std::vector<Found> found;
  long unreproduced = 0;
  std::string corpus = g_scratch + "/corpus"; mkdir(corpus.c_str(), 0755);

  auto stage = [&](bool fuzz) {
    std::vector<Shared *> ss; std::vector<pid_t> pids; std::vector<uint64_t> next;
    std::vector<double> last; std::vector<uint64_t> lastDone;
    auto spawn = [&](int w) {
      fflush(0);
      ss[w]->done = 0; ss[w]->state = 0; ss[w]->n = 0; ss[w]->idx = next[w];
      pid_t pid = fork();
      if (pid) { pids[w] = pid; last[w] = now(); lastDone[w] = 0; return; }
      sh = ss[w]; std::string name = cat(fuzz ? "f" : "g", w);
      childSetup(name);
      if (!fuzz) {
        Stats st; int saved = 0;
        for (uint64_t i = next[w]; (long)i < total; i += N) {
          sh->idx = i; RandomSource r(hashBytes(P->id, seed * 1000003 + i));
          unsigned s = runCase(r, &st);
          if (s == 2) { dumpStats(st, g_scratch + "/stats." + name); fflush(0); _exit(70); }
          if (s == 1 && fuzzTotal > 0 && saved < 24) { std::string e = encode(sh); if (e.size() <= p.fuzz_max_len) { writeFile(cat(corpus, "/s", w, "_", saved++), e); } }
          if (now() - t0 > wallCap) { dumpStats(st, g_scratch + "/stats." + name); fflush(0); _exit(71); }
        }
        dumpStats(st, g_scratch + "/stats." + name); fflush(0); _exit(0);
      } else {
        Stats st; fz = &st; fzStats = g_scratch + "/stats." + name; fzPid = getpid(); atexit(fuzzDump);
        std::string mine = cat(g_scratch, "/corpus.", w); mkdir(mine.c_str(), 0755);
        std::vector<std::string> a = {"fuzz", cat("-seed=", (seed * 64 + w) % 1000000007 + 1), cat("-runs=", fuzzTotal / N),
          cat("-max_len=", p.fuzz_max_len), "-use_value_profile=1", "-detect_leaks=0", "-rss_limit_mb=0", "-timeout=0", "-handle_abrt=0",
          "-len_control=20", "-reload=0", "-artifact_prefix=" + g_scratch + "/", "-print_final_stats=0", "-verbosity=1",
          cat("-max_total_time=", (long)std::max(5.0, wallCap - (now() - t0))), mine};
        if (w % 2 == 0) a.push_back(corpus); // half of the children start from generated cases, half from nothing
        std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(0);
        int ac = (int)a.size(); char **ap = &av[0];
        int rc = LLVMFuzzerRunDriver(&ac, &ap, fuzzOne);
        fuzzDump(); fzPid = 0; fflush(0); _exit(rc);
      }
    };
    for (int w = 0; w < N; ++w) { ss.push_back(newShared()); pids.push_back(0); next.push_back(w); last.push_back(0); lastDone.push_back(0); }
    for (int w = 0; w < N; ++w) spawn(w);
    int live = N; bool stop = false;
    while (live) {
      usleep(20000);
      for (int w = 0; w < N; ++w) if (pids[w]) {
        int status; pid_t r = waitpid(pids[w], &status, WNOHANG);
        bool stuck = false;
        if (r == 0) {
          if (ss[w]->done != lastDone[w]) { lastDone[w] = ss[w]->done; last[w] = now(); }
          else if (now() - last[w] > WALL_STUCK && !(fuzz && ss[w]->done == 0)) { kill(pids[w], SIGKILL); waitpid(pids[w], &status, 0); stuck = true; }
          if (!stuck) continue;
        }
        pids[w] = 0; --live;
        std::string name = cat(fuzz ? "f" : "g", w);
        loadStats(all, g_scratch + "/stats." + name); unlink((g_scratch + "/stats." + name).c_str());
        if (!stuck && WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        if (!stuck && WIFEXITED(status) && WEXITSTATUS(status) == 71) { inconclusive = "wall cap reached before all cases were run"; continue; }
        if (!stuck && WIFEXITED(status) && WEXITSTATUS(status) == 90) { inconclusive = "engine error: " + readFile(g_scratch + "/log." + name).substr(0, 300); stop = true; continue; }
        if (stop) continue; // one failure is enough
        Found f; f.worker = w; f.idx = ss[w]->idx; f.stage = fuzz ? "fuzz" : "random";
        f.c.assign(ss[w]->vals, ss[w]->vals + ss[w]->n); f.text = ss[w]->text;
        if (stuck) { f.tag = "hang-wall"; f.msg = "no progress"; }
        else if (ss[w]->state == 2 || ss[w]->state == 3) { f.tag = ss[w]->tag; f.msg = ss[w]->msg; }
        else if (ss[w]->state == 1 && !fuzz) { // between cases: engine trouble
          classify(status, name, f.tag, f.msg); inconclusive = "worker ended between cases: " + f.tag + " " + f.msg.substr(0, 300); continue; }
        else classify(status, name, f.tag, f.msg);
        ++all.evals;
        // a failure that replays? otherwise try the history that led to it
        Outcome o = runChoices(f.c);
        if (!o.fail && !fuzz) {
          std::vector<uint64_t> h; for (uint64_t i = next[w]; i <= f.idx; i += N) h.push_back(i);
          if (h.size() <= 200000) { Outcome oh = runForked(0, "r", &h, seed); if (oh.fail) { found.push_back(f); found.back().stage = "history"; found.back().worker = w; stop = true; } }
          if (!stop) { ++unreproduced; fprintf(stderr, "note: unreproduced [%s] %s\n", f.tag.c_str(), f.msg.substr(0, 500).c_str()); }
        } else if (!o.fail) { ++unreproduced; fprintf(stderr, "note: unreproduced (fuzz) [%s] %s\n", f.tag.c_str(), f.msg.substr(0, 500).c_str()); }
        else { found.push_back(f); stop = true; }
        if (stop) { for (int v = 0; v < N; ++v) if (pids[v]) kill(pids[v], SIGTERM); }
        else if (!fuzz && unreproduced < 20) { next[w] = f.idx + N; spawn(w); ++live; }
      }
      if (stop) for (int v = 0; v < N; ++v) if (pids[v]) kill(pids[v], SIGTERM);
    }
    for (int w = 0; w < N; ++w) { std::string d = cat(g_scratch, "/w.", fuzz ? "f" : "g", w); struct stat st; if (!lstat(d.c_str(), &st)) rmTree(d); munmap(ss[w], sizeof(Shared)); }
  };
  Stats rnd, fuzzSt;
  stage(false);
  uint64_t randomEvals = all.evals;
  if (found.empty() && fuzzTotal >= N && LLVMFuzzerRunDriver && now() - t0 < wallCap) stage(true);
  uint64_t fuzzEvals = all.evals - randomEvals;

  int rc = 0; long shrinkExecs = 0; std::string vtext;
  if (!found.empty()) {
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.idx < b.idx; });
    Found f = found[0];
    bool ok = false; Outcome fin; std::ostringstream rep;
    if (f.stage != "history") {
      Outcome o = runChoices(f.c);
      double budget = atof(env("PBT_SHRINK", "40").c_str());
      Choices m = f.c;
      if (o.fail && o.tag.compare(0, 4, "hang") != 0) m = shrink(f.c, o.tag, budget, shrinkExecs);
      int hits = 0; for (int k = 0; k < 3 && hits == k; ++k) { fin = runChoices(m); hits += fin.fail; }
      if (hits < 3 && m != f.c) { m = f.c; hits = 0; for (int k = 0; k < 3; ++k) { fin = runChoices(m); hits += fin.fail; } }
      ok = hits == 3;
      rep << "property " << P->id << "\nchoices " << m.size(); for (auto x : m) rep << " " << x; rep << "\n";
    } else {
      std::vector<uint64_t> h; for (uint64_t i = f.worker; i <= f.idx; i += N) h.push_back(i);
      int hits = 0; for (int k = 0; k < 3; ++k) { fin = runForked(0, "r", &h, seed); hits += fin.fail; }
      ok = hits == 3;
      rep << "property " << P->id << "\nhistory " << seed << " " << h.size(); for (auto x : h) rep << " " << x; rep << "\n";
    }
    if (ok) {
      rc = 1;
      rep << "tag " << fin.tag << "\n";
      std::istringstream a(fin.text + "\n--\n" + fin.msg); std::string l; while (std::getline(a, l)) rep << "# " << l << "\n";
      if (!replayOut.empty()) writeFile(replayOut, rep.str());
      vtext = "[" + fin.tag + "] " + fin.msg;
      printf("%s\n%s\n", fin.text.c_str(), vtext.c_str());
      printf("VIOLATION property=%s replay=%s\n", P->id, replayOut.c_str());
    } else { ++unreproduced; inconclusive = "a failure did not reproduce three times: " + f.tag; }
  }
  if (rc == 0 && !inconclusive.empty()) { printf("INCONCLUSIVE property=%s %s\n", P->id, inconclusive.c_str()); if (inconclusive.compare(0, 6, "engine") == 0 || inconclusive.compare(0, 6, "worker") == 0 || inconclusive.compare(0, 9, "a failure") == 0) rc = 3; }
  if (!partOut.empty()) {
    std::ostringstream o;
    o << "{\"property\":" << json(P->id) << ",\"evaluations\":" << all.evals << ",\"distinct_nontrivial\":" << all.keys.size()
      << ",\"nontrivial_evaluations\":" << all.nontriv << ",\"random_evaluations\":" << randomEvals << ",\"coverage_guided_evaluations\":" << fuzzEvals
      << ",\"discarded\":" << all.discards << ",\"known_finding_hits\":" << all.known << ",\"unreproduced\":" << unreproduced << ",\"shrink_executions\":" << shrinkExecs
      << ",\"rule\":" << json(P->rule) << ",\"inconclusive\":" << json(inconclusive) << ",\"violation\":" << json(vtext) << ",\"labels\":{";
    bool first = true; for (auto &l : all.labels) { o << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":["; first = true; for (auto &s : all.samples) { o << (first ? "" : ",") << json(s); first = false; }
    o << "],\"assumptions\":["; first = true; for (auto &s : P->assumptions) { o << (first ? "" : ",") << json(s); first = false; }
    o << "]}\n"; writeFile(partOut, o.str());
  }
  printf("%s: %lu cases (%lu random, %lu coverage-guided), %lu distinct non-trivial, %.1f s\n", P->id, (unsigned long)all.evals,
         (unsigned long)randomEvals, (unsigned long)fuzzEvals, (unsigned long)all.keys.size(), now() - t0);
  return rc;
}
} // namespace pbt
