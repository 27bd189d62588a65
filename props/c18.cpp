// C18: path search finds the first regular file, or nothing; list splitting.
#include "pbt.h"
#include "FileUtilities/FileUtilities.h"
#include "FileUtilities/PathName.h"
#include <algorithm>
#include <cstdlib>
#include <sys/stat.h>
#include <unistd.h>
using pbt::cat; using pbt::quote; using pbt::Source; using fileutil::PathName; using fileutil::PathList;

static const int ND = 6, NN = 40;
static const char *const DIRS[ND] = {"d0", "d1", "d 2", "d3/in", ".d4", "d5"};
static std::string nameOf(int i) { static const char *f[] = {"n%d", "n%d.xml", ".n%d", "s/n%d"}; char b[32]; snprintf(b, sizeof b, f[i % 4], i); return b; }
// every directory holds every name as one of: nothing, file, directory, link to
// a file, dangling link, link to a directory, pipe (fixed pseudo-random choice)
static void makeTree(const std::string &t) {
  mkdir(t.c_str(), 0755); mkdir((t + "/d3").c_str(), 0755); pbt::writeFile(t + "/afile", "x"); mkdir((t + "/adir").c_str(), 0755);
  uint64_t x = 88172645463325252ULL;
  for (int d = 0; d <= ND; ++d) { std::string D = d < ND ? t + "/" + DIRS[d] : t; mkdir(D.c_str(), 0755); mkdir((D + "/s").c_str(), 0755);
    for (int i = 0; i < NN; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; std::string p = D + "/" + nameOf(i); static const int dist[] = {0, 0, 1, 1, 2, 3, 4, 5, 6, 0}; int k = dist[x % 10]; if (d == ND) k = x % 4 == 0 ? 1 : 0;
      switch (k) { case 1: pbt::writeFile(p, p); break; case 2: mkdir(p.c_str(), 0755); break; case 3: if (symlink((t + "/afile").c_str(), p.c_str())) {} break; case 4: if (symlink("nowhere", p.c_str())) {} break; case 5: if (symlink((t + "/adir").c_str(), p.c_str())) {} break; case 6: mkfifo(p.c_str(), 0600); break; } } }
}
static bool isReg(const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISREG(st.st_mode); }
static std::vector<std::string> split(const std::string &v) { std::vector<std::string> r; if (v.empty()) return r; r.push_back(""); for (char ch : v) if (ch == ':') r.push_back(""); else r.back() += ch; return r; }
static std::vector<std::string> texts(const PathList &l) { std::vector<std::string> v; for (auto &p : l) v.push_back(p.GetPathName()); return v; }
static std::string showV(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += quote(x) + " "; return r; }
static std::string squeeze(const std::string &p) { std::string r; for (char ch : p) if (!(ch == '/' && !r.empty() && r.back() == '/')) r += ch; return r; }

static void run(pbt::Ctx &c) {
  Source &s = c.s; std::string t = c.scratch + "/t"; static std::string made; if (made != t) { makeTree(t); made = t; }
  char old[4096]; if (!getcwd(old, sizeof old) || chdir(t.c_str())) throw pbt::Discard();
  struct Back { const char *o; ~Back() { if (chdir(o)) {} } } back{old};
  if (s.chance(1, 4)) { // splitting
    std::string v; size_t n = s.size(40); if (s.chance(1, 60)) { static const size_t L[] = {255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 10000, 32768, 65536, 100000}; size_t m = s.pick(L), f = 1 + s.below(s.coin() ? 300 : 9); while (v.size() < m) { v += s.chance(1, 8) ? std::string() : std::string(1 + v.size() % f, (char)('a' + v.size() % 26)); if (v.size() < m) v += ':'; } v.resize(m); n = s.below(3); c.label("long list"); }
    for (size_t i = 0; i < n; ++i) v += s.coin() ? ":" : s.chance(1, 6) ? std::string(1, (char)s.range(1, 255)) : s.pick({std::string("a"), std::string("/b"), std::string("."), std::string(" "), std::string(";"), std::string("\\")});
    bool unset = s.chance(1, 16); c.describe(cat("list ", quote(v), unset ? ", variable unset\n" : "\n"));
    std::vector<std::string> want = split(v), got = texts(fileutil::GetPathListFromColonSeparatedList(v));
    c.require(got == want, "split", [&] { return "gives " + showV(got); });
    if (unset) { unsetenv("CXML_PBT_LIST"); got = texts(fileutil::GetPathFromEnviroment("CXML_PBT_LIST")); c.require(got.empty(), "unset", [&] { return showV(got); }); }
    else { setenv("CXML_PBT_LIST", v.c_str(), 1); got = texts(fileutil::GetPathFromEnviroment("CXML_PBT_LIST")); c.require(got == want, "environment", [&] { return "gives " + showV(got); }); }
    if (want.size() > 1) c.nontrivial(); c.key = pbt::hashBytes(v) | 1; c.label("splitting"); return;
  }
  std::vector<std::string> dirs; size_t n = s.size(10);
  for (size_t i = 0; i < n; ++i) { std::string d = DIRS[s.below(ND)]; switch (s.below(10)) { case 0: d = t + "/" + d; break; case 1: d += "/"; break; case 2: d = "./" + d; break; case 3: d = s.pick({std::string(""), std::string("."), std::string("missing"), std::string("afile"), std::string("adir"), t, std::string("d3/../d1"), std::string("d0//")}); break; default: break; } dirs.push_back(d); }
  if (s.chance(1, 400)) { static const size_t many[] = {63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1025}; size_t m = s.pick(many); std::vector<std::string> pre; while (pre.size() < m) pre.push_back(s.coin() ? "missing" : "."); dirs.insert(dirs.begin(), pre.begin(), pre.end()); c.label("many directories"); }
  std::string name = nameOf((int)s.below(NN));
  switch (s.below(12)) { case 0: name = t + "/" + DIRS[s.below(ND)] + "/" + name; break; case 1: name = s.pick({std::string(""), std::string("missing"), std::string("../afile"), std::string("."), std::string("s"), t + "/afile", t + "/adir", t + "/none", std::string("afile")}); break; default: break; }
  c.describe(cat("name ", quote(name), " in ", showV(dirs), "\n"));
  std::string want; int before = 0; bool abs = !name.empty() && name[0] == '/';
  for (auto &d : dirs) { std::string j = abs || d.empty() ? name : d + "/" + name; if (isReg(j)) { want = j; break; } struct stat st; if (!lstat(j.c_str(), &st)) ++before; }
  PathList l; for (auto &d : dirs) l.push_back(PathName(d));
  PathName N(name); std::string got = N.SearchPathList(l).GetPathName();
  if (want.empty()) c.require(got.empty(), "found-nothing", [&] { return cat("returns ", quote(got), " although the name is no regular file in any directory"); });
  else c.require(squeeze(got) == squeeze(want), "found", [&] { return cat("returns ", quote(got), ", should be ", quote(want)); });
  c.require(N.GetPathName() == name && texts(l) == dirs, "modified", [&] { return std::string("the name or the list was changed"); });
  if (dirs.size() > 1) c.nontrivial();
  c.label(want.empty() ? "not found" : "found"); if (before) c.label("another kind of entry comes first"); if (abs) c.label("absolute name");
}
static const pbt::Property PR = {"C18", "random directory lists and names over a fixed tree in which each name is, per directory, absent, a file, a directory, a link to a file, a dangling link, a link to a directory or a pipe, against stat; random colon-separated lists, direct and through the environment; non-trivial: two or more directories or fields; distinct by the drawn choices",
  run, 600000, 2500000, 40000, 1000000, 300, 5, {}};
PBT_MAIN(PR)
