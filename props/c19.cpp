// C19: file-system queries tell the truth; working directory.
#include "pbt.h"
#include "FileUtilities/FileUtilities.h"
#include "FileUtilities/PathName.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>
using pbt::cat; using pbt::quote; using pbt::Source; using fileutil::PathName; using fileutil::PathList;

static bool statOk(const std::string &p, struct stat &s) { return stat(p.c_str(), &s) == 0; }
static std::string cwdNow() { std::vector<char> b(1 << 16); return getcwd(b.data(), b.size()) ? b.data() : ""; }
static void look(pbt::Ctx &c, const PathName &P, int step) {
  const std::string p = P.GetPathName(); struct stat st; bool ex = statOk(p, st), dir = ex && S_ISDIR(st.st_mode), reg = ex && S_ISREG(st.st_mode);
  auto acc = [&](int m) { return !access(p.c_str(), m | (dir && m != X_OK ? X_OK : 0)); };
  struct { const char *n; bool got, want; } q[] = {{"Exists", P.Exists(), ex}, {"IsFile", P.IsFile(), reg}, {"IsDirectory", P.IsDirectory(), dir}, {"IsReadable", P.IsReadable(), acc(R_OK)}, {"IsWritable", P.IsWritable(), acc(W_OK)}, {"IsExecutable", P.IsExecutable(), acc(X_OK)}};
  for (auto &x : q) c.require(x.got == x.want, x.n, [&] { return cat("after step ", step, ", ", x.n, " of ", quote(p), " is ", x.got, ", the system says ", x.want); });
}
static std::multiset<std::string> names(const std::string &p, bool dots) { std::multiset<std::string> r; if (DIR *d = opendir(p.c_str())) { while (dirent *e = readdir(d)) { std::string n = e->d_name; if (dots || (n != "." && n != "..")) r.insert(n); } closedir(d); } return r; }
static void list(pbt::Ctx &c, const PathName &P, int step) {
  struct stat st; std::string p = P.GetPathName(); bool dir = statOk(p, st) && S_ISDIR(st.st_mode); std::multiset<std::string> got, want; if (dir) want = names(p, false);
  for (auto &x : P.SearchDirectory()) { std::string n = x.GetPathName(); if (n != "." && n != "..") got.insert(n); }
  c.require(got == want, "SearchDirectory", [&] { std::string a, b; for (auto &x : got) a += quote(x) + " "; for (auto &x : want) b += quote(x) + " "; return cat("after step ", step, ", listing ", quote(p), " gives ", a, ", the system says ", b); });
}
static bool root = getuid() == 0;
struct Nobody { // real and effective user; the saved user comes back at the end of the case
  Nobody(const std::string &t) { if (root && (chown(t.c_str(), 65534, 65534) || setresgid(65534, 65534, 0) || setresuid(65534, 65534, 0))) throw pbt::Discard(); }
  ~Nobody() { if (root && (setresuid(0, 0, 0) || setresgid(0, 0, 0))) _exit(90); }
};
static void run(pbt::Ctx &c) {
  Source &s = c.s;
  std::string t = c.scratch + "/t"; char old[4096]; if (!getcwd(old, sizeof old)) throw pbt::Discard();
  struct Back { std::string o; ~Back() { if (chdir(o.c_str())) {} } } back{old};
  pbt::emptyDir(c.scratch); mkdir(t.c_str(), 0755); std::string foreign; // entries that belong to another user or group, made before
  if (root && s.chance(1, 3)) { size_t m = 1 + s.below(4); static const std::string fn[] = {"a", "b", "c", ".h", "a b"}; for (size_t i = 0; i < m; ++i) { std::string n = fn[i], p = t + "/" + n; int bits = 0; for (int k = 0; k < 9; ++k) if (s.coin()) bits |= 1 << k; bool d = s.chance(1, 3);
      if (d) { mkdir(p.c_str(), 0700); pbt::writeFile(p + "/x", "x"); } else pbt::writeFile(p, "#!/bin/sh\n"); if (chown(p.c_str(), s.coin() ? 65534 : 1234, s.coin() ? 65534 : 1234)) throw pbt::Discard(); chmod(p.c_str(), bits); struct stat st; if (stat(p.c_str(), &st)) throw pbt::Discard(); foreign += cat("  ", n, d ? " (a directory)" : "", ": user ", st.st_uid, ", group ", st.st_gid, ", mode decimal ", bits, "\n"); } c.describe(foreign); c.label("entries of other users"); }
  bool asRoot = root && s.chance(1, 12); if (asRoot) { c.describe("  as root\n"); c.label("as root"); }
  std::unique_ptr<Nobody> user; if (!asRoot) user.reset(new Nobody(t)); if (chdir(t.c_str())) throw pbt::Discard();
  if (s.chance(1, 40)) { // deep working directory
    static const int lens[] = {1, 1000, 1100, 2000, 3000, 3900, 200, 1500}; size_t target = s.chance(1, 3) ? 1024 + s.range(-8, 8) : (size_t)s.pick(lens); std::string cur = t, comp((size_t)s.range(1, 250), 'd');
    c.describe(cat("working directory of about ", target, " characters, components of ", comp.size(), "\n"));
    while (cur.size() < target) { std::string k = comp; if (target > cur.size() + 1 && target - cur.size() - 1 < k.size()) k.resize(target - cur.size() - 1); if (k.empty()) break; if (mkdir(k.c_str(), 0755) || !fileutil::SetCurrentDirectory(PathName(k))) throw pbt::Discard(); cur += "/" + k; }
    std::string got = fileutil::GetCurrentDirectory().GetPathName();
    c.require(got == cur, "deep-cwd", [&] { return cat("names a path of ", got.size(), " characters, should be ", cur.size()); });
    bool threw = false; try { fileutil::SetCurrentDirectory(PathName("nope")); } catch (std::runtime_error &) { threw = true; }
    c.require(threw && fileutil::GetCurrentDirectory().GetPathName() == cur, "deep-cwd-moved", [&] { return std::string("changing to nothing"); });
    // one change over many components, from inside and from above
    std::vector<std::string> dirs = {t}; { size_t i = t.size(); while ((i = cur.find('/', i + 1)) != std::string::npos) dirs.push_back(cur.substr(0, i)); if (cur != t) dirs.push_back(cur); }
    for (int rep = 0; rep < 3; ++rep) {
      std::string from = dirs[s.below(dirs.size())], to = dirs[s.below(dirs.size())], arg = to; if (to.size() > from.size() && s.coin()) arg = to.substr(from.size() + 1);
      if (chdir(from.c_str())) throw pbt::Discard();
      int how = (int)s.below(3); if (how == 1 && arg.size() < 4000) arg += "/nope"; if (how == 2 && (to == t || chmod(to.c_str(), 0))) how = 0;
      bool isdir, may; { struct stat st; isdir = statOk(arg, st) && S_ISDIR(st.st_mode); may = isdir && !access(arg.c_str(), X_OK); }
      bool ok = false, th = false; try { ok = fileutil::SetCurrentDirectory(PathName(arg)); } catch (std::runtime_error &) { th = true; }
      if (how == 2) chmod(to.c_str(), 0755);
      std::string now = cwdNow(), named = fileutil::GetCurrentDirectory().GetPathName(); auto what = [&] { return cat("from a path of ", from.size(), " to one of ", to.size(), " characters given in ", arg.size(), how == 1 ? ", which does not exist" : how == 2 ? ", which may not be entered" : "", ": ok ", ok, ", threw ", th, ", now in ", now.size(), ", named by ", named.size(), " characters"); };
      c.describe(what() + "\n");
      c.require(ok == may && th == !isdir && now == (may ? to : from) && named == now, "deep-chdir", what);
    }
    c.nontrivial(); c.label(cur.size() > 1023 ? "working directory beyond 1023 characters" : "working directory up to 1023 characters"); c.key = cur.size() * 512 + comp.size();
    return;
  }
  if (s.chance(1, 2500)) { // a crowded directory
    size_t n = (size_t)s.range(100, 6000); c.describe(cat("a directory of ", n, " entries\n")); mkdir("big", 0755); { int fd = open("big/f", O_WRONLY | O_CREAT, 0644); if (fd >= 0) close(fd); }
    for (size_t i = 1; i < n; ++i) if (symlink("f", cat("big/e", i).c_str())) throw pbt::Discard();
    list(c, PathName("big"), 1); c.nontrivial(); c.label("crowded directory"); c.key = n * 512 + 511; return; }
  static const std::string nm[] = {"a", "b", "a/x", "a/y", "b/x", "a/x/z", "c", ".h", "a/", "missing", "c/d", "b/..", "", ".", "a b"};
  auto pathOf = [&](bool any) { std::string p = any ? s.pick(nm) : nm[s.below(8)]; if (s.chance(1, 4)) p = t + "/" + p; return p; };
  std::vector<std::unique_ptr<PathName> > held; size_t n = s.size(30) + 2, changes = 0, looks = 0, cds = 0;
  for (size_t i = 0; i < n; ++i) {
    int k = (int)s.below(14); std::string p = pathOf(k >= 8), q; int mode = 0; bool done = false;
    static const int modes[] = {0, 0400, 0200, 0100, 0600, 0500, 0300, 0700, 0755, 0644, 0444, 0111};
    switch (k) {
      case 0: case 1: c.describe(cat(i + 1, ". write ", quote(p), "\n")); { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { done = true; if (write(fd, "#!/bin/sh\n", 10)) {} close(fd); } } break;
      case 2: case 3: c.describe(cat(i + 1, ". mkdir ", quote(p), "\n")); done = !mkdir(p.c_str(), 0755); break;
      case 4: c.describe(cat(i + 1, ". remove ", quote(p), "\n")); done = !remove(p.c_str()); break;
      case 5: mode = s.pick(modes); c.describe(cat(i + 1, ". chmod ", quote(p), " to decimal ", mode, "\n")); done = !chmod(p.c_str(), mode); break;
      case 6: q = pathOf(false); c.describe(cat(i + 1, ". rename ", quote(p), " to ", quote(q), "\n")); done = !rename(p.c_str(), q.c_str()); break;
      case 7: q = s.pick(nm); c.describe(cat(i + 1, ". link ", quote(p), " to ", quote(q), "\n")); done = !symlink((s.coin() ? t + "/" : std::string()) .append(q).c_str(), p.c_str()); break;
      case 8: case 9: if (held.size() < 6) { c.describe(cat(i + 1, ". take ", quote(p), "\n")); held.emplace_back(new PathName(p)); } else { size_t h = s.below(held.size()); c.describe(cat(i + 1, ". path ", h, " becomes ", quote(p), " or a copy\n")); switch (s.below(4)) { case 0: *held[h] = *held[s.below(held.size())]; break; case 1: held[h].reset(new PathName(*held[s.below(held.size())])); break; case 2: *held[h] = PathName(p); break; default: held[h]->SetPathName(p); } } break;
      case 10: c.describe(cat(i + 1, ". list ", quote(p), "\n")); list(c, PathName(p), (int)i + 1); ++looks; break;
      case 11: { PathName pn(p); c.describe(cat(i + 1, ". look at ", quote(p), "\n")); look(c, pn, (int)i + 1); ++looks; break; }
      default: {
        c.describe(cat(i + 1, ". change directory to ", quote(p), "\n")); struct stat st, a, b; std::string before = cwdNow(); bool dir = statOk(p, st) && S_ISDIR(st.st_mode), may = !access(p.c_str(), X_OK), threw = false, ok = false; ++cds;
        if (stat(".", &a)) break;
        try { ok = fileutil::SetCurrentDirectory(PathName(p)); } catch (std::runtime_error &) { threw = true; }
        bool st2 = !stat(".", &b);
        if (!dir) { c.require(threw, "chdir-no-throw", [&] { return cat(quote(p), " is no directory, but nothing was thrown"); }); }
        if (dir && may) { c.require(ok && !threw && st2 && b.st_ino == st.st_ino && b.st_dev == st.st_dev, "chdir", [&] { return cat("changing to ", quote(p), " did not get there"); }); 
          std::string g = fileutil::GetCurrentDirectory().GetPathName(), w = cwdNow(); c.require(g == w, "cwd", [&] { return cat("the current directory is ", quote(w), " but is given as ", quote(g)); }); }
        else { c.require(!ok, "chdir-result", [&] { return cat("reports success for ", quote(p)); }); c.require(cwdNow() == before, "chdir-moved", [&] { return std::string("the working directory changed"); }); }
        break; }
    }
    changes += done;
    for (auto &h : held) { look(c, *h, (int)i + 1); ++looks; }
    if (done && !held.empty() && s.chance(1, 3)) list(c, *held[s.below(held.size())], (int)i + 1);
  }
  if (changes && looks) c.nontrivial();
  c.label(cat(changes < 3 ? "0-2" : changes < 8 ? "3-7" : "8+", " changes")); if (cds) c.label("working directory changed"); if (getuid() != 0) c.label("as an unprivileged user");
}
static const pbt::Property PR = {"C19", "random histories by an unprivileged user in a scratch tree: create, remove, re-mode, rename and link entries, interleaved with queries through fresh and long-lived path objects, listings and directory changes, each compared with direct system calls; working directories of up to 3900 characters; directories of up to 6000 entries; non-trivial: at least one change and one query, or a deep directory; distinct by the drawn choices",
  run, 20000, 400000, 4000, 100000, 800, 20, {"'.' and '..' in listings are not judged", "for a directory, reading and writing are understood to need search permission too, as the code documents by its access checks"}};
PBT_MAIN(PR)
