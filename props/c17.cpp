// C17: path name operations are mutually consistent.
#include "pbt.h"
#include "FileUtilities/PathName.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::cat; using pbt::quote; using pbt::Source; using fileutil::PathName;

static std::string genPath(Source &s) {
  static const std::string comp[] = {"a", "b", "c", "a.txt", "b.tar.gz", ".", "..", ".hidden", "x.", "a b", "...", "d", "link"};
  switch (s.below(8)) {
    case 0: { std::string r; size_t n = s.size(14); for (size_t i = 0; i < n; ++i) r += "/.ab \\:"[s.below(7)]; return r; }
    case 1: { std::string r; size_t n = s.size(60); for (size_t i = 0; i < n; ++i) r += (char)s.range(1, 255); return r; }
    default: { std::string r; if (s.chance(1, 4)) r = s.chance(1, 5) ? "//" : "/"; size_t n = s.size(6); for (size_t i = 0; i < n; ++i) { r += s.pick(comp); if (i + 1 < n) r += s.chance(1, 6) ? "//" : "/"; } if (s.chance(1, 6)) r += "/"; return r; }
  }
}
static std::vector<std::string> comps(const std::string &p) { std::vector<std::string> v; std::string c; for (char ch : p + "/") { if (ch == '/') { if (!c.empty() && c != ".") v.push_back(c); c.clear(); } else c += ch; } return v; }
static bool abs(const std::string &p) { return !p.empty() && p[0] == '/'; }
static size_t count(const std::string &p) { size_t n = 0; bool in = false; for (char ch : p) { if (ch == '/') in = false; else if (!in) { in = true; ++n; } } return n; }
static std::string tail(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
static bool same(const std::string &a, const std::string &b) { return abs(a) == abs(b) && comps(a) == comps(b); }

static void run(pbt::Ctx &c) {
  Source &s = c.s; std::string p = genPath(s), q = genPath(s);
  static std::string made;
  if (made != c.scratch) { made = c.scratch; std::string t = c.scratch + "/t"; for (const char *d : {"", "/a", "/a/b", "/a/b/c", "/b", "/b/a", "/c", "/.hidden", "/a b", "/a/..."}) mkdir((t + d).c_str(), 0755);
    for (const char *f : {"/a.txt", "/a/a.txt", "/a/b/b.tar.gz", "/a/b/c/d", "/b/a/x.", "/.hidden/a", "/x."}) pbt::writeFile(t + f, f); if (symlink("a/b", (t + "/link").c_str())) {} }
  c.describe(cat(quote(p), " and ", quote(q), "\n"));
  const PathName P(p), Q(q);
  auto say = [&](const std::string &m) { return [m] { return m; }; };
  c.require(P.GetPathName() == p && P.GetNativePathName() == p, "text", say("the path text is not what was given"));
  c.require((P.GetPathType() == PathName::Absolute) == abs(p) && (P.GetPathType() == PathName::Relative) == !abs(p), "type", say("absolute or relative is wrong"));
  // append
  PathName r(P); PathName &back = r.Append(Q); std::string a = r.GetPathName();
  c.require(&back == &r, "append-ref", say("Append returns another object"));
  c.require(P.GetPathName() == p && Q.GetPathName() == q, "modified", say("Append changed its argument or a copy"));
  if (p.empty() || abs(q)) c.require(a == q, "append-override", say(cat("appending gives ", quote(a))));
  else {
    c.require(abs(a) == abs(p), "append-type", say(cat("appending gives ", quote(a))));
    std::vector<std::string> w = comps(p), v = comps(q); w.insert(w.end(), v.begin(), v.end());
    c.require(comps(a) == w, "append-components", say(cat("appending gives ", quote(a))));
    c.require(r.Tail().GetPathName() == Q.Tail().GetPathName(), "append-tail", say(cat("appending gives ", quote(a), " with another tail than the appended path")));
  }
  PathName self(P); self.Append(self); if (!p.empty()) { std::vector<std::string> w = comps(p); const std::vector<std::string> w1 = w; if (!abs(p)) w.insert(w.end(), w1.begin(), w1.end()); c.require(comps(self.GetPathName()) == w, "append-self", say(quote(self.GetPathName()))); }
  // directory name, tail, extension
  for (int k = 0; k < 2; ++k) {
    const PathName &X = k ? Q : P; const std::string &x = k ? q : p; std::string d = X.DirectoryName().GetPathName(), t = X.Tail().GetPathName(), e = X.Extension();
    c.require(t.find('/') == std::string::npos, "tail-slash", say(cat("tail of ", quote(x), " is ", quote(t))));
    if (x.find('/') == std::string::npos) c.require(d == "." && t == x, "single", say(cat(quote(x), " has directory name ", quote(d), " and tail ", quote(t))));
    if (!x.empty() && x[x.size() - 1] != '/') c.require(t == tail(x), "tail", say(cat("tail of ", quote(x), " is ", quote(t))));
    size_t dot = t.rfind('.'); c.require(e == (dot == std::string::npos ? "" : t.substr(dot + 1)), "extension", say(cat("extension of ", quote(x), " is ", quote(e))));
    if (count(x) > 1 && x[x.size() - 1] != '/') {
      PathName j(d); j.Append(PathName(t));
      c.require(same(j.GetPathName(), x), "directory-and-tail", say(cat(quote(x), " has directory name ", quote(d), " and tail ", quote(t))));
      c.require(same(d, x.substr(0, x.rfind('/') + 1)), "directory", say(cat(quote(x), " has directory name ", quote(d))));
      if (X.DirectoryName().GetPathName() != d) throw pbt::Failure{"not-repeatable", ""};
    }
  }
  PathName o(p); o.SetPathName(q); c.check(o.GetPathName() == q, "set", ""); PathName as("zz"); as = P; c.check(as.GetPathName() == p, "assign", "");
  // on a real tree
  if (!p.empty() && !abs(q) && p.find('\0') == std::string::npos) {
    std::string root = c.scratch + "/t/"; std::string pp = abs(p) ? root + p.substr(1) : root + p; int fd = open(pp.c_str(), O_RDONLY | O_DIRECTORY);
    if (fd >= 0) { struct stat x, y; PathName z(pp); z.Append(Q); int i = fstatat(fd, q.empty() ? "." : q.c_str(), &x, 0), j = stat(z.GetPathName().c_str(), &y); close(fd);
      c.require(i == j && (i || (x.st_ino == y.st_ino && x.st_dev == y.st_dev)), "append-file", say(cat("walking from ", quote(pp), " to ", quote(q), i ? " finds nothing" : " finds a file", ", but ", quote(z.GetPathName()), j ? " names nothing" : " names another one")));
      if (!i) c.label("appended path exists"); }
  }
  if (p.size() > 1 && !q.empty()) c.nontrivial();
  c.key = pbt::hashBytes(p + '\0' + q) | 1;
  c.label(abs(p) ? "absolute first" : "relative first"); if (p.find("//") != std::string::npos) c.label("repeated slashes");
}
static const pbt::Property PR = {"C17", "pairs of path texts (components with dots, repeated and trailing slashes, arbitrary bytes) against component lists and, where they exist, against openat/stat in a generated tree; non-trivial: first of two or more characters, second not empty; distinct by the two texts",
  run, 600000, 4000000, 100000, 2000000, 200, 5, {"the directory name of a single absolute component is documented as '.' and not judged", "POSIX paths only"}};
PBT_MAIN(PR)
