// C15: file measurements compare contents; missing files never match.
#include "model.h"
using namespace model;

static std::string fileBytes(Source &s) {
  static const std::string common[] = {"", "x", "\n", "a\nb\n", "a\r\nb\r\n", std::string("a\0b", 3), std::string("\0", 1), "\x1a", "\xff\xfe", "abc"};
  switch (s.below(5)) {
    case 0: return s.pick(common);
    case 1: { std::string r; size_t n = s.size(300); for (size_t i = 0; i < n; ++i) r += (char)s.below(256); return r; }
    case 2: return genText(s, 600);
    case 3: { if (s.chance(1, 40)) return bulkText(s, bulkSize(s)); static const size_t n[] = {1023, 1024, 4096, 8190, 8191, 8192, 8193, 16383, 70000}; size_t k = s.pick(n); std::string r, u; size_t m = 1 + s.below(5); for (size_t i = 0; i < m; ++i) u += (char)s.below(256); while (r.size() < k) r += u; r.resize(k); return r; }
    default: { std::string r; size_t n = s.size(30); for (size_t i = 0; i < n; ++i) r += genTextChar(s); return r; }
  }
}
static std::string nearBytes(Source &s, const std::string &b) {
  std::string r = b;
  switch (s.below(8)) {
    case 0: if (!r.empty()) r[s.coin() ? r.size() - 1 : s.below(r.size())] ^= (char)(1 + s.below(255)); break;
    case 1: if (!r.empty()) r.pop_back(); break;
    case 2: r += s.pick({std::string("\n"), std::string("\0", 1), std::string("\r"), std::string(" "), std::string("\x1a")}); break;
    case 3: { std::string t; for (char ch : r) { if (ch == '\n') t += '\r'; t += ch; } r = t; break; }
    case 4: { size_t z = r.find('\0'); if (z != std::string::npos) r.resize(z); else r.insert(s.below(r.size() + 1), 1, '\0'); break; }
    case 5: r = r + r; break;
    case 6: r.clear(); break;
    default: r = fileBytes(s);
  }
  return r;
}
struct FS { // what the case puts into the scratch tree
  std::string root; std::vector<std::pair<std::string, int> > made; // path, 0 file 1 directory 2 link
  std::string desc;
  bool put(Source &s, const std::string &rel, const std::string &bytes, int kind) {
    std::string p = root + "/" + rel; struct stat st; if (!lstat(p.c_str(), &st)) return false;
    if (kind == 0) { pbt::writeFile(p, bytes); desc += cat("  ", rel, ": ", quote(bytes, 120), "\n"); made.push_back({p, 0}); }
    else if (kind == 1) { mkdir(p.c_str(), 0755); desc += cat("  ", rel, ": a directory\n"); made.push_back({p, 1}); }
    else { std::string to = s.coin() ? root + "/nothing" : root + "/store/" + rel.substr(rel.rfind('/') + 1); if (to.find("/store/") != std::string::npos && lstat(to.c_str(), &st)) { pbt::writeFile(to, bytes); made.push_back({to, 0}); }
      if (symlink(to.c_str(), p.c_str())) {} desc += cat("  ", rel, ": a link to ", to, "\n"); made.push_back({p, 0}); }
    return true;
  }
  ~FS() { for (auto &m : made) { if (m.second == 1) rmdir(m.first.c_str()); else unlink(m.first.c_str()); } }
};
static bool isReg(const std::string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISREG(st.st_mode); }
static bool slurp(const std::string &p, std::string &o) { if (!isReg(p)) return false; bool ok; o = pbt::readFile(p, &ok); return ok; }
static std::string tailOf(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
static std::string join(const std::string &d, const std::string &n) { return n[0] == '/' ? n : d.back() == '/' ? d + n : d + "/" + n; }

static void run(Ctx &c) {
  Source &s = c.s; const std::string &R = c.scratch;
  static const char *dirs[] = {"w", "w/sub", "d0", "d1", "d 2", "d0/in"};
  static std::string done;
  if (done != R) { pbt::emptyDir(R); for (auto d : {"w", "w/sub", "d0", "d1", "d 2", "d0/in", "store"}) mkdir((R + "/" + d).c_str(), 0755); done = R; }
  char old[4096]; if (!getcwd(old, sizeof old) || chdir((R + "/w").c_str())) throw pbt::Discard();
  struct Back { const char *o; ~Back() { if (chdir(o)) {} } } back{old};
  FS fs; fs.root = R;
  static const std::string fn[] = {"f", "g.txt", "x y", "&<>", ".h", "f.xml", "-P"};
  // the search path: set before, then -P (each in front of the others)
  std::vector<std::string> before, opts, path; auto dirName = [&] { static const std::string rel[] = {"../d0", "../d1", "../d 2", "sub", ".", "../d0/in", "../d1/"}; static const std::string ab[] = {"d0", "d1", "d 2", "w/sub", "w", "d0/in", "d1/"}; return s.coin() ? s.pick(rel) : R + "/" + s.pick(ab); };
  size_t nb = s.below(3), no = s.below(4);
  for (size_t i = 0; i < nb; ++i) before.push_back(dirName());
  for (size_t i = 0; i < no; ++i) opts.push_back(dirName());
  for (size_t i = no; i-- > 0;) path.push_back(opts[i]); for (auto &b : before) path.push_back(b);
  size_t n = 1 + s.below(3); std::vector<Op> ops; std::vector<Entry> base; bool nontriv = false;
  for (size_t i = 0; i < n; ++i) {
    Op o; o.kind = FILE_TEXT; o.name = s.chance(1, 4) ? std::string() : genName(s); std::string f = s.pick(fn);
    std::string bytes = fileBytes(s);
    // the test's own file
    switch (s.below(8)) {
      case 0: o.text = s.pick({std::string("missing"), R + "/missing", std::string("sub/missing"), std::string("no/" + f), std::string("")}); break;
      case 1: o.text = s.pick({std::string("sub"), R + "/d0", std::string(".")}); break;
      default: { std::string d = s.pick(dirs), rel = d + "/" + f; fs.put(s, rel, bytes, s.chance(1, 10) ? 2 : 0); o.text = s.coin() ? R + "/" + rel : d == "w" ? (s.coin() ? "./" : "") + f : d == "w/sub" ? "sub/" + f : "../" + rel; }
    }
    if (s.chance(1, 4)) o.img = 1 + (int)s.below(2);
    ops.push_back(o);
    // the baseline
    Entry e; e.file = true; e.name = s.chance(1, 12) ? genName(s) : o.name; e.type = typeOf(o);
    std::string g = s.chance(1, 8) ? s.pick(fn) : f;
    if (!o.img && s.chance(1, 4)) { e.file = false; e.content = s.coin() ? bytes : nearBytes(s, bytes); for (char &ch : e.content) if ((ch < 32 && ch != '\n' && ch != '\t') || ch == 127) { ch = '?'; } }
    else { e.content = s.pick({std::string(), std::string(), std::string("sub/"), std::string("../d1/"), std::string("no/such/"), R + "/d0/"}) + g; if (s.chance(1, 12)) e.content = s.pick({std::string(), std::string("missing"), std::string("sub"), R + "/d0"}); }
    if (e.file && s.chance(1, 16)) e.type = s.pick({std::string("image/png"), std::string("text/string"), std::string("text/plain"), std::string("image/jpeg")});
    if (s.chance(1, 16)) { e.file = false; e.type = "text/string"; }
    if (e.file) for (auto d : dirs) if (s.chance(2, 5)) fs.put(s, std::string(d) + "/" + g, s.chance(2, 3) ? bytes : nearBytes(s, bytes), s.chance(1, 8) ? 1 : s.chance(1, 8) ? 2 : 0);
    if (!s.chance(1, 16)) base.push_back(e);
  }
  std::string d; for (auto &p : path) d += quote(p) + " ";
  c.describe(cat("search path, in order: ", d, "\nfiles:\n", fs.desc, "test, run in w:\n", show(ops), "baseline:\n", show(base)));
  // the reference
  int want = 0, open = 0; std::vector<int> each; std::string why;
  for (size_t i = 0; i < ops.size(); ++i) {
    std::string a, b; bool m = false;
    if (i < base.size() && base[i].name == ops[i].name && base[i].type == typeOf(ops[i]) && slurp(ops[i].text, a)) {
      const Entry &e = base[i];
      if (!e.file) m = a == e.content;
      else { std::string p = e.content; for (auto &q : path) { std::string x = tailOf(e.content); if (x.empty()) break; if (isReg(join(q, x))) { p = join(q, x); break; } } m = slurp(p, b) && a == b; if (p != e.content) { nontriv = true; c.label("found in the search path"); } why += cat("  ", i, ": baseline file ", p, "\n"); }
      nontriv = true;
    } else if (i < base.size() && base[i].name == ops[i].name && base[i].type == typeOf(ops[i])) { c.label("test file not readable"); nontriv = true; }
    each.push_back(m); want += !m; if (m && ops[i].img) { ++open; c.label("equal pictures (not judged)"); } c.label(m ? "match" : "no match");
  }
  std::string bx = R + "/base.xml"; pbt::writeFile(bx, writeDoc(base));
  std::vector<std::string> argv = {"prog", "-I", bx}; for (auto &p : opts) { argv.push_back("-P"); argv.push_back(p); }
  Scripted t; t.ops = ops; fileutil::PathList pl; for (auto &b : before) pl.push_back(fileutil::PathName(b)); t.SetInFileSearchPath(pl);
  Result r = runMain(t, argv);
  c.require(t.ran, "not-run", [&] { return r.err; });
  for (size_t i = 0; i < ops.size(); ++i) c.require(i < t.results.size(), "call", [&] { return cat("the run ended at measurement ", i, ": ", r.err); });
  c.require(r.ret >= want && r.ret <= want + open, "count", [&] { return cat("returned ", r.ret, ", should be ", want, "\n", why, r.err, r.out); });
  // recording stores the base name, which replays from the directory of the file
  if (s.chance(1, 3)) {
    Scripted q; q.ops = ops; Result w = runMain(q, {"prog"}); c.require(w.ret == 0, "record", [&] { return w.err; });
    Doc doc = parseXml(w.out); c.require(doc.ok && doc.root.kids.size() == ops.size(), "record-elements", [&] { return w.out; });
    for (size_t i = 0; i < ops.size(); ++i) c.require(doc.root.kids[i].tag == "DartMeasurementFile" && doc.root.kids[i].text == tailOf(ops[i].text), "base-name", [&] { return cat("recorded ", quote(doc.root.kids[i].text), " for ", quote(ops[i].text)); });
    if (ops.size() == 1 && !ops[0].img && isReg(ops[0].text)) {
      pbt::writeFile(bx, w.out); std::string dir = ops[0].text.substr(0, ops[0].text.size() - tailOf(ops[0].text).size()); if (dir.empty()) dir = ".";
      Scripted v; v.ops = ops; Result x = runMain(v, {"prog", "-P", dir, "-I", bx}); c.require(x.ret == 0, "replay", [&] { return cat("record and replay with -P ", dir, " returned ", x.ret, "\n", x.err, x.out); }); c.label("recorded and replayed"); }
  }
  if (nontriv) c.nontrivial();
}
static const pbt::Property P = {"C15", "random scratch trees (files, directories, live and dangling links of the same names), search paths by call and by -P, test files and baselines (files and inline) measured as text and as picture files, with equal, nearly equal and different bytes, missing and unreadable files; compared with a reference lookup, then recorded and replayed; non-trivial: names and types agree so that files are looked at; distinct by the drawn choices",
  run, 40000, 600000, 10000, 200000, 900, 10, {"as root every regular file is readable; unreadable are missing files, dangling links and directories", "comparing equal picture files is documented as not yet supported", "an inline test measurement is not compared with a file baseline"}};
PBT_MAIN(P)
