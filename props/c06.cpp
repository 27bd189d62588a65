// C06: recorded documents are well-formed and lossless.
#include "model.h"
using namespace model;

static std::string hostName = "host";
extern "C" int gethostname(char *b, size_t n) { snprintf(b, n, "%s", hostName.c_str()); return 0; } // the host of the case
static std::string noDate(const std::string &s) { // the comment with host and time
  size_t i = s.find("<!--"), j = s.find("-->"); return i == std::string::npos || j == std::string::npos || j < i ? s : s.substr(0, i) + s.substr(j + 3); }
static std::string baseName(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
static void compare(Ctx &c, const char *how, const Elem &root, const std::vector<Op> &ops, const std::string &doc) {
  size_t k = 0;
  c.require(root.text.find_first_not_of(" \t\r\n") == std::string::npos, "stray-text", [&] { return cat(how, ": text between the elements\n", doc); });
  for (auto &o : ops) {
    if (!o.measures()) continue;
    c.require(k < root.kids.size(), "missing-element", [&] { return cat(how, ": only ", root.kids.size(), " elements\n", doc); });
    const Elem &e = root.kids[k++];
    std::string want = o.kind == FILE_TEXT ? baseName(o.text) : contentOf(o);
    const std::string *n = e.get("name"), *t = e.get("type");
    c.require(e.tag == (o.kind == FILE_TEXT ? "DartMeasurementFile" : "DartMeasurement"), "element", [&] { return cat(how, ": element ", e.tag, " for ", show(o)); });
    c.require(n && *n == o.name, "name", [&] { return cat(how, ": name reads back as ", n ? quote(*n) : "(none)", ", recorded ", quote(o.name)); });
    c.require(t && *t == typeOf(o), "type", [&] { return cat(how, ": type reads back as ", t ? quote(*t) : "(none)"); });
    c.require(e.text == want && e.kids.empty(), "content", [&] { return cat(how, ": content reads back as ", quote(e.text, 3000), ", recorded ", quote(want, 3000)); });
  }
  c.require(k == root.kids.size(), "extra-element", [&] { return cat(how, ": ", root.kids.size(), " elements for ", k, " measurements\n", doc); });
}
static void run(Ctx &c) {
  Source &s = c.s;
  std::vector<Op> ops = genOps(s, s.chance(1, 12) ? 100 : 12);
  for (auto &o : ops) if (o.measures() && s.chance(1, 6)) { o.kind = FILE_TEXT; o.img = s.coin() ? 0 : 1 + (int)s.below(2); o.text = genName(s); for (char &ch : o.text) if (ch == '/') ch = '_'; if (o.text.empty()) o.text = "f"; if (s.coin()) o.text = s.pick({std::string("dir/"), std::string("/a/b c/"), std::string("../")}) + o.text; }
  hostName = s.pick({std::string("localhost"), std::string("a.b.example.org"), std::string("xn--bcher-kva.example"), std::string("a---b"), std::string("h--")});
  if (s.chance(1, 4)) { hostName.clear(); size_t n = 1 + s.below(64); for (size_t i = 0; i < n; ++i) hostName += "ab-.0Z-"[s.below(7)]; }
  c.describe(cat("on host ", hostName, "\n", show(ops)));
  std::string f = c.scratch + "/out.xml"; if (s.coin()) pbt::writeFile(f, std::string(s.below(3000), 'x')); else unlink(f.c_str());
  Scripted a, b; a.ops = b.ops = ops;
  Result ra = runMain(a, {"prog"}), rb = runMain(b, {"prog", "-O", f});
  c.require(ra.ret == 0 && rb.ret == 0, "record", [&] { return ra.err + rb.err; });
  std::string file = pbt::readFile(f);
  c.require(rb.out.empty(), "stdout-used", [&] { return cat("with an output file, standard output got ", quote(rb.out)); });
  Doc d = parseXml(ra.out);
  c.require(d.ok, "malformed", [&] { return cat(d.error, "\n", ra.out); });
  compare(c, "expat", d.root, ops, ra.out);
  MiniXml m(ra.out); Elem root;
  c.require(m.document(root), "malformed2", [&] { return cat(m.err, "\n", ra.out); });
  compare(c, "own reader", root, ops, ra.out);
  Doc df = parseXml(file);
  c.require(df.ok, "file-malformed", [&] { return cat(df.error, "\n", file); });
  compare(c, "expat, file", df.root, ops, file);
  c.require(noDate(file) == noDate(ra.out), "file-differs", [&] { return cat("file:\n", file, "\nstandard output:\n", ra.out); });
  size_t n = 0; bool markup = false; for (auto &o : ops) { n += o.measures(); if ((o.name + o.text).find_first_of("&<>\"'") != std::string::npos) markup = true; }
  if (n) c.nontrivial(); if (markup) c.label("markup characters"); if (hostName.find("--") != std::string::npos) c.label("host name with a double hyphen"); c.label(n == 0 ? "empty" : n < 5 ? "1-4 elements" : "5+ elements");
}
static const pbt::Property P = {"C06", "random scripts of measurements (files included) with hostile names and texts recorded to standard output and over an old file; read back by expat and by an own strict reader; non-trivial: at least one measurement; distinct by the drawn choices",
  run, 120000, 1500000, 20000, 800000, 2000, 10, {"the comment with host name and time is left out of the file/standard output comparison"}};
PBT_MAIN(P)
