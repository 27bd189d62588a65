// C39: a fault in a run fails it or leaves it as it is.
#include "model.h"
#include <dirent.h>
#include <new>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace model;

// ------------------------------------------------------------ fault injection
// The calls a run makes are counted while armed; the k-th (or all from there on) fails.
namespace fault {
enum { ALLOC, OPEN, READ, WRITE, CLOSE, SEEK, NKIND };
static const char *const NAME[] = {"memory", "open", "read", "write", "close", "seek"};
enum { FAIL, SHORT, INTR };
static bool armed; static long count[NKIND]; static int kind = -1, how; static long at, last; static long fired;
static bool hit(int k) { if (!armed) return false; long n = count[k]++; if (k != kind || n < at || n > last) return false; ++fired; return true; }
static void reset(int k, int h, long a, long l) { for (long &c : count) c = 0; kind = k; how = h; at = a; last = l; fired = 0; }
}
extern "C" {
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (fault::hit(fault::ALLOC)) return 0; return __real_malloc(n); }
XML_Parser __real_XML_ParserCreate(const XML_Char *);
XML_Parser __wrap_XML_ParserCreate(const XML_Char *e) { if (fault::hit(fault::ALLOC)) return 0; return __real_XML_ParserCreate(e); }
void *__real_XML_GetBuffer(XML_Parser, int);
void *__wrap_XML_GetBuffer(XML_Parser p, int n) { if (fault::hit(fault::ALLOC)) return 0; return __real_XML_GetBuffer(p, n); }
}
static void *take(size_t n) { if (fault::hit(fault::ALLOC)) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fault::hit(fault::ALLOC) ? 0 : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fault::hit(fault::ALLOC) ? 0 : __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
extern "C" { // the calls of the C++ library end here
ssize_t read(int fd, void *b, size_t n) { if (fault::hit(fault::READ)) { if (fault::how == fault::SHORT) { if (n > 3) n = 3; } else { errno = fault::how == fault::INTR ? EINTR : EIO; return -1; } } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fault::hit(fault::WRITE)) { if (fault::how == fault::SHORT) { if (n > 3) n = 3; } else { errno = fault::how == fault::INTR ? EINTR : ENOSPC; return -1; } } return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (fault::hit(fault::WRITE)) { if (fault::how == fault::SHORT) { if (v[0].iov_len) return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len > 3 ? 3 : v[0].iov_len); } else { errno = fault::how == fault::INTR ? EINTR : ENOSPC; return -1; } } return syscall(SYS_writev, fd, v, n); }
FILE *fopen(const char *p, const char *m) { if (fault::hit(fault::OPEN)) { errno = EMFILE; return 0; } int fl = *m == 'r' ? O_RDONLY : *m == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC; if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; int fd = ::open(p, fl | (strchr(m, 'e') ? O_CLOEXEC : 0), 0666); if (fd < 0) return 0; FILE *f = fdopen(fd, m); if (!f) { int e = errno; ::close(fd); errno = e; } return f; }
off_t lseek(int fd, off_t o, int w) { if (fault::hit(fault::SEEK)) { errno = EIO; return -1; } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
}
#include <dlfcn.h>
extern "C" int fclose(FILE *f) { static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose"); bool h = fault::hit(fault::CLOSE); int r = real(f); if (h) { errno = EIO; return -1; } return r; }

namespace {
struct Fixed : std::streambuf { std::vector<char> b; size_t n = 0; Fixed() : b(1 << 21) {} int_type overflow(int_type ch) override { if (n >= b.size()) return traits_type::eof(); b[n++] = (char)ch; return ch; } std::streamsize xsputn(const char *p, std::streamsize k) override { size_t m = std::min((size_t)k, b.size() - n); memcpy(&b[n], p, m); n += m; return m; } std::string str() const { return std::string(&b[0], n); } };
struct Quick : testutil::RegressionTest { // the body: nothing of its own that can fail
  const std::vector<Op> *ops; int ret = 0; int results[64]; size_t nres = 0; bool ran = false;
  int Test(int, char **) override {
    ran = true;
    for (auto &o : *ops) { int r = 0; switch (o.kind) {
      case SET_TOL: SetRelativeTolerance(o.tol); continue; case STRING: r = MeasurementTextString(o.text, o.name); break; case PLAIN: r = MeasurementTextPlain(o.text, o.name); break;
      case FILE_TEXT: r = o.img == 0 ? MeasurementFileTextPlain(o.text, o.name) : MeasurementFileImagePNG(o.text, o.name); break; case INTEGER: r = MeasurementNumericInteger(o.i, o.name, o.isTolerant()); break;
      case FLOAT: r = MeasurementNumericFloat(o.f, o.name, o.isTolerant()); break; case DOUBLE: r = MeasurementNumericDouble(o.d, o.name, o.isTolerant()); break; case BOOLEAN: r = MeasurementNumericBoolean(o.b, o.name, o.isTolerant()); break; }
      if (nres < 64) results[nres++] = r; }
    return ret; } };
struct Out { int ret = 0; bool ran = false; std::vector<int> results; std::string file, out; };
}
static Fixed *gOut, *gErr;
static size_t descriptors() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
static std::string undated(const std::string &s) { size_t a = s.find("<!--"), b = s.find("-->"); return a == std::string::npos || b == std::string::npos || b < a ? s : s.substr(0, a) + s.substr(b); }
static Out go(Quick &t, const std::vector<std::string> &argv, const std::string &of, int kind, int how, long at, long last) {
  Out o; t.nres = 0; t.ran = false; Args a(argv); unlink(of.c_str()); gOut->n = gErr->n = 0; std::streambuf *po = std::cout.rdbuf(gOut), *pe = std::cerr.rdbuf(gErr); std::cout.clear(); std::cerr.clear();
  fault::reset(kind, how, at, last); fault::armed = true; o.ret = t.Main(a.n, &a.p[0]); fault::armed = false;
  std::cout.rdbuf(po); std::cerr.rdbuf(pe); std::cout.clear(); std::cerr.clear(); o.ran = t.ran; o.results.assign(t.results, t.results + t.nres); o.file = undated(pbt::readFile(of)); o.out = undated(gOut->str()); return o;
}
static void run(Ctx &c) {
  Source &s = c.s; const std::string &R = c.scratch; if (!gOut) { gOut = new Fixed; gErr = new Fixed; }
  static std::string done; if (done != R) { mkdir((R + "/d").c_str(), 0755); done = R; }
  std::vector<Op> ops; size_t n = 1 + s.below(6); bool files = s.chance(1, 3); std::string d;
  while (ops.size() < n) { Op o; if (files && s.coin()) { o.kind = FILE_TEXT; o.name = genName(s); o.img = s.chance(1, 4) ? 1 : 0; o.text = cat(R, "/f", ops.size()); std::string x; size_t m = s.chance(1, 5) ? s.below(20000) : s.below(60); while (x.size() < m) x += (char)(x.size() % 31 == 30 ? '\n' : s.chance(1, 4) ? 'b' : 'a'); pbt::writeFile(o.text, x); pbt::writeFile(cat(R, "/d/f", ops.size()), s.coin() ? x : x.substr(x.size() / 2)); } else { o = genOp(s); if (o.name.size() > 300) o.name.resize(300); if (o.text.size() > 9000) o.text.resize(9000); } ops.push_back(o); }
  std::string doc; size_t pad = 0; bool bad = false; bool compare = s.chance(2, 3), toFile = s.chance(2, 3), search = s.coin(); std::vector<Entry> base;
  if (compare) { if (s.coin()) { for (auto &o : ops) if (o.measures()) base.push_back(entryOf(o)); } else base = genBaseline(s, ops, FLT_EPSILON * 64); size_t k = 0; for (auto &e : base) { if (e.file && e.content.size() > R.size()) e.content = e.content.substr(e.content.rfind('/') + 1); ++k; } encodeSome(s, base, true); doc = writeDoc(base); if (s.chance(1, 4)) { pad = s.below(20000); bad = s.chance(1, 3); doc += std::string(pad, ' ') + (bad ? "<x/>" : "<!-- end -->\n"); size_t m = s.below(9000); if (s.coin()) doc += std::string(m, '\n'); } pbt::writeFile(R + "/d/b.xml", doc); }
  std::string of = R + "/o.xml"; std::vector<std::string> argv = {"prog"}; auto opt = [&](const char *a, const std::string &b) { argv.push_back(a); argv.push_back(b); };
  if (search) opt("-P", R + "/d"); if (compare) opt("-I", R + "/d/b.xml"); if (toFile) opt("-O", of);
  int expected = s.chance(1, 6) ? (int)s.range(1, 3) : 0, ret = s.chance(1, 6) ? (int)s.range(1, 3) : expected; if (expected) opt("-R", cat(expected));
  Quick t; t.ops = &ops; t.ret = ret;
  Out ok = go(t, argv, of, -1, 0, 0, 0); long total[fault::NKIND]; { Quick u; u.ops = &ops; u.ret = ret; Out w = go(u, argv, of, -1, 0, 0, 0); for (int k = 0; k < fault::NKIND; ++k) total[k] = fault::count[k]; if (w.ret != ok.ret || w.file != ok.file || w.out != ok.out) throw pbt::Discard(); }
  for (int rep = 0; rep < 6; ++rep) {
    static const std::vector<unsigned> w = {6, 2, 3, 3, 2, 1}; int kind = (int)s.weighted(w); if (!total[kind]) continue; long at = (long)s.below((uint64_t)total[kind]), span = s.chance(1, 5) ? 1000000 : s.below(3); int how = (kind == fault::READ || kind == fault::WRITE) && s.chance(1, 4) ? (s.coin() ? fault::SHORT : fault::INTR) : fault::FAIL; if (how == fault::INTR && span > 50) span = 50;
    std::string a; for (auto &x : argv) a += " " + x;
    c.describe(cat(fault::NAME[kind], how == fault::SHORT ? " is short" : how == fault::INTR ? " is interrupted" : " fails", ", calls ", at, span ? cat(" to ", at + span) : std::string(), " of ", total[kind], "; arguments", a, "; body returns ", ret, "\ntest:\n", show(ops), compare ? "baseline:\n" + show(base) : std::string(), pad ? cat("then ", pad, " spaces and ", bad ? "another element" : "a comment", ", ", doc.size(), " bytes in all\n") : std::string()));
    Quick q; q.ops = &ops; q.ret = ret; size_t fd = descriptors(); Out f = go(q, argv, of, kind, how, at, at + span); long fired = fault::fired; size_t fd2 = descriptors();
    c.require(fd2 <= fd, "descriptors", [&] { return cat("leaves ", fd2 - fd, " files open"); });
    auto same = [&](const Out &x) { return x.ret == ok.ret && x.ran == ok.ran && x.results == ok.results && x.file == ok.file && x.out == ok.out; };
    auto tell = [&](const Out &x) { return cat("returned ", x.ret, " (without the fault ", ok.ret, "), wrote\n", quote(x.file + x.out, 1500), "\nwithout the fault\n", quote(ok.file + ok.out, 1500), "\nmessages ", quote(gErr->str(), 500)); };
    if (!fired) { c.require(same(f), "no-fault", [&] { return tell(f); }); continue; }
    if (how != fault::FAIL) c.require(same(f), "interrupted", [&] { return tell(f); });
    else if (kind == fault::CLOSE && !compare && toFile) c.require(f.ret != 0, "lost-at-close", [&] { return "the output file could not be closed: " + tell(f); });
    else c.require(f.ret != 0 || same(f), "fault-succeeds", [&] { return tell(f); });
    c.label(cat(fault::NAME[kind], how == fault::FAIL ? f.ret == ok.ret ? ": absorbed" : ": fails" : ": harmless")); c.nontrivial();
    if (s.chance(1, 3)) { // what comes after it is not touched by it
      q.SetInFileName(""); q.SetOutFileName(""); q.SetExpectedReturn(0); q.SetInFileSearchPath(fileutil::PathList()); q.SetRelativeTolerance(FLT_EPSILON * 64); Out g = go(q, argv, of, -1, 0, 0, 0); c.require(same(g), "after", [&] { return "the next run of the object: " + tell(g); }); }
  }
}
static const pbt::Property P = {"C39", "scripts recorded or compared (with disagreements, encoded baselines, files, search paths, sound and unsound text after the document) with up to 6 injected faults each: the k-th memory request, open, read, write, close or seek of the run fails, once, a few times or from there on, or reads and writes are short or interrupted; k is drawn from the number of such calls the same run makes without a fault; non-trivial: a fault was delivered; distinct by the drawn choices",
  run, 100000, 1500000, 0, 0, 0, 20, {"the calls are replaced where the C++ library and the framework make them; path queries (stat, access) and the memory of the XML parser beyond its creation and buffers do not fail"}};
PBT_MAIN(P)
