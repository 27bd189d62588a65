// C09: base64 encoding is exact, wrapped as documented, and decodes back.
#include "b64model.h"
#include "TestingFramework/tfBase64.h"
using namespace model; using pbt::cat; using pbt::quote;

static void run(pbt::Ctx &c) {
  bool large = c.s.chance(1, 1500); std::string in = large ? genLargeBytes(c.s, 400000) : genBytes(c.s, c.thorough ? 3000 : 700); bool nl = !c.s.chance(1, 3);
  c.describe(cat(in.size(), " bytes ", quote(in), ", line breaks ", nl, "\n"));
  std::vector<char> exact(in.begin(), in.end()); // no byte to spare behind it
  testutil::Base64 b;
  if (nl) { if (c.s.coin()) b.SetAddNewLines(true); else if (c.s.coin()) b.NewLinesOn(); } // also the default
  else if (c.s.coin()) b.SetAddNewLines(false); else b.NeLinesOff();
  c.check(b.GetAddNewLines() == nl, "mode", "GetAddNewLines");
  std::string e = b.Encode(exact.data(), exact.size()), ref = b64encode(in), want = nl ? b64wrap(ref) : ref;
  c.require(e == want, "encoding", [&] { return cat("got ", quote(e, 2000), "\nwant ", quote(want, 2000)); });
  c.require(b.Encode(exact.data(), exact.size()) == e, "not-repeatable", [&] { return std::string("another call, another encoding"); });
  std::vector<char> out(in.size()); size_t n;
  try { n = b.Decode(e, out.data()); } catch (std::exception &x) { throw pbt::Failure{"decode-throws", x.what()}; }
  c.require(n == in.size() && std::string(out.begin(), out.end()) == in, "round-trip", [&] { return cat("decoded ", n, " bytes: ", quote(std::string(out.begin(), out.end()))); });
  if (in.size()) c.nontrivial();
  c.key = pbt::hashBytes(in) * 2 + nl + 1;
  if (large) c.label("large"); c.label(cat("length mod 3 is ", in.size() % 3)); if (ref.size() > 72) c.label("more than one line"); if (ref.size() && ref.size() % 72 == 0) c.label("ends with a full line");
}
static const pbt::Property P = {"C09", "random byte strings (all byte values, lengths around 0-8 and multiples of a full line favoured, some up to 400000 bytes) in both line-break modes against an independent encoder, and decoded back into a buffer of exactly the right size; non-trivial: at least one byte; distinct by bytes and mode",
  run, 400000, 6000000, 100000, 3000000, 1000, 5, {}};
PBT_MAIN(P)
