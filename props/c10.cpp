// C10: base64 validation and decoding agree with each other and with a reference.
#include "b64model.h"
#include "TestingFramework/tfBase64.h"
#include <cstring>
#include <stdexcept>
using namespace model; using pbt::cat; using pbt::quote;

static void run(pbt::Ctx &c) {
  std::string t = genB64Text(c.s); bool ign = c.s.chance(1, 3);
  if (t.find('\b') != std::string::npos) throw pbt::Discard(); // neither white space nor clearly not
  c.describe(cat(quote(t, 3000), ign ? ", invalid characters ignored\n" : "\n"));
  std::string want; bool valid = b64decode(t, ign, want);
  testutil::Base64 b;
  if (ign) { if (c.s.coin()) b.SetIgnoreInvalids(true); else b.IgnoreInvalidsOn(); }
  else if (c.s.coin()) { b.IgnoreInvalidsOn(); b.IgnoreInvalidsOff(); }
  c.check(b.GetIgnoreInvalids() == ign, "mode", "GetIgnoreInvalids");
  size_t n = b.IsBase64(t);
  c.require(n == (valid ? want.size() : 0), "IsBase64", [&] { return cat("returns ", n, ", should be ", valid ? want.size() : 0, valid ? "" : " (not valid)"); });
  // room for anything an incorrect decoder may write, so that a miscount is reported as such
  std::vector<unsigned char> out(t.size() + 16, 0xA5); bool threw = false; size_t m = 0;
  try { m = b.Decode(t, valid ? (void *)out.data() : (void *)out.data()); } catch (std::runtime_error &) { threw = true; }
  c.require(threw == !valid, "decode-verdict", [&] { return valid ? "throws for a valid text" : "does not throw for an invalid text"; });
  if (valid) {
    c.require(m == want.size(), "decode-count", [&] { return cat("returns ", m, ", should be ", want.size()); });
    c.require(!memcmp(out.data(), want.data(), want.size()), "decode-bytes", [&] { return cat("decodes to ", quote(std::string(out.begin(), out.begin() + want.size())), ", should be ", quote(want)); });
    for (size_t i = want.size(); i < out.size(); ++i) c.require(out[i] == 0xA5, "decode-overrun", [&] { return cat("byte ", i, " behind the ", want.size(), " decoded ones was written"); });
    std::vector<unsigned char> exact(want.size()); // the sanitizer watches this one
    c.check(b.Decode(t, exact.data()) == want.size(), "not-repeatable", "");
  }
  std::string only; for (char ch : t) if (ch == '=' || ch == ' ' || (ch >= 9 && ch <= 13) || (ch && strchr(B64, ch))) only += ch;
  if (ign && only != t) { testutil::Base64 d; c.check(d.IsBase64(only) == n, "ignore-invalid", "not the same as without those characters"); }
  if (t.find_first_not_of(" \t\n\r\v\f") != std::string::npos) c.nontrivial();
  c.key = pbt::hashBytes(t) * 2 + ign + 1;
  c.label(valid ? "valid" : "invalid"); if (t.find('=') != std::string::npos) c.label("padding present"); if (only != t) c.label("invalid characters");
}
static const pbt::Property P = {"C10", "random strings over base64 digits, padding, white space and arbitrary bytes, and encodings with inserted, deleted and replaced characters, in both invalid-character modes, against an independent decoder with guard bytes behind the output; non-trivial: not blank; distinct by text and mode",
  run, 800000, 6000000, 200000, 4000000, 400, 5, {"the backspace character, which the table lists as white space, is not used"}};
PBT_MAIN(P)
