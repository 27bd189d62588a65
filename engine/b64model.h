// Reference base64 (RFC 2045 alphabet), written from the documentation.
#ifndef VERIF_B64MODEL_H
#define VERIF_B64MODEL_H
#include "pbt.h"
#include <cstring>
namespace model {
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static inline std::string b64encode(const std::string &in) {
  std::string o; size_t i = 0;
  for (; i + 2 < in.size(); i += 3) { unsigned v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8 | (unsigned char)in[i + 2]; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += B64[v & 63]; }
  if (in.size() - i == 1) { unsigned v = (unsigned char)in[i]; o += B64[v >> 2]; o += B64[v << 4 & 63]; o += "=="; }
  if (in.size() - i == 2) { unsigned v = (unsigned char)in[i] << 8 | (unsigned char)in[i + 1]; o += B64[v >> 10]; o += B64[v >> 4 & 63]; o += B64[v << 2 & 63]; o += "="; }
  return o;
}
static inline std::string b64wrap(const std::string &e) { std::string o; for (size_t i = 0; i < e.size(); ++i) { if (i && i % 72 == 0) o += '\n'; o += e[i]; } return o; }
// valid: decodes; bytes: what it decodes to
static inline bool b64decode(const std::string &in, bool ignoreInvalid, std::string &bytes) {
  std::string d; int pads = 0; bytes.clear(); bool done = false;
  for (char c : in) {
    if (done) break;                            // text after a padded group
    if (c == ' ' || (c >= 9 && c <= 13)) continue;
    const char *p = c ? strchr(B64, c) : 0;
    if (c == '=') { if (++pads + d.size() % 4 == 4) { done = true; if (pads > 2) return false; } else if (d.size() % 4 < 2) return false; }
    else if (p) { if (pads) return false; d += (char)(p - B64); }
    else if (!ignoreInvalid) return false;
  }
  if (pads && !done) return false;
  if (!pads && d.size() % 4) return false;
  size_t i = 0;
  for (; i + 3 < d.size(); i += 4) { unsigned v = d[i] << 18 | d[i + 1] << 12 | d[i + 2] << 6 | d[i + 3]; bytes += (char)(v >> 16); bytes += (char)(v >> 8); bytes += (char)v; }
  if (d.size() - i == 2) bytes += (char)(d[i] << 2 | d[i + 1] >> 4);
  if (d.size() - i == 3) { bytes += (char)(d[i] << 2 | d[i + 1] >> 4); bytes += (char)(d[i + 1] << 4 | d[i + 2] >> 2); }
  if (d.size() - i == 1) return false;
  return true;
}
static inline std::string genBytes(pbt::Source &s, size_t max = 400) {
  std::string r; size_t n;
  switch (s.below(4)) {
    case 0: n = s.below(8); break;
    case 1: n = 54 * s.below(8) + s.range(0, 4); n = n >= 2 ? n - 2 : n; break; // around full lines
    case 2: n = s.size(40); break;
    default: n = s.below(max + 1);
  }
  int how = (int)s.below(4); uint64_t x = s.below(1ULL << 32) * 2862933555777941757ULL + 3037000493ULL;
  for (size_t i = 0; i < n; ++i) {
    if (how == 0) { r += (char)s.below(256); continue; }
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    r += how == 1 ? (char)(x >> 56) : how == 2 ? (char)("\0\xff\x80\x7f\n"[(x >> 40) % 5]) : (char)(32 + (x >> 40) % 95);
  }
  return r;
}
// large, and without a period that divides a power of two
static inline std::string genLargeBytes(pbt::Source &s, size_t max) {
  size_t n = s.below(max + 1); uint64_t x = s.below(1ULL << 32) * 2862933555777941757ULL + 3037000493ULL; std::string r(n, 0);
  for (auto &c : r) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; c = (char)(x >> 56); }
  return r;
}
static inline std::string genB64Text(pbt::Source &s) {
  std::string e = b64encode(genBytes(s, 200));
  if (s.chance(1, 3)) e = b64wrap(e);
  switch (s.below(4)) {
    case 0: { std::string r; size_t n = s.size(24); for (size_t i = 0; i < n; ++i) { switch (s.below(8)) { case 0: case 1: r += '='; break; case 2: r += " \t\n\r\v\f"[s.below(6)]; break; case 3: r += (char)s.below(256); break; default: r += B64[s.below(64)]; } } return r; }
    case 1: case 2: { size_t k = 1 + s.below(4); for (size_t i = 0; i < k; ++i) { size_t p = s.below(e.size() + 1); if (s.coin()) p = e.size() - (p < 6 ? p : 0); switch (s.below(5)) {
        case 0: e.insert(p, 1, '='); break; case 1: e.insert(p, 1, " \t\n\r\v\f"[s.below(6)]); break; case 2: e.insert(p, 1, (char)s.below(256)); break;
        case 3: if (p < e.size()) e.erase(p, 1 + s.below(3)); break; default: e.insert(p, 1, B64[s.below(64)]); } } return e; }
    default: return e;
  }
}
} // namespace model
#endif
