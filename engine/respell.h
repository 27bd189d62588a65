// Writes a baseline document in one of its many equivalent XML spellings.
#ifndef VERIF_RESPELL_H
#define VERIF_RESPELL_H
#include "model.h"
namespace model {
struct Respell {
  Source &s; std::string nl; unsigned noise; // noise: 0 (plain) .. 3
  Respell(Source &src) : s(src) { static const char *n[] = {"\n", "\r\n", "\r"}; nl = n[s.below(3)]; noise = (unsigned)s.below(4); }
  bool odd(unsigned den) { return noise && s.chance(noise, den); }
  std::string cref(char c) {
    static const char *const named[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"}; const char *p = strchr("&<>\"'", c);
    if (p && c && s.coin()) return named[p - "&<>\"'"];
    char b[32]; switch (s.below(4)) { case 0: snprintf(b, sizeof b, "&#%d;", c); break; case 1: snprintf(b, sizeof b, "&#x%x;", c); break; case 2: snprintf(b, sizeof b, "&#x%X;", c); break; default: snprintf(b, sizeof b, "&#%05d;", c); } return b;
  }
  std::string blank() { std::string r; size_t n = s.size(4); for (size_t i = 0; i < n; ++i) { switch (s.below(3)) { case 0: r += ' '; break; case 1: r += '\t'; break; default: r += nl; } } return r; }
  std::string space1() { std::string r = " "; if (odd(8)) { r = blank(); if (r.empty()) r = " "; } return r; }
  std::string comment() { std::string r = "<!--"; size_t n = s.size(60); for (size_t i = 0; i < n; ++i) { char c = genTextChar(s); if (c == '-') c = '_'; r += c; } return r + "-->"; }
  std::string pi() { std::string r = "<?pi"; if (s.coin()) { r += " "; size_t n = s.size(30); for (size_t i = 0; i < n; ++i) { char c = genTextChar(s); if (c == '?') c = '!'; r += c; } } return r + "?>"; }
  std::string attrValue(const std::string &v) { char q = s.coin() ? '"' : '\''; std::string r(1, q); for (char c : v) { if (c == '&' || c == '<' || c == q || c == '\t' || c == '\n' || c == '\r' || odd(12)) r += cref(c); else r += c; } return r + q; }
  std::string text(const std::string &t) {
    std::string r; size_t i = 0;
    while (i < t.size()) {
      if (odd(60)) r += comment();
      if (odd(80)) r += pi();
      if (odd(40)) { // a CDATA section of some length
        size_t n = std::min(t.size() - i, (size_t)s.size(200)); std::string p = t.substr(i, n); if (p.find("]]>") == std::string::npos && p.find('\r') == std::string::npos) { r += "<![CDATA["; for (char c : p) { if (c == '\n') r += nl; else r += c; } r += "]]>"; i += n; continue; } }
      char c = t[i++];
      if (c == '\n') r += odd(12) ? cref(c) : nl;
      else if (c == '&' || c == '<' || c == '\r' || odd(20)) r += cref(c);
      else if (c == '>' && (s.coin() || (r.size() >= 2 && r.compare(r.size() - 2, 2, "]]") == 0))) r += cref(c);
      else r += c;
    }
    if (odd(20)) r += comment();
    return r;
  }
  std::string between() { std::string r; if (!noise) return "\n"; r += blank(); if (odd(8)) r += comment(); if (odd(10)) r += pi(); r += blank(); if (odd(12)) r += unknown(); if (odd(24)) { r += "<!--" + std::string(s.below(2100), '.') + "-->"; } else if (odd(24)) r += std::string(s.below(2100), ' '); return r; }
  std::string unknown() { static const char *n[] = {"other", "DartMeasurementX", "dartmeasurement", "Output", "output", "a.b-c", "_", "DartMeasurementFil", "name"}; std::string e = s.pick(n), r = "<" + e;
    if (s.coin()) r += " name=" + attrValue(genName(s)); if (s.coin()) r += " type=\"numeric/integer\""; if (s.coin()) return r + "/>"; return r + ">" + (s.coin() ? text(genText(s, 300)) : std::string("1")) + "</" + e + space0() + ">"; }
  std::string space0() { return odd(10) ? blank() : std::string(); }
  std::string entry(const Entry &e) {
    std::string tag = e.file ? "DartMeasurementFile" : "DartMeasurement", r = "<" + tag;
    std::vector<std::pair<std::string, std::string> > a = {{"name", e.name}, {"type", e.type}}; for (auto &x : e.extra) a.push_back(x);
    if (odd(8)) a.push_back({s.pick({std::string("id"), std::string("Name"), std::string("TYPE"), std::string("types"), std::string("x.y")}), genName(s)});
    if (noise) for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[s.below(i)]);
    for (auto &x : a) r += space1() + x.first + space0() + "=" + space0() + (noise ? attrValue(x.second) : "\"" + escAttr(x.second) + "\"");
    r += space0();
    if (e.shown().empty() && noise && s.coin()) return r + "/>";
    return r + ">" + (noise ? text(e.shown()) : escText(e.shown())) + "</" + tag + space0() + ">";
  }
  std::string doc(const std::vector<Entry> &v) {
    std::string r; static const char *d[] = {"<?xml version=\"1.0\" encoding=\"US-ASCII\"?>", "<?xml version='1.0'?>", "", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>", "<?xml version=\"1.0\" encoding='us-ascii' ?>"};
    r = d[noise ? s.below(5) : 0]; r += noise ? (odd(8) ? comment() : std::string()) + blank() + (odd(12) ? pi() : std::string()) : std::string("\n");
    r += "<output" + (odd(8) ? " created=" + attrValue(genName(s)) : std::string()) + space0() + ">";
    for (auto &e : v) r += between() + entry(e);
    r += between() + "</output" + space0() + ">" + (noise ? blank() + (odd(8) ? comment() : std::string()) + blank() : std::string("\n"));
    return r;
  }
};
} // namespace model
#endif
