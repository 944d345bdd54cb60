#include "refcodec.hh"
#include <cstdio>

int64_t civil_to_unix(const Civil& c) {
  int64_t y = c.y - (c.mo <= 2), era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  int64_t doy = (153 * (c.mo + (c.mo > 2 ? -3 : 9)) + 2) / 5 + c.d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return (era * 146097 + doe - 719468) * 86400 + c.h * 3600 + c.mi * 60 + c.s;
}
Civil unix_to_civil(int64_t t) {
  int64_t days = t / 86400, rem = t % 86400; if (rem < 0) { rem += 86400; --days; }
  int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  Civil c; c.d = doy - (153 * mp + 2) / 5 + 1; c.mo = mp < 10 ? mp + 3 : mp - 9; c.y = yoe + era * 400 + (c.mo <= 2);
  c.h = rem / 3600; c.mi = rem / 60 % 60; c.s = rem % 60; return c;
}
std::string iso_time(int64_t t) {
  if (t == 0) return "2999-12-28T22:59:59Z";
  Civil c = unix_to_civil(t); char b[64];
  snprintf(b, sizeof b, "%04lld-%02d-%02dT%02d:%02d:%02dZ", (long long)c.y, c.mo, c.d, c.h, c.mi, c.s); return b;
}
int64_t parse_iso(const std::string& s) {
  if (s == "2999-12-28T22:59:59Z") return 0;
  Civil c; long long y; char z = 0; int n = 0;
  if (sscanf(s.c_str(), "%lld-%2d-%2dT%2d:%2d:%2d%c%n", &y, &c.mo, &c.d, &c.h, &c.mi, &c.s, &z, &n) != 7 || z != 'Z' || n != (int)s.size())
    throw std::runtime_error("bad time " + show(s));
  c.y = y; return civil_to_unix(c);
}

// ---------------------------------------------------------------- XML
namespace {
struct XP {
  const std::string& s; size_t i = 0; int depth = 0;
  explicit XP(const std::string& t) : s(t) {}
  [[noreturn]] void bad(const std::string& m) { throw std::runtime_error("XML: " + m + " at " + std::to_string(i)); }
  bool at(const char* t) const { return s.compare(i, strlen(t), t) == 0; }
  static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
  void skipws() { while (i < s.size() && ws(s[i])) ++i; }
  static bool namec(unsigned char c) { return isalnum(c) || c == '_' || c == '-' || c == '.' || c == ':' || c >= 128; }
  std::string name() { size_t b = i; while (i < s.size() && namec(s[i])) ++i; if (i == b || isdigit((unsigned char)s[b]) || s[b] == '-' || s[b] == '.') bad("name"); return s.substr(b, i - b); }
  void utf8(std::string& o, uint32_t c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  void entity(std::string& o) {
    size_t e = s.find(';', i); if (e == std::string::npos || e - i > 12) bad("entity");
    std::string n = s.substr(i + 1, e - i - 1); i = e + 1;
    if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
    else if (n.size() > 1 && n[0] == '#') {
      bool hx = n[1] == 'x'; char* end; unsigned long v = strtoul(n.c_str() + (hx ? 2 : 1), &end, hx ? 16 : 10);
      if (*end || !v || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) bad("character reference");
      utf8(o, v);
    } else bad("entity " + n);
  }
  void comment() { size_t e = s.find("-->", i + 4); if (e == std::string::npos) bad("comment"); i = e + 3; }
  void pi() { size_t e = s.find("?>", i); if (e == std::string::npos) bad("pi"); i = e + 2; }
  XNode element() {
    if (++depth > 4000) bad("too deep");
    if (s[i] != '<') bad("<"); ++i;
    XNode n(name());
    for (;;) {
      size_t b = i; skipws();
      if (at("/>")) { i += 2; --depth; return n; }
      if (at(">")) { ++i; break; }
      if (b == i) bad("attribute space");
      std::string a = name(); if (n.attribute(a)) bad("duplicate attribute");
      skipws(); if (!at("=")) bad("="); ++i; skipws();
      char q = i < s.size() ? s[i] : 0; if (q != '"' && q != '\'') bad("quote"); ++i;
      std::string v;
      while (i < s.size() && s[i] != q) { if (s[i] == '&') entity(v); else if (s[i] == '<') bad("< in attribute"); else { v += ws(s[i]) ? ' ' : s[i]; ++i; } }
      if (i >= s.size()) bad("attribute end"); ++i;
      n.attr.emplace_back(a, v);
    }
    for (;;) {
      if (i >= s.size()) bad("unterminated " + n.name);
      if (s[i] == '<') {
        if (at("</")) {
          i += 2; std::string e = name(); if (e != n.name) bad("mismatch " + n.name + "/" + e);
          skipws(); if (!at(">")) bad(">"); ++i; --depth; 
          if (!n.kids.empty()) { bool only = true; for (char c : n.text) if (!ws(c)) only = false; if (!only) bad("mixed content in " + n.name); n.text.clear(); }
          return n;
        }
        if (at("<!--")) comment();
        else if (at("<![CDATA[")) { size_t e = s.find("]]>", i); if (e == std::string::npos) bad("cdata"); for (size_t k = i + 9; k < e; ++k) { if (s[k] == '\r') { n.text += '\n'; if (s[k + 1] == '\n') ++k; } else n.text += s[k]; } i = e + 3; n.has_text = true; }
        else if (at("<?")) pi();
        else n.kids.push_back(element());
      } else if (s[i] == '&') { entity(n.text); n.has_text = true; }
      else if (at("]]>")) bad("]]> in text");
      else if (s[i] == '\r') { n.text += '\n'; ++i; if (i < s.size() && s[i] == '\n') ++i; }   // XML line-end normalization
      else { if (!s[i]) bad("NUL"); n.text += s[i++]; }
    }
  }
};
}
XNode xml_parse(const std::string& t) {
  XP p(t);
  if (p.at("\xef\xbb\xbf")) p.i = 3;
  if (p.at("<?xml")) p.pi();
  for (;;) { p.skipws(); if (p.at("<!--")) p.comment(); else if (p.at("<?")) p.pi(); else break; }
  if (p.i >= t.size()) p.bad("empty document");
  XNode r = p.element();
  for (;;) { p.skipws(); if (p.at("<!--")) p.comment(); else if (p.at("<?")) p.pi(); else break; }
  if (p.i != t.size()) p.bad("trailing content");
  return r;
}

namespace {
struct XW {
  std::string o; const XmlStyle& st; Rng* r;
  XW(const XmlStyle& s, Rng* g) : st(s), r(g) {}
  bool roll(unsigned pm) { return pm && r && r->below(1000) < pm; }
  void nl(int d) {
    if (st.indent == 0) return;
    o += st.indent == 3 ? "\r\n" : "\n";
    for (int k = 0; k < d; ++k) o += st.indent == 2 ? "  " : "\t";
  }
  void text(const std::string& t, bool attr = false) {
    if (!attr && !t.empty() && roll(st.cdata) && t.find("]]>") == std::string::npos && t.find('\r') == std::string::npos) { o += "<![CDATA[" + t + "]]>"; return; }
    for (size_t i = 0; i < t.size(); ++i) {
      unsigned char c = t[i]; char b[16];
      if (c == '&') o += roll(st.charref * 4) ? "&#38;" : "&amp;";
      else if (c == '<') o += roll(st.charref * 4) ? "&#x3c;" : "&lt;";
      else if (c == '>') o += roll(st.charref * 4) ? "&#62;" : "&gt;";
      else if (c == '"' && (attr || roll(500))) o += "&quot;";
      else if (c == '\'' && (attr || roll(500))) o += "&apos;";
      else if (c == '\r' || (c < 32 && c != '\n' && c != '\t') || (attr && c < 32) || (c < 127 && roll(st.charref))) { snprintf(b, sizeof b, r && r->coin() ? "&#%u;" : "&#x%X;", c); o += b; }
      else o += (char)c;
    }
  }
  void el(const XNode& n, int d) {
    o += "<" + n.name;
    for (auto& a : n.attr) { char q = st.single_quotes ? '\'' : '"'; o += " " + a.first + "=" + q; text(a.second, true); o += q; }
    if (n.kids.empty() && n.text.empty() && n.raw.empty() && (st.self_close || roll(300))) { o += roll(500) ? "/>" : " />"; return; }
    o += ">";
    o += n.raw;
    if (n.kids.empty()) text(n.text);
    else {
      for (auto& k : n.kids) { nl(d + 1); if (roll(st.comments)) { o += "<!-- <x> & comment -->"; nl(d + 1); } el(k, d + 1); }
      nl(d);
    }
    o += "</" + n.name + ">";
  }
};
}
std::string xml_write(const XNode& root, const XmlStyle& st, Rng* rng) {
  XW w(st, rng);
  if (st.bom) w.o += "\xef\xbb\xbf";
  if (st.decl) w.o += "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>";
  if (st.decl) w.o += st.indent == 3 ? "\r\n" : "\n";
  w.el(root, 0);
  if (st.indent) w.nl(0);
  return w.o;
}
