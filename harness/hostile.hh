// Helpers shared by the checks that feed damaged or malicious files.
#pragma once
#include "gen.hh"
#include "bridge.hh"

// The transformation rounds a file header asks for, read the way any reader does (0 when unreadable).
inline uint64_t header_rounds(bool kdbx, const std::string& f) {
  if (!kdbx) return f.size() < 124 ? 0 : get32(f, 120);
  if (f.size() < 12) return 0;
  uint64_t rounds = 8192;
  for (size_t i = 12; i + 3 <= f.size();) {
    uint8_t id = f[i]; size_t n = (uint8_t)f[i + 1] | (size_t)(uint8_t)f[i + 2] << 8; i += 3;
    if (n > f.size() - i) return 0;
    if (id == 6) { if (n < 8) return 0; rounds = 0; for (int k = 7; k >= 0; --k) rounds = rounds << 8 | (uint8_t)f[i + k]; if (rounds > 30000) return rounds; }
    i += n; if (!id) return rounds;
  }
  return 0;
}
// Files whose header demands infeasibly many rounds take that long by design and are left out.
inline bool feasible(bool kdbx, const std::string& f) { return header_rounds(kdbx, f) <= 30000; }
inline size_t header_size(bool kdbx, const std::string& f) {
  if (!kdbx) return 124;
  size_t i = 12; for (;;) { uint8_t id = f.at(i); size_t n = (uint8_t)f.at(i + 1) | (size_t)(uint8_t)f.at(i + 2) << 8; i += 3 + n; if (!id) return i; }
}
// One random damage; `other` may lend bytes. Returns a description.
inline std::string damage(Rng& r, std::string& f, size_t body, const std::string& other) {
  auto S = [](size_t n) { return std::to_string(n); };
  if (f.empty()) { f = r.bytes(1 + r.below(40)); return "bytes for an empty file"; }
  size_t n = f.size(), region = r.below(4);
  // Positions: header, first blocks of the body, tail, anywhere.
  auto pos = [&]() -> size_t { size_t p = region == 0 ? r.below(body) : region == 1 ? body + r.below(160) : region == 2 ? n - 1 - r.below(std::min<size_t>(n, 80)) : r.below(n); return std::min(p, n - 1); };
  auto block = [&]() -> size_t { return n <= body ? 0 : body + 16 * r.below((n - body + 15) / 16); };
  auto len = [&]() -> size_t { switch (r.below(4)) { case 0: return 1 + r.below(4); case 1: return 16 * (1 + r.below(6)); case 2: return 1 + r.below(64); default: return 1 + gen_size(r, 4000); } };
  switch (r.below(15)) {
    case 0: { size_t p = pos(); f[p] ^= (char)(1 << r.below(8)); return "bit flipped at " + S(p); }
    case 1: { size_t p = pos(); char v = (char)r.next(); f[p] = v; return "byte at " + S(p) + " set"; }
    case 2: { int k = 2 + r.below(5); for (int i = 0; i < k; ++i) f[pos()] ^= (char)r.range(1, 255); return S(k) + " bytes changed"; }
    case 3: { size_t p = pos(), l = std::min(len(), n - p); f.replace(p, l, r.bytes(l)); return "range overwritten at " + S(p) + "+" + S(l); }
    case 4: { size_t p = pos(), l = std::min(len(), n - p); f.replace(p, l, std::string(l, r.coin() ? '\0' : '\xff')); return "range blanked at " + S(p) + "+" + S(l); }
    case 5: { size_t p = pos(), l = std::min(len(), n - p); f.erase(p, l); return "range removed at " + S(p) + "+" + S(l); }
    case 6: { size_t p = r.coin() ? block() : pos(), l = std::min<size_t>(16 * (1 + r.below(4)), n - p); f.erase(p, l); return "blocks removed at " + S(p) + "+" + S(l); }
    case 7: { size_t k = r.below(4) == 0 ? r.below(n) : r.coin() && n > body + 16 ? body + 16 * r.below((n - body) / 16) : n - std::min<size_t>(n, 1 + r.below(40)); f.resize(k); return "cut to " + S(k) + " of " + S(n); }
    case 8: { std::string x = r.coin() ? r.bytes(len()) : std::string(len(), 0); f += x; return S(x.size()) + " bytes appended"; }
    case 9: { size_t p = pos(); std::string x = r.bytes(len()); f.insert(p, x); return S(x.size()) + " bytes inserted at " + S(p); }
    case 10: { size_t p = r.coin() ? block() : pos(), l = std::min<size_t>(r.coin() ? 16 * (1 + r.below(8)) : len(), n - p); f.insert(r.coin() ? p + l : block(), f.substr(p, l)); return "range duplicated from " + S(p) + "+" + S(l); }
    case 11: { size_t p = block(), q = block(); if (p + 16 > n || q + 16 > n) return "nothing"; std::string x = f.substr(p, 16), y = f.substr(q, 16); f.replace(p, 16, y); f.replace(q, 16, x); return "blocks " + S(p) + " and " + S(q) + " exchanged"; }
    case 12: { size_t p = block(), l = std::min<size_t>(16 * (1 + r.below(20)), n - p); std::string x = f.substr(p, l); f.erase(p, l); size_t q = std::min(f.size(), body + 16 * r.below((f.size() - std::min(f.size(), body)) / 16 + 1)); f.insert(q, x); return "blocks moved from " + S(p) + "+" + S(l) + " to " + S(q); }
    case 13: { if (other.size() <= body + 32) return "nothing"; size_t p = std::max<size_t>(block(), body + 16), l = 16 * (1 + r.below(40)); if (p >= other.size() || p >= n) return "nothing"; l = std::min(l, std::min(other.size(), n) - p); f.replace(p, l, other.substr(p, l)); return "range of another file at " + S(p) + "+" + S(l); }
    default: { if (other.size() <= body || n <= body) return "nothing"; f = r.coin() ? f.substr(0, body) + other.substr(body) : other.substr(0, body) + f.substr(body); return "header and body of two files"; }
  }
}
// Calls `f` for every string of the database that the formats store, with whether it is protected.
struct Walk {
  std::function<void(std::string&, bool)> f; std::function<void(MBin&)> bin;
  void entry(MEntry& e) {
    for (MProt* p : {&e.title, &e.url, &e.username, &e.password, &e.notes}) f(p->v, p->p);
    for (std::string* s : {&e.override_url, &e.tags, &e.bg, &e.fg, &e.at_seq}) f(*s, false);
    for (auto& a : e.assoc) { f(a.window, false); f(a.seq, false); }
    for (auto& a : e.atts) { f(a.name, false); if (a.pool < 0) bin(a.bin); }
    for (auto& x : e.fields) { f(x.first, false); f(x.second.v, x.second.p); }
    for (auto& h : e.history) entry(h);
  }
  void group(MGroup& g) { f(g.name, false); f(g.notes, false); f(g.default_seq, false); for (auto& e : g.entries) entry(e); for (auto& c : g.groups) group(c); }
  void db(MDb& d) {
    MMeta& m = d.meta; for (std::string* s : {&m.generator, &m.color, &m.name.v, &m.desc.v, &m.user.v}) f(*s, false);
    for (auto& x : m.fields) { f(x.first, false); f(x.second, false); } for (auto& b : m.bins) bin(b); group(d.root);
  }
};
