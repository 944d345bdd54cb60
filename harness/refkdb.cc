#include "refcodec.hh"
#include <algorithm>
#include <numeric>
using namespace ref;
void put16(std::string& s, uint16_t v) { s += (char)v; s += (char)(v >> 8); }
void put32(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); }
void put64(std::string& s, uint64_t v) { for (int i = 0; i < 8; ++i) s += (char)(v >> 8 * i); }
uint32_t get32(const std::string& s, size_t o) { if (o + 4 > s.size()) throw std::runtime_error("short"); uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | (uint8_t)s[o + i]; return v; }
static uint32_t get16(const std::string& s, size_t o) { if (o + 2 > s.size()) throw std::runtime_error("short"); return (uint8_t)s[o] | (uint8_t)s[o + 1] << 8; }

static const std::string kNever("\x2e\xdf\x39\x7e\xfb", 5);
std::string kdb_pack_time(const Civil& c) {
  uint64_t v = (uint64_t)c.y << 26 | (uint64_t)c.mo << 22 | (uint64_t)c.d << 17 | (uint64_t)c.h << 12 | (uint64_t)c.mi << 6 | (uint64_t)c.s;
  std::string r; for (int i = 4; i >= 0; --i) r += (char)(v >> 8 * i); return r;
}
K32 kdb_final_key(const MDb& db, const MKey& k) { return sha256(db.master_seed + str(aes_transform(ref_resolve(k, false), db.transform_seed, db.rounds))); }

namespace {
struct W {
  const KdbStyle& st; Rng& r; const ToLocal& loc; std::string groups; std::vector<std::string> entries; uint32_t ng = 0; std::set<uint32_t> ids;
  typedef std::vector<std::pair<uint16_t, std::string>> Fields;
  static std::string le32(uint32_t v) { std::string s; put32(s, v); return s; }
  static std::string le16(uint16_t v) { std::string s; put16(s, v); return s; }
  static std::string z(const std::string& s) { return s + std::string(1, '\0'); }
  std::string tm(int64_t t) { return t == 0 ? kNever : kdb_pack_time(loc(t)); }
  std::string emit(Fields f) {
    if (st.ext_data) for (int i = r.below(3); i > 0; --i) f.insert(f.begin() + r.below(f.size() + 1), std::make_pair((uint16_t)0, r.bytes(r.below(40))));
    if (st.shuffle_fields) for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
    std::string o; for (auto& x : f) { put16(o, x.first); put32(o, x.second.size()); o += x.second; }
    put16(o, 0xffff); put32(o, 0); return o;
  }
  void group(const MGroup& g, uint16_t level) {
    uint32_t id; do id = st.random_ids ? (uint32_t)r.range(1, 0xfffffffe) : ng + 1; while (!ids.insert(id).second);
    ++ng;
    groups += emit({{1, le32(id)}, {2, z(g.name)}, {3, tm(g.t.creation)}, {4, tm(g.t.modification)}, {5, tm(g.t.access)}, {6, tm(g.t.expiry)}, {7, le32(g.icon)}, {8, le16(level)}, {9, le32(g.flags)}});
    for (auto& e : g.entries) {
      Fields f = {{1, str(ref::B16(e.uuid))}, {2, le32(id)}, {3, le32(e.icon)}, {4, z(e.title.v)}, {5, z(e.url.v)}, {6, z(e.username.v)}, {7, z(e.password.v)}, {8, z(e.notes.v)},
                  {9, tm(e.t.creation)}, {10, tm(e.t.modification)}, {11, tm(e.t.access)}, {12, tm(e.t.expiry)}};
      if (!e.atts.empty()) {
        if (!e.atts[0].name.empty() || st.empty_att_placeholders) f.push_back({13, z(e.atts[0].name)});
        if (!e.atts[0].bin.data.empty() || st.empty_att_placeholders) f.push_back({14, e.atts[0].bin.data});
      } else if (st.empty_att_placeholders) { f.push_back({13, z("")}); f.push_back({14, ""}); }
      entries.push_back(emit(f));
    }
    for (auto& c : g.groups) group(c, level + 1);
  }
};
}
std::string kdb_content(const MDb& db, const KdbStyle& st, Rng& r, const ToLocal& loc, uint32_t* ng, uint32_t* ne) {
  W w{st, r, loc, "", {}, 0, {}};
  for (auto& g : db.root.groups) w.group(g, 0);
  if (ng) *ng = w.ng;
  if (ne) *ne = w.entries.size();
  // Interleaving entries of different groups keeps the order within each group only if done stably; callers
  // that set entries_shuffled give each group at most one entry.
  if (st.entries_shuffled) for (size_t i = w.entries.size(); i > 1; --i) std::swap(w.entries[i - 1], w.entries[r.below(i)]);
  std::string o = w.groups; for (auto& e : w.entries) o += e;
  return o;
}
std::string kdb_seal(const MDb& db, const MKey& k, const std::string& content, uint32_t ng, uint32_t ne, uint32_t flags, uint32_t version) {
  std::string h; put32(h, 0x9aa2d903); put32(h, 0xb54bfb65); put32(h, flags); put32(h, version);
  h += db.master_seed; h += str(ref::B16(db.iv)); put32(h, ng); put32(h, ne); h += str(sha256(content)); h += str(db.transform_seed); put32(h, (uint32_t)db.rounds);
  return h + cbc_encrypt(db.alg, kdb_final_key(db, k), db.iv, content);
}
std::string kdb_write(const MDb& db, const MKey& k, const KdbStyle& st, Rng& r, const ToLocal& loc) {
  uint32_t ng, ne; std::string c = kdb_content(db, st, r, loc, &ng, &ne);
  return kdb_seal(db, k, c, ng, ne, (db.alg == AES ? 2 : 8) | st.flags_extra, st.version);
}
static void kdb_header(const std::string& f, MDb& db, uint32_t& flags, uint32_t& ver, uint32_t& ng, uint32_t& ne, std::string& hash) {
  if (f.size() < 124) throw std::runtime_error("KDB: short header");
  if (get32(f, 0) != 0x9aa2d903 || get32(f, 4) != 0xb54bfb65) throw std::runtime_error("KDB: signature");
  flags = get32(f, 8); ver = get32(f, 12);
  if ((ver & 0xffffff00) != 0x00030000) throw std::runtime_error("KDB: version");
  db.master_seed = f.substr(16, 16); db.iv = b16(f.substr(32, 16)); ng = get32(f, 48); ne = get32(f, 52); hash = f.substr(56, 32);
  db.transform_seed = k32(f.substr(88, 32)); db.rounds = get32(f, 120);
  bool aes = flags & 2, two = flags & 8;
  if (aes == two) throw std::runtime_error("KDB: cipher flags");
  db.alg = aes ? AES : TWOFISH;
}
std::string kdb_decrypt(const std::string& f, const MKey& k) {
  MDb db; uint32_t a, b, c, d; std::string hash; kdb_header(f, db, a, b, c, d, hash);
  std::string t = cbc_decrypt_raw(db.alg, kdb_final_key(db, k), db.iv, f.substr(124));
  if (!unpkcs7(t)) throw std::runtime_error("KDB: padding");
  if (str(sha256(t)) != hash) throw std::runtime_error("KDB: content hash");
  return t;
}
namespace {
struct R {
  const std::string& s; size_t i = 0; const FromLocal& loc;
  static std::string z(const std::string& s) { if (s.empty() || s.back()) throw std::runtime_error("KDB: string not terminated"); if (s.find('\0') != s.size() - 1) throw std::runtime_error("KDB: NUL inside string"); return s.substr(0, s.size() - 1); }
  static void sz(const std::string& d, size_t n) { if (d.size() != n) throw std::runtime_error("KDB: field size " + std::to_string(d.size()) + " want " + std::to_string(n)); }
  int64_t tm(const std::string& d) {
    sz(d, 5); if (d == kNever) return 0;
    uint64_t v = 0; for (unsigned char c : d) v = v << 8 | c;
    if (v >> 38) throw std::runtime_error("KDB: time high bits");
    Civil c; c.y = v >> 26 & 0xfff; c.mo = v >> 22 & 15; c.d = v >> 17 & 31; c.h = v >> 12 & 31; c.mi = v >> 6 & 63; c.s = v & 63;
    if (c.mo < 1 || c.mo > 12 || c.d < 1 || c.d > 31 || c.h > 23 || c.mi > 59 || c.s > 60) throw std::runtime_error("KDB: time value");
    return loc(c);
  }
  bool field(uint16_t& t, std::string& d) {
    t = get16(s, i); uint32_t n = get32(s, i + 2); i += 6;
    if (n > s.size() - i) throw std::runtime_error("KDB: field exceeds content");
    d = s.substr(i, n); i += n; 
    if (t == 0xffff) { sz(d, 0); return false; }
    return true;
  }
};
struct PG { MGroup g; uint32_t id; int level; };
}
KdbDoc kdb_read(const std::string& f, const MKey& k, const FromLocal& loc) {
  KdbDoc doc; std::string hash; kdb_header(f, doc.db, doc.flags, doc.version, doc.ngroups, doc.nentries, hash);
  doc.content = kdb_decrypt(f, k);
  R r{doc.content, 0, loc};
  std::vector<PG> gs; uint16_t t; std::string d; std::set<uint32_t> ids;
  for (uint32_t n = 0; n < doc.ngroups; ++n) {
    PG p; p.id = 0; p.level = -1; std::set<int> seen;
    while (r.field(t, d)) {
      if (t && !seen.insert(t).second) throw std::runtime_error("KDB: repeated field");
      MGroup& g = p.g;
      switch (t) {
        case 0: break;
        case 1: r.sz(d, 4); p.id = get32(d, 0); break;
        case 2: g.name = r.z(d); break;
        case 3: g.t.creation = r.tm(d); break;
        case 4: g.t.modification = r.tm(d); break;
        case 5: g.t.access = r.tm(d); break;
        case 6: g.t.expiry = r.tm(d); break;
        case 7: r.sz(d, 4); g.icon = get32(d, 0); break;
        case 8: r.sz(d, 2); p.level = get16(d, 0); break;
        case 9: r.sz(d, 4); g.flags = get32(d, 0); break;
        default: throw std::runtime_error("KDB: group field type");
      }
    }
    if (p.level < 0 || !seen.count(1)) throw std::runtime_error("KDB: group without id or level");
    if (!ids.insert(p.id).second) throw std::runtime_error("KDB: duplicate group id");
    gs.push_back(p);
  }
  std::vector<std::pair<uint32_t, MEntry>> es;
  for (uint32_t n = 0; n < doc.nentries; ++n) {
    MEntry e; uint32_t gid = 0; std::set<int> seen; std::string an, ad; 
    while (r.field(t, d)) {
      if (t && !seen.insert(t).second) throw std::runtime_error("KDB: repeated field");
      switch (t) {
        case 0: break;
        case 1: r.sz(d, 16); e.uuid = b16(d); break;
        case 2: r.sz(d, 4); gid = get32(d, 0); break;
        case 3: r.sz(d, 4); e.icon = get32(d, 0); break;
        case 4: e.title.v = r.z(d); break;
        case 5: e.url.v = r.z(d); break;
        case 6: e.username.v = r.z(d); break;
        case 7: e.password.v = r.z(d); break;
        case 8: e.notes.v = r.z(d); break;
        case 9: e.t.creation = r.tm(d); break;
        case 10: e.t.modification = r.tm(d); break;
        case 11: e.t.access = r.tm(d); break;
        case 12: e.t.expiry = r.tm(d); break;
        case 13: an = r.z(d); break;
        case 14: ad = d; break;
        default: throw std::runtime_error("KDB: entry field type");
      }
    }
    if (!seen.count(1) || !seen.count(2)) throw std::runtime_error("KDB: entry without uuid or group");
    if (!an.empty() || !ad.empty()) { MAtt a; a.name = an; a.bin.data = ad; e.atts.push_back(a); }
    es.emplace_back(gid, e);
  }
  if (r.i != doc.content.size()) throw std::runtime_error("KDB: trailing content");
  // Entries to groups, then groups to tree (from the back so that children are complete when attached).
  for (auto& e : es) {
    auto it = std::find_if(gs.begin(), gs.end(), [&](const PG& p) { return p.id == e.first; });
    if (it == gs.end()) throw std::runtime_error("KDB: orphaned entry");
    it->g.entries.push_back(e.second);
  }
  std::function<size_t(size_t, int, std::vector<MGroup>&)> build = [&](size_t i, int level, std::vector<MGroup>& out) {
    while (i < gs.size() && gs[i].level == level) {
      out.push_back(gs[i].g);
      i = build(i + 1, level + 1, out.back().groups);
      if (i < gs.size() && gs[i].level > level) throw std::runtime_error("KDB: level jump");
    }
    return i;
  };
  if (build(0, 0, doc.db.root.groups) != gs.size()) throw std::runtime_error("KDB: level structure");
  return doc;
}

std::vector<KdbField> kdb_split(const std::string& s) {
  std::vector<KdbField> v; size_t i = 0;
  while (i < s.size()) {
    KdbField f; f.type = get16(s, i); uint32_t n = get32(s, i + 2); i += 6;
    if (n > s.size() - i) throw std::runtime_error("KDB: field exceeds content");
    f.data = s.substr(i, n); i += n; v.push_back(f);
  }
  return v;
}
std::string kdb_join(const std::vector<KdbField>& v) { std::string o; for (auto& f : v) { put16(o, f.type); put32(o, f.data.size()); o += f.data; } return o; }
