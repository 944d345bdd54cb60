#include "refcodec.hh"
#include <algorithm>
using namespace ref;
static const std::string kAesUuid("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16);

K32 kdbx_final_key(const MDb& db, const MKey& k) { return sha256(db.master_seed + str(aes_transform(ref_resolve(k, true), db.transform_seed, db.rounds))); }
Salsa20 inner_stream(const MDb& db) { return Salsa20(sha256(str(db.inner_key)), kKdbxNonce); }

std::string kdbx_header(const MDb& db, const KdbxStyle& st, const std::string& start, Rng& r) {
  std::vector<std::pair<int, std::string>> f;
  std::string c, rd, rs; put32(c, db.compress ? 1 : 0); put64(rd, db.rounds); put32(rs, 2);
  f = {{2, kAesUuid}, {3, c}, {4, db.master_seed}, {5, str(db.transform_seed)}, {6, rd}, {7, str(ref::B16(db.iv))}, {8, str(db.inner_key)}, {9, start}, {10, rs}};
  for (int i = 0; i < st.comments; ++i) f.insert(f.begin() + r.below(f.size() + 1), {1, r.bytes(r.chance(1, 20) ? 65535 : r.below(60))});
  if (st.shuffle_header) for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
  f.push_back({0, st.end_marker});
  std::string h; put32(h, 0x9aa2d903); put32(h, 0xb54bfb67); put32(h, st.version);
  for (auto& x : f) { h += (char)x.first; put16(h, x.second.size()); h += x.second; }
  return h;
}
std::string hash_blocks(const std::string& d, const std::vector<uint32_t>& sizes, bool term) {
  std::string o; size_t i = 0; uint32_t idx = 0;
  while (i < d.size()) {
    uint32_t n = sizes.empty() ? 1 << 20 : std::max<uint32_t>(1, sizes[idx % sizes.size()]);
    std::string b = d.substr(i, n); i += b.size();
    put32(o, idx++); o += str(sha256(b)); put32(o, b.size()); o += b;
  }
  if (term) { put32(o, idx); o += std::string(32, 0); put32(o, 0); }
  return o;
}
std::string unhash_blocks(const std::string& d) {
  std::string o; size_t i = 0;
  for (uint32_t idx = 0;; ++idx) {
    if (i + 40 > d.size()) throw std::runtime_error("blocks: short header");
    if (get32(d, i) != idx) throw std::runtime_error("blocks: index");
    std::string h = d.substr(i + 4, 32); uint32_t n = get32(d, i + 36); i += 40;
    if (!n) { if (h != std::string(32, 0)) throw std::runtime_error("blocks: terminator hash"); break; }
    if (n > d.size() - i) throw std::runtime_error("blocks: short block");
    std::string b = d.substr(i, n); i += n;
    if (str(sha256(b)) != h) throw std::runtime_error("blocks: hash");
    o += b;
  }
  if (i != d.size()) throw std::runtime_error("blocks: data after terminator");
  return o;
}
std::string kdbx_encrypt(const MDb& db, const MKey& k, const std::string& header, const std::string& start, const std::string& body) {
  return header + cbc_encrypt(AES, kdbx_final_key(db, k), db.iv, start + body);
}

namespace {
struct W {
  const MDb& db; const KdbxStyle& st; Rng& r; Salsa20& obf; std::vector<std::string> ids; std::vector<const MGroup*> pre;
  std::string u(const Uuid& x) { return ws64(b64(ref::str(ref::B16(x)))); }
  std::string ws64(const std::string& s) { return s; }   // identifiers are written without white space
  std::string wsb(const std::string& s) {
    if (!st.ws_base64) return s;
    std::string o; for (size_t i = 0; i < s.size(); ++i) { o += s[i]; if (i % 76 == 75) o += "\n"; else if (r.below(200) == 0) o += r.pickl<const char*>({" ", "\n", "\t", "\r\n"}); }
    return o;
  }
  static std::string b(bool v) { return v ? "True" : "False"; }
  static std::string n(int64_t v) { return std::to_string(v); }
  bool omit() { return st.omit_defaults && r.coin(); }
  void el(std::vector<XNode>& v, const std::string& name, const std::string& text) { v.push_back(XNode(name, text)); }
  void tel(std::vector<XNode>& v, const std::string& name, int64_t t) { if (t == 0 && st.omit_never && r.coin()) return; el(v, name, iso_time(t)); }
  void opt(std::vector<XNode>& v, const std::string& name, const std::string& text, const std::string& dflt = "") { if (text == dflt && omit()) return; el(v, name, text); }
  XNode pstr(const MProt& p) {
    XNode x("Value");
    // Clear text with white space at its edges is subject to the known trimming; such values stay encoded.
    bool edge = !p.v.empty() && (strchr(" \t\r\n", p.v[0]) || strchr(" \t\r\n", p.v.back()));
    if (p.p && !edge && st.in_memory_flag && r.chance(1, 3)) { x.set("ProtectedInMemory", "True"); x.text = p.v; }
    else if (p.p) { x.set("Protected", "True"); x.text = p.v; x.masked = true; }
    else { x.text = p.v; if (st.in_memory_flag && r.chance(1, 5)) x.set("ProtectedInMemory", "False"); }
    return x;
  }
  void bin(XNode& x, const MBin& m) {
    if (m.prot && !m.compress && st.in_memory_flag && r.chance(1, 3)) { x.set("ProtectedInMemory", "True"); x.text = wsb(b64(m.data)); }
    else if (m.prot) { x.set("Protected", "True"); x.text = m.data; x.masked = true; }
    else if (m.compress) { x.set("Compressed", "True"); x.text = wsb(b64(gzip(m.data, st.gzip_level))); }
    else x.text = wsb(b64(m.data));
  }
  std::vector<XNode> junk() {
    std::vector<XNode> v;
    if (st.unknown_elements && r.chance(1, 3)) { XNode x("X" + std::to_string(r.below(1000))); x.set("Q", "<&\">"); if (r.coin()) x.text = "Title"; else { XNode y("Value", "True"); x.add(y); x.add(XNode("Key", "Title")); if (st.unknown_protected && r.coin()) { XNode z("Value"); z.set("Protected", "True"); z.text = r.bytes(r.below(40)); z.masked = true; x.add(z); } } v.push_back(x); }
    return v;
  }
  // Puts the elements of every list among the others, in any order but for the order within `fixed` lists.
  void place(XNode& p, std::vector<XNode> loose, const std::vector<std::vector<XNode>>& fixed) {
    for (auto& j : junk()) loose.push_back(j);
    if (!st.shuffle_elements) { for (auto& x : loose) p.add(x); for (auto& l : fixed) for (auto& x : l) p.add(x); return; }
    for (size_t i = loose.size(); i > 1; --i) std::swap(loose[i - 1], loose[r.below(i)]);
    std::vector<const std::vector<XNode>*> ls{&loose}; for (auto& l : fixed) ls.push_back(&l);
    // A fair merge, one that favours some lists, or lists one after the other in any order.
    std::vector<size_t> at(ls.size()), w(ls.size(), 1), left; int how = r.below(3);
    if (how == 1) for (auto& x : w) x = 1 + r.below(50);
    if (how == 2) { for (size_t i = ls.size(); i > 1; --i) std::swap(ls[i - 1], ls[r.below(i)]); for (auto l : ls) for (auto& x : *l) p.add(x); return; }
    for (size_t i = 0; i < ls.size(); ++i) for (size_t j = 0; j < ls[i]->size() * w[i]; j += w[i]) left.push_back(i);
    if (how == 1) std::stable_sort(left.begin(), left.end(), [&](size_t a, size_t b) { return w[a] < w[b]; });
    for (size_t i = left.size(); i > 1; --i) { size_t k = how == 1 ? i - 1 - std::min<size_t>(i - 1, r.below(4)) : r.below(i); std::swap(left[i - 1], left[k]); }
    for (size_t l : left) p.add((*ls[l])[at[l]++]);
  }
  XNode times(const MTimes& t, bool expires, uint32_t usage) {
    XNode x("Times"); std::vector<XNode> v;
    tel(v, "CreationTime", t.creation); tel(v, "LastModificationTime", t.modification); tel(v, "LastAccessTime", t.access);
    tel(v, "ExpiryTime", t.expiry); tel(v, "LocationChanged", t.move); el(v, "Expires", b(expires)); el(v, "UsageCount", n(usage));
    place(x, v, {}); return x;
  }
  XNode entry(const MEntry& e) {
    XNode x("Entry"); std::vector<XNode> v, fx, fa, fh;
    el(v, "UUID", u(e.uuid)); opt(v, "IconID", n(e.icon), "0"); opt(v, "ForegroundColor", e.fg); opt(v, "BackgroundColor", e.bg);
    opt(v, "OverrideURL", e.override_url); opt(v, "Tags", e.tags);
    if (e.custom_icon >= 0) el(v, "CustomIconUUID", u(db.meta.icons[e.custom_icon].uuid));
    v.push_back(times(e.t, e.expires, e.usage));
    XNode at("AutoType"); { std::vector<XNode> a, as; el(a, "Enabled", b(e.at_enabled)); el(a, "DataTransferObfuscation", n(e.at_obf)); opt(a, "DefaultSequence", e.at_seq);
      for (auto& s : e.assoc) { XNode y("Association"); y.add(XNode("Window", s.window)); y.add(XNode("KeystrokeSequence", s.seq)); as.push_back(y); }
      place(at, a, {as}); }
    v.push_back(at);
    auto S = [&](const std::string& k, const MProt& p, bool std_field) {
      if (std_field && p.v.empty() && !p.p && omit()) return;
      XNode y("String"); y.add(XNode("Key", k)); y.add(pstr(p)); fx.push_back(y);
    };
    // Standard and custom fields in any order (custom fields among themselves in order).
    std::vector<std::function<void()>> ops = {[&] { S("Title", e.title, true); }, [&] { S("URL", e.url, true); }, [&] { S("UserName", e.username, true); }, [&] { S("Password", e.password, true); }, [&] { S("Notes", e.notes, true); }};
    if (st.shuffle_elements) for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[r.below(i)]);
    size_t o = 0, f = 0;
    while (o < ops.size() || f < e.fields.size()) {
      bool doop = f >= e.fields.size() || (o < ops.size() && (!st.shuffle_elements || r.coin()));
      if (doop) ops[o++](); else { S(e.fields[f].first, e.fields[f].second, false); ++f; }
    }
    for (auto& a : e.atts) {
      XNode y("Binary"); y.add(XNode("Key", a.name)); XNode val("Value");
      if (a.pool >= 0) val.set("Ref", ids[a.pool]); else bin(val, a.bin);
      y.add(val); fa.push_back(y);
    }
    if (!(e.history.empty() && omit())) { XNode h("History"); for (auto& q : e.history) h.add(entry(q)); fh.push_back(h); }
    place(x, v, {fx, fa, fh}); return x;
  }
  XNode group(const MGroup& g) {
    XNode x("Group"); std::vector<XNode> v, fx, fg;
    el(v, "UUID", u(g.uuid)); el(v, "Name", g.name); opt(v, "Notes", g.notes); opt(v, "IconID", n(g.icon), "0");
    if (g.custom_icon >= 0) el(v, "CustomIconUUID", u(db.meta.icons[g.custom_icon].uuid));
    v.push_back(times(g.t, g.expires, g.usage));
    el(v, "IsExpanded", b(g.expanded)); opt(v, "DefaultAutoTypeSequence", g.default_seq);
    el(v, "EnableAutoType", g.autotype ? (r.coin() ? "True" : "true") : (r.coin() ? "False" : "false")); el(v, "EnableSearching", b(g.search));
    if (g.last_visible >= 0) el(v, "LastTopVisibleEntry", u(g.entries[g.last_visible].uuid));
    else if (st.zero_uuid_none) el(v, "LastTopVisibleEntry", u(Uuid{}));
    for (auto& e : g.entries) fx.push_back(entry(e));
    for (auto& c : g.groups) fg.push_back(group(c));
    place(x, v, {fx, fg}); return x;
  }
  void gref(std::vector<XNode>& v, const std::string& name, int ix) {
    if (ix >= 0) el(v, name, u(pre[ix]->uuid)); else if (st.zero_uuid_none) el(v, name, u(Uuid{}));
  }
  XNode meta(const std::string& hh) {
    const MMeta& m = db.meta; XNode x("Meta"); std::vector<XNode> v;
    el(v, "HeaderHash", hh); opt(v, "Generator", m.generator);
    auto T = [&](const std::string& k, const std::string& kc, const MTemp& t) { opt(v, k, t.v); tel(v, kc, t.t); };
    T("DatabaseName", "DatabaseNameChanged", m.name); T("DatabaseDescription", "DatabaseDescriptionChanged", m.desc); T("DefaultUserName", "DefaultUserNameChanged", m.user);
    opt(v, "MaintenanceHistoryDays", n(m.hist_days), "365"); opt(v, "Color", m.color); tel(v, "MasterKeyChanged", m.key_changed);
    opt(v, "MasterKeyChangeRec", n(m.key_rec), "-1"); opt(v, "MasterKeyChangeForce", n(m.key_force), "-1");
    XNode mp("MemoryProtection"); { std::vector<XNode> q; el(q, "ProtectTitle", b(m.p_title)); el(q, "ProtectUserName", b(m.p_user)); el(q, "ProtectPassword", b(m.p_pass)); el(q, "ProtectURL", b(m.p_url)); el(q, "ProtectNotes", b(m.p_notes)); place(mp, q, {}); }
    v.push_back(mp);
    if (!(m.recycle_bin >= 0 && omit())) el(v, "RecycleBinEnabled", b(m.recycle_bin >= 0));
    if (m.recycle_bin < 0 && st.disabled_bin && !pre.empty()) el(v, "RecycleBinUUID", u(pre[r.below(pre.size())]->uuid));
    else if (m.recycle_bin >= 0) el(v, "RecycleBinUUID", u(pre[m.recycle_bin]->uuid)); else if (st.zero_uuid_none) el(v, "RecycleBinUUID", u(Uuid{}));
    tel(v, "RecycleBinChanged", m.recycle_changed);
    gref(v, "EntryTemplatesGroup", m.templates); tel(v, "EntryTemplatesGroupChanged", m.templates_changed);
    opt(v, "HistoryMaxItems", n(m.hist_items), "-1"); opt(v, "HistoryMaxSize", n(m.hist_size), "-1");
    gref(v, "LastSelectedGroup", m.last_selected); gref(v, "LastTopVisibleGroup", m.last_visible);
    if (!(m.icons.empty() && omit())) { XNode is("CustomIcons"); for (auto& i : m.icons) { XNode y("Icon"); y.add(XNode("UUID", u(i.uuid))); y.add(XNode("Data", wsb(b64(i.data)))); is.add(y); } v.push_back(is); }
    if (!(m.bins.empty() && omit())) { XNode bs("Binaries"); for (size_t i = 0; i < m.bins.size(); ++i) { XNode y("Binary"); y.set("ID", ids[i]); bin(y, m.bins[i]); bs.add(y); } v.push_back(bs); }
    if (!(m.fields.empty() && omit())) { XNode cd("CustomData"); for (auto& f : m.fields) { XNode y("Item"); y.add(XNode("Key", f.first)); y.add(XNode("Value", f.second)); cd.add(y); } v.push_back(cd); }
    place(x, v, {}); return x;
  }
  void mask(XNode& x) {
    if (x.masked) { x.text = wsb(b64(obf.process(x.text))); x.masked = false; }
    for (auto& k : x.kids) mask(k);
  }
};
}
XNode kdbx_dom(const MDb& db, const KdbxStyle& st, const std::string& hh, Rng& r, Salsa20& obf) {
  W w{db, st, r, obf, {}, {}};
  std::set<std::string> used;
  for (size_t i = 0; i < db.meta.bins.size(); ++i) {
    std::string id; do id = st.sparse_ids ? std::to_string(r.below(100000)) : std::to_string(i); while (!used.insert(id).second);
    w.ids.push_back(id);
  }
  preorder(db.root, w.pre);
  XNode k("KeePassFile"), root("Root");
  XNode meta = w.meta(hh);
  root.add(w.group(db.root));
  if (r.coin()) { XNode d("DeletedObjects"); if (r.coin()) { XNode o("DeletedObject"); o.add(XNode("UUID", b64(r.bytes(16)))); o.add(XNode("DeletionTime", iso_time(1400000000))); d.add(o); } root.add(d); }
  bool swapped = st.shuffle_elements && r.chance(1, 4);   // Root before Meta
  if (!swapped) k.add(meta);
  k.add(root);
  if (swapped) k.add(meta);
  w.mask(k);
  return k;
}
std::vector<HdrField> kdbx_split(const std::string& h) {
  std::vector<HdrField> v; size_t i = 12;
  for (;;) {
    if (i + 3 > h.size()) throw std::runtime_error("KDBX: short header");
    HdrField f; f.id = h[i]; size_t n = (uint8_t)h[i + 1] | (uint8_t)h[i + 2] << 8; i += 3;
    if (n > h.size() - i) throw std::runtime_error("KDBX: short header field");
    f.data = h.substr(i, n); i += n; v.push_back(f);
    if (!f.id) return v;
  }
}
std::string kdbx_join(const std::string& first12, const std::vector<HdrField>& v) {
  std::string h = first12; for (auto& f : v) { h += (char)f.id; put16(h, f.data.size()); h += f.data; } return h;
}
std::string kdbx_around(const MDb& db, const MKey& k, const KdbxStyle& st, const std::string& h, const std::string& start, Rng& r) {
  Salsa20 obf = inner_stream(db);
  std::string xml = xml_write(kdbx_dom(db, st, b64(str(sha256(h))), r, obf), st.xml, &r);
  return kdbx_encrypt(db, k, h, start, hash_blocks(db.compress ? gzip(xml, st.gzip_level, st.gzip_flush) : xml, st.block_sizes));
}
std::string kdbx_seal_xml(const MDb& db, const MKey& k, const KdbxStyle& st, const std::string& xml, Rng& r, bool gz) {
  std::string start = r.bytes(32), h = kdbx_header(db, st, start, r), x = xml;
  size_t p = x.find("@HH@"); if (p != std::string::npos) x.replace(p, 4, b64(str(sha256(h))));
  return kdbx_encrypt(db, k, h, start, hash_blocks(gz ? gzip(x, st.gzip_level, st.gzip_flush) : x, st.block_sizes));
}
std::string kdbx_write(const MDb& db, const MKey& k, const KdbxStyle& st, Rng& r) {
  std::string start = r.bytes(32), h = kdbx_header(db, st, start, r);
  Salsa20 obf = inner_stream(db);
  XNode dom = kdbx_dom(db, st, b64(str(sha256(h))), r, obf);
  std::string xml = xml_write(dom, st.xml, &r);
  return kdbx_encrypt(db, k, h, start, hash_blocks(db.compress ? gzip(xml, st.gzip_level, st.gzip_flush) : xml, st.block_sizes));
}

static size_t read_header(const std::string& f, MDb& db, std::string& start) {
  if (f.size() < 12 || get32(f, 0) != 0x9aa2d903 || get32(f, 4) != 0xb54bfb67) throw std::runtime_error("KDBX: signature");
  if (get32(f, 8) != 0x00030001) throw std::runtime_error("KDBX: version");
  size_t i = 12; std::set<int> seen;
  auto sz = [](const std::string& d, size_t n) { if (d.size() != n) throw std::runtime_error("KDBX: header field size"); };
  for (;;) {
    if (i + 3 > f.size()) throw std::runtime_error("KDBX: short header");
    int id = (uint8_t)f[i]; size_t n = (uint8_t)f[i + 1] | (uint8_t)f[i + 2] << 8; i += 3;
    if (n > f.size() - i) throw std::runtime_error("KDBX: short header field");
    std::string d = f.substr(i, n); i += n;
    if (id && !seen.insert(id).second) throw std::runtime_error("KDBX: repeated header field");
    if (!id) break;
    switch (id) {
      case 2: if (d != kAesUuid) throw std::runtime_error("KDBX: cipher"); break;
      case 3: sz(d, 4); if (get32(d, 0) > 1) throw std::runtime_error("KDBX: compression"); db.compress = get32(d, 0); break;
      case 4: db.master_seed = d; break;
      case 5: db.transform_seed = k32(d); break;
      case 6: sz(d, 8); db.rounds = get32(d, 0) | (uint64_t)get32(d, 4) << 32; break;
      case 7: db.iv = b16(d); break;
      case 8: db.inner_key = k32(d); break;
      case 9: sz(d, 32); start = d; break;
      case 10: sz(d, 4); if (get32(d, 0) != 2) throw std::runtime_error("KDBX: inner stream"); break;
      default: throw std::runtime_error("KDBX: header field id");
    }
  }
  for (int id = 2; id <= 10; ++id) if (!seen.count(id)) throw std::runtime_error("KDBX: missing header field " + std::to_string(id));
  return i;
}
std::string kdbx_decrypt(const std::string& f, const MKey& k, std::string* header) {
  MDb db; std::string start; size_t h = read_header(f, db, start);
  if (header) *header = f.substr(0, h);
  std::string t = cbc_decrypt_raw(AES, kdbx_final_key(db, k), db.iv, f.substr(h));
  if (!unpkcs7(t)) throw std::runtime_error("KDBX: padding");
  return t;
}
namespace {
struct R {
  MDb& db; std::vector<std::string> ids; std::map<std::string, int> icons; std::map<std::string, int> gidx; std::vector<std::string> guuids;
  static std::string t(const XNode& n, const char* k, const char* d = "") { auto c = n.child(k); return c ? c->text : d; }
  static bool strictbool(const std::string& s) { if (s == "True") return true; if (s == "False") return false; throw std::runtime_error("KDBX: boolean " + show(s)); }
  static bool anybool(const std::string& s) { if (s == "True" || s == "true") return true; if (s == "False" || s == "false") return false; throw std::runtime_error("KDBX: boolean " + show(s)); }
  static bool b(const XNode& n, const char* k, bool d) { auto c = n.child(k); return c ? strictbool(c->text) : d; }
  static int64_t num(const XNode& n, const char* k, int64_t d) {
    auto c = n.child(k); if (!c) return d;
    char* e; errno = 0; long long v = strtoll(c->text.c_str(), &e, 10); if (c->text.empty() || *e || errno || isspace((unsigned char)c->text[0])) throw std::runtime_error("KDBX: number " + show(c->text));
    return v;
  }
  static Uuid uuid(const std::string& s) { return ref::b16(unb64(s)); }
  static int64_t tm(const XNode& n, const char* k) { auto c = n.child(k); return c ? parse_iso(c->text) : 0; }
  MProt pstr(const XNode& s) { const XNode* v = s.child("Value"); if (!v) return MProt(); auto a = v->attribute("Protected"); auto m = v->attribute("ProtectedInMemory"); return MProt(v->text, (a && strictbool(*a)) || (m && strictbool(*m))); }
  MBin bin(const XNode& v) {
    MBin r; auto p = v.attribute("Protected"); auto c = v.attribute("Compressed");
    if (p && strictbool(*p)) { r.prot = true; r.data = v.text; }   // already unmasked
    else if (c && strictbool(*c)) { r.compress = true; if (!gunzip(unb64(v.text), r.data)) throw std::runtime_error("KDBX: compressed attachment"); }
    else r.data = unb64(v.text);
    return r;
  }
  void times(const XNode& n, MTimes& t, bool& ex, uint32_t& us) {
    auto x = n.child("Times"); if (!x) throw std::runtime_error("KDBX: no Times");
    t.creation = tm(*x, "CreationTime"); t.modification = tm(*x, "LastModificationTime"); t.access = tm(*x, "LastAccessTime"); t.expiry = tm(*x, "ExpiryTime"); t.move = tm(*x, "LocationChanged");
    ex = b(*x, "Expires", false); us = num(*x, "UsageCount", 0);
  }
  int icon(const XNode& n) { auto c = n.child("CustomIconUUID"); if (!c) return -1; Uuid id = uuid(c->text); if (id == Uuid{}) return -1; auto it = icons.find(ref::str(ref::B16(id))); if (it == icons.end()) throw std::runtime_error("KDBX: unknown custom icon"); return it->second; }
  MEntry entry(const XNode& n) {
    MEntry e; e.uuid = uuid(t(n, "UUID")); e.icon = num(n, "IconID", 0); e.custom_icon = icon(n);
    e.fg = t(n, "ForegroundColor"); e.bg = t(n, "BackgroundColor"); e.override_url = t(n, "OverrideURL"); e.tags = t(n, "Tags");
    times(n, e.t, e.expires, e.usage);
    if (auto a = n.child("AutoType")) {
      e.at_enabled = b(*a, "Enabled", true); e.at_obf = num(*a, "DataTransferObfuscation", 0); e.at_seq = t(*a, "DefaultSequence");
      for (auto& k : a->kids) if (k.name == "Association") { MAssoc m; m.window = t(k, "Window"); m.seq = t(k, "KeystrokeSequence"); e.assoc.push_back(m); }
    }
    for (auto& k : n.kids) {
      if (k.name == "String") {
        std::string key = t(k, "Key"); MProt v = pstr(k);
        if (key == "Title") e.title = v; else if (key == "URL") e.url = v; else if (key == "UserName") e.username = v; else if (key == "Password") e.password = v; else if (key == "Notes") e.notes = v;
        else e.fields.emplace_back(key, v);
      } else if (k.name == "Binary") {
        MAtt a; a.name = t(k, "Key"); auto v = k.child("Value");
        if (!v) a.null_bin = true;
        else if (auto r = v->attribute("Ref")) { auto it = std::find(ids.begin(), ids.end(), *r); if (it == ids.end()) throw std::runtime_error("KDBX: dangling attachment"); a.pool = it - ids.begin(); a.bin = db.meta.bins[a.pool]; }
        else a.bin = bin(*v);
        e.atts.push_back(a);
      } else if (k.name == "History") { for (auto& h : k.kids) if (h.name == "Entry") e.history.push_back(entry(h)); }
    }
    return e;
  }
  MGroup group(const XNode& n) {
    MGroup g; g.uuid = uuid(t(n, "UUID")); guuids.push_back(ref::str(ref::B16(g.uuid)));
    gidx.insert({guuids.back(), (int)guuids.size() - 1});
    g.name = t(n, "Name"); g.notes = t(n, "Notes"); g.icon = num(n, "IconID", 0); g.custom_icon = icon(n);
    times(n, g.t, g.expires, g.usage);
    g.expanded = b(n, "IsExpanded", true); g.default_seq = t(n, "DefaultAutoTypeSequence");
    auto a = n.child("EnableAutoType"), s = n.child("EnableSearching"); g.autotype = a && anybool(a->text); g.search = s && anybool(s->text);
    for (auto& k : n.kids) if (k.name == "Entry") g.entries.push_back(entry(k));
    if (auto l = n.child("LastTopVisibleEntry")) { Uuid id = uuid(l->text); if (id != Uuid{}) { g.last_visible = -2; for (size_t i = g.entries.size(); i-- > 0;) if (g.entries[i].uuid == id) g.last_visible = i; } }
    for (auto& k : n.kids) if (k.name == "Group") g.groups.push_back(group(k));
    return g;
  }
  int gref(const XNode& m, const char* k) { auto c = m.child(k); if (!c || c->text.empty()) return -1; std::string id = ref::str(ref::B16(uuid(c->text))); if (id == std::string(16, 0)) return -1; auto it = gidx.find(id); return it == gidx.end() ? -2 : it->second; }
};
void unmask(XNode& n, Salsa20& s, std::vector<std::string>& raw, size_t& count) {
  auto a = n.attribute("Protected");
  if (a && *a == "True" && n.kids.empty()) { std::string c = unb64(n.text); raw.push_back(n.text); n.text = s.process(c); ++count; }
  for (auto& k : n.kids) unmask(k, s, raw, count);
}
}
KdbxDoc kdbx_read(const std::string& f, const MKey& k) {
  KdbxDoc d; std::string start; size_t h = read_header(f, d.db, start);
  d.header = f.substr(0, h); d.start = start; d.db.alg = AES;
  std::string t = kdbx_decrypt(f, k);
  if (t.size() < 32 || t.substr(0, 32) != start) throw std::runtime_error("KDBX: start bytes");
  std::string body = unhash_blocks(t.substr(32));
  if (d.db.compress) { if (!gunzip(body, d.xml)) throw std::runtime_error("KDBX: gzip"); } else d.xml = body;
  d.dom = xml_parse(d.xml);
  Salsa20 s = inner_stream(d.db);
  unmask(d.dom, s, d.protected_raw, d.nprotected);
  if (d.dom.name != "KeePassFile") throw std::runtime_error("KDBX: top element");
  auto meta = d.dom.child("Meta"), root = d.dom.child("Root"); if (!meta || !root) throw std::runtime_error("KDBX: Meta/Root");
  auto g = root->child("Group"); if (!g) throw std::runtime_error("KDBX: Group");
  const XNode& m = *meta; R r{d.db, {}, {}, {}, {}};
  if (unb64(R::t(m, "HeaderHash")) != str(sha256(d.header))) throw std::runtime_error("KDBX: header hash");
  MMeta& x = d.db.meta;
  x.generator = R::t(m, "Generator"); x.color = R::t(m, "Color");
  auto T = [&](const char* k, const char* c) { MTemp t; t.v = R::t(m, k); t.t = R::tm(m, c); return t; };
  x.name = T("DatabaseName", "DatabaseNameChanged"); x.desc = T("DatabaseDescription", "DatabaseDescriptionChanged"); x.user = T("DefaultUserName", "DefaultUserNameChanged");
  x.hist_days = R::num(m, "MaintenanceHistoryDays", 365); x.key_changed = R::tm(m, "MasterKeyChanged"); x.key_rec = R::num(m, "MasterKeyChangeRec", -1); x.key_force = R::num(m, "MasterKeyChangeForce", -1);
  if (auto p = m.child("MemoryProtection")) { x.p_title = R::b(*p, "ProtectTitle", false); x.p_user = R::b(*p, "ProtectUserName", false); x.p_pass = R::b(*p, "ProtectPassword", true); x.p_url = R::b(*p, "ProtectURL", false); x.p_notes = R::b(*p, "ProtectNotes", false); }
  x.recycle_changed = R::tm(m, "RecycleBinChanged"); x.templates_changed = R::tm(m, "EntryTemplatesGroupChanged");
  x.hist_items = R::num(m, "HistoryMaxItems", -1); x.hist_size = R::num(m, "HistoryMaxSize", -1);
  if (auto c = m.child("CustomIcons")) for (auto& i : c->kids) if (i.name == "Icon") { MIcon ic; ic.uuid = R::uuid(R::t(i, "UUID")); ic.data = unb64(R::t(i, "Data")); r.icons[ref::str(ref::B16(ic.uuid))] = x.icons.size(); x.icons.push_back(ic); }
  if (auto c = m.child("Binaries")) for (auto& i : c->kids) if (i.name == "Binary") {
    auto id = i.attribute("ID"); if (!id) throw std::runtime_error("KDBX: attachment id");
    if (std::find(r.ids.begin(), r.ids.end(), *id) != r.ids.end()) throw std::runtime_error("KDBX: duplicate attachment id");
    r.ids.push_back(*id); x.bins.push_back(r.bin(i));
  }
  if (auto c = m.child("CustomData")) for (auto& i : c->kids) if (i.name == "Item") x.fields.emplace_back(R::t(i, "Key"), R::t(i, "Value"));
  d.db.root = r.group(*g);
  if (R::b(m, "RecycleBinEnabled", true)) x.recycle_bin = r.gref(m, "RecycleBinUUID");
  x.templates = r.gref(m, "EntryTemplatesGroup"); x.last_selected = r.gref(m, "LastSelectedGroup"); x.last_visible = r.gref(m, "LastTopVisibleGroup");
  return d;
}
