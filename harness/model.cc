#include "model.hh"

void preorder(const MGroup& g, std::vector<const MGroup*>& out) { out.push_back(&g); for (auto& c : g.groups) preorder(c, out); }
void preorder(MGroup& g, std::vector<MGroup*>& out) { out.push_back(&g); for (auto& c : g.groups) preorder(c, out); }
size_t count_groups(const MGroup& g) { size_t n = 1; for (auto& c : g.groups) n += count_groups(c); return n; }
static size_t ce(const MEntry& e, bool h) { size_t n = 1; if (h) for (auto& x : e.history) n += ce(x, h); return n; }
size_t count_entries(const MGroup& g, bool h) { size_t n = 0; for (auto& e : g.entries) n += ce(e, h); for (auto& c : g.groups) n += count_entries(c, h); return n; }

namespace {
struct F {
  Flat out; FlatOpt o; const MDb* db;
  void put(const std::string& k, const std::string& v) { out.emplace_back(k, v); }
  void num(const std::string& k, int64_t v) { out.emplace_back(k, std::to_string(v)); }
  void prot(const std::string& k, const MProt& p) {
    put(k, p.v); if (o.mode == KDBX) num(k + ".protected", p.p);
  }
  void times(const std::string& k, const MTimes& t) {
    num(k + ".creation", t.creation); num(k + ".modification", t.modification);
    num(k + ".access", t.access); num(k + ".expiry", t.expiry);
    if (o.mode == KDBX) num(k + ".move", t.move);
  }
  void bin(const std::string& k, const MBin& b) {
    put(k + ".data", b.data);
    if (o.mode == KDBX) { num(k + ".protected", b.prot); if (!b.prot) num(k + ".compress", b.compress); }
  }
  void entry(const std::string& k, const MEntry& e) {
    put(k + ".uuid", hex(e.uuid)); num(k + ".icon", e.icon);
    prot(k + ".title", e.title); prot(k + ".url", e.url); prot(k + ".username", e.username);
    prot(k + ".password", e.password); prot(k + ".notes", e.notes);
    times(k, e.t);
    num(k + ".#attachments", e.atts.size());
    for (size_t i = 0; i < e.atts.size(); ++i) {
      std::string a = k + ".attachment" + std::to_string(i); const MAtt& m = e.atts[i];
      put(a + ".name", m.name);
      if (m.null_bin) { if (o.mode == KDBX) num(a + ".nodata", 1); else put(a + ".data", ""); continue; }
      if (m.pool >= 0 && m.pool < (int)db->meta.bins.size()) bin(a, db->meta.bins[m.pool]); else bin(a, m.bin);
      if (o.mode == KDBX && o.pool_identity) num(a + ".pool", m.pool);
    }
    if (o.mode != KDBX) return;
    if (o.refs) num(k + ".custom_icon", e.custom_icon);
    put(k + ".override_url", e.override_url); put(k + ".tags", e.tags); put(k + ".bg", e.bg); put(k + ".fg", e.fg);
    num(k + ".expires", e.expires); num(k + ".usage", e.usage);
    num(k + ".autotype.enabled", e.at_enabled); num(k + ".autotype.obfuscation", e.at_obf); put(k + ".autotype.sequence", e.at_seq);
    num(k + ".#assoc", e.assoc.size());
    for (size_t i = 0; i < e.assoc.size(); ++i) {
      put(k + ".assoc" + std::to_string(i) + ".window", e.assoc[i].window);
      put(k + ".assoc" + std::to_string(i) + ".sequence", e.assoc[i].seq);
    }
    num(k + ".#fields", e.fields.size());
    for (size_t i = 0; i < e.fields.size(); ++i) {
      put(k + ".field" + std::to_string(i) + ".key", e.fields[i].first);
      prot(k + ".field" + std::to_string(i) + ".value", e.fields[i].second);
    }
    num(k + ".#history", e.history.size());
    for (size_t i = 0; i < e.history.size(); ++i) entry(k + ".history" + std::to_string(i), e.history[i]);
  }
  void group(const std::string& k, const MGroup& g, bool root) {
    if (!(root && o.mode != KDBX)) {
      put(k + ".name", g.name); num(k + ".icon", g.icon); times(k, g.t);
      if (o.mode == KDB) num(k + ".flags", g.flags);
      if (o.mode == KDBX) {
        put(k + ".uuid", hex(g.uuid)); put(k + ".notes", g.notes); put(k + ".default_sequence", g.default_seq);
        num(k + ".expires", g.expires); num(k + ".expanded", g.expanded); num(k + ".autotype", g.autotype);
        num(k + ".search", g.search); num(k + ".usage", g.usage);
        if (o.refs) { num(k + ".custom_icon", g.custom_icon); num(k + ".last_visible", g.last_visible); }
      }
    }
    // Entries directly below the root group have no place in KDB.
    if (!(root && o.mode != KDBX)) {
      num(k + ".#entries", g.entries.size());
      for (size_t i = 0; i < g.entries.size(); ++i) entry(k + "/e" + std::to_string(i), g.entries[i]);
    }
    num(k + ".#groups", g.groups.size());
    for (size_t i = 0; i < g.groups.size(); ++i) group(k + "/g" + std::to_string(i), g.groups[i], false);
  }
  void temp(const std::string& k, const MTemp& t) { put(k, t.v); num(k + ".time", t.t); }
  void meta(const MMeta& m) {
    put("meta.generator", m.generator); put("meta.color", m.color);
    temp("meta.name", m.name); temp("meta.desc", m.desc); temp("meta.user", m.user);
    num("meta.hist_days", m.hist_days); num("meta.key_changed", m.key_changed); num("meta.key_rec", m.key_rec); num("meta.key_force", m.key_force);
    num("meta.p_title", m.p_title); num("meta.p_user", m.p_user); num("meta.p_pass", m.p_pass); num("meta.p_url", m.p_url); num("meta.p_notes", m.p_notes);
    num("meta.recycle_changed", m.recycle_changed); num("meta.templates_changed", m.templates_changed);
    num("meta.hist_items", m.hist_items); num("meta.hist_size", m.hist_size);
    if (o.refs) {
      num("meta.recycle_bin", m.recycle_bin); num("meta.templates", m.templates);
      num("meta.last_selected", m.last_selected); num("meta.last_visible", m.last_visible);
    }
    num("meta.#bins", m.bins.size());
    for (size_t i = 0; i < m.bins.size(); ++i) bin("meta.bin" + std::to_string(i), m.bins[i]);
    num("meta.#icons", m.icons.size());
    for (size_t i = 0; i < m.icons.size(); ++i) {
      put("meta.icon" + std::to_string(i) + ".uuid", hex(m.icons[i].uuid)); put("meta.icon" + std::to_string(i) + ".data", m.icons[i].data);
    }
    num("meta.#fields", m.fields.size());
    for (size_t i = 0; i < m.fields.size(); ++i) {
      put("meta.field" + std::to_string(i) + ".key", m.fields[i].first); put("meta.field" + std::to_string(i) + ".value", m.fields[i].second);
    }
  }
};
}
Flat flatten(const MDb& db, const FlatOpt& o) {
  F f; f.o = o; f.db = &db;
  if (o.header && o.mode != SHARED) {
    f.num("cipher", db.alg); f.put("master_seed", hex(db.master_seed)); f.put("iv", hex(db.iv));
    f.put("transform_seed", hex(db.transform_seed)); f.num("rounds", (int64_t)db.rounds);
    if (o.mode == KDBX) { f.put("inner_key", hex(db.inner_key)); f.num("compress", db.compress); }
  }
  f.group("root", db.root, true);
  if (o.mode == KDBX) { f.num("has_meta", db.has_meta); if (db.has_meta) f.meta(db.meta); }
  return f.out;
}
std::string flat_diff(const Flat& a, const Flat& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i])
      return a[i].first == b[i].first ? a[i].first + ": want " + show(a[i].second) + ", got " + show(b[i].second)
                                      : "structure at want " + a[i].first + "=" + show(a[i].second) + " vs got " + b[i].first + "=" + show(b[i].second);
  if (a.size() != b.size()) return "structure: different number of facts " + std::to_string(a.size()) + " vs " + std::to_string(b.size());
  return "";
}
uint64_t model_hash(const MDb& db) {
  FlatOpt o; uint64_t h = 7;
  for (auto& kv : flatten(db, o)) { h = fnv(kv.first, h); h = fnv(kv.second, h); }
  return h;
}
std::string describe(const MDb& db) {
  size_t ng = count_groups(db.root), ne = count_entries(db.root), nh = count_entries(db.root, true) - ne, bytes = 0;
  FlatOpt o; for (auto& kv : flatten(db, o)) bytes += kv.second.size();
  return "{\"groups\":" + std::to_string(ng) + ",\"entries\":" + std::to_string(ne) + ",\"history\":" + std::to_string(nh) +
         ",\"content_bytes\":" + std::to_string(bytes) + ",\"cipher\":" + (db.alg == ref::AES ? "\"aes\"" : "\"twofish\"") +
         ",\"compress\":" + (db.compress ? "true" : "false") + ",\"pool\":" + std::to_string(db.meta.bins.size()) +
         ",\"rounds\":" + std::to_string(db.rounds) + ",\"first_group\":" +
         jesc(db.root.groups.empty() ? db.root.name.substr(0, 40) : db.root.groups[0].name.substr(0, 40)) + "}";
}
std::string MKey::str() const {
  return std::string(has_pw ? "pw=" + show(pw, 20) : "nopw") + (kf == 0 ? "" : kf == 1 ? " xmlkey=" : " hexkey=") + (kf ? hex(kf_key).substr(0, 16) : "");
}
ref::K32 ref_resolve(const MKey& k, bool always_hash) {
  std::string pw = k.has_pw ? ref::str(ref::sha256(k.pw)) : "", kf = k.kf ? k.kf_key : "";
  if (always_hash) return ref::sha256(pw + kf);
  if (k.has_pw && k.kf) return ref::sha256(pw + kf);
  if (k.has_pw) return ref::k32(pw);
  if (k.kf) return ref::k32(kf);
  return ref::K32{};   // no component: the library's neutral value (all zero)
}
