// Interoperation with independent implementations of the formats: C04, C05, C22, C28.
#include "gen.hh"
#include "bridge.hh"
#include <sys/stat.h>
#include <unistd.h>
using namespace ref;

// ---------------------------------------------------------------- C04
PROP(C04, "non-trivial: at least one group and one entry; distinct by content hash, direction and file style") {
  Rng& r = c.rng; std::string tz = set_tz(r); bool read = c.idx % 2;
  GenOpt o; o.kdb = true; o.scale = r.chance(1, 15) ? 2 : 1; o.max_groups = r.chance(1, 20) ? 150 : 24;
  MDb d = gen_db(r, o); MKey k = gen_key(r); auto key = to_key(k, c); if (c.idx % 194 < 2) add_large(d, r); else if (c.idx / 2 % 67 == 13) c.count(std::string("many_") + add_many(d, r, true));
  KdbStyle st = gen_kdb_style(r);
  if (r.chance(1, 4)) {   // interleaved entries are only ordered within one group
    std::vector<MGroup*> pre; preorder(d.root, pre); for (auto g : pre) if (g->entries.size() > 1) g->entries.resize(1);
    st.entries_shuffled = true;
  }
  std::string what = std::string(read ? "import " : "export ") + "TZ=" + tz + " key " + k.str() + " " + describe(d);
  FlatOpt fo; fo.mode = KDB; std::string p = c.path("a.kdb");
  if (read) {
    std::string f = kdb_write(d, k, st, r, lib_local); write_file(p, f);
    Res i = lib_import(false, p, key);
    if (!c.check(i.ok(), "well-formed-file-refused", std::string(out_name(i.out)) + ": " + i.what + " | " + what)) return;
    std::string df = diff(d, from_lib(*i.db), fo);
    c.check(df.empty(), "imported-data-differs", df + " | " + what);
    c.count("files_imported"); if (st.shuffle_fields) c.count("shuffled_fields"); if (st.ext_data) c.count("extension_fields"); if (st.entries_shuffled) c.count("interleaved_entries");
  } else {
    auto L = to_lib(d); Res e = lib_export(false, p, *L, key);
    if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return;
    std::string f; read_file(p, f); KdbDoc doc;
    try { doc = kdb_read(f, k, lib_mktime); } catch (const std::exception& x) { c.viol("exported-file-undecodable", std::string(x.what()) + " | " + what); return; }
    std::string df = diff(d, doc.db, fo);
    c.check(df.empty(), "exported-data-differs", df + " | " + what);
    c.check(doc.ngroups == count_groups(d.root) - 1 && doc.nentries == count_entries(d.root), "record-counts", what);
    c.check((doc.flags & 15 & ~1u & ~4u) == (d.alg == AES ? 2u : 8u), "cipher-flags", what);
    c.count("files_decoded");
  }
  c.count(d.alg == AES ? "aes" : "twofish"); c.count("groups", count_groups(d.root) - 1); c.count("entries", count_entries(d.root));
  c.eval(model_hash(d) * 2 + read, count_groups(d.root) > 1 && count_entries(d.root) > 0); c.sample(describe(d));
}

// ---------------------------------------------------------------- C05
static bool ends(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
static bool trimmed_form(const std::string& want, const std::string& got) {
  if (got.empty()) return xml_trim(want).empty();
  size_t first = want.find_first_not_of(kXmlWs);
  for (size_t p = want.find(got); p != std::string::npos; p = want.find(got, p + 1)) {
    if (first != std::string::npos && first < p) break;
    if (want.find_first_not_of(kXmlWs, p + got.size()) == std::string::npos) return true;
  }
  return false;
}
static std::string ws_diff(const Flat& want, const Flat& got, bool& trimmed) {
  Flat w = want; std::map<std::string, std::string> prot;
  for (auto& kv : want) if (ends(kv.first, ".protected")) prot[kv.first.substr(0, kv.first.size() - 10)] = kv.second;
  for (size_t i = 0; i < w.size() && i < got.size(); ++i) {
    if (w[i].first != got[i].first || w[i].second == got[i].second || ends(w[i].first, ".data")) continue;
    auto p = prot.find(w[i].first);
    if (p != prot.end() && p->second == "1") continue;
    if (trimmed_form(w[i].second, got[i].second)) { trimmed = true; w[i].second = got[i].second; }
  }
  return flat_diff(w, got);
}
PROP(C05, "non-trivial: at least one entry; distinct by content hash, direction and file style") {
  Rng& r = c.rng; std::string tz = set_tz(r); bool read = c.idx % 2 || c.idx % 37 == 6;
  GenOpt o; o.ctrl = false; o.scale = r.chance(1, 20) ? 2 : 1; o.max_groups = r.chance(1, 25) ? 80 : 16;
  bool edge = c.idx % 37 == 6; o.edge_ws = edge;
  MDb d = gen_db(r, o); MKey k = gen_key(r); auto key = to_key(k, c);
  bool big = c.idx % 101 == 3; if (big) { MEntry e; e.uuid = r.arr<16>(); MAtt a; a.name = "big"; a.bin.data = gen_data(r, r.range(800000, 3000000)); a.bin.compress = r.coin(); e.atts.push_back(a); d.root.entries.push_back(e); c.count("multi_block"); }
  if (!edge && c.idx / 2 % 31 == 13) c.count(std::string("many_") + add_many(d, r, false, r.chance(1, 3)));
  std::string what = std::string(read ? "import " : "export ") + "TZ=" + tz + " key " + k.str() + " " + describe(d);
  FlatOpt fo; std::string p = c.path("a.kdbx");
  if (read) {
    KdbxStyle st = gen_kdbx_style(r);
    if (st.in_memory_flag && edge) st.in_memory_flag = false;
    if (big ? r.coin() : r.chance(1, 8)) { st.block_sizes = {r.coin() ? 1u << 26 : (1u << 20) + (uint32_t)r.below(1u << 21)}; if (big) c.count("block_above_1_MiB"); }
    write_file(p, kdbx_write(d, k, st, r));
    Res i = lib_import(true, p, key);
    if (!c.check(i.ok(), "well-formed-file-refused", std::string(out_name(i.out)) + ": " + i.what + " | " + what)) return;
    MDb got = from_lib(*i.db);
    // A reference written as the all-zero UUID may be represented by an object outside the tree.
    if (st.zero_uuid_none) {
      auto z = [](int want, int& g) { if (want == -1 && g == -2) g = -1; };
      z(d.meta.recycle_bin, got.meta.recycle_bin); z(d.meta.templates, got.meta.templates); z(d.meta.last_selected, got.meta.last_selected); z(d.meta.last_visible, got.meta.last_visible);
    }
    Flat w = flatten(d, fo), g = flatten(got, fo);
    if (edge) {
      bool trimmed = false; std::string df = ws_diff(w, g, trimmed);
      if (df.empty() && trimmed) c.viol("edge-whitespace-trimmed", "unprotected text loses its leading/trailing white space on import: " + flat_diff(w, g));
      else c.check(df.empty(), "imported-data-differs", df + " | " + what);
    } else { std::string df = flat_diff(w, g); c.check(df.empty(), "imported-data-differs", df + " | " + what); }
    c.count("files_imported"); if (st.shuffle_elements) c.count("shuffled_elements"); if (st.shuffle_header) c.count("shuffled_header"); if (st.comments) c.count("header_comments"); if (st.xml.cdata) c.count("cdata"); if (st.xml.charref) c.count("character_references"); if (st.xml.comments) c.count("comments");
    if (st.unknown_elements) c.count("unknown_elements"); if (st.sparse_ids) c.count("sparse_ids"); if (st.omit_defaults) c.count("omitted_defaults"); if (!st.block_sizes.empty()) c.count("small_blocks"); if (d.compress) c.count("gzip_level_" + std::to_string(st.gzip_level));
  } else {
    auto L = to_lib(d); Res e = lib_export(true, p, *L, key);
    if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return;
    std::string f; read_file(p, f); KdbxDoc doc;
    try { doc = kdbx_read(f, k); } catch (const std::exception& x) { c.viol("exported-file-undecodable", std::string(x.what()) + " | " + what); return; }
    std::string df = diff(d, doc.db, fo);
    c.check(df.empty(), "exported-data-differs", df + " | " + what);
    c.count("files_decoded"); c.count("protected_values", doc.nprotected);
  }
  c.eval(model_hash(d) * 2 + read, count_entries(d.root) > 0); c.sample(describe(d));
}

// ---------------------------------------------------------------- C22
namespace {
// Own time-zone arithmetic for POSIX rules.
struct Zone { const char* tz; int std, dst; int sm, sw, st, em, ew, et; };   // offsets in seconds east; rule month/week (Sunday), time
const Zone kZones[] = {
  {"UTC0", 0, 0, 0, 0, 0, 0, 0, 0},
  {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, 3, 5, 7200, 10, 5, 10800},
  {"EST5EDT,M3.2.0,M11.1.0", -18000, -14400, 3, 2, 7200, 11, 1, 7200},
  {"PST8PDT,M3.2.0,M11.1.0", -28800, -25200, 3, 2, 7200, 11, 1, 7200},
  {"NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, 9, 5, 7200, 4, 1, 10800},
  {"LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, 39600, 10, 1, 7200, 4, 1, 7200},
  {"IST-5:30", 19800, 19800, 0, 0, 0, 0, 0, 0}, {"NPT-5:45", 20700, 20700, 0, 0, 0, 0, 0, 0},
  {"<-12>12", -43200, -43200, 0, 0, 0, 0, 0, 0}, {"<+14>-14", 50400, 50400, 0, 0, 0, 0, 0, 0}, {"<-03>3", -10800, -10800, 0, 0, 0, 0, 0, 0}, {"XXX-0:00:01", 1, 1, 0, 0, 0, 0, 0, 0},
};
int64_t rule(int64_t y, int m, int w) {   // 00:00 local of the w-th (5: last) Sunday of the month, as if UTC
  Civil c{y, m, 1, 0, 0, 0}; int64_t d = civil_to_unix(c) / 86400; int wd = (int)(((d + 4) % 7 + 7) % 7);   // 1970-01-01 was a Thursday
  int64_t first = d + (7 - wd) % 7, x = first + 7 * (w - 1);
  Civil n{m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1, 0, 0, 0}; int64_t end = civil_to_unix(n) / 86400;
  while (x >= end) x -= 7;
  return x * 86400;
}
int offset(const Zone& z, int64_t t) {
  if (z.std == z.dst) return z.std;
  int64_t y = unix_to_civil(t + z.std).y, s = rule(y, z.sm, z.sw) + z.st - z.std, e = rule(y, z.em, z.ew) + z.et - z.dst;
  bool d = s < e ? t >= s && t < e : t >= s || t < e;
  return d ? z.dst : z.std;
}
Civil own_local(const Zone& z, int64_t t) { return unix_to_civil(t + offset(z, t)); }
// All instants showing these local fields.
std::set<int64_t> own_instants(const Zone& z, int64_t as_utc) {
  std::set<int64_t> r; for (int o : {z.std, z.dst}) if (offset(z, as_utc - o) == o) r.insert(as_utc - o); return r;
}
std::vector<int64_t*> all_times(MGroup& g, bool kdb, bool root) {
  std::vector<int64_t*> v; auto T = [&](MTimes& t) { for (auto p : {&t.creation, &t.modification, &t.access, &t.expiry}) v.push_back(p); if (!kdb) v.push_back(&t.move); };
  if (!(kdb && root)) T(g.t);
  std::function<void(MEntry&)> E = [&](MEntry& e) { T(e.t); if (!kdb) for (auto& h : e.history) E(h); };
  for (auto& e : g.entries) E(e);
  for (auto& q : g.groups) { auto w = all_times(q, kdb, false); v.insert(v.end(), w.begin(), w.end()); }
  return v;
}
int64_t interesting(Rng& r, const Zone& z, bool kdb) {
  switch (r.below(7)) {
    case 0: return 0;
    case 1: if (z.std != z.dst) {   // next to a transition
      int64_t y = r.range(1971, r.coin() ? 2037 : 4000), t = r.coin() ? rule(y, z.sm, z.sw) + z.st - z.std : rule(y, z.em, z.ew) + z.et - z.dst; return t + r.range(-4000, 4000);
    } // fall through
    case 2: { Civil c{r.range(1970, 4000), (int)r.range(1, 12), 1, 0, 0, 0}; return std::max<int64_t>(1, civil_to_unix(c) - offset(z, civil_to_unix(c)) + r.range(-2, 2)); }   // month and year ends
    case 3: { int64_t y = r.pickl<int64_t>({1972, 2000, 2004, 2100, 2400, 1999, 2038, 4094}); Civil c{y, 2, 28, 23, 59, 59}; return civil_to_unix(c) - offset(z, civil_to_unix(c)) + r.range(0, 90000); }
    case 4: return r.range(1, 86400 * 3);
    case 5: return kdb ? r.range(66900000000ll, 67065000000ll) : r.range(-30000000000ll, 253370000000ll);
    default: return r.range(1, 4102444800ll * (r.coin() ? 1 : 16));
  }
}
}
PROP(C22, "every case checks at least eight time stamps; distinct by zone, direction and instants") {
  Rng& r = c.rng; const Zone& z = kZones[r.below(sizeof kZones / sizeof *kZones)]; const Zone& z2 = kZones[r.below(sizeof kZones / sizeof *kZones)];
  bool kdb = c.idx % 2, read = c.idx / 2 % 2;
  GenOpt o; o.kdb = kdb; o.scale = 0; o.max_groups = 6; o.ctrl = false; set_tz("UTC0");
  MDb d = gen_db(r, o); d.rounds = 1;
  if (count_entries(d.root) == 0) { MGroup g; g.uuid = r.arr<16>(); MEntry e; e.uuid = r.arr<16>(); g.entries.push_back(e); d.root.groups.push_back(g); }
  auto ts = all_times(d.root, kdb, true); uint64_t h = fnv(z.tz);
  for (auto p : ts) {
    for (;;) {
      int64_t t = interesting(r, z, kdb);
      if (t) {
        Civil l = kdb ? own_local(z, t) : unix_to_civil(t);
        if (kdb && (t == -1 || l.y < 1970 || l.y > 4095)) continue;
        if (kdb && kdb_pack_time(l) == std::string("\x2e\xdf\x39\x7e\xfb", 5)) continue;
        if (!kdb && (l.y < 1000 || l.y > 9999 || iso_time(t) == iso_time(0))) continue;
      }
      *p = t; break;
    }
    h = fnv(&*p, 8, h);
  }
  MKey k = gen_key_kind(r, true, 0); auto key = to_key(k, c);
  std::string p = c.path("f"), what = std::string(kdb ? "KDB" : "KDBX") + (read ? " import" : " export") + " TZ=" + z.tz;
  set_tz(z.tz);
  FlatOpt fo; fo.mode = kdb ? KDB : KDBX; fo.refs = false;
  auto local = [&](int64_t t) { return own_local(z, t); };
  auto asutc = [](const Civil& q) { return civil_to_unix(q); };
  auto cmp = [&](const MDb& got, const char* key_, const std::string& where, const std::function<bool(int64_t, int64_t)>& eq) {
    MDb g = got; auto gt = all_times(g.root, kdb, true);
    if (!c.check(gt.size() == ts.size(), "structure", where + " | " + what)) return;
    for (size_t i = 0; i < ts.size(); ++i) if (!c.check(eq(*ts[i], *gt[i]), key_, where + ": instant " + std::to_string(*ts[i]) + " (" + iso_time(*ts[i]) + ") became " + std::to_string(*gt[i]) + " | " + what)) return;
    c.count("timestamps", ts.size());
  };
  auto same = [](int64_t a, int64_t b) { return a == b; };
  auto instant = [&](int64_t a, int64_t b) { if (a == 0 || b == 0) return a == b; auto s = own_instants(z, a + offset(z, a)); return s.size() == 1 ? a == b : s.count(b) > 0; };
  if (!read) {
    auto L = to_lib(d); Res e = lib_export(!kdb, p, *L, key);
    if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return;
    std::string f; read_file(p, f);
    try {
      if (kdb) cmp(kdb_read(f, k, asutc).db, "local-time-wrong", "calendar time in the file", [&](int64_t a, int64_t b) { return a == 0 ? b == 0 : b == a + offset(z, a); });
      else {
        KdbxDoc doc = kdbx_read(f, k); cmp(doc.db, "utc-text-wrong", "text in the file", same);
        c.check(doc.db.meta.key_changed == d.meta.key_changed && doc.db.meta.name.t == d.meta.name.t && doc.db.meta.recycle_changed == d.meta.recycle_changed && doc.db.meta.templates_changed == d.meta.templates_changed && doc.db.meta.desc.t == d.meta.desc.t && doc.db.meta.user.t == d.meta.user.t, "utc-text-wrong", "metadata times | " + what);
      }
    } catch (const std::exception& x) { c.viol("exported-file-undecodable", std::string(x.what()) + " | " + what); return; }
    if (!kdb) set_tz(z2.tz);
    Res i = lib_import(!kdb, p, key);
    if (!c.check(i.ok(), "import-failed", i.what + " | " + what)) return;
    cmp(from_lib(*i.db), "instant-changed", kdb ? "after import in the same zone" : std::string("after import under TZ=") + z2.tz, kdb ? std::function<bool(int64_t, int64_t)>(instant) : same);
  } else {
    KdbxStyle sx; KdbStyle sk;
    write_file(p, kdb ? kdb_write(d, k, sk, r, local) : kdbx_write(d, k, sx, r));
    Res i = lib_import(!kdb, p, key);
    if (!c.check(i.ok(), "import-failed", i.what + " | " + what)) return;
    cmp(from_lib(*i.db), "instant-wrong", "import of an independent file", kdb ? std::function<bool(int64_t, int64_t)>(instant) : same);
  }
  c.count(kdb ? "kdb" : "kdbx"); c.count(std::string("zone_") + z.tz); c.eval(h + c.idx % 4, ts.size() >= 8);
  c.sample("{\"zone\":" + jesc(z.tz) + ",\"format\":" + (kdb ? "\"kdb\"" : "\"kdbx\"") + ",\"first_times\":[" + std::to_string(*ts[0]) + "," + std::to_string(*ts[1]) + "," + std::to_string(*ts[2]) + "]}");
}

// ---------------------------------------------------------------- C28
static void rename_first(XNode& n, const std::string& from, const std::string& to) { for (auto& k : n.kids) if (k.name == from) { k.name = to; return; } }
static void drop(XNode& n, const std::string& name) { for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].name == name) { n.kids.erase(n.kids.begin() + i); return; } }
static XNode* kid(XNode& n, const std::string& name) { for (auto& k : n.kids) if (k.name == name) return &k; return nullptr; }
static void collect(XNode& n, const std::function<bool(const XNode&)>& f, std::vector<XNode*>& out) { if (f(n)) out.push_back(&n); for (auto& k : n.kids) collect(k, f, out); }

PROP(C28, "every case is one failure or unsupported feature in an otherwise valid file; distinct by kind and content") {
  Rng& r = c.rng; set_tz(r); bool kdbx = c.idx % 2; unsigned kind = c.idx / 2;
  GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = 0; o.max_groups = 8; MDb d = gen_db(r, o); d.rounds = r.below(5);
  std::vector<MGroup*> pre; preorder(d.root, pre);
  if (pre.size() < 3) { for (int i = 0; i < 3; ++i) d.root.groups.push_back(gen_group(r, o, &d)); pre.clear(); preorder(d.root, pre); }
  if (count_entries(d.root) == 0) pre[1]->entries.push_back(gen_entry(r, o, &d));
  MKey k = gen_key(r); auto key = to_key(k, c);
  std::string p = c.path("f"), label, f; Out want = Out::format;
  auto run = [&]() {
    write_file(p, f); Res i = lib_import(kdbx, p, key);
    c.check(i.out == want, "wrong-class", label + ": expected " + out_name(want) + ", got " + out_name(i.out) + " (" + i.what + ") | " + (kdbx ? "KDBX " : "KDB ") + describe(d));
  };
  if (kdbx) {
    KdbxStyle st = gen_kdbx_style(r); st.version = 0x00030001; std::string start = r.bytes(32), h = kdbx_header(d, st, start, r), first = h.substr(0, 12);
    auto fields = kdbx_split(h); auto fld = [&](int id) -> HdrField& { for (auto& x : fields) if (x.id == id) return x; throw Stop("field"); };
    auto le32 = [](uint32_t v) { std::string s; put32(s, v); return s; };
    bool xmlkind = false; unsigned n = kind % 27;
    if (n < 12) {
      switch (n) {
        case 0: label = "first signature"; first[r.below(4)] ^= (char)r.range(1, 255); break;
        case 1: label = "second signature"; if (r.coin()) first[4 + r.below(4)] ^= (char)r.range(1, 255); else first[4] = r.coin() ? 0x65 : 0x66; break;
        case 2: label = "newer major version"; { uint32_t v = (uint32_t)r.pickl<uint32_t>({4, 5, 0x103, 0x8000, 0xffff, 4}) << 16 | (uint32_t)r.pickl<uint32_t>({0, 1, 0xffff}); first = first.substr(0, 8) + le32(v); } break;
        case 3: label = "unknown cipher"; { std::string& x = fld(2).data; unsigned m = r.below(4); if (m == 0) x[r.below(16)] ^= (char)(1 << r.below(8)); else if (m == 1) x = r.bytes(16); else if (m == 2) x = unhex("ad68f29f576f4bb9a36ad47af965346c"); else x = unhex("d6038a2b8b6f4cb5a524339a31dbb59a"); } break;
        case 4: label = "unknown compression"; fld(3).data = le32(r.pickl<uint32_t>({2, 3, 4, 256, 257, 0x10000, 0x80000000u, 0xffffffffu})); break;
        case 5: label = "unknown random stream"; fld(10).data = le32(r.pickl<uint32_t>({0, 1, 3, 4, 0x102, 0x10002, 0x80000002u, 0xffffffffu})); break;
        case 6: label = "unknown header field"; { HdrField x; x.id = r.coin() ? 11 + r.below(4) : r.range(11, 255); x.data = r.bytes(r.below(40)); fields.insert(fields.begin() + r.below(fields.size()), x); } break;
        case 7: label = "transform seed size"; fld(5).data = r.bytes(r.pickl<int>({0, 16, 31, 33, 64})); break;
        case 8: label = "initialization vector size"; fld(7).data = r.bytes(r.pickl<int>({0, 8, 15, 17, 32})); break;
        case 9: label = "stream key size"; fld(8).data = r.bytes(r.pickl<int>({0, 16, 31, 33, 64})); break;
        case 10: label = "start bytes size"; fld(9).data = r.bytes(r.pickl<int>({0, 16, 31, 33, 64})); break;
        case 11: label = "KDB file given to the KDBX reader"; break;
      }
      if (n == 11) { MDb e = d; e.master_seed = r.bytes(16); GenOpt ko; ko.kdb = true; ko.scale = 0; e = gen_db(r, ko); f = kdb_write(e, k, gen_kdb_style(r), r, lib_local); }
      else f = kdbx_around(d, k, st, kdbx_join(first, fields), start, r);
    } else if (n < 24) {
      xmlkind = true; Salsa20 obf = inner_stream(d); XNode dom = kdbx_dom(d, st, b64(str(sha256(h))), r, obf); XNode* meta = kid(dom, "Meta"); XNode* root = kid(dom, "Root"); std::string xml; bool text = false;
      switch (n) {
        case 12: label = "no KeePassFile element"; dom.name = r.pickl<const char*>({"KeepassFile", "Root", "keepassfile", "KeePassFile2"}); break;
        case 13: label = "no Meta element"; if (r.coin()) drop(dom, "Meta"); else meta->name = "meta"; break;
        case 14: label = "no Root element"; if (r.coin()) drop(dom, "Root"); else root->name = "root"; break;
        case 15: label = "no Group below Root"; if (r.coin()) drop(*root, "Group"); else rename_first(*root, "Group", "Groups"); break;
        case 16: label = "wrong header hash"; { std::string x = str(sha256(h)); x[r.below(32)] ^= (char)(1 << r.below(8)); kid(*meta, "HeaderHash")->text = b64(x); } break;
        case 17: label = "missing header hash"; if (r.coin()) drop(*meta, "HeaderHash"); else kid(*meta, "HeaderHash")->text = ""; break;
        case 18: label = "short header hash"; kid(*meta, "HeaderHash")->text = b64(str(sha256(h)).substr(0, r.below(32))); break;
        case 19: case 20: label = "malformed XML"; text = true; xml = xml_write(dom, st.xml, &r);
          switch (r.below(7)) {
            case 0: xml.resize(xml.rfind("</KeePassFile") + r.below(12)); break;
            case 1: xml.resize(xml.size() / 2 + r.below(xml.size() / 4)); if (xml.find("</KeePassFile>") != std::string::npos) xml = ""; break;
            case 2: xml = ""; break;
            case 3: { size_t q = xml.rfind("</Root>"); xml.replace(q, 7, "</Roof>"); break; }
            case 4: { size_t q = xml.rfind("</Meta>"); xml.insert(q, "</Unopened>"); break; }
            case 5: { size_t q = xml.rfind("</Meta>"); xml.insert(q, "<Unclosed a=\"1>"); break; }
            default: xml = r.bytes(40 + r.below(200)); for (auto& ch : xml) if (!ch) ch = 'x'; if (xml[0] == '<') xml[0] = 'a'; break;
          }
          break;
        case 21: label = "malformed time"; {
          std::vector<XNode*> v; collect(dom, [](const XNode& q) { return q.name == "CreationTime" || q.name == "LastModificationTime" || q.name == "LastAccessTime" || q.name == "ExpiryTime" || q.name == "LocationChanged" || q.name == "MasterKeyChanged" || q.name == "DatabaseNameChanged"; }, v);
          if (v.empty()) return; r.pick(v)->text = r.pickl<const char*>({"yesterday", "2014-13-01T00:00:00Z", "2014-02-03", "2014-01-01T00:00:00+01:00", "2014-01-01T25:00:00Z", "12345", "2014-01-32T00:00:00Z"}); } break;
        case 22: label = "malformed Base64"; {
          std::vector<XNode*> v; collect(dom, [](const XNode& q) { return q.name == "UUID" || (q.name == "Value" && q.attribute("Protected") && *q.attribute("Protected") == "True"); }, v);
          // DeletedObject UUIDs and unknown elements are not read.
          std::vector<XNode*> w; std::vector<XNode*> dead; collect(dom, [](const XNode& q) { return q.name == "DeletedObjects" || q.name[0] == 'X'; }, dead);
          for (auto q : v) { bool in = false; for (auto x : dead) { std::vector<XNode*> sub; collect(*x, [&](const XNode& y) { return &y == q; }, sub); if (!sub.empty()) in = true; } if (!in) w.push_back(q); }
          r.pick(w)->text = r.pickl<const char*>({"A", "AAA", "AAAAA", "A*AA", "????", "AA-_", "\xc3\xa4" "AA"}); } break;
        case 23: label = "attachment refers to a missing pool item"; {
          std::vector<XNode*> v; collect(dom, [](const XNode& q) { return q.name == "Entry"; }, v); XNode b("Binary"); b.add(XNode("Key", "n")); XNode val("Value"); val.set("Ref", "100001"); b.add(val); v[r.below(v.size())]->add(b); } break;
      }
      if (!text) xml = xml_write(dom, st.xml, &r);
      f = kdbx_encrypt(d, k, h, start, hash_blocks(d.compress ? gzip(xml, st.gzip_level, st.gzip_flush) : xml, st.block_sizes));
    } else if (n == 24) { label = "empty or short file"; f = h.substr(0, r.below(12)); }
    else if (n == 25) { label = "text file"; f = "This is not a database. " + gen_text(r, o, 300); }
    else { label = "old 2.x pre-release signature"; f = kdbx_around(d, k, st, kdbx_join(first.substr(0, 4) + le32(0xb54bfb66) + first.substr(8), fields), start, r); }
    run(); c.count("kdbx_" + label); (void)xmlkind;
  } else {
    KdbStyle st = gen_kdb_style(r); uint32_t ng, ne; std::string body = kdb_content(d, st, r, lib_local, &ng, &ne);
    uint32_t fl = d.alg == AES ? 2 : 8, ver = 0x00030004; unsigned n = kind % 17; auto fs = kdb_split(body);
    auto le16 = [](uint16_t v) { std::string s; put16(s, v); return s; }; auto le32 = [](uint32_t v) { std::string s; put32(s, v); return s; };
    // Field ranges of the records.
    std::vector<std::pair<size_t, size_t>> recs; size_t b = 0; for (size_t i = 0; i < fs.size(); ++i) if (fs[i].type == 0xffff) { recs.push_back({b, i}); b = i + 1; }
    auto set = [&](size_t rec, int type, const std::string& v) { for (size_t i = recs[rec].first; i < recs[rec].second; ++i) if (fs[i].type == type) { fs[i].data = v; return; } throw Stop("no field"); };
    auto badtime = [&]() { std::string t = kdb_pack_time(Civil{2014, 5, 6, 7, 8, 9}); switch (r.below(6)) { case 0: t = kdb_pack_time(Civil{2014, 13 + (int)r.below(3), 6, 7, 8, 9}); break; case 1: t = kdb_pack_time(Civil{2014, 0, 6, 7, 8, 9}); break; case 2: t = kdb_pack_time(Civil{2014, 5, 0, 7, 8, 9}); break; case 3: t = kdb_pack_time(Civil{2014, 5, 6, 24 + (int)r.below(8), 8, 9}); break; case 4: t = kdb_pack_time(Civil{2014, 5, 6, 7, 60 + (int)r.below(4), 9}); break; default: t = kdb_pack_time(Civil{2014, 5, 6, 7, 8, 61 + (int)r.below(3)}); } return t; };
    switch (n) {
      case 0: label = "first signature"; break;
      case 1: label = "second signature"; break;
      case 2: label = "old version"; ver = r.pickl<uint32_t>({0x00010000, 0x00010002, 0x00020000, 0x00020004, 0x000200ff}); break;
      case 3: label = "unknown version"; ver = r.pickl<uint32_t>({0x00040000, 0x00030100, 0x00030104, 0x01030004, 0, 4, 0x00000300, 0xffffffffu}); break;
      case 4: label = "no known cipher flag"; fl = r.pickl<uint32_t>({0, 1, 4, 5, 16, 0x10, 0x20, 0xfffffff5u}); break;
      case 5: label = "unknown group field"; fs.insert(fs.begin() + r.range(recs[0].first, recs[ng - 1].second), KdbField{(uint16_t)r.pickl<int>({10, 11, 255, 0x7fff, 0xfffe}), r.bytes(r.below(20))}); break;
      case 6: label = "unknown entry field"; fs.insert(fs.begin() + r.range(recs[ng].first, recs[ng + ne - 1].second), KdbField{(uint16_t)r.pickl<int>({15, 16, 255, 0x7fff, 0xfffe}), r.bytes(r.below(20))}); break;
      case 7: label = "orphaned entry"; { std::set<std::string> ids; for (size_t i = 0; i < ng; ++i) for (size_t q = recs[i].first; q < recs[i].second; ++q) if (fs[q].type == 1) ids.insert(fs[q].data); std::string id; do id = le32(r.coin() ? r.next() : r.below(50)); while (ids.count(id)); set(ng + r.below(ne), 2, id); } break;
      case 8: label = "first group below level 0"; set(0, 8, le16(r.pickl<int>({1, 2, 255, 256, 0xffff}))); break;
      case 9: label = "level jump"; { size_t i = r.range(1, ng - 1); uint16_t lv = 0; for (size_t q = recs[i - 1].first; q < recs[i - 1].second; ++q) if (fs[q].type == 8) lv = (uint8_t)fs[q].data[0]; set(i, 8, le16(lv + r.pickl<int>({2, 3, 100, 0x7fff}))); } break;
      case 10: label = "duplicate group id"; { size_t i = r.below(ng), q = r.below(ng); if (i == q) q = (q + 1) % ng; std::string id; for (size_t x = recs[q].first; x < recs[q].second; ++x) if (fs[x].type == 1) id = fs[x].data; set(i, 1, id); } break;
      case 11: label = "impossible group time"; set(r.below(ng), r.range(3, 6), badtime()); break;
      case 12: label = "impossible entry time"; set(ng + r.below(ne), r.range(9, 12), badtime()); break;
      case 13: label = "content after the last record"; fs.push_back(KdbField{0, r.bytes(r.below(10))}); break;
      case 14: label = "KDBX file given to the KDB reader"; break;
      case 15: label = "empty or short file"; break;
      case 16: label = "text file"; break;
    }
    f = kdb_seal(d, k, kdb_join(fs), ng, ne, fl, ver);
    if (n == 0) f[r.below(4)] ^= (char)r.range(1, 255);
    if (n == 1) f[4 + r.below(4)] ^= (char)r.range(1, 255);
    if (n == 14) { GenOpt xo; xo.scale = 0; xo.ctrl = false; f = kdbx_write(gen_db(r, xo), k, gen_kdbx_style(r), r); }
    if (n == 15) f.resize(r.coin() ? r.below(124) : r.pickl<int>({0, 1, 4, 8, 123}));
    if (n == 16) f = "This is not a database. " + std::string(200, 'x');
    run(); c.count("kdb_" + label);
  }
  c.eval(fnv(label, fnv(f)));
  // Missing files and unwritable destinations.
  if (c.idx % 4 < 2) {
    std::string gone = c.path("missing"), reason; Res i;
    if (r.coin()) gone = c.path("nodir") + "/x"; else if (r.chance(1, 3)) gone = "";
    i = lib_import(kdbx, gone, key);
    c.check(i.out == Out::notfound, "wrong-class", std::string("missing file: got ") + out_name(i.out) + " (" + i.what + ") path " + gone);
    Out ko = Out::ok; try { keepass::Key q; q.SetKeyFile(gone); } catch (const std::exception& x) { ko = classify(x); }
    c.check(ko == Out::notfound, "wrong-class", std::string("missing key file: got ") + out_name(ko));
    auto L = to_lib(d); write_file(c.path("plain"), "x");
    for (std::string dst : {c.path("nodir") + "/x", c.dir, std::string(""), c.path("plain") + "/x"}) {
      Res e = lib_export(kdbx, dst, *L, key);
      c.check(e.out == Out::io, "wrong-class", std::string("unwritable destination ") + dst + ": got " + out_name(e.out) + " (" + e.what + ")");
    }
    // Key files of no known form.
    std::string kf = r.pickl<const char*>({"", "short", "zz", "<KeyFile><Key><Data>AAAA</Data></Key></KeyFile>", "<KeyFile/>", "<Key><Data>x</Data></Key>"});
    if (r.coin()) { kf = hex(r.bytes(32)); if (r.coin()) kf[r.below(64)] = r.pickl<char>({'g', ' ', 'x', 'G', '-', '+', '\n'}); else if (r.coin()) kf += "\n"; else kf.pop_back(); }
    write_file(c.path("kf"), kf); ko = Out::ok; try { keepass::Key q; q.SetKeyFile(c.path("kf")); } catch (const std::exception& x) { ko = classify(x); }
    c.check(ko == Out::format, "wrong-class", "key file of no known form " + show(kf) + ": got " + out_name(ko));
    c.count("missing_and_unwritable");
  }
  c.sample("{\"defect\":" + jesc(label) + ",\"format\":" + (kdbx ? "\"kdbx\"" : "\"kdb\"") + "}");
}
