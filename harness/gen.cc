#include "gen.hh"
#include <ctime>
#include <stdlib.h>
#include <algorithm>
const std::string kXmlWs = " \t\r\n";
std::string xml_trim(const std::string& s) {
  size_t b = s.find_first_not_of(kXmlWs); if (b == std::string::npos) return "";
  return s.substr(b, s.find_last_not_of(kXmlWs) - b + 1);
}
size_t gen_size(Rng& r, size_t max) {
  static const std::vector<size_t> edges = {0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
    8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 262144, 524288, 1048575, 1048576, 1048577, 1500000, 2097152, 3000000};
  if (max == 0) return 0;
  unsigned k = r.below(20);
  if (k < 11) return r.below(std::min<size_t>(max, 24) + 1);
  if (k < 16) {
    size_t n = std::upper_bound(edges.begin(), edges.end(), max) - edges.begin();
    int64_t v = (int64_t)edges[r.below(n)] + (r.chance(1, 3) ? r.range(-3, 3) : 0);
    return std::min<int64_t>(std::max<int64_t>(v, 0), max);
  }
  // log-uniform
  double lo = 0; (void)lo; size_t bits = 0; while ((size_t(1) << bits) < max) ++bits;
  size_t b = r.below(bits + 1), v = (size_t(1) << b) + r.below(size_t(1) << b);
  return std::min(v, max);
}
std::string gen_data(Rng& r, size_t n) {
  std::string s;
  switch (r.below(5)) {
    case 0: return r.bytes(n);
    case 1: return std::string(n, (char)r.next());
    case 2: { std::string p = r.bytes(1 + r.below(40)); while (s.size() < n) s += p; s.resize(n); return s; }
    case 3: { s = r.bytes(n); for (auto& c : s) c = "abcdefgh \n"[(uint8_t)c % 10]; return s; }
    default: { while (s.size() < n) { size_t k = 1 + r.below(300); if (r.coin()) s += r.bytes(k); else s += std::string(k, (char)r.below(4)); } s.resize(n); return s; }
  }
}
static void put_cp(std::string& o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static std::string raw_text(Rng& r, const GenOpt& o, size_t n) {
  std::string s; bool xml = !o.kdb || o.both || o.json_safe;
  unsigned mode = r.below(8);
  if (!xml && mode == 0) { s = r.bytes(n); for (auto& c : s) if (!c) c = 1; return s; }
  while (s.size() < n) {
    switch (mode < 3 ? 0 : r.below(9)) {
      case 0: case 1: s += (char)r.range(33, 126); break;
      case 2: s += " aeiou ntrs "[r.below(12)]; break;
      case 3: s += r.pickl<const char*>({"<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "&amp;", "&#x41;", "<![CDATA[", "</Value>", "<?x?>", "{", "}", "\\", "\\n", "\\u0041", "/"}); break;
      case 4: s += r.pickl<const char*>({"\n", "\r", "\r\n", "\t", "\n\n", " \n ", "  "}); break;
      case 5: put_cp(s, r.range(0xa0, 0x7ff)); break;
      case 6: { uint32_t c = r.range(0x800, 0xfffd); if (c >= 0xd800 && c < 0xe000) c = 0x20ac; put_cp(s, c); break; }
      case 7: put_cp(s, r.pickl<uint32_t>({0x1f600, 0x10000, 0x10ffff, 0x1f468, 0xfeff, 0x85, 0x2028, 0x7f, 0x301})); break;
      default: if (o.ctrl) s += (char)r.range(1, 31); else s += "0123456789"[r.below(10)]; break;
    }
  }
  return s;
}
std::string gen_text(Rng& r, const GenOpt& o, size_t max, bool prot) {
  if (r.chance(1, 4)) return "";
  std::string s = max >= 20 && r.chance(1, 24) ? r.pickl<const char*>({"null", "true", "True", "False", "0", "-1", "1", "NaN", "{REF:P@I:00}", "{TITLE}", "&#13;", "%s%n", "Meta-Info", "SYSTEM", "$", "bin-stream", "Protected", "Value", "a=b;c", "\xc3\x9f"}) : raw_text(r, o, gen_size(r, max));
  bool xml = !o.kdb || o.both;
  if (xml && !o.edge_ws && !prot) s = xml_trim(s);
  return s;
}
std::string gen_utf8(Rng& r, size_t max) { GenOpt o; o.edge_ws = true; return gen_text(r, o, max); }

Civil lib_local(int64_t t) {
  time_t x = t; struct tm b; localtime_r(&x, &b);
  Civil c; c.y = b.tm_year + 1900LL; c.mo = b.tm_mon + 1; c.d = b.tm_mday; c.h = b.tm_hour; c.mi = b.tm_min; c.s = b.tm_sec; return c;
}
int64_t lib_mktime(const Civil& c) {
  struct tm b = tm(); b.tm_year = c.y - 1900; b.tm_mon = c.mo - 1; b.tm_mday = c.d; b.tm_hour = c.h; b.tm_min = c.mi; b.tm_sec = c.s; b.tm_isdst = -1; return mktime(&b);
}
bool kdb_time_ok(int64_t t) {
  if (t == 0) return true;
  if (t == -1) return false;
  Civil c = lib_local(t);
  if (c.y < 1970 || c.y > 4095) return false;
  if (c.y == 2999 && c.mo == 12 && c.d == 28 && c.h == 23 && c.mi == 59 && c.s == 59) return false;
  // Unambiguous: no other offset (within a day) shows the same local fields.
  for (int64_t d : {1800, 3600, 7200, 10800}) for (int64_t q : {t - d, t + d}) {
    Civil e = lib_local(q); if (civil_to_unix(e) == civil_to_unix(c)) return false;
  }
  return lib_mktime(c) == t;
}
int64_t gen_time(Rng& r, const GenOpt& o) {
  bool kdb = o.kdb || o.both;
  for (;;) {
    int64_t t;
    switch (r.below(8)) {
      case 0: t = 0; break;
      case 1: if (r.coin()) { t = r.range(1, 100000); break; }
        { Civil c; c.y = o.far_times && r.chance(1, 4) ? r.pickl<int>({1972, 2000, 2038, 2047, 2048, 2096, 2100, 2104, 2400, 3000, 4000, 4095}) : (int)r.range(1970, 2060); int k = r.below(6);
          c.mo = k < 3 ? 2 : k == 3 ? 12 : k == 4 ? 1 : 1 + r.below(12); c.d = k == 0 ? 28 : k == 1 ? 29 : k == 2 ? 1 : k == 3 ? 31 : k == 4 ? 1 : r.below(2) ? 30 : 1; if (c.mo == 2 && c.d > 28 && (c.y % 4 || (c.y % 100 == 0 && c.y % 400))) c.d = 28;
          bool late = r.coin(); c.h = late ? 23 : 0; c.mi = late ? 59 : 0; c.s = late ? 59 : 0; t = civil_to_unix(c); if (kdb) t = lib_mktime(c); if (t <= 0) continue; break; }
      case 2: t = r.pickl<int64_t>({86399, 86400, 951782400, 951868799, 951868800, 1078012800, 2147483647, 2147483648, 4294967295, 4294967296, 4107542400, 32503679999, 32503680000}) + r.range(-2, 2); break;
      case 3: t = o.far_times ? r.range(1, kdb ? 67000000000ll : 253402300799ll) : r.range(1, 4000000000ll); break;
      case 4: t = o.far_times && !kdb ? r.range(-30610224000ll, -1) : 1 + r.below(2000000000); break;
      default: t = r.range(900000000, 2000000000); break;
    }
    if (kdb && !kdb_time_ok(t)) continue;
    if (!kdb || o.both) {
      if (t != 0 && iso_time(t) == "2999-12-28T22:59:59Z") continue;
      Civil c = unix_to_civil(t); if (c.y < 1000 || c.y > 9999) continue;
    }
    return t;
  }
}
static MTimes gen_times(Rng& r, const GenOpt& o) {
  MTimes t; t.creation = gen_time(r, o); t.modification = gen_time(r, o); t.access = gen_time(r, o); t.expiry = gen_time(r, o);
  if (!o.kdb) t.move = gen_time(r, o);
  return t;
}
static uint32_t u32(Rng& r) { switch (r.below(4)) { case 0: return r.below(70); case 1: return r.pickl<uint32_t>({0, 1, 68, 69, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}); case 2: return 0; default: return (uint32_t)r.next(); } }
static MProt gp(Rng& r, const GenOpt& o, size_t max) { MProt p; p.p = !o.kdb && !o.both && r.chance(2, 5); p.v = gen_text(r, o, max, p.p); return p; }
static size_t big(Rng& r, const GenOpt& o, size_t usual) { return o.scale == 0 ? std::min<size_t>(usual, 40) : o.scale == 2 ? usual * 40 : r.chance(1, 40) ? usual * 20 : usual; }
MEntry gen_entry(Rng& r, const GenOpt& o, const MDb* db, int hist) {
  MEntry e; e.uuid = r.arr<16>(); if (r.chance(1, 12)) e.uuid.fill(r.coin() ? 0xff : 1); else if (r.chance(1, 12)) for (int i = r.below(9), q = r.coin() ? 0 : 7; i >= 0; --i) e.uuid[i + q] = 0;
  bool many = o.scale > 0 && r.chance(1, 150);   // unusually many parts
  e.icon = u32(r);
  bool full = !o.kdb;
  if (r.chance(1, 10)) return e;   // bare entry
  e.title = gp(r, o, big(r, o, 60)); e.url = gp(r, o, big(r, o, 120)); e.username = gp(r, o, big(r, o, 60)); e.password = gp(r, o, big(r, o, 60)); e.notes = gp(r, o, big(r, o, 600));
  e.t = gen_times(r, o);
  if (full) {
    e.override_url = gen_text(r, o, 60); e.tags = gen_text(r, o, 60); e.bg = gen_text(r, o, 10); e.fg = gen_text(r, o, 10);
    e.expires = r.coin(); e.usage = u32(r); e.at_enabled = r.coin(); e.at_obf = u32(r); e.at_seq = gen_text(r, o, 60);
    for (int i = many ? r.below(60) : r.chance(1, 3) ? r.below(4) : 0; i > 0; --i) { MAssoc a; a.window = gen_text(r, o, 60); a.seq = gen_text(r, o, 60); e.assoc.push_back(a); }
    if (!o.both) for (int i = many ? r.below(80) : r.chance(1, 2) ? r.below(5) : 0; i > 0; --i) {
      std::string k = !e.fields.empty() && r.chance(1, 8) ? e.fields.back().first : gen_text(r, o, 30);
      if (k == "Title" || k == "URL" || k == "UserName" || k == "Password" || k == "Notes") continue;
      e.fields.emplace_back(k, gp(r, o, big(r, o, 200)));
    }
    if (db && o.refs && !db->meta.icons.empty() && r.chance(1, 3)) e.custom_icon = r.below(db->meta.icons.size());
  }
  int na = o.kdb || o.both ? r.chance(1, 3) : many ? r.below(40) : r.chance(2, 5) ? 1 + r.below(4) : 0;
  for (int i = 0; i < na; ++i) {
    MAtt a; a.name = !e.atts.empty() && r.chance(1, 6) ? e.atts.back().name : gen_text(r, o, 40);
    if (full && db && !db->meta.bins.empty() && r.chance(2, 3)) a.pool = r.below(db->meta.bins.size());
    else { a.bin.data = gen_data(r, gen_size(r, big(r, o, 900))); if (full && !o.both) { a.bin.prot = r.chance(1, 3); a.bin.compress = r.chance(1, 3); } else if (o.both) { a.bin.compress = r.chance(1, 4); } }
    if ((o.kdb || o.both) && a.name.empty() && (a.pool >= 0 ? db->meta.bins[a.pool].data : a.bin.data).empty()) a.name = "n";
    e.atts.push_back(a);
  }
  if (r.chance(1, 25) && !na) {   // KeePass 1 meta stream entry
    e.title = MProt("Meta-Info"); e.url = MProt("$"); e.username = MProt("SYSTEM"); e.notes = MProt("KPX_GROUP_TREE_STATE");
    MAtt a; a.name = "bin-stream"; a.bin.data = gen_data(r, 1 + r.below(40)); e.atts.push_back(a);
  }
  if (full && !o.both && hist > 0 && r.chance(1, 3)) {
    int n = many ? 20 + r.below(100) : r.chance(1, 10) ? 12 : 1 + r.below(3);
    GenOpt h = o; h.scale = 0;
    for (int i = 0; i < n; ++i) { MEntry x = gen_entry(r, h, db, r.chance(1, 15) ? 1 : 0); if (r.coin()) x.uuid = e.uuid; e.history.push_back(x); }
  }
  return e;
}
MGroup gen_group(Rng& r, const GenOpt& o, const MDb* db) {
  MGroup g; g.uuid = r.arr<16>(); g.icon = u32(r); g.name = gen_text(r, o, big(r, o, 60)); g.t = gen_times(r, o);
  if (o.kdb) { g.flags = u32(r); }
  else {
    g.notes = gen_text(r, o, big(r, o, 200)); g.default_seq = gen_text(r, o, 40); g.expires = r.coin(); g.expanded = r.coin(); g.autotype = r.coin(); g.search = r.coin(); g.usage = u32(r);
    if (db && o.refs && !db->meta.icons.empty() && r.chance(1, 4)) g.custom_icon = r.below(db->meta.icons.size());
  }
  return g;
}
static int gref(Rng& r, size_t n) { return r.chance(1, 4) ? -1 : (int)r.below(n); }
MDb gen_db(Rng& r, const GenOpt& o) {
  MDb d; bool kdb = o.kdb || o.both;
  d.alg = o.kdb && r.coin() ? ref::TWOFISH : ref::AES;
  size_t ms = kdb ? 16 : r.chance(4, 5) ? 32 : r.chance(1, 8) ? gen_size(r, 65535) : r.below(100);
  d.master_seed = r.bytes(ms); d.iv = r.arr<16>(); d.transform_seed = r.arr<32>(); d.inner_key = r.arr<32>();
  if (r.chance(1, 20)) { d.iv.fill(0); d.transform_seed.fill(0xff); }
  d.rounds = r.chance(1, 10) ? r.below(3) : r.chance(1, 30) ? 3000 + r.below(4000) : r.below(80);
  d.compress = !o.kdb && r.coin();
  d.has_meta = !o.kdb && o.meta;
  if (d.has_meta) {
    MMeta& m = d.meta; auto T = [&](size_t n) { MTemp t; t.v = gen_text(r, o, n); t.t = gen_time(r, o); return t; };
    m.generator = gen_text(r, o, 30); m.color = gen_text(r, o, 10); m.name = T(60); m.desc = T(300); m.user = T(60);
    m.hist_days = u32(r); m.key_changed = gen_time(r, o);
    auto i64 = [&]() -> int64_t { switch (r.below(4)) { case 0: return -1; case 1: return r.pickl<int64_t>({0, 1, -2, 2147483647ll, 2147483648ll, -2147483648ll, 4294967296ll, INT64_MAX, INT64_MIN + 1}); case 2: return r.below(10000); default: return (int64_t)(r.next() >> r.below(60)); } };
    m.key_rec = i64(); m.key_force = i64(); m.hist_size = i64(); m.hist_items = (int32_t)r.pickl<int64_t>({-1, 0, 10, 2147483647ll, -2147483647ll, (int64_t)r.below(1000)});
    m.p_title = r.coin(); m.p_user = r.coin(); m.p_pass = r.coin(); m.p_url = r.coin(); m.p_notes = r.coin();
    m.recycle_changed = gen_time(r, o); m.templates_changed = gen_time(r, o);
    int nb = o.scale > 0 && r.chance(1, 60) ? 250 + r.below(20) : r.chance(1, 8) ? 10 + r.below(20) : r.chance(1, 2) ? r.below(5) : 0;
    for (int i = 0; i < nb; ++i) { MBin b; b.data = gen_data(r, gen_size(r, big(r, o, 900))); if (!o.both) b.prot = r.chance(1, 3); b.compress = r.chance(1, 3); if (!m.bins.empty() && r.chance(1, 6)) b.data = r.pick(m.bins).data; m.bins.push_back(b); }
    int ni = o.scale > 0 && r.chance(1, 60) ? 100 + r.below(170) : r.chance(1, 2) ? r.below(5) : 0;
    for (int i = 0; i < ni; ++i) { MIcon c; c.uuid = r.arr<16>(); c.data = !m.icons.empty() && r.chance(1, 6) ? m.icons.back().data : gen_data(r, 1 + gen_size(r, big(r, o, 300))); m.icons.push_back(c); }
    for (int i = r.chance(1, 2) ? r.below(5) : 0; i > 0; --i) { std::string k = gen_text(r, o, 30); if (xml_trim(k).empty()) k = "k"; m.fields.emplace_back(k, gen_text(r, o, 100)); }
  }
  d.root = o.kdb ? MGroup() : gen_group(r, o, &d);
  // Tree: parents drawn by one of several shapes.
  int n = r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 6) ? o.max_groups : std::max(2, o.max_groups / 3));
  int shape = r.below(5);
  std::vector<int> parent(n + 1, 0), deep(n + 1, 0);
  for (int i = 1; i <= n; ++i) {
    switch (shape) {
      case 0: parent[i] = 0; break;
      case 1: parent[i] = i - 1; break;
      case 2: parent[i] = r.below(i); break;
      case 3: parent[i] = r.chance(1, 5) ? 0 : i - 1; break;
      default: parent[i] = std::max<int>(0, i - 1 - (int)r.below(4)); break;
    }
  }
  std::vector<std::vector<int>> kids(n + 1); for (int i = 1; i <= n; ++i) kids[parent[i]].push_back(i);
  std::function<void(int, MGroup&)> build = [&](int i, MGroup& g) {
    if (!(i == 0 && kdb)) {
      int ne = r.chance(1, 15) ? r.below(14) : r.below(3);
      if (o.scale > 0 && r.chance(1, 600)) ne = 240 + r.below(40);
      for (int k = 0; k < ne; ++k) g.entries.push_back(gen_entry(r, o, o.kdb ? nullptr : &d));
      if (!o.kdb && o.refs && ne && r.coin()) {
        // The reference names the entry by UUID, so that entry's UUID has to be unique in the group.
        int k = r.below(ne); g.entries[k].uuid = r.arr<16>(); g.last_visible = k;
      }
      else if (!kdb && ne && r.chance(1, 12)) g.entries[r.below(ne)].uuid = g.uuid;   // nothing forbids it
    }
    for (int k : kids[i]) { g.groups.push_back(gen_group(r, o, &d)); build(k, g.groups.back()); }
  };
  build(0, d.root);
  if (d.has_meta && o.refs) {
    size_t g = count_groups(d.root); MMeta& m = d.meta;
    m.recycle_bin = gref(r, g); m.templates = gref(r, g); m.last_selected = gref(r, g); m.last_visible = gref(r, g);
  }
  return d;
}
std::string key_file_text(Rng& r, int kind, const std::string& key) {
  if (kind == 2) {
    std::string h = hex(key); unsigned m = r.below(3);
    for (auto& c : h) if (m == 0 || (m == 1 && r.coin())) c = toupper((unsigned char)c);
    return h;
  }
  std::string b = ref::b64(key), ws = r.pickl<const char*>({"", "", "\n\t\t\t", " "});
  std::string decl = r.pickl<const char*>({"<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\r\n", "", "\xef\xbb\xbf<?xml version=\"1.0\" encoding=\"utf-8\"?>"});
  std::string nl = r.pickl<const char*>({"\n", "\r\n", ""}), meta = r.chance(4, 5) ? "<Meta>" + nl + "<Version>1.00</Version>" + nl + "</Meta>" + nl : "";
  std::string com = r.chance(1, 5) ? "<!-- key -->" : "";
  return decl + "<KeyFile>" + nl + meta + com + "<Key>" + nl + "\t<Data>" + ws + b + ws + "</Data>" + nl + "</Key>" + nl + "</KeyFile>" + nl;
}
MKey gen_key_kind(Rng& r, bool pw, int kf) {
  MKey k; k.has_pw = pw;
  if (pw) { GenOpt o; o.edge_ws = true; o.kdb = true; k.pw = r.chance(1, 12) ? "" : gen_text(r, o, r.chance(1, 10) ? 2000 : 30); if (r.chance(1, 20)) k.pw += std::string("\0x", 2); }
  k.kf = kf;
  if (kf) { k.kf_key = r.bytes(32); if (r.chance(1, 10)) k.kf_key = std::string(32, 0); if (r.chance(1, 10)) k.kf_key[0] = 0; k.kf_text = key_file_text(r, kf, k.kf_key); }
  return k;
}
MKey gen_key(Rng& r) { unsigned k = r.below(6); return gen_key_kind(r, k != 1 && k != 2, k == 0 || k == 5 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 1 + r.below(2)); }
KdbStyle gen_kdb_style(Rng& r) {
  KdbStyle s; s.flags_extra = r.pickl<uint32_t>({1, 0, 5, 1}); s.version = r.pickl<uint32_t>({0x00030004, 0x00030003, 0x00030002, 0x00030000, 0x00030001});
  s.ext_data = r.chance(1, 3); s.shuffle_fields = r.coin(); s.random_ids = r.coin(); s.empty_att_placeholders = r.coin(); return s;
}
void add_large(MDb& d, Rng& r) {
  if (d.root.groups.empty()) { MGroup g; g.uuid = r.arr<16>(); g.name = "large"; d.root.groups.push_back(g); }
  std::vector<MGroup*> pre; preorder(d.root, pre); MEntry e; e.uuid = r.arr<16>(); size_t n = r.range(1000000, 3300000);
  if (r.chance(1, 3)) { std::string t = "0123456789 abcdefghijklmnopqrstuvwxyz", v; while (v.size() < n) v += t.substr(r.below(30), 1 + r.below(8)); v.front() = v.back() = 'x'; e.notes.v = v; }
  else { MAtt a; a.name = "large"; a.bin.data = gen_data(r, n); e.atts.push_back(a); }
  MGroup* g = pre[1 + r.below(pre.size() - 1)]; g->entries.insert(g->entries.begin() + r.below(g->entries.size() + 1), e);
}
const char* add_many(MDb& d, Rng& r, bool kdb, bool meta) {
  size_t n = 60 << r.below(6); n += r.below(n);   // 60 ... 3840
  if (d.root.groups.empty()) { MGroup g; g.uuid = r.arr<16>(); g.name = "many"; d.root.groups.push_back(g); }
  std::vector<MGroup*> pre; preorder(d.root, pre); MGroup* g = pre[1 + r.below(pre.size() - 1)];
  auto num = [](size_t i) { return std::to_string(i * 2654435761u % 100003); };
  auto text = [&]() { size_t m = 1000 << r.below(11); m += r.below(m); std::string v; while (v.size() < m) v += "0123456789 <abcdefghijklmnopqrstuvwxyz&" + std::to_string(v.size() % 977); v.resize(m); v.front() = v.back() = 'x'; return v; };
  MEntry e; e.uuid = r.arr<16>(); e.title.v = "many"; std::vector<MEntry>& es = g->entries; bool p = !kdb && r.coin();
  if (meta) {
    d.has_meta = true; MMeta& m = d.meta;
    switch (r.below(6)) {
      case 0: for (size_t i = 0; i < n; ++i) m.fields.emplace_back("k" + num(i), "v" + num(i)); return "custom data";
      case 1: for (size_t i = 0; i < n; ++i) { MIcon c; c.uuid = r.arr<16>(); c.data = num(i); m.icons.push_back(c); } g->custom_icon = m.icons.size() - 1; return "icons";
      case 2: for (size_t i = 0; i < n; ++i) { MBin b; b.data = num(i); b.prot = p && i % 3 == 0; m.bins.push_back(b); if (i % 7 == 0) { MAtt a; a.name = num(i); a.pool = m.bins.size() - 1; e.atts.push_back(a); } } es.push_back(e); return "pool";
      case 3: for (size_t i = 0; i < n; ++i) { MEntry x; x.uuid = r.arr<16>(); x.title.v = num(i); es.push_back(x); } g->last_visible = es.size() - 1; return "entries and reference";
      case 4: for (size_t i = 0; i < n; ++i) { MGroup x; x.uuid = r.arr<16>(); x.name = num(i); d.root.groups.push_back(x); } m.recycle_bin = m.last_visible = count_groups(d.root) - 1; m.templates = m.last_selected = count_groups(d.root) - 2; return "groups and references";
      default: (r.chance(1, 4) ? m.desc.v : r.chance(1, 3) ? m.name.v : r.chance(1, 2) ? m.user.v : m.generator) = text(); if (r.coin()) m.fields.emplace_back("long", text()); return "long metadata";
    }
  }
  unsigned k = r.below(kdb ? 4 : 9);
  if (k == 0) { for (size_t i = 0; i < n; ++i) { MGroup x; x.uuid = r.arr<16>(); x.name = i % 3 ? num(i) : "same"; d.root.groups.push_back(x); } return "groups"; }
  if (k == 1) { for (size_t i = 0; i < n; ++i) { MEntry x; x.uuid = r.arr<16>(); x.title.v = i % 3 ? num(i) : "same"; es.push_back(x); } return "entries"; }
  if (k == 2) { (r.chance(1, 5) ? e.title.v : r.chance(1, 4) ? e.url.v : r.chance(1, 3) ? e.username.v : r.coin() ? e.password.v : e.notes.v) = text(); if (p) e.title.p = e.url.p = e.username.p = e.password.p = e.notes.p = true; es.push_back(e); return "long text"; }
  if (k == 3) { MAtt a; a.name = r.coin() ? text() : "a"; a.bin.data = text(); e.atts.push_back(a); if (r.coin()) g->name = text(); es.push_back(e); return "long name"; }
  if (k == 4) for (size_t i = 0; i < n; ++i) { MProt v(num(i)); v.p = p && i % 3 == 0; e.fields.emplace_back(i % 5 ? "k" + num(i) : "k", v); }
  if (k == 5) for (size_t i = 0; i < n; ++i) { MEntry x; x.uuid = i % 2 ? e.uuid : r.arr<16>(); x.title.v = num(i); x.title.p = p; e.history.push_back(x); }
  if (k == 6) for (size_t i = 0; i < n; ++i) { MAssoc a; a.window = "w" + num(i); a.seq = num(i); e.assoc.push_back(a); }
  if (k == 7) for (size_t i = 0; i < n; ++i) { MAtt a; a.name = i % 3 ? num(i) : "same"; a.bin.data = num(i); a.bin.prot = p && i % 2; e.atts.push_back(a); }
  if (k == 8) { (r.chance(1, 6) ? e.override_url : r.chance(1, 5) ? e.tags : r.chance(1, 4) ? e.at_seq : r.chance(1, 3) ? g->notes : r.coin() ? g->default_seq : e.bg) = text(); MProt v(text()); v.p = p; e.fields.emplace_back(r.coin() ? text() : "long", v); MAssoc a; a.window = text(); e.assoc.push_back(a); }
  es.push_back(e); static const char* names[] = {"fields", "history", "associations", "attachments", "long parts"}; return names[k - 4];
}
KdbxStyle gen_kdbx_style(Rng& r) {
  KdbxStyle s; s.version = r.pickl<uint32_t>({0x00030001, 0x00030001, 0x00030000, 0x00030005, 0x0003ffff}); s.shuffle_header = r.coin();
  s.end_marker = r.chance(1, 2) ? "\r\n\r\n" : r.bytes(r.below(20));
  if (r.coin()) for (int i = 1 + r.below(4); i > 0; --i) s.block_sizes.push_back(1 + gen_size(r, 40000));
  s.gzip_level = r.range(0, 9); s.gzip_flush = r.chance(1, 4);
  s.xml.decl = r.chance(4, 5); s.xml.bom = r.chance(1, 5); s.xml.indent = r.below(4); s.xml.self_close = r.coin(); s.xml.single_quotes = r.chance(1, 4);
  if (r.chance(1, 3)) s.xml.cdata = 100; if (r.chance(1, 3)) s.xml.charref = 50; if (r.chance(1, 3)) s.xml.comments = 60;
  s.shuffle_elements = r.coin(); s.omit_defaults = r.coin(); s.unknown_elements = r.chance(1, 3); s.unknown_protected = r.coin(); s.sparse_ids = r.chance(1, 3); s.in_memory_flag = r.chance(1, 3);
  s.zero_uuid_none = r.coin(); s.disabled_bin = r.chance(1, 3); s.ws_base64 = r.chance(1, 4); s.omit_never = r.chance(1, 3);
  if (r.chance(1, 5)) s.comments = r.range(1, 3);
  return s;
}
void set_tz(const char* tz) { setenv("TZ", tz, 1); tzset(); }
const char* set_tz(Rng& r) {
  static const std::vector<const char*> z = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "NPT-5:45", "<-12>12", "<+14>-14", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "<-03>3", "PST8PDT,M3.2.0,M11.1.0"};
  const char* t = r.pick(z); set_tz(t); return t;
}
