// Hostile inputs: arbitrary files (C10), malformed content behind valid encryption (C11), unsuitable objects (C32).
#include "hostile.hh"
#include "wsdiff.hh"
#include <algorithm>
#include <unistd.h>
using namespace ref;

// Uses everything a caller can do with an imported database; any crash is caught by the monitors.
static void exercise(Ctx& c, keepass::Database& db, const keepass::Key& key, bool both = true) {
  arm_cpu_limit(0);
  size_t bytes = 0;
  if (auto root = db.root()) {
    bytes += root->ToJson().size();
    c.check(*root == *root, "group-not-equal-to-itself", "root group of an imported database compares unequal to itself");
    std::vector<std::shared_ptr<keepass::Group>> q{root};
    for (size_t i = 0; i < q.size() && i < 3000; ++i) {
      q[i]->HasNonMetaEntries();
      for (auto& e : q[i]->Entries()) if (bytes < 3000000) {
        bytes += e->ToJson().size(); c.check(*e == *e, "entry-not-equal-to-itself", "imported entry compares unequal to itself"); e->IsMetaEntry(); e->HasAttachment(); e->HasNonDefaultAutoTypeSettings();
        for (auto& a : e->attachments()) if (a) bytes += a->ToJson().size();
      }
      for (auto& g : q[i]->Groups()) q.push_back(g);
    }
    from_lib(db);
  }
  c.count("json_bytes", bytes);
  db.set_transform_rounds(1);
  for (bool kdbx : {true, false}) {
    if (!both && !kdbx) continue;
    if (!kdbx) db.set_master_seed(std::vector<uint8_t>(16, 7));
    std::string p = c.path(kdbx ? "re.kdbx" : "re.kdb"); Res e = lib_export(kdbx, p, db, key);
    c.count(std::string(kdbx ? "reexport_kdbx_" : "reexport_kdb_") + out_name(e.out));
    if (e.ok()) { Res i = lib_import(kdbx, p, key); c.count(std::string("reimport_") + out_name(i.out)); c.check(i.ok(), "exported-file-refused", std::string(kdbx ? "kdbx: " : "kdb: ") + i.what); }
  }
}
// C35: what was accepted is sound, can be saved in the same format, and comes back as it was.
static bool saving = false;
static void sound(Ctx& c, const keepass::Database& db, const std::string& how) {
  std::set<const void*> seen; size_t n = 0; bool ok = true;
  std::function<void(const std::shared_ptr<keepass::Entry>&)> entry = [&](const std::shared_ptr<keepass::Entry>& e) {
    if (!e || !seen.insert(e.get()).second) { ok = false; return; }
    ++n; for (auto& a : e->attachments()) if (!a || !seen.insert(a.get()).second) ok = false;
    for (auto& h : e->history()) entry(h);
  };
  std::vector<std::shared_ptr<keepass::Group>> q{db.root()};
  for (size_t i = 0; i < q.size() && ok; ++i) {
    if (!q[i] || !seen.insert(q[i].get()).second) { ok = false; break; }
    for (auto& e : q[i]->Entries()) entry(e);
    for (auto& g : q[i]->Groups()) q.push_back(g);
  }
  if (auto m = db.meta()) { for (auto& b : m->binaries()) ok = ok && b; for (auto& i : m->icons()) ok = ok && i; }
  c.check(ok, "unsound-tree", "an imported database has a missing element or one element in two places: " + how); c.maxi("max_elements", n + q.size());
}
static void save_again(Ctx& c, bool kdbx, keepass::Database& db, const keepass::Key& key, const std::string& how) {
  sound(c, db, how); db.set_transform_rounds(1);
  MDb was = from_lib(db); std::string p = c.path("again"); Res e = lib_export(kdbx, p, db, key);
  if (!e.ok()) {   // fields out of range normalise to times that a format may not be able to state
    bool far = false;
    for (auto& kv : flatten(was, FlatOpt())) for (const char* t : {".creation", ".modification", ".access", ".expiry", ".move", ".time", "_changed"}) if (ends(kv.first, t)) {
      int64_t v = strtoll(kv.second.c_str(), nullptr, 10), y = kdbx ? unix_to_civil(v).y : lib_local(v).y; if (v && (kdbx ? y < 0 || y > 9999 : y < 1970 || y > 4095)) far = true;
    }
    if (far) { c.count("time_out_of_range"); return; }
  }
  if (!c.check(e.ok(), "accepted-but-not-saved", std::string("exporting what was imported fails (") + e.what + "): " + how)) return;
  Res i = lib_import(kdbx, p, key);
  if (!c.check(i.ok(), "saved-but-refused", "the saved file is refused (" + i.what + "): " + how)) return;
  MDb now = from_lib(*i.db);
  // Two representations of one state: an attachment without data, a reference to no group of the file.
  std::function<void(MEntry&)> data = [&](MEntry& x) { for (auto& a : x.atts) a.null_bin = false; for (auto& h : x.history) data(h); };
  for (MDb* d : {&was, &now}) { std::vector<MGroup*> pre; preorder(d->root, pre); for (auto g : pre) for (auto& x : g->entries) data(x); }
  auto dangling = [&](int w, int& g) { if (w == -2) { c.count("dangling_references"); g = -2; } };
  dangling(was.meta.recycle_bin, now.meta.recycle_bin); dangling(was.meta.templates, now.meta.templates); dangling(was.meta.last_selected, now.meta.last_selected); dangling(was.meta.last_visible, now.meta.last_visible);
  FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; bool trimmed = false;
  auto a = flatten(was, fo), b = flatten(now, fo);
  if (kdbx) for (auto m : {&a, &b}) for (auto& kv : *m) for (const char* t : {".creation", ".modification", ".access", ".expiry", ".move", ".time", "_changed"})
    if (ends(kv.first, t) && kv.second == "32503417199") kv.second = "0";   // the instant that states "never", written in another way
  std::string df = kdbx ? ws_diff(a, b, trimmed) : diff(was, now, fo);
  c.check(df.empty(), "saved-differently", df + " | " + how + "| " + describe(was));
  if (trimmed) c.count("trimmed"); c.count(kdbx ? "kdbx_saved_again" : "kdb_saved_again");
}
static void try_import(Ctx& c, bool kdbx, const std::string& f, const keepass::Key& key, const std::string& how, bool use = true) {
  if (!feasible(kdbx, f)) { c.count("skipped_infeasible_rounds"); return; }
  std::string p = c.path("h"); write_file(p, f); arm_cpu_limit(0);
  Res i = lib_import(kdbx, p, key);
  c.count(std::string(kdbx ? "kdbx_" : "kdb_") + out_name(i.out)); c.eval(fnv(f), !saving || i.ok()); c.maxi("max_file_bytes", f.size());
  if (saving) { if (i.ok() && f.size() < 4000000) save_again(c, kdbx, *i.db, key, how); return; }
  if (i.ok() && use) exercise(c, *i.db, key, f.size() < 4000000);
}

// ---------------------------------------------------------------------------------------------- C10
static std::string deep(const std::string& open, const std::string& close, size_t n, const std::string& in = "") {
  std::string s; s.reserve(n * (open.size() + close.size()) + in.size()); for (size_t i = 0; i < n; ++i) s += open; s += in; for (size_t i = 0; i < n; ++i) s += close; return s;
}
static std::string reencode(const std::string& s, int kind, bool bom) {   // ASCII text to UTF-16/32
  std::string o; auto put = [&](uint32_t v) { for (int i = 0; i < (kind < 2 ? 2 : 4); ++i) { int n = kind < 2 ? 2 : 4; o += (char)(v >> 8 * (kind & 1 ? n - 1 - i : i)); } };
  if (bom) put(0xfeff); for (unsigned char ch : s) put(ch); return o;
}
static std::string hostile_key_file(Rng& r, std::string& how, bool large) {
  std::string key = r.bytes(32);
  switch (r.below(16)) {
    case 0: how = "random bytes"; return r.bytes(gen_size(r, 3000));
    case 1: { how = "mutated XML key file"; std::string s = key_file_text(r, 1, key); for (int i = 1 + r.below(3); i > 0; --i) damage(r, s, std::min<size_t>(s.size(), 40), s); return s; }
    case 2: { how = "mutated hex key file"; std::string s = key_file_text(r, 2, key); for (int i = 1 + r.below(3); i > 0; --i) damage(r, s, std::min<size_t>(s.size(), 10), s); return s; }
    case 3: how = "32 or 64 bytes"; return r.bytes(r.coin() ? 32 : 64 + r.range(-1, 1));
    case 4: how = "hex digits of other lengths"; return hex(r.bytes(r.below(80))) + (r.coin() ? "0" : "") + (r.coin() ? "\n" : "");
    case 5: how = "other encodings"; return reencode(key_file_text(r, 1, key), r.below(4), r.coin());
    case 6: how = "document type"; return "<?xml version=\"1.0\"?><!DOCTYPE KeyFile [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;\">" + r.pickl<std::string>({"]>", "", "<!ENTITY", "]]]>>"}) + "<KeyFile><Key><Data>&b;" + b64(key) + "</Data></Key></KeyFile>";
    case 7: how = "character references"; return "<KeyFile><Key><Data>" + r.pickl<std::string>({"&#x41;&#65;&#0;", "&#xFFFFFFFF;", "&#99999999999999999999;", "&amp", "&#x;", "&;", "&#x110000;"}) + b64(key) + "</Data></Key></KeyFile>";
    case 8: how = "bad Base64"; return "<KeyFile><Key><Data>" + r.pickl<std::string>({"", "=", "====", "A", "AA=", "AAA", "A===", "AA=A", "\xff\xff\xff\xff", std::string(4, '\x80'), "\x7f\x7f\x7f\x7f", b64(r.bytes(31)), b64(r.bytes(33)), b64(r.bytes(gen_size(r, 5000))), b64(key) + "=", "=" + b64(key), std::string(200, '=')}) + "</Data></Key></KeyFile>";
    case 9: { how = "nested elements"; size_t n = large ? 300000 : 2000 + r.below(20000); return "<KeyFile><Key><Data>" + deep("<a>", r.coin() ? "</a>" : "", n, b64(key)) + "</Data></Key></KeyFile>"; }
    case 10: { how = "nested key elements"; size_t n = large ? 200000 : 1000 + r.below(20000); return deep("<KeyFile><Key>", "</Key></KeyFile>", n, "<Data>" + b64(key) + "</Data>"); }
    case 11: how = "missing parts"; return r.pickl<std::string>({"", "<", "<KeyFile", "<KeyFile>", "<KeyFile/>", "<KeyFile><Key/></KeyFile>", "<KeyFile><Key><Data/></Key></KeyFile>", "<KeyFile><Key><Data></Data></Key></KeyFile>", "<Key><Data>" + b64(key) + "</Data></Key>", "<KeyFile><Data>" + b64(key) + "</Data></KeyFile>", "<?xml", "<!--", "<![CDATA[", "<KeyFile><Key><Data><![CDATA[" + b64(key) + "]]></Data></Key></KeyFile>", "<KeyFile><Key><Data><!--x-->" + b64(key) + "</Data></Key></KeyFile>", "\xef\xbb\xbf", std::string(1, '\0')});
    case 12: how = "very long value"; return "<KeyFile><Key><Data>" + std::string(large ? 20000000 : 200000, r.pickl<char>({'A', ' ', '=', '\n'})) + "</Data></Key></KeyFile>";
    case 13: how = "many elements"; { std::string s = "<KeyFile>"; for (int i = large ? 200000 : 3000; i > 0; --i) s += r.coin() ? "<Key><Data>AAAA</Data></Key>" : "<Key/>"; return s + "</KeyFile>"; }
    case 14: how = "NUL bytes inside"; { std::string s = key_file_text(r, 1 + r.below(2), key); for (int i = 1 + r.below(4); i > 0; --i) s[r.below(s.size())] = 0; return s; }
    default: how = "large file"; return r.coin() ? std::string(large ? 30000000 : 1000000, (char)r.next()) : gen_data(r, large ? 4000000 : 300000);
  }
}
PROP(C10, "every evaluation imports one arbitrary or mutated file or loads one arbitrary key file; distinct by bytes") {
  Rng& r = c.rng; set_tz(r); MKey k = gen_key(r); auto key = to_key(k, c);
  int kind = c.idx % 4;
  if (kind == 0) {   // arbitrary bytes after as much of a signature as may be
    for (int i = 0; i < 24; ++i) {
      bool kdbx = r.coin(); std::string f; int m = r.below(8);
      if (m == 0) f = r.bytes(gen_size(r, 5000));
      else if (m == 1) f = gen_data(r, gen_size(r, 100000));
      else {
        put32(f, 0x9aa2d903); put32(f, kdbx ? 0xb54bfb67 : 0xb54bfb65); if (r.chance(1, 10)) f.resize(r.below(9));
        if (kdbx) {
          put32(f, r.pickl<uint32_t>({0x00030001, 0x00030000, 0x0003ffff, 0x00020004, 0x00040000, (uint32_t)r.next()}));
          bool end = r.chance(4, 5);
          for (int j = r.below(14); j > 0; --j) { uint8_t id = r.below(m == 2 ? 256 : 12); if (!id) id = 2; static const int sz[] = {4, 5, 16, 4, 32, 32, 8, 16, 32, 32, 4, 3}; size_t n = id < 12 && r.chance(3, 4) ? sz[id] : r.below(r.coin() ? 40 : 3000); put16(f, 0); f.resize(f.size() - 2); f += (char)id; put16(f, r.chance(1, 12) ? (uint16_t)r.next() : (uint16_t)n); f += id == 6 ? std::string(1, (char)r.below(20)) + std::string(n ? n - 1 : 0, 0) : id == 3 || id == 10 ? std::string(1, (char)r.below(4)) + std::string(n ? n - 1 : 0, 0) : id == 2 && r.chance(3, 4) ? unhex("31c1f2e6bf714350be5805216afc5aff") : r.bytes(n); }
          if (end) { f += std::string(1, '\0'); put16(f, 4); f += "\r\n\r\n"; }
        } else {
          put32(f, r.pickl<uint32_t>({2, 3, 9, 11, 0, (uint32_t)r.next()})); put32(f, r.chance(4, 5) ? 0x00030000 + r.below(8) : (uint32_t)r.next());
          f += r.bytes(32); put32(f, r.chance(1, 2) ? r.below(10) : (uint32_t)r.next()); put32(f, r.chance(1, 2) ? r.below(10) : (uint32_t)r.next()); f += r.bytes(64); put32(f, r.below(8));
        }
        f += m == 3 ? "" : r.coin() ? r.bytes(16 * r.below(40)) : r.bytes(r.below(700));
        if (r.chance(1, 8)) f.resize(r.below(f.size() + 1));
      }
      try_import(c, kdbx, f, key, "arbitrary bytes"); if (r.chance(1, 4)) try_import(c, !kdbx, f, key, "arbitrary bytes, other format");
      c.count("arbitrary_files");
    }
  } else if (kind < 3) {   // mutated and truncated copies of valid files
    bool kdbx = kind == 1; GenOpt o; o.kdb = !kdbx; o.scale = 0; o.max_groups = 8; MDb d = gen_db(r, o); d.rounds = r.below(3); auto key2 = to_key(gen_key(r), c, "k2");
    KdbxStyle st = gen_kdbx_style(r); std::string f = kdbx ? kdbx_write(d, k, st, r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local);
    size_t body = header_size(kdbx, f);
    try_import(c, kdbx, f, key, "valid file"); try_import(c, kdbx, f, key2, "valid file, another key"); try_import(c, !kdbx, f, key, "valid file of the other format");
    std::string other = kdbx ? kdbx_write(d, k, gen_kdbx_style(r), r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local);
    for (int i = 0; i < 24; ++i) { std::string g = f, how; for (int j = 1 + r.below(r.coin() ? 1 : 6); j > 0; --j) how += damage(r, g, body, other) + "; "; try_import(c, kdbx, g, r.chance(1, 6) ? key2 : key, how); c.count("mutated_files"); }
    for (int i = 0; i < 10; ++i) { try_import(c, kdbx, f.substr(0, r.coin() ? r.below(f.size()) : r.below(std::min(f.size(), body + 50))), key, "cut"); c.count("truncated_files"); }
    for (int i = 0; i < 8; ++i) {   // numbers in the header at their extremes
      std::string g = f;
      if (kdbx) { auto fs = kdbx_split(f.substr(0, body)); HdrField& x = fs[r.below(fs.size())]; int m = r.below(5); if (m == 0) x.data = r.bytes(r.below(70)); else if (m == 1) x.data.resize(r.below(x.data.size() + 1)); else if (m == 2) x.data += r.bytes(1 + r.below(20)); else if (m == 3) x.data = r.bytes(60000 + r.below(5536)); else x.data.assign(x.data.size(), r.coin() ? '\xff' : '\0'); g = kdbx_join(f.substr(0, 12), fs) + f.substr(body); }
      else { size_t at = r.pickl<size_t>({8, 12, 48, 52}); std::string x; put32(x, r.pickl<uint32_t>({0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x10000, (uint32_t)r.next()})); g.replace(at, 4, x); }
      try_import(c, kdbx, g, key, "header values"); c.count("header_values");
    }
  } else {
    for (int i = 0; i < 12; ++i) {
      std::string how, t = hostile_key_file(r, how, c.thorough ? r.chance(1, 40) : r.chance(1, 300)), p = c.path("key"); write_file(p, t);
      keepass::Key kk; bool pw = r.coin(); if (pw) kk.SetPassword("p"); arm_cpu_limit(0);
      std::string out;
      try { kk.SetKeyFile(p); out = "ok"; } catch (const std::exception& e) { out = out_name(classify(e)); if (classify(e) == Out::other) c.count("key_other_exception"); } catch (...) { c.viol("foreign-exception", "SetKeyFile: " + how); }
      c.count("keyfile_" + out); c.eval(fnv(t)); c.maxi("max_key_file_bytes", t.size());
      try { kk.Transform(std::array<uint8_t, 32>{}, 1, keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey); } catch (const std::exception&) {}
    }
  }
  c.sample("{\"kind\":" + std::to_string(kind) + "}");
}

// ---------------------------------------------------------------------------------------------- C11
static std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> 8 * i); return s; }
static std::string fld(uint16_t t, const std::string& d) { return le(t, 2) + le(d.size(), 4) + d; }
static std::string kend() { return fld(0xffff, ""); }
static std::string kgroup(uint32_t id, uint16_t level, const std::string& name = "g") { return fld(1, le(id, 4)) + fld(2, name + std::string(1, 0)) + fld(8, le(level, 2)) + kend(); }
static std::string kentry(uint32_t id, const std::string& title = "e") { return fld(2, le(id, 4)) + fld(4, title + std::string(1, 0)) + kend(); }
static std::string odd_time(Rng& r) { return r.pickl<std::string>({r.bytes(5), std::string(5, 0), std::string(5, '\xff'), unhex("2edf397efb"), unhex("00000021ff"), kdb_pack_time(Civil{r.range(0, 4095), (int)r.below(16), (int)r.below(32), (int)r.below(32), (int)r.below(64), (int)r.below(64)})}); }
static void kdb_content_case(Ctx& c, const keepass::Key& key, const MKey& k) {
  Rng& r = c.rng; GenOpt o; o.kdb = true; o.scale = 0; o.max_groups = 10; MDb d = gen_db(r, o); d.rounds = r.below(2); uint32_t fl = d.alg == AES ? 3 : 9;
  uint32_t ng, ne; std::string base = kdb_content(d, gen_kdb_style(r), r, lib_local, &ng, &ne);
  auto run = [&](const std::string& x, uint32_t a, uint32_t b, const std::string& how) { try_import(c, false, kdb_seal(d, k, x, a, b, fl, 0x00030004), key, "kdb: " + how); c.count("kdb_contents"); };
  for (int i = 0; i < 20; ++i) {
    std::vector<KdbField> fs = kdb_split(base); std::string how; uint32_t a = ng, b = ne;
    if (fs.empty()) { run(r.bytes(r.below(60)), r.below(4), r.below(4), "random content"); continue; }
    for (int j = 1 + r.below(r.coin() ? 1 : 5); j > 0 && !fs.empty(); --j) {
      size_t p = r.below(fs.size()), q = r.below(fs.size()); int m = r.below(15); how += "m" + std::to_string(m) + " ";
      switch (m) {
        case 0: fs[p].type = r.pickl<uint16_t>({0, 1, 2, 8, 9, 10, 13, 14, 15, 0x100, 0xffff, (uint16_t)r.next()}); break;
        case 1: fs[p].data.resize(r.below(fs[p].data.size() + 8)); break;
        case 2: fs[p].data = r.bytes(r.below(40)); break;
        case 3: fs[p].data.clear(); break;
        case 4: fs.erase(fs.begin() + p); break;
        case 5: fs.insert(fs.begin() + q, fs[p]); break;
        case 6: std::swap(fs[p], fs[q]); break;
        case 7: fs.insert(fs.begin() + p, KdbField{0xffff, ""}); if (r.coin()) { r.coin() ? ++a : ++b; } break;
        case 8: fs[p].data = odd_time(r); break;
        case 9: a = r.chance(1, 3) ? (uint32_t)r.next() : r.below(2 * ng + 3); break;
        case 10: b = r.chance(1, 3) ? (uint32_t)r.next() : r.below(2 * ne + 3); break;
        case 11: for (auto& f : fs) if (f.type == 8 && f.data.size() == 2 && r.coin()) f.data = le(r.pickl<uint16_t>({0, 1, 2, 5, 0x7fff, 0xffff, (uint16_t)r.next()}), 2); break;
        case 12: for (auto& f : fs) if ((f.type == 1 || f.type == 2) && f.data.size() == 4 && r.coin()) f.data = le(r.pickl<uint32_t>({0, 1, 0xffffffffu, (uint32_t)r.next()}), 4); break;
        case 13: if (!fs[p].data.empty()) fs[p].data[r.below(fs[p].data.size())] = (char)r.next(); break;
        default: for (auto& f : fs) if (f.type >= 9 && f.type <= 12 && f.data.size() == 5 && r.chance(1, 3)) f.data = odd_time(r); break;
      }
    }
    std::string x = kdb_join(fs);
    if (r.chance(1, 4) && x.size() > 6) { how += "bytes "; for (int j = 1 + r.below(3); j > 0; --j) { size_t p = r.below(x.size()); if (r.chance(1, 3)) x[p] = (char)r.next(); else if (r.coin()) x.resize(p + 1); else { std::string v = le(r.pickl<uint32_t>({0xffffffffu, 0x80000000u, 0x7fffffffu, 0x01000000, 0x10000}), 4); x.replace(p, std::min<size_t>(4, x.size() - p), v); } } }
    run(x, a, b, how);
  }
  if (c.idx % 3 == 0) {
    size_t n = c.thorough ? r.pickl<size_t>({1023, 1024, 1025, 1026, 5000, 65535, 65536, 70000}) : r.pickl<size_t>({1022, 1023, 1024, 1025, 1026, 2000, 9000, 70000});
    std::string x; uint32_t a = n, b = 0; std::string how; int m = r.below(6);
    for (size_t i = 0; i < n; ++i) switch (m) {
      case 0: x += kgroup(i + 1, i); how = "chain"; break;
      case 1: x += kgroup(i + 1, 0); how = "flat"; break;
      case 2: x += kgroup(7, i ? 1 : 0); how = "same ids"; break;
      case 3: x += kgroup(i + 1, i & 1 ? (uint16_t)i : 0); how = "jumping levels"; break;
      case 4: x += kgroup(i + 1, (uint16_t)(n - i)); how = "descending levels"; break;
      default: x += i & 1 ? kend() : kgroup(i + 1, 0); how = "empty records"; break;
    }
    if (m < 2) for (size_t i = 0; i < n; i += 1 + r.below(50)) { x += kentry(i + 1); ++b; }
    run(x, a, b, how + " " + std::to_string(n)); c.maxi("max_kdb_groups", n);
  }
  run("", r.below(2), r.below(2), "empty"); run(r.bytes(gen_size(r, 2000)), r.below(20), r.below(20), "random"); run(std::string(r.below(100), 0), r.below(20), r.below(20), "zeros");
}
static void all_nodes(XNode& n, std::vector<XNode*>& v) { v.push_back(&n); for (auto& k : n.kids) all_nodes(k, v); }
static std::string odd_value(Rng& r) {
  switch (r.below(8)) {
    case 0: return r.pickl<std::string>({"", " ", "-", "+", "x", "-1", "0", "1", "True", "False", "true", "1e9", "0x10", "99999999999999999999999", "-99999999999999999999999", "4294967296", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "1 2", "NaN", "null"});
    case 1: return r.pickl<std::string>({"=", "==", "====", "A", "AA", "AAA", "AAAA", "A===", "AA==A", "!!!!", "\xc3\xa9\xc3\xa9", b64(r.bytes(15)), b64(r.bytes(16)), b64(r.bytes(17)), b64(r.bytes(r.below(300))), b64(std::string(16, 0))});
    case 2: return r.pickl<std::string>({"2010-13-40T25:61:61Z", "0000-00-00T00:00:00Z", "9999-12-31T23:59:60Z", "99999-01-01T00:00:00Z", "2010-01-01", "2010-01-01T00:00:00", "T", "Z", "-2010-01-01T00:00:00Z", "2010-01-01T00:00:00+01:00", "2010-2-3T4:5:6Z", "1-1-1T1:1:1Z", "999999999999-01-01T00:00:00Z", "2147483647-01-01T00:00:00Z", "2010-2147483647-01T00:00:00Z", "2010-01-01T99999999999:00:00Z", "-99999999999-01-01T00:00:00Z"});
    case 3: return gen_text(r, GenOpt(), 60);
    case 4: return std::to_string((int64_t)r.next());
    case 5: return b64(gzip(r.bytes(r.below(100)))).substr(0, r.below(200));
    case 6: return std::string(1 + r.below(5000), r.pickl<char>({'9', 'A', ' ', '=', '-', 'T', ':'}));
    default: return std::to_string(r.range(-3, 40));
  }
}
static const std::vector<std::string> kNames = {"KeePassFile", "Meta", "Root", "Group", "Entry", "History", "String", "Key", "Value", "Binary", "Binaries", "UUID", "Times", "AutoType", "Association", "Icon", "CustomIcons", "CustomData", "Item", "ID", "Data", "LastTopVisibleEntry", "CustomIconUUID", "RecycleBinUUID", "LastSelectedGroup", "LastTopVisibleGroup", "EntryTemplatesGroup", "Name", "MemoryProtection", "Notes", "IconID", "DeletedObjects", "HeaderHash", "HistoryMaxItems", "IsExpanded", "EnableAutoType", "Tags", "x"};
static void mutate_dom(Rng& r, XNode& root, std::string& how) {
  std::vector<XNode*> v; all_nodes(root, v); XNode& n = *v[r.below(v.size())]; XNode copy = *v[r.below(v.size())]; int m = r.below(16); how += "d" + std::to_string(m) + "(" + n.name + ") ";
  static const char* attrs[] = {"Protected", "Compressed", "Ref", "ID", "ProtectedInMemory"};
  switch (m) {
    case 0: if (!n.kids.empty()) n.kids.erase(n.kids.begin() + r.below(n.kids.size())); else { n.text.clear(); n.has_text = false; } break;
    case 1: if (!n.kids.empty()) { XNode k = n.kids[r.below(n.kids.size())]; for (int i = r.chance(1, 4) ? 20 : 1; i > 0; --i) n.kids.insert(n.kids.begin() + r.below(n.kids.size() + 1), k); } break;
    case 2: if (v.size() < 4000) { n.kids.push_back(copy); n.has_text = false; } break;
    case 3: n.name = r.pick(kNames); break;
    case 4: case 5: n.text = odd_value(r); n.has_text = true; if (r.chance(3, 4)) n.kids.clear(); break;
    case 6: n.attr.clear(); break;
    case 7: n.set(r.pickl<const char*>({attrs[0], attrs[1], attrs[2], attrs[3], attrs[4]}), r.coin() ? r.pickl<std::string>({"True", "true", "False", "1", "", "yes"}) : odd_value(r)); break;
    case 8: n.kids.clear(); break;
    case 9: if (n.kids.size() > 1) std::swap(n.kids[r.below(n.kids.size())], n.kids[r.below(n.kids.size())]); break;
    case 10: n = copy; break;
    case 11: { XNode x(r.pick(kNames)); if (r.coin()) { x.text = odd_value(r); x.has_text = true; } n.kids.insert(n.kids.begin() + r.below(n.kids.size() + 1), x); n.has_text = false; break; }
    case 12: { std::string nm = n.name; std::reverse(v.begin(), v.end()); for (auto* p : v) if (p->name == nm && r.coin()) { p->text = odd_value(r); p->has_text = true; p->kids.clear(); } break; }
    case 13: for (auto* p : v) for (auto& a : p->attr) if (r.chance(1, 3)) a.second = odd_value(r); break;
    case 14: { std::string u = b64(r.bytes(16)); for (auto* p : v) if (p->name.find("UUID") != std::string::npos || p->name.find("LastTop") == 0 || p->name.find("Group") != std::string::npos && p->kids.empty()) if (r.coin()) p->text = u; break; }
    default: for (auto* p : v) if (p->name == "Group" || p->name == "Entry" || p->name == "History") if (r.chance(1, 3) && v.size() < 2000) { p->kids.push_back(copy); break; } break;
  }
}
static void kdbx_content_case(Ctx& c, const keepass::Key& key, const MKey& k) {
  Rng& r = c.rng; GenOpt o; o.scale = 0; o.max_groups = 8; o.ctrl = false; MDb d = gen_db(r, o); d.rounds = r.below(2); d.alg = AES; KdbxStyle st = gen_kdbx_style(r); st.version = 0x00030001;
  auto dom = [&]() { Salsa20 s = inner_stream(d); return kdbx_dom(d, st, "@HH@", r, s); };
  auto run = [&](const std::string& xml, const std::string& how) { try_import(c, true, kdbx_seal_xml(d, k, st, xml, r, d.compress), key, "kdbx: " + how); c.count("kdbx_contents"); };
  auto blocks = [&](const std::string& b, const std::string& how) { std::string start = r.bytes(32), h = kdbx_header(d, st, start, r); try_import(c, true, kdbx_encrypt(d, k, h, start, b), key, "kdbx: " + how); c.count("kdbx_streams"); };
  int kind = saving ? (c.idx / 2) % 16 == 15 ? 3 : (c.idx / 2) % 3 : (c.idx / 2) % 4;
  if (kind == 0 || kind == 1) {
    XNode base = dom();
    for (int i = 0; i < 16; ++i) {
      XNode x = base; std::string how; for (int j = 1 + r.below(r.coin() ? 1 : 6); j > 0; --j) mutate_dom(r, x, how);
      if (x.name.empty()) x.name = "x"; run(xml_write(x, st.xml, &r), how); c.count("dom_mutants");
    }
  } else if (kind == 2) {
    std::string xml = xml_write(dom(), st.xml, &r), other = xml_write(dom(), KdbxStyle().xml, &r);
    for (int i = 0; i < 10; ++i) { std::string x = xml, how; for (int j = 1 + r.below(4); j > 0; --j) how += damage(r, x, std::min<size_t>(x.size(), 60), other) + "; "; run(x, how); c.count("xml_byte_mutants"); }
    run(reencode(xml, r.below(4), r.coin()), "other encoding"); run("", "empty document"); run(r.bytes(r.below(300)), "random document"); run(xml + xml, "two documents"); run("<?xml version=\"1.0\"?><!DOCTYPE a [<!ENTITY x \"" + std::string(1000, 'x') + "\">]>" + xml, "doctype");
    // Damaged compressed data and block streams.
    std::string plain = xml; size_t p = plain.find("@HH@"); if (p != std::string::npos) plain.replace(p, 4, "");
    std::string gz = gzip(plain, st.gzip_level, st.gzip_flush); d.compress = true;
    for (int i = 0; i < 6; ++i) { std::string g = gz; for (int j = 1 + r.below(3); j > 0; --j) damage(r, g, 12, gz); blocks(hash_blocks(g, st.block_sizes), "damaged gzip"); }
    blocks(hash_blocks(gz + gz, st.block_sizes), "two members"); blocks(hash_blocks(gz + r.bytes(20), st.block_sizes), "trailing bytes"); blocks(hash_blocks("", {}), "no data"); blocks("", "no blocks"); blocks(r.bytes(100), "random blocks");
    for (int i = 0; i < 8; ++i) { std::string b = hash_blocks(gz, st.block_sizes), o2 = b; for (int j = 1 + r.below(3); j > 0; --j) damage(r, b, 40, o2); if (r.chance(1, 3) && b.size() > 40) { std::string z = le(r.pickl<uint32_t>({0xffffffffu, 0x7fffffff, 0x80000000u, 0x40000000, 1, 0}), 4); b.replace(36, 4, z); } blocks(b, "damaged blocks"); }
  } else {
    // Nesting and repetition.
    std::string xml = xml_write(dom(), st.xml, &r); size_t big = c.thorough && r.chance(1, 4) ? 300000 : 1500 + r.below(20000), n = r.chance(1, 3) ? r.pickl<size_t>({1000, 1023, 1024, 1025, 1100}) : big;
    std::string u = b64(r.bytes(16)), at = r.pickl<std::string>({"<Root>", "<Meta>", "<Group>", "<Entry>", "<History>", "<String>", "<KeePassFile>", "<Times>", "<AutoType>"}), what, s;
    std::string nm = r.pick(kNames);
    switch (r.below(7)) {
      case 0: what = "groups"; at = "<Root>"; s = deep("<Group><UUID>" + u + "</UUID>", "</Group>", n); break;
      case 1: what = "entries in histories"; at = "<Group>"; s = deep("<Entry><History>", "</History></Entry>", n); break;
      case 2: what = nm; s = deep("<" + nm + ">", "</" + nm + ">", n); break;
      case 3: what = nm + " unclosed"; s = deep("<" + nm + ">", "", n); break;
      case 4: what = "entries in entries"; at = "<Group>"; s = deep("<Entry>", "</Entry>", n); break;
      case 5: what = "sequence of " + nm; for (size_t i = 0; i < n; ++i) s += "<" + nm + ">" + (i % 3 ? "" : odd_value(r)) + "</" + nm + ">"; break;
      default: what = "values in values"; at = "<Entry>"; s = deep("<String><Key>a</Key><Value Protected=\"True\">", "</Value></String>", n, "AAAA"); break;
    }
    std::string x = xml; size_t p = x.find(at); if (p == std::string::npos) { at = "<KeePassFile>"; p = x.find(at); } if (p != std::string::npos) x.insert(p + at.size(), s);
    c.count("deep_documents"); c.maxi("max_nesting", n); run(x, what + " x" + std::to_string(n) + " in " + at);
    run("<KeePassFile><Meta><HeaderHash>@HH@</HeaderHash></Meta><Root>" + deep("<Group>", "</Group>", n) + "</Root></KeePassFile>", "only groups"); run(deep("<KeePassFile><Root><Group>", "</Group></Root></KeePassFile>", n), "documents in documents");
    if (r.chance(1, c.thorough ? 6 : 20)) { d.compress = true; std::string pad(r.pickl<size_t>({1000000, 5000000, 20000000}), r.pickl<char>({' ', 'A', '\n', '<'})); run(r.coin() ? xml + pad : "<KeePassFile><Meta><HeaderHash>@HH@</HeaderHash><Generator>" + pad + "</Generator></Meta></KeePassFile>", "bomb"); c.count("bombs"); }
    // Compressed attachments inside the document.
    for (int i = 0; i < 6; ++i) {
      std::string data = gzip(gen_data(r, gen_size(r, 20000)), r.range(0, 9)), how; for (int j = r.below(4); j > 0; --j) damage(r, data, 12, data); if (r.chance(1, 30)) data = gzip(std::string(4000000, 'x'));
      std::string item = std::string("<Binary ID=\"0\"") + (r.coin() ? " Compressed=\"True\"" : "") + (r.chance(1, 3) ? " Protected=\"True\"" : "") + ">" + b64(data) + "</Binary>";
      run("<KeePassFile><Meta><HeaderHash>@HH@</HeaderHash><Binaries>" + item + (r.coin() ? item : "") + "</Binaries></Meta><Root><Group><Entry><Binary><Key>a</Key><Value Ref=\"" + (r.coin() ? "0" : odd_value(r).substr(0, 5)) + "\"/></Binary></Entry></Group></Root></KeePassFile>", "attachments");
    }
    // Header fields removed, repeated, resized under a matching header hash.
    std::string start = r.bytes(32), h = kdbx_header(d, st, start, r); auto fs = kdbx_split(h);
    for (int i = 0; i < 6; ++i) {
      auto v = fs; size_t q = r.below(v.size());
      switch (r.below(5)) { case 0: v.erase(v.begin() + q); break; case 1: v.insert(v.begin() + r.below(v.size()), v[q]); break; case 2: v[q].data.resize(r.below(v[q].data.size() + 5)); break; case 3: v[q].id = r.below(256); break; default: v[q].data = r.bytes(v[q].data.size()); break; }
      bool endf = !v.empty() && v.back().id == 0; if (!endf && r.coin()) v.push_back(HdrField{0, ""});
      std::string g = kdbx_join(h.substr(0, 12), v); try_import(c, true, kdbx_around(d, k, st, g, start, r), key, "header fields"); c.count("header_variants");
    }
  }
}
PROP(C11, "every evaluation imports one correctly sealed file with malformed content; distinct by file bytes") {
  Rng& r = c.rng; set_tz(r); MKey k = gen_key(r); auto key = to_key(k, c);
  if (c.idx % 2) kdbx_content_case(c, key, k); else kdb_content_case(c, key, k);
  c.sample("{\"case\":" + std::to_string(c.idx) + "}");
}
PROP(C35, "non-trivial: the malformed but correctly sealed file was accepted; distinct by file bytes") {
  saving = true; Rng& r = c.rng; set_tz(r); MKey k = gen_key(r); auto key = to_key(k, c);
  if (c.idx % 2) kdbx_content_case(c, key, k); else kdb_content_case(c, key, k);
  saving = false; c.sample("{\"case\":" + std::to_string(c.idx) + "}");
}

// ---------------------------------------------------------------------------------------------- C32
// Databases assembled directly through the public API, suitable for a format or not.
namespace { struct Assembly { std::unique_ptr<keepass::Database> L; std::string how, desc; std::vector<std::shared_ptr<void>> keep; }; }
static Assembly assemble(Ctx& c) {
  using namespace keepass; Rng& r = c.rng; set_tz(r); bool weird = r.chance(1, 2);
  GenOpt o; o.kdb = r.chance(1, 3); o.ctrl = r.coin(); o.edge_ws = true; o.scale = r.chance(1, 15) ? 2 : 0; o.max_groups = 8; MDb d = gen_db(r, o); d.rounds = r.below(3);
  auto text = [&]() -> std::string { std::string s = gen_text(r, o, 60); if (weird && r.chance(1, 4)) s += std::string("\0tail", 5); if (r.chance(1, 200)) s.assign(100000 + r.below(2000000), 'q'); if (weird && r.chance(1, 10)) s += "\xff\xfe\xc0"; return s; };
  auto tim = [&]() -> time_t { return weird && r.coin() ? r.pickl<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX / 2, -1, 1, 67768036191676799ll, 67768036191676800ll, -67768040609740800ll, 253402300800ll, 253402300799ll, -62135596800ll, -62167219201ll, 0, 134217728000ll, (int64_t)r.next()}) : gen_time(r, o); };
  std::string how; std::unique_ptr<Database> L(r.chance(1, 12) ? new Database() : to_lib(d).release());
  std::vector<std::shared_ptr<Group>> gs; std::vector<std::shared_ptr<Entry>> es;
  if (L->root()) { gs.push_back(L->root()); for (size_t i = 0; i < gs.size(); ++i) { for (auto& e : gs[i]->Entries()) es.push_back(e); for (auto& g : gs[i]->Groups()) gs.push_back(g); } }
  auto meta = L->meta(); std::vector<std::shared_ptr<void>> keep; size_t depth = 0;
  for (int j = r.below(6); j >= 0; --j) {
    int m = r.below(24); how += std::to_string(m) + " ";
    auto g = gs.empty() ? nullptr : gs[r.below(gs.size())]; auto e = es.empty() ? nullptr : es[r.below(es.size())];
    switch (m) {
      case 0: if (r.chance(1, 3)) { L->set_root(nullptr); gs.clear(); es.clear(); } break;
      case 1: if (r.chance(1, 2)) L->set_meta(nullptr); break;
      case 2: L->set_master_seed(std::vector<uint8_t>(r.pickl<size_t>({0, 1, 15, 16, 17, 31, 32, 33, 64, 65535, 65536, 70000}), 5)); break;
      case 3: L->set_cipher(r.coin() ? Database::Cipher::kTwofish : Database::Cipher::kAes); break;
      case 4: if (e) { auto a = std::make_shared<Entry::Attachment>(); a->set_name(text()); if (r.coin()) a->set_binary(std::make_shared<Binary>(protect<std::string>(text(), r.coin()))); e->AddAttachment(a); } break;
      case 5: if (g) { auto x = std::make_shared<Group>(); g->AddGroup(x); gs.push_back(x); } break;
      case 6: if (g) { auto x = std::make_shared<Entry>(); g->AddEntry(x); es.push_back(x); } break;
      case 7: if (g) { auto x = std::make_shared<Entry>(); g->set_last_visible_entry(x); if (r.coin()) keep.push_back(x); } break;          // expired or foreign
      case 8: if (g) { auto x = std::make_shared<Icon>(r.arr<16>(), std::vector<uint8_t>(r.below(5), 1)); g->set_custom_icon(x); if (r.coin()) keep.push_back(x); } break;
      case 9: if (e) { auto x = std::make_shared<Icon>(r.arr<16>(), std::vector<uint8_t>()); e->set_custom_icon(x); if (r.coin()) keep.push_back(x); } break;
      case 10: if (meta) { auto x = std::make_shared<Group>(); switch (r.below(4)) { case 0: meta->set_recycle_bin(x); break; case 1: meta->set_entry_templates(x); break; case 2: meta->set_last_selected_group(x); break; default: meta->set_last_visible_group(x); } if (r.coin()) keep.push_back(x); } break;
      case 11: if (g) { g->set_name(text()); g->set_notes(text()); g->set_default_autotype_sequence(text()); } break;
      case 12: if (e) { e->set_title(protect<std::string>(text(), r.coin())); e->set_notes(protect<std::string>(text(), r.coin())); e->set_tags(text()); e->set_override_url(text()); e->set_bg_color(text()); } break;
      case 13: if (e) { e->set_creation_time(tim()); e->set_modification_time(tim()); e->set_access_time(tim()); e->set_expiry_time(tim()); e->set_move_time(tim()); } break;
      case 14: if (g) { g->set_creation_time(tim()); g->set_modification_time(tim()); g->set_access_time(tim()); g->set_expiry_time(tim()); g->set_move_time(tim()); } break;
      case 15: if (e) { std::string k = text(); if (r.chance(1, 3)) k = r.pickl<std::string>({"Title", "Notes", "Password", "UserName", "URL", ""}); e->AddCustomField(k, protect<std::string>(text(), r.coin())); } break;
      case 16: if (e) { auto x = std::make_shared<Entry>(); for (int i = r.chance(1, 8) ? 200 : r.below(3); i > 0; --i) { auto y = std::make_shared<Entry>(); y->AddHistoryEntry(x); x = y; } e->AddHistoryEntry(x); } break;
      case 17: if (e) { e->auto_type().AddAssociation(text(), text()); e->auto_type().set_sequence(text()); } break;
      case 18: if (meta) { meta->AddField(text(), text()); meta->set_database_name(temporal<std::string>(text(), tim())); meta->set_generator(text()); meta->set_master_key_changed(tim()); } break;
      case 19: if (meta) { meta->AddBinary(std::make_shared<Binary>(protect<std::string>(gen_data(r, gen_size(r, 3000)), r.coin()))); meta->AddIcon(std::make_shared<Icon>(r.arr<16>(), std::vector<uint8_t>(r.below(4), 9))); } break;
      case 20: if (g && depth < 1200) { int n = r.chance(1, 6) ? r.pickl<int>({1022, 1023, 1024, 1025, 1500, 3000}) : r.below(40); depth += n; auto t = g; for (int i = 0; i < n; ++i) { auto x = std::make_shared<Group>(); t->AddGroup(x); t = x; } gs.push_back(t); } break;
      case 21: if (e && r.chance(1, 3)) { int n = r.pickl<int>({300, 1022, 1023, 1024, 1030, 2500}); auto x = std::make_shared<Entry>(); for (int i = 0; i < n; ++i) { auto y = std::make_shared<Entry>(); y->AddHistoryEntry(x); x = y; } e->AddHistoryEntry(x); } break;
      case 22: if (e && g) g->AddEntry(e); break;                                     // the same entry in two places
      default: if (gs.size() > 1) { auto x = gs[1 + r.below(gs.size() - 1)]; if (x->Groups().empty() && g && g != x) g->AddGroup(x); } break;   // the same leaf group in two places
    }
    L->set_compress(r.coin());
  }
  Assembly a; a.L = std::move(L); a.how = how; a.desc = describe(d); a.keep = std::move(keep); return a;
}
PROP(C32, "every evaluation exports one assembled database in one format; distinct by assembly and format") {
  Assembly A = assemble(c); Rng& r = c.rng; auto& L = A.L; const std::string &how = A.how, &desc = A.desc;
  MKey k = gen_key(r); if (r.chance(1, 10)) { k = MKey(); } auto key = to_key(k, c);
  for (bool kdbx : {true, false}) {
    std::string p = c.path(kdbx ? "o.kdbx" : "o.kdb"); arm_cpu_limit(0);
    Res e = lib_export(kdbx, p, *L, key); std::string f;
    c.count(std::string(kdbx ? "kdbx_export_" : "kdb_export_") + out_name(e.out)); c.eval(fnv(how + desc, c.idx * 2 + kdbx));
    if (!e.ok()) continue;
    Res i = lib_import(kdbx, p, key);
    c.check(i.ok(), kdbx ? "kdbx-file-refused" : "kdb-file-refused", "exported without error, then import failed: " + i.what + " | operations " + how + " | " + desc);
    if (i.ok()) { Res i2 = lib_export(kdbx, c.path("again"), *i.db, key); c.check(i2.ok(), "imported-database-not-exportable", i2.what + " | operations " + how + " | " + desc); }
  }
  c.count("assembled"); c.sample("{\"operations\":" + jesc(how) + "}");
}

// ---------------------------------------------------------------------------------------------- C33
// An export that is refused (the destination being writable) leaves what was there.
PROP(C33, "non-trivial: an export that was refused; distinct by assembly, format and what was at the destination") {
  if (c.idx % 100 == 61) {
    // Round counts the KDB header has no room for: refused at once, never cut to 32 bits.
    Rng& r = c.rng; GenOpt o; o.kdb = true; o.scale = 0; MDb d = gen_db(r, o); d.rounds = 0; MKey k = gen_key(r); auto key = to_key(k, c); auto L = to_lib(d); std::string p = c.path("dest"), old = r.bytes(r.below(500)), now; bool there = r.coin(); unlink(p.c_str()); if (there) write_file(p, old);
    uint64_t n = r.pickl<uint64_t>({1ull << 32, (1ull << 32) + r.below(50), 3ull << 32, 1ull << 48, 1ull << 63, ~0ull}); L->set_transform_rounds(n);
    int e = bounded([&] { keepass::KdbFile f; f.Export(p, *L, key); }, 3000); bool left = access(p.c_str(), F_OK) == 0; if (left) read_file(p, now);
    c.check(e == 2, "rounds-cut", "KDB export with " + std::to_string(n) + " rounds " + (e ? "returned" : "was not refused"));
    c.check(e != 2 || (left == there && (!there || now == old)), "existing-file-lost", "after the refused KDB export with " + std::to_string(n) + " rounds");
    c.count("kdb_rounds_beyond_32_bits"); c.eval(fnv(&n, 8, fnv(old))); return;
  }
  Assembly A = assemble(c); Rng& r = c.rng; MKey k = gen_key(r); auto key = to_key(k, c); keepass::KdbxFile fx; keepass::KdbFile fk; bool reuse = r.coin();
  for (bool kdbx : {true, false}) for (int kind = 0; kind < 3; ++kind) {
    std::string p = c.path("dest"), old; unlink(p.c_str());
    if (kind == 1) { old = r.bytes(r.pickl<size_t>({0, 1, 100, 5000, 40000})); write_file(p, old); }
    else if (kind == 2) { GenOpt o; o.kdb = !kdbx; o.scale = 0; o.max_groups = 3; MDb q = gen_db(r, o); q.rounds = 0; old = kdbx ? kdbx_write(q, k, gen_kdbx_style(r), r) : kdb_write(q, k, gen_kdb_style(r), r, lib_local); write_file(p, old); }
    arm_cpu_limit(0); Res e = reuse ? kdbx ? lib_export(true, p, *A.L, key, nullptr, &fx) : lib_export(false, p, *A.L, key, &fk) : lib_export(kdbx, p, *A.L, key);
    c.count(std::string(kdbx ? "kdbx_" : "kdb_") + (e.ok() ? "exported" : "refused")); c.eval(fnv(A.how + A.desc, fnv(old)) * 2 + kdbx, !e.ok()); if (e.ok()) continue;
    std::string now; bool there = access(p.c_str(), F_OK) == 0; if (there) read_file(p, now);
    std::string what = std::string(kdbx ? "KDBX" : "KDB") + " export refused (" + e.what + ") | operations " + A.how + " | " + A.desc;
    if (kind) c.check(there && now == old, "existing-file-lost", "the file at the destination had " + std::to_string(old.size()) + " bytes, now " + (there ? std::to_string(now.size()) + (now == old ? "" : ", changed") : "it is gone") + ": " + what);
    else c.check(!there, "file-left-behind", "a file of " + std::to_string(now.size()) + " bytes was created: " + what);
  }
  c.sample("{\"operations\":" + jesc(A.how) + "}");
}
