// Object-level properties: C19 (secrets), C20 (reuse).
#include "hostile.hh"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace ref;

static bool has(const std::string& hay, const std::string& needle) { return memmem(hay.data(), hay.size(), needle.data(), needle.size()) != nullptr; }
static std::string token(Rng& r, size_t n = 18) { std::string s; while (s.size() < n) s += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[r.below(62)]; return s; }
// Where a secret of at least 12 bytes occurs in `hay`, plainly or as Base64 at any alignment; "" if nowhere.
static std::string find_secret(const std::string& hay, const std::string& m) {
  if (has(hay, m)) return "plainly";
  for (int k = 0; k < 3; ++k) if (has(hay, b64(m.substr(k, (m.size() - k) / 3 * 3)))) return "as Base64";
  if (has(hay, hex(m))) return "in hexadecimal";
  return "";
}
static std::vector<std::string> listing(const std::string& d) { std::vector<std::string> v; if (DIR* p = opendir(d.c_str())) { while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(p); } std::sort(v.begin(), v.end()); return v; }

PROP(C19, "non-trivial: at least three secrets looked for; distinct by database, format and generation") {
  Rng& r = c.rng; set_tz(r); bool kdbx = c.idx % 3 != 0; GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = 0; o.max_groups = 8; MDb d = gen_db(r, o); d.rounds = r.below(4); MKey k = gen_key(r);
  if (count_entries(d.root) == 0) { MEntry e = gen_entry(r, o, kdbx ? &d : nullptr); if (d.root.groups.empty()) d.root.groups.push_back(gen_group(r, o, kdbx ? &d : nullptr)); d.root.groups[0].entries.push_back(e); }
  bool all = r.chance(1, 4);
  std::vector<std::string> secrets, guarded;   // guarded: protected ones
  Walk w;
  w.f = [&](std::string& s, bool p) { if (s.empty() && !r.chance(1, 3)) return; s = token(r, r.chance(1, 20) ? 40 + r.below(300) : 18); secrets.push_back(s.substr(0, 18)); if (s.size() > 40) secrets.push_back(s.substr(s.size() - 18)); if (p) { guarded.push_back(s.substr(0, 18)); if (s.size() > 40) guarded.push_back(s.substr(s.size() - 18)); } };
  w.bin = [&](MBin& b) { if (b.data.empty() && r.coin()) return; std::string t = token(r); size_t n = r.chance(1, 10) ? r.below(5000) : r.below(30); b.data = r.bytes(r.below(3)) + t + std::string(n, 'z') + token(r); secrets.push_back(t); secrets.push_back(b.data.substr(b.data.size() - 18)); if (b.prot) { guarded.push_back(t); guarded.push_back(b.data.substr(b.data.size() - 18)); } };
  if (kdbx && all) { std::function<void(MEntry&)> pe = [&](MEntry& e) { for (MProt* p : {&e.title, &e.url, &e.username, &e.password, &e.notes}) p->p = true; for (auto& x : e.fields) x.second.p = true; for (auto& a : e.atts) a.bin.prot = true; for (auto& h : e.history) pe(h); }; std::vector<MGroup*> gs; preorder(d.root, gs); for (auto* g : gs) for (auto& e : g->entries) pe(e); for (auto& b : d.meta.bins) b.prot = true; }
  w.db(d);
  auto key = to_key(k, c); auto L = to_lib(d); std::string p = c.path("out"), what = std::string(kdbx ? "KDBX " : "KDB ") + describe(d); FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; Flat want = flatten(d, fo);
  auto before = listing(c.dir); std::unique_ptr<keepass::Database> cur = std::move(L);
  for (int gen = 0; gen < 3; ++gen) {
    std::string q = p + std::to_string(gen); Res e = lib_export(kdbx, q, *cur, key); if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return;
    std::string f; read_file(q, f);
    for (auto& s : secrets) { std::string at = find_secret(f, s); c.count("searches_in_files"); if (!at.empty()) { c.viol("secret-in-file", "a text or attachment of the database occurs " + at + " in the exported file, generation " + std::to_string(gen) + " | " + what); return; } }
    for (auto& n : listing(c.dir)) if (n != "out0" && n != "out1" && n != "out2" && !std::binary_search(before.begin(), before.end(), n)) { std::string x; read_file(c.path(n), x); for (auto& s : secrets) if (!find_secret(x, s).empty()) { c.viol("secret-in-other-file", "export leaves a file " + n + " with clear text"); return; } c.count("extra_files_seen"); }
    if (kdbx) {
      KdbxDoc doc; try { doc = kdbx_read(f, k); } catch (const std::exception& x) { c.viol("exported-file-undecodable", std::string(x.what()) + " | " + what); return; }
      for (auto& s : guarded) { std::string at = find_secret(doc.xml, s); c.count("searches_in_documents"); if (!at.empty()) { c.viol("protected-value-in-clear", "a protected value occurs " + at + " in the decrypted document, generation " + std::to_string(gen) + " | " + what); return; } }
      std::string df = flat_diff(want, flatten(doc.db, fo)); if (!c.check(df.empty(), "protection-or-data-lost", "generation " + std::to_string(gen) + ": " + df + " | " + what)) return;
      c.count("protected_values_in_documents", doc.nprotected);
    }
    Res i = lib_import(kdbx, q, key); if (!c.check(i.ok(), "exported-file-refused", i.what + " | " + what)) return; cur = std::move(i.db);
    c.eval(model_hash(d) + gen, secrets.size() >= 3);
  }
  c.count("secrets", secrets.size()); c.count("protected_secrets", guarded.size()); c.sample(describe(d));
}

// ---------------------------------------------------------------------------------------------- C20
static std::string no_hash(std::string x) { size_t a = x.find("<HeaderHash>"), b = x.find("</HeaderHash>"); if (a != std::string::npos && b != std::string::npos) x.erase(a, b - a); return x; }
static void reuse_files(Ctx& c) {
  Rng& r = c.rng; bool kdbx = r.coin(); struct In { std::string path, how; int key; }; int cur = 0; std::vector<In> in; struct Src { std::unique_ptr<keepass::Database> db; MDb m; bool good; std::string how; }; std::vector<Src> src; std::vector<MKey> mk; std::vector<keepass::Key> keys;
  for (int i = 0; i < 2; ++i) { mk.push_back(gen_key(r)); keys.push_back(to_key(mk.back(), c, "k" + std::to_string(i))); }
  GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = 0; o.max_groups = 6; MDb first; Salsa20* none = nullptr; (void)none;
  auto put = [&](const std::string& f, const std::string& how) { if (!feasible(kdbx, f)) return; std::string p = c.path("in" + std::to_string(in.size())); write_file(p, f); in.push_back({p, how, cur}); };
  for (int i = 0; i < 3; ++i) {
    MDb d = gen_db(r, o); d.rounds = r.below(3); if (kdbx && i == 1) for (size_t j = 0; j < d.meta.icons.size() && j < first.meta.icons.size(); ++j) d.meta.icons[j].uuid = first.meta.icons[j].uuid;   // the same identifiers for other pictures
    if (i == 0) first = d; cur = r.below(2); const MKey& k = mk[cur]; KdbxStyle st = gen_kdbx_style(r); st.zero_uuid_none = false; std::string f = kdbx ? kdbx_write(d, k, st, r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local); put(f, "file " + std::to_string(i));
    size_t body = header_size(kdbx, f);
    if (r.coin()) put(f.substr(0, body + r.below(f.size() - body)), "cut file"); if (r.coin()) { std::string g = f; g[g.size() - 1 - r.below(40)] ^= 1; put(g, "damaged tail"); } if (r.chance(1, 3)) { std::string g = f; g[8 + r.below(body - 8)] ^= 1; if (feasible(kdbx, g)) put(g, "damaged header"); }
    Src s; s.db = to_lib(d); s.m = d; s.good = true; s.how = "database " + std::to_string(i); src.push_back(std::move(s));
  }
  if (kdbx) for (int i = 0; i < 3; ++i) {
    // Documents that refer to pool items, icons and groups they do not define, and documents that fail late.
    cur = r.below(2); const MKey& k = mk[cur]; MDb d; d.master_seed = r.bytes(32); d.inner_key = first.inner_key; d.rounds = 1; std::string ic = first.meta.icons.empty() ? b64(r.bytes(16)) : b64(std::string((const char*)first.meta.icons[0].uuid.data(), 16)), gu = b64(std::string((const char*)first.root.uuid.data(), 16));
    std::string body = r.pickl<std::string>({"<Entry><Binary><Key>a</Key><Value Ref=\"" + std::to_string(r.below(3)) + "\"/></Binary></Entry>", "<Entry><CustomIconUUID>" + ic + "</CustomIconUUID></Entry>", "<CustomIconUUID>" + ic + "</CustomIconUUID>", "<Entry><String><Key>Title</Key><Value Protected=\"True\">QUJDREVGRw==</Value></String></Entry>", "<Entry><UUID>!</UUID></Entry>", "<Entry><History><Entry><Binary><Key>a</Key><Value Ref=\"0\"/></Binary></Entry></History></Entry>"});
    std::string meta = r.pickl<std::string>({"", "<RecycleBinUUID>" + gu + "</RecycleBinUUID><EntryTemplatesGroup>" + gu + "</EntryTemplatesGroup>", "<Binaries><Binary ID=\"0\">QQ==</Binary></Binaries>", "<LastSelectedGroup>" + gu + "</LastSelectedGroup>", "<Binaries><Binary ID=\"0\" Protected=\"True\">QUJD</Binary><Binary ID=\"1\">!!</Binary></Binaries>"});
    put(kdbx_seal_xml(d, k, KdbxStyle(), "<KeePassFile><Meta><HeaderHash>@HH@</HeaderHash>" + meta + "</Meta><Root><Group>" + body + (r.chance(1, 4) ? "<Entry>" : "</Group></Root></KeePassFile>"), r, false), "document " + body.substr(0, 60));
  }
  else { cur = r.below(2); const MKey& k = mk[cur]; uint32_t a, b; MDb d = gen_db(r, o); d.rounds = 1; std::string t = kdb_content(d, KdbStyle(), r, lib_local, &a, &b); put(kdb_seal(d, k, t, a + r.below(2), b + 1, d.alg == AES ? 3 : 9, 0x00030004), "wrong counts"); put(kdb_seal(d, k, t.substr(0, r.below(t.size() + 1)), a, b, d.alg == AES ? 3 : 9, 0x00030004), "short content"); }
  put("", "empty file"); in.push_back({c.path("missing"), "missing file", 0});
  { Src s; s.db.reset(new keepass::Database()); s.good = false; s.how = "empty database"; src.push_back(std::move(s)); }
  { Src s; s.m = gen_db(r, o); s.db = to_lib(s.m); auto g = std::make_shared<keepass::Group>(), h = std::make_shared<keepass::Group>(); s.db->root()->AddGroup(g); for (int i = 0; i < 1100; ++i) { h = std::make_shared<keepass::Group>(); g->AddGroup(h); g = h; } s.good = false; s.how = "too deep"; src.push_back(std::move(s)); }
  if (kdbx) { Src s; s.m = gen_db(r, o); s.m.rounds = 1; s.db = to_lib(s.m); s.db->set_cipher(keepass::Database::Cipher::kTwofish); s.good = false; s.how = "unsupported cipher"; src.push_back(std::move(s)); }
  std::string fulldev = c.path("full"); if (symlink("/dev/full", fulldev.c_str())) {}
  keepass::KdbFile f1; keepass::KdbxFile f2; std::vector<std::pair<std::unique_ptr<keepass::Database>, Flat>> kept; FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; std::string log;
  int n = 4 + r.below(8);
  for (int i = 0; i < n; ++i) {
    bool imp = r.coin(); size_t ix = r.below(in.size()); const MKey& k = mk[imp && !r.chance(1, 6) ? in[ix].key : r.below(2)]; auto& key = keys[&k - &mk[0]]; std::string at = " | operations so far: " + log; arm_cpu_limit(0);
    if (imp) {
      const In& x = in[ix]; log += "import " + x.how + "; ";
      Res a = lib_import(kdbx, x.path, key, &f1, &f2), b = lib_import(kdbx, x.path, key);
      c.count(std::string("import_") + out_name(b.out));
      c.check(a.out == b.out && a.what == b.what, "import-outcome-depends-on-history", std::string("reused object: ") + out_name(a.out) + " " + a.what + ", fresh object: " + out_name(b.out) + " " + b.what + " for " + x.how + at);
      if (a.ok() && b.ok()) { Flat fa = flatten(from_lib(*a.db), fo), fb = flatten(from_lib(*b.db), fo); std::string df = flat_diff(fb, fa); c.check(df.empty(), "imported-data-depends-on-history", df + " for " + x.how + at); kept.emplace_back(std::move(a.db), fa); }
      c.eval(fnv(log, c.idx));
    } else {
      Src* s; std::string how; int which = r.below(src.size() + (kept.empty() ? 0 : 1)); if (which >= 3 && which < (int)src.size() && r.coin()) which = r.below(3); keepass::Database* db; if (which < (int)src.size()) { db = src[which].db.get(); how = src[which].how; } else { db = kept.back().first.get(); how = "imported database"; db->set_transform_rounds(1); kept.back().second = flatten(from_lib(*db), fo); }
      (void)s; std::string pa = r.chance(1, 8) ? fulldev : r.chance(1, 10) ? c.dir + "/no/such" : c.path("a"), pb = pa == c.path("a") ? c.path("b") : pa; log += "export " + how + (pa == fulldev ? " to full device" : "") + "; ";
      Res a = lib_export(kdbx, pa, *db, key, &f1, &f2), b = lib_export(kdbx, pb, *db, key); c.count(std::string("export_") + out_name(b.out)); c.eval(fnv(log, c.idx));
      c.check(a.out == b.out && a.what == b.what, "export-outcome-depends-on-history", std::string("reused object: ") + out_name(a.out) + " " + a.what + ", fresh object: " + out_name(b.out) + " " + b.what + " for " + how + at);
      if (!a.ok() || !b.ok()) continue;
      std::string fa, fb; read_file(pa, fa); read_file(pb, fb);
      if (!kdbx) c.check(fa == fb, "exported-file-depends-on-history", "KDB bytes differ for " + how + at);
      else try {
        KdbxDoc da = kdbx_read(fa, k), dbb = kdbx_read(fb, k); c.check(no_hash(da.xml) == no_hash(dbb.xml), "exported-file-depends-on-history", "documents differ for " + how + at);
        auto ha = kdbx_split(da.header), hb = kdbx_split(dbb.header); bool same = ha.size() == hb.size(); for (size_t j = 0; same && j < ha.size(); ++j) same = ha[j].id == hb[j].id && (ha[j].id == 9 || ha[j].data == hb[j].data); c.check(same, "exported-file-depends-on-history", "headers differ for " + how + at);
      } catch (const std::exception& x) { c.viol("exported-file-undecodable", std::string(x.what()) + at); }
    }
  }
  for (auto& q : kept) { std::string df = flat_diff(q.second, flatten(from_lib(*q.first), fo)); c.check(df.empty(), "earlier-result-changed", df + " | operations: " + log); }
  c.count("file_sequences"); c.count("operations", n); c.sample("{\"operations\":" + jesc(log) + "}");
}
static void reuse_keys(Ctx& c) {
  Rng& r = c.rng; keepass::Key k; MKey m; std::string log; std::array<uint8_t, 32> seeds[2] = {r.arr<32>(), r.arr<32>()}; bool both = r.coin();
  auto verify = [&](const keepass::Key& q, const MKey& want, const char* whose) {
    if (!want.has_pw && !want.kf) return;
    // The same seed, rounds and rule recur while the key changes.
    const auto& seed = seeds[r.chance(1, 4)]; uint64_t n = 1 + c.idx % 3 + r.chance(1, 4); bool first = r.chance(1, 4);
    for (bool always : {first, !first}) { if (always != first && !both) break; auto t = q.Transform(seed, n, always ? keepass::Key::SubKeyResolution::kHashSubKeys : keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey); auto w = aes_transform(ref_resolve(want, always), seed, n); c.check(std::equal(t.begin(), t.end(), w.begin()), "key-depends-on-history", std::string(whose) + " key is not that of the last password and key file set | " + log); }
    c.eval(fnv(log, c.idx)); c.count("key_states");
  };
  for (int i = 3 + r.below(10); i > 0; --i) {
    switch (r.below(8)) {
      case 0: case 1: { MKey x = gen_key_kind(r, true, 0); k.SetPassword(x.pw); m.has_pw = true; m.pw = x.pw; log += "password " + show(x.pw, 20) + "; "; break; }
      case 2: case 3: { MKey x = gen_key_kind(r, false, 1 + r.below(2)); std::string p = c.path("kf"); write_file(p, x.kf_text); try { k.SetKeyFile(p); } catch (const std::exception& e) { c.viol("key-file-refused", std::string(e.what()) + " | " + log); } m.kf = x.kf; m.kf_key = x.kf_key; m.kf_text = x.kf_text; log += "key file; "; break; }
      case 4: case 5: case 6: {
        std::string p = c.path("bad"), t; MKey x = gen_key_kind(r, false, 1 + r.below(2)); int how = r.below(8); unlink(p.c_str());
        if (how == 0) p = c.path("missing"); else if (how == 1) p = c.dir; else { t = how == 2 ? "" : how == 3 ? hex(x.kf_key).substr(0, 63) : how == 4 ? hex(x.kf_key).substr(0, 40) + std::string(24, 'g') : how == 5 ? "<KeyFile><Key><Data>" + b64(x.kf_key.substr(0, 31)) + "</Data></Key></KeyFile>" : how == 6 ? "<KeyFile><Key><Data>" + b64(x.kf_key).substr(0, 20) + "!" + b64(x.kf_key).substr(21) + "</Data></Key></KeyFile>" : "<KeyFile><Key><Data>" + b64(x.kf_key + "x") + "</Data></Key></KeyFile>"; write_file(p, t); }
        try { k.SetKeyFile(p); c.viol("bad-key-file-accepted", "kind " + std::to_string(how) + " " + show(t, 120)); return; } catch (const std::exception&) { c.count("failed_key_files"); } log += "bad key file " + std::to_string(how) + "; "; break; }
      default: { keepass::Key copy = k; MKey mc = m; copy.SetPassword("other"); mc.has_pw = true; mc.pw = "other"; verify(copy, mc, "a copied"); log += "copied; "; break; }
    }
    verify(k, m, "the");
  }
  c.count("key_sequences");
}
PROP(C20, "every evaluation compares one operation of a reused object with a fresh one; distinct by operation history") { set_tz(c.rng); if (c.idx % 4 == 3) { for (int i = 0; i < 20; ++i) reuse_keys(c); } else reuse_files(c); }

