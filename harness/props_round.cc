// Round trips through the library: C01, C02, C03, C27, C29.
#include "gen.hh"
#include "bridge.hh"
#include "wsdiff.hh"
#include <ctime>

static Flat only(const Flat& f, const std::function<bool(const std::string&)>& keep) {
  Flat r; for (auto& kv : f) if (keep(kv.first)) r.push_back(kv); return r;
}
static bool is_meta(const std::string& k) { return k.compare(0, 5, "meta.") == 0; }

PROP(C01, "non-trivial: the database has at least one group and one entry; distinct by content hash") {
  Rng& r = c.rng;
  std::string tz = set_tz(r);
  GenOpt o; o.kdb = true; o.scale = r.chance(1, 12) ? 2 : 1; o.max_groups = r.chance(1, 25) ? 120 : 24;
  MDb d = gen_db(r, o); MKey k = gen_key(r);
  if (c.idx % 211 == 7) {   // a deep chain
    d.root.groups.clear(); MGroup* g = &d.root; int n = r.range(300, 1000);
    for (int i = 0; i < n; ++i) { g->groups.push_back(gen_group(r, o)); g = &g->groups.back(); if (r.chance(1, 30)) g->entries.push_back(gen_entry(r, o)); }
    c.maxi("max_depth", n);
  } else if (c.idx % 97 == 11) add_large(d, r);   // content of several MiB
  else if (c.idx % 67 == 13) c.count(std::string("many_") + add_many(d, r, true));
  size_t ng = count_groups(d.root) - 1, ne = count_entries(d.root);
  auto L = to_lib(d); auto key = to_key(k, c);
  FlatOpt fo; fo.mode = KDB;
  std::string p = c.path("a.kdb");
  Res e = lib_export(false, p, *L, key);
  if (!c.check(e.ok(), "export-failed", "export of a representable database threw " + std::string(out_name(e.out)) + ": " + e.what + " TZ=" + tz + " " + describe(d))) return;
  Res i = lib_import(false, p, key);
  if (!c.check(i.ok(), "import-failed", "import of the exported file threw " + std::string(out_name(i.out)) + ": " + i.what + " TZ=" + tz + " key " + k.str() + " " + describe(d))) return;
  std::string df = diff(d, from_lib(*i.db), fo);
  c.check(df.empty(), "round-trip-differs", df + " | TZ=" + tz + " " + describe(d));
  c.eval(model_hash(d), ng && ne);
  c.count("groups", ng); c.count("entries", ne); c.count(d.alg == ref::AES ? "aes" : "twofish"); c.count("key_kind_" + std::to_string(k.has_pw) + std::to_string(k.kf));
  c.maxi("max_groups", ng); std::string f; read_file(p, f); c.maxi("max_file_bytes", f.size());
  c.sample(describe(d));
}

static void kdbx_trip(Ctx& c, bool meta_focus) {
  Rng& r = c.rng;
  std::string tz = set_tz(r);
  GenOpt o; o.scale = r.chance(1, 15) ? 2 : 1; o.max_groups = r.chance(1, 25) ? 80 : meta_focus ? 10 : 20;
  bool edge = !meta_focus && c.idx % 37 == 5; o.edge_ws = edge;
  MDb d = gen_db(r, o); MKey k = gen_key(r);
  if (meta_focus) {
    int nb = r.chance(1, 3) ? 11 + r.below(30) : r.below(6);
    while ((int)d.meta.bins.size() < nb) { MBin b; b.data = gen_data(r, gen_size(r, 3000)); b.prot = r.coin(); b.compress = r.coin(); d.meta.bins.push_back(b); }
    // Let several attachments share pool items.
    std::vector<MGroup*> pre; preorder(d.root, pre);
    for (auto g : pre) for (auto& e : g->entries) for (auto& a : e.atts) if (nb && r.coin()) a.pool = r.below(nb);
    if (r.chance(1, 6)) d.has_meta = true, d.meta.recycle_bin = d.meta.templates = d.meta.last_selected = d.meta.last_visible = -1;
  } else if (c.idx % 211 == 9) {
    MGroup* g = &d.root; int n = r.range(300, 1000);
    for (int i = 0; i < n; ++i) { g->groups.push_back(gen_group(r, o)); g = &g->groups.back(); if (r.chance(1, 30)) g->entries.push_back(gen_entry(r, o)); }
    c.maxi("max_depth", n);
  } else if (c.idx % 97 == 11) {   // content of several MiB: more than one hashed block
    MEntry e; e.uuid = r.arr<16>(); MAtt a; a.name = "big"; a.bin.data = gen_data(r, r.range(900000, 3200000)); a.bin.prot = r.chance(1, 3); e.atts.push_back(a);
    d.root.entries.push_back(e); c.count("multi_block");
  }
  if (c.idx % 37 == 13) c.count(std::string("many_") + add_many(d, r, false, meta_focus));
  auto L = to_lib(d); auto key = to_key(k, c);
  std::string p = c.path("a.kdbx");
  Res e = lib_export(true, p, *L, key);
  if (!c.check(e.ok(), "export-failed", "export threw " + std::string(out_name(e.out)) + ": " + e.what + " TZ=" + tz + " " + describe(d))) return;
  Res i = lib_import(true, p, key);
  if (!c.check(i.ok(), "import-failed", "import of the exported file threw " + std::string(out_name(i.out)) + ": " + i.what + " TZ=" + tz + " key " + k.str() + " " + describe(d))) return;
  MDb got = from_lib(*i.db);
  FlatOpt fo; fo.pool_identity = meta_focus; fo.refs = meta_focus; fo.header = !meta_focus;
  std::function<bool(const std::string&)> keep;
  if (meta_focus) keep = [](const std::string& s) { return is_meta(s) || ends(s, ".custom_icon") || ends(s, ".last_visible") || s.find(".attachment") != std::string::npos || s == "has_meta"; };
  else keep = [](const std::string& s) { return !is_meta(s) && s != "has_meta" && s != "master_seed" && s != "iv" && s != "transform_seed" && s != "rounds" && s != "inner_key" && s != "cipher"; };
  Flat w = only(flatten(d, fo), keep), g = only(flatten(got, fo), keep);
  if (edge) {
    bool trimmed = false; std::string df = ws_diff(w, g, trimmed);
    if (df.empty() && trimmed) c.viol("edge-whitespace-trimmed", "unprotected text loses its leading/trailing white space on import: " + flat_diff(w, g));
    else c.check(df.empty(), "round-trip-differs", df + " | " + describe(d));
    c.count("edge_whitespace_cases");
  } else {
    std::string df = flat_diff(w, g);
    c.check(df.empty(), meta_focus ? "metadata-differs" : "round-trip-differs", df + " | TZ=" + tz + " " + describe(d));
  }
  size_t ng = count_groups(d.root), ne = count_entries(d.root), nh = count_entries(d.root, true) - ne;
  c.eval(model_hash(d), meta_focus ? true : ne > 0);
  c.count("groups", ng); c.count("entries", ne); c.count("history_entries", nh); c.count(d.compress ? "gzip" : "plain");
  c.count("pool_items", d.meta.bins.size()); c.count("icons", d.meta.icons.size()); c.maxi("max_pool", d.meta.bins.size());
  if (d.meta.recycle_bin >= 0) c.count("recycle_bin_set"); if (d.meta.templates >= 0) c.count("templates_set");
  std::string f; read_file(p, f); c.maxi("max_file_bytes", f.size());
  c.sample(describe(d));
}
PROP(C02, "non-trivial: the database has at least one entry; distinct by content hash") { kdbx_trip(c, false); }
PROP(C03, "every case exports generated metadata; distinct by content hash") { kdbx_trip(c, true); }

PROP(C27, "non-trivial: at least one entry and two save/load generations; distinct by content hash") {
  Rng& r = c.rng; bool kdbx = c.idx % 2; set_tz(r);
  GenOpt o; o.kdb = !kdbx; o.ctrl = !kdbx ? true : false; o.max_groups = 12;
  MDb d = gen_db(r, o); MKey k = gen_key(r); auto key = to_key(k, c);
  FlatOpt fo; fo.mode = kdbx ? KDBX : KDB;
  auto cur = to_lib(d); std::string what = (kdbx ? "KDBX " : "KDB ") + describe(d);
  Flat first; int gens = 2 + r.below(3);
  auto decode = [&](const std::string& p, MDb& out) {
    std::string f; if (!read_file(p, f)) { c.viol("file-unreadable", "exported file cannot be read"); return false; }
    try { out = kdbx ? kdbx_read(f, k).db : kdb_read(f, k, lib_mktime).db; } catch (const std::exception& e) { c.viol("file-undecodable", std::string("independent decoder rejects the exported file: ") + e.what() + " | " + what); return false; }
    return true;
  };
  for (int g = 0; g < gens; ++g) {
    std::string p = c.path("g" + std::to_string(g)), q = c.path("h" + std::to_string(g));
    Flat before = flatten(from_lib(*cur), fo);
    Res e = lib_export(kdbx, p, *cur, key);
    if (!c.check(e.ok(), "export-failed", "generation " + std::to_string(g) + ": " + e.what + " | " + what)) return;
    std::string df = flat_diff(before, flatten(from_lib(*cur), fo));
    if (!c.check(df.empty(), "export-modified-database", df + " | " + what)) return;
    e = lib_export(kdbx, q, *cur, key);
    if (!c.check(e.ok(), "export-failed", "second export: " + e.what + " | " + what)) return;
    MDb a, b; if (!decode(p, a) || !decode(q, b)) return;
    df = diff(a, b, fo); if (!c.check(df.empty(), "same-database-two-files", df + " | " + what)) return;
    std::string fp, fq; read_file(p, fp); read_file(q, fq);
    if (!kdbx) c.check(fp == fq, "kdb-not-deterministic", "two KDB exports of one database differ | " + what);
    Flat fa = flatten(a, fo);
    if (g == 0) first = fa; else { df = flat_diff(first, fa); if (!c.check(df.empty(), "generations-differ", "generation " + std::to_string(g) + ": " + df + " | " + what)) return; }
    Res i = lib_import(kdbx, p, key);
    if (!c.check(i.ok(), "import-failed", i.what + " | " + what)) return;
    std::string fp2; read_file(p, fp2); c.check(fp == fp2, "import-modified-file", "the file changed while it was imported | " + what);
    cur = std::move(i.db); c.count("generations");
  }
  c.eval(model_hash(d), count_entries(d.root) > 0); c.sample(describe(d));
}

PROP(C29, "non-trivial: at least one entry below a group; distinct by content hash") {
  Rng& r = c.rng; set_tz(r); bool from_kdb = c.idx % 2;
  GenOpt o; o.both = true; o.kdb = from_kdb; o.ctrl = true; o.max_groups = 16;
  MDb d = gen_db(r, o); d.alg = from_kdb ? d.alg : ref::AES; MKey k = gen_key(r); auto key = to_key(k, c);
  std::string what = std::string(from_kdb ? "KDB->KDBX " : "KDBX->KDB ") + describe(d);
  FlatOpt fo; fo.mode = SHARED; Flat want = flatten(d, fo);
  std::string p0 = c.path("src"); 
  if (from_kdb) write_file(p0, kdb_write(d, k, gen_kdb_style(r), r, lib_local));
  else { auto L = to_lib(d); Res e = lib_export(true, p0, *L, key); if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return; }
  Res cur = lib_import(!from_kdb, p0, key);
  if (!c.check(cur.ok(), "import-failed", "source: " + cur.what + " | " + what)) return;
  bool fmt = !from_kdb;
  for (int step = 0; step < 3; ++step) {
    std::string df = flat_diff(want, flatten(from_lib(*cur.db), fo));
    if (!c.check(df.empty(), "conversion-differs", "after step " + std::to_string(step) + ": " + df + " | " + what)) return;
    if (step == 2) break;
    fmt = !fmt;
    if (fmt) cur.db->set_cipher(keepass::Database::Cipher::kAes);
    std::string p = c.path("s" + std::to_string(step));
    Res e = lib_export(fmt, p, *cur.db, key);
    if (!c.check(e.ok(), "export-failed", "step " + std::to_string(step) + ": " + e.what + " | " + what)) return;
    cur = lib_import(fmt, p, key);
    if (!c.check(cur.ok(), "import-failed", "step " + std::to_string(step) + ": " + cur.what + " | " + what)) return;
  }
  size_t ne = 0; for (auto& g : d.root.groups) ne += count_entries(g);
  c.eval(model_hash(d), ne > 0); c.count(from_kdb ? "kdb_first" : "kdbx_first"); c.sample(describe(d));
}
