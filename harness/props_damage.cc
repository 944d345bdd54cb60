// Damaged files: C08 (KDBX), C09 (KDB).
#include "hostile.hh"
using namespace ref;

static void damage_case(Ctx& c, bool kdbx) {
  Rng& r = c.rng; set_tz(r);
  GenOpt o; o.kdb = !kdbx; o.scale = r.chance(1, 30) ? 1 : 0; o.max_groups = r.chance(1, 10) ? 20 : 6; o.ctrl = false;
  MDb d = gen_db(r, o), d2 = d; d.rounds = 1 + r.below(4); d2.rounds = d.rounds; MKey k = gen_key(r); auto key = to_key(k, c);
  if (count_groups(d.root) == 1) d.root.groups.push_back(gen_group(r, o, kdbx ? &d : nullptr));
  bool bare = !kdbx && r.chance(1, 8);   // groups only
  if (bare) { std::function<void(MGroup&)> strip = [&](MGroup& g) { g.entries.clear(); g.last_visible = -1; for (auto& x : g.groups) strip(x); }; strip(d.root); c.count("files_without_entries"); std::string t = "w"; for (int i = 20 + r.below(300); i > 0; --i) t += (char)('a' + r.below(26)); d.root.groups[r.below(d.root.groups.size())].name = t; }
  else if (!count_entries(d.root.groups[0])) d.root.groups[0].entries.push_back(gen_entry(r, o, kdbx ? &d : nullptr));
  bool multi = !bare && r.chance(1, kdbx ? 40 : 100);
  if (multi) { MEntry e; e.uuid = r.arr<16>(); MAtt a; a.name = "big"; a.bin.data = r.bytes(900000 + r.below(400000)); e.atts.push_back(a); if (kdbx) { d.root.entries.push_back(e); d.root.last_visible = -1; d.compress = r.coin(); } else d.root.groups[0].entries.push_back(e); c.count("multi_block_files"); }
  // Long plain text, where damage decrypts to bytes a parser has no reason to refuse.
  bool texty = !multi && !bare && r.chance(1, 3);
  if (texty) {
    auto words = [&](size_t n) { std::string t; while (t.size() < n) t += (char)(r.chance(1, 6) ? ' ' : 'a' + r.below(26)); return "w" + t + "w"; };
    MEntry e; e.uuid = r.arr<16>(); e.title = {words(20), false}; e.notes = {words(400 + gen_size(r, 9000)), false}; if (kdbx) e.tags = words(300); d.root.groups[0].entries.insert(d.root.groups[0].entries.begin() + r.below(d.root.groups[0].entries.size() + 1), e);
    d.root.groups[0].last_visible = -1; if (kdbx) { d.root.groups[0].notes = words(500); d.compress = r.chance(1, 5); }
  }
  std::string p = c.path("f"), f, other; FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; fo.header = kdbx; bool lib = r.coin();
  // A second file under the same key: other contents and nonces.
  { MGroup& g = d2.root.groups.empty() ? (d2.root.groups.push_back(gen_group(r, o)), d2.root.groups[0]) : d2.root.groups[0]; g.name += "2"; d2.iv = r.arr<16>(); if (r.coin()) d2.master_seed = r.bytes(d2.master_seed.size()); }
  if (lib) {
    auto L = to_lib(d); Res e = lib_export(kdbx, p, *L, key); if (!c.check(e.ok(), "export-failed", e.what + " " + describe(d))) return;
    read_file(p, f);
  } else if (kdbx) { KdbxStyle st = gen_kdbx_style(r); st.version = 0x00030001; st.zero_uuid_none = false; f = kdbx_write(d, k, st, r); }
  else f = kdb_write(d, k, gen_kdb_style(r), r, lib_local);
  other = kdbx ? kdbx_write(d2, k, KdbxStyle(), r) : kdb_write(d2, k, KdbStyle(), r, lib_local);
  write_file(p, f); Res base = lib_import(kdbx, p, key);
  if (!c.check(base.ok(), "intact-file-refused", base.what + " " + describe(d))) return;
  Flat want = flatten(from_lib(*base.db), fo); { std::string df = flat_diff(flatten(d, fo), want); if (!c.check(df.empty(), "intact-file-differs", df + " " + describe(d))) return; }
  size_t body = header_size(kdbx, f); uint64_t h = fnv(f);
  auto attempt = [&](const std::string& g, const std::string& how) {
    if (g == f || (g.size() > 124 && other.compare(0, 124, g, 0, 124) == 0 && body + 32 < g.size() && g.compare(body, 32, other, body, 32) == 0)) return;   // unchanged, or simply the other file
    if (!feasible(kdbx, g)) { c.count("skipped_infeasible_rounds"); return; }
    write_file(p, g); arm_cpu_limit(0); Res i = lib_import(kdbx, p, key);
    c.count(std::string("outcome_") + out_name(i.out)); c.eval(fnv(g, h));
    if (!i.ok()) return;
    std::string df = flat_diff(want, flatten(from_lib(*i.db), fo));
    c.check(df.empty(), "damaged-file-accepted-with-other-data", how + ": " + df + " | " + (lib ? "library file" : "independent file") + " of " + std::to_string(f.size()) + " bytes, header " + std::to_string(body) + " | " + describe(d));
  };
  if (texty) {
    for (int i = 0; i < 14; ++i) {
      std::string g = f; size_t at = std::min(f.size() - 1, body + 48 + (size_t)r.below(f.size() - body)); bool one = r.coin();
      if (one) g[at] ^= (char)(1 << r.below(8)); else { size_t l = std::min<size_t>(1 + r.below(40), f.size() - at); g.replace(at, l, r.bytes(l)); }
      attempt(g, std::string(one ? "bit flipped" : "bytes changed") + " in the body at " + std::to_string(at));
    }
    c.count("text_heavy_files");
  }
  int n = multi ? 6 : texty ? 16 : 28;
  for (int i = 0; i < n; ++i) {
    std::string g = f, how; int k = r.chance(1, 6) ? 2 + r.below(2) : 1;
    for (int j = 0; j < k; ++j) how += (j ? ", then " : "") + damage(r, g, body, other);
    attempt(g, how); c.count("damages");
  }
  if (c.idx % 8 == 3 && !multi) {
    // Every byte of the header, and the blocks around the start and the end of the body.
    std::vector<size_t> where; size_t step = 1 + body / 1500; for (size_t i = 0; i < body; i += i < 200 || body - i < 400 ? 1 : step) where.push_back(i);   // a long header comment is sampled
    for (size_t i = body; i < std::min(f.size(), body + 96); ++i) where.push_back(i);
    for (size_t i = f.size() - std::min<size_t>(f.size() - body, 64); i < f.size(); ++i) where.push_back(i);
    for (size_t i : where) { std::string g = f; g[i] ^= (char)(1 << r.below(8)); attempt(g, "bit flipped at " + std::to_string(i)); }
    c.count("exhaustive_positions", where.size());
    // Every cut on a cipher block boundary of the last blocks, and around the header.
    for (int i = 1; i < 40; ++i) { if (f.size() < body + 16 * i) break; attempt(f.substr(0, f.size() - 16 * i), "cut by " + std::to_string(16 * i)); }
    for (size_t i = 0; i <= body + 17; i += 1 + r.below(3 * step)) attempt(f.substr(0, i), "cut to " + std::to_string(i));
  }
  if (kdbx) {
    // Header fields removed, repeated, exchanged or with other values.
    auto fs = kdbx_split(f.substr(0, body));
    for (int i = 0; i < 4; ++i) {
      auto v = fs; size_t a = r.below(v.size() - 1), b = r.below(v.size() - 1); std::string how;
      switch (r.below(5)) {
        case 0: v.erase(v.begin() + a); how = "header field removed"; break;
        case 1: v.insert(v.begin() + b, v[a]); how = "header field repeated"; break;
        case 2: std::swap(v[a], v[b]); how = "header fields exchanged"; break;
        case 3: std::swap(v[a].data, v[b].data); how = "header values exchanged"; break;
        default: v.back().data = r.bytes(r.below(30)); how = "end field changed"; break;
      }
      attempt(kdbx_join(f.substr(0, 12), v) + f.substr(body), how + " " + std::to_string(fs[a].id) + "/" + std::to_string(fs[b].id));
    }
    attempt(f.substr(0, body - fs.back().data.size() - 3) + std::string("\x00\x00\x00", 3) + f.substr(body), "end field emptied");
  } else {
    // Record counts: every combination close to the truth, and far ones.
    uint32_t ng = get32(f, 48), ne = get32(f, 52);
    auto with = [&](uint32_t a, uint32_t b) { std::string x; put32(x, a); put32(x, b); std::string g = f; g.replace(48, 8, x); attempt(g, "counts " + std::to_string(ng) + "/" + std::to_string(ne) + " set to " + std::to_string(a) + "/" + std::to_string(b)); };
    int near = multi ? 1 : 3; for (int a = -near; a <= near; ++a) for (int b = -near; b <= near; ++b) if ((int64_t)ng + a >= 0 && (int64_t)ne + b >= 0) with(ng + a, ne + b);
    with(ne, ng); with(0, 0); with(0, ng + ne); with(ng + ne, 0); with((uint32_t)r.next(), ne); with(ng, (uint32_t)r.next()); with(ng | 0x80000000u, ne); with(ng, ne | 0x01000000u);
    for (int b = 0; b < 32; b += multi ? 5 : 1) { std::string x, g = f; put32(x, get32(f, 8) ^ 1u << b); g.replace(8, 4, x); attempt(g, "flag bit " + std::to_string(b)); }
    c.count("count_combinations", 49);
  }
  c.count(lib ? "library_files" : "independent_files"); c.sample(describe(d));
}
PROP(C08, "every evaluation imports one damaged copy of a KDBX file; distinct by file bytes") { damage_case(c, true); }
PROP(C09, "every evaluation imports one damaged copy of a KDB file; distinct by file bytes") { damage_case(c, false); }
