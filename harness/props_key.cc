// Keys: C06, C07.
#include "gen.hh"
#include "bridge.hh"
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
using namespace ref;

static bool finishes(const std::function<void()>& fn, unsigned ms) { return bounded(fn, ms) != 0; }

static bool same_material(const MKey& a, const MKey& b, bool kdbx) { return ref_resolve(a, kdbx) == ref_resolve(b, kdbx); }

static keepass::Key assemble(const MKey& k, Ctx& c, std::string& how) {
  Rng& r = c.rng; std::string p = c.path("ak"); auto other = [&] { return gen_text(r, GenOpt(), 20); };
  auto kf = [&](keepass::Key& x, const std::string& text) { write_file(p, text); x.SetKeyFile(p); };
  keepass::Key x; unsigned m = r.below(5);
  if (m == 0 && k.has_pw) { x = keepass::Key(k.pw); how = "Key(password)"; }
  else if (m == 1 && k.kf) { kf(x, k.kf_text); how = "key file first"; }
  else if (m == 2 && k.has_pw) { x.SetPassword(other()); how = "replaced password"; }
  else if (m == 3 && k.kf) { kf(x, key_file_text(r, 1 + r.below(2), r.bytes(32))); how = "replaced key file"; }
  else if (m == 4) { try { kf(x, r.pickl<const char*>({"", "nonsense", "<KeyFile><Key><Data>QUJD</Data></Key></KeyFile>"})); } catch (const std::exception&) {} try { x.SetKeyFile(c.path("none")); } catch (const std::exception&) {} how = "failed key file first"; }
  std::vector<int> ops; if (k.has_pw) ops.push_back(0); if (k.kf) ops.push_back(1); if (r.coin()) std::reverse(ops.begin(), ops.end());
  for (int o : ops) if (o == 0) x.SetPassword(k.pw); else kf(x, key_file_text(r, 1 + r.below(2), k.kf_key));
  if (r.coin()) { keepass::Key y = x; x = y; how += " copied"; }
  return x;
}

PROP(C06, "every case opens one file with equivalent and with other keys; distinct by file and keys") {
  Rng& r = c.rng; set_tz(r); bool kdbx = c.idx % 2;
  GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = 0; o.max_groups = 6; MDb d = gen_db(r, o); d.rounds = r.below(6);
  if (!kdbx && r.chance(1, 6)) d.root = MGroup();   // an empty KDB database
  MKey k = gen_key(r); std::string p = c.path("f"), how, what = std::string(kdbx ? "KDBX" : "KDB") + (d.alg == AES ? " AES" : " Twofish") + " key " + k.str();
  FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; fo.refs = false;
  bool by_lib = r.coin();
  if (by_lib) { auto L = to_lib(d); Res e = lib_export(kdbx, p, *L, assemble(k, c, how)); if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return; }
  else write_file(p, kdbx ? kdbx_write(d, k, KdbxStyle(), r) : kdb_write(d, k, KdbStyle(), r, lib_local));
  for (int i = 0; i < 2; ++i) {
    how = ""; keepass::Key x = assemble(k, c, how); Res res = lib_import(kdbx, p, x);
    if (!c.check(res.ok(), "right-key-refused", "assembled: " + how + ", outcome " + out_name(res.out) + " " + res.what + " | " + what)) return;
    std::string df = diff(d, from_lib(*res.db), fo); if (!c.check(df.empty(), "different-content", df + " | " + what)) return;
    c.count("opened");
  }
  uint64_t h = model_hash(d);
  for (int i = 0; i < 6; ++i) {
    MKey w = k; std::string kind;
    switch (r.below(14)) {
      case 0: kind = "password bit"; if (w.has_pw && !w.pw.empty()) w.pw[r.below(w.pw.size())] ^= (char)(1 << r.below(8)); break;
      case 1: kind = "password longer"; w.pw += r.pickl<const char*>({" ", "\n", "a", "1"}); break;
      case 2: kind = "password with NUL"; w.pw += std::string("\0", 1); if (r.coin()) w.pw += "x"; break;
      case 3: kind = "password shorter"; if (!w.pw.empty()) { if (r.coin()) w.pw.pop_back(); else w.pw.erase(0, 1); } break;
      case 4: kind = "password case"; for (auto& ch : w.pw) if (isalpha((unsigned char)ch)) { ch ^= 32; if (r.coin()) break; } break;
      case 5: kind = "no password"; w.has_pw = false; break;
      case 6: kind = "no key file"; w.kf = 0; break;
      case 7: kind = "key file bit"; if (w.kf) w.kf_key[r.below(32)] ^= (char)(1 << r.below(8)); break;
      case 8: kind = "added key file"; w.kf = 1; w.kf_key = r.coin() ? std::string(32, 0) : str(sha256(k.pw)); break;
      case 9: kind = "added password"; w.has_pw = true; w.pw = r.coin() ? "" : "a"; break;
      case 10: kind = "empty key object"; w.has_pw = false; w.kf = 0; break;
      case 11: kind = "components exchanged"; if (w.kf && w.has_pw) { w.kf_key = str(sha256(k.pw)); w.pw = k.kf_key; } break;
      case 12: kind = "empty password"; w.has_pw = true; w.pw = ""; break;
      case 13: kind = "unrelated"; w = gen_key(r); break;
    }
    if (w.kf) w.kf_text = key_file_text(r, w.kf, w.kf_key);
    if ((!w.has_pw && !w.kf && !kdbx && !k.has_pw && k.kf_key == std::string(32, 0)) || same_material(w, k, kdbx)) continue;
    if (w.has_pw == k.has_pw && w.pw == k.pw && w.kf == k.kf && w.kf_key == k.kf_key) continue;
    how = ""; keepass::Key x = assemble(w, c, how);
    if (!w.has_pw && !w.kf) x = keepass::Key();
    Res res = lib_import(kdbx, p, x);
    c.check(res.out == Out::password && !res.db, "wrong-key", kind + " (" + w.str() + "): outcome " + out_name(res.out) + " " + res.what + " | " + what);
    c.count(kind); c.eval(fnv(kind, h + i));
  }
  c.sample("{\"key\":" + jesc(k.str()) + ",\"format\":" + (kdbx ? "\"kdbx\"" : "\"kdb\"") + "}");
}

PROP(C07, "every case derives keys under both rules; distinct by key material, seed and rounds") {
  Rng& r = c.rng; MKey k = gen_key(r); auto key = to_key(k, c); uint64_t h = fnv(k.pw, fnv(k.kf_key));
  if (c.idx % 400 == 3) {
    // Round counts beyond 32 bits cannot finish quickly; a derivation that does dropped rounds.
    uint64_t big = r.pickl<uint64_t>({1ull << 32, (1ull << 32) + 1, (1ull << 32) + r.below(1000), 1ull << 33, 1ull << 40, 1ull << 62, 1ull << 63, ~0ull, 0xffffffffull, 0x80000000ull, 0x7fffffffull << 32});
    auto seed = r.arr<32>();
    c.check(!finishes([&] { key.Transform(seed, big, keepass::Key::SubKeyResolution::kHashSubKeys); }, 200), "rounds-dropped", "Transform finished " + std::to_string(big) + " rounds at once");
    // The same through a file header.
    GenOpt o; o.scale = 0; o.ctrl = false; MDb d = gen_db(r, o); d.rounds = r.below(3); KdbxStyle st; std::string start = r.bytes(32), hd = kdbx_header(d, st, start, r); auto f = kdbx_split(hd);
    for (auto& x : f) if (x.id == 6) { x.data.clear(); put64(x.data, big); }
    std::string p = c.path("big"); write_file(p, kdbx_around(d, k, st, kdbx_join(hd.substr(0, 12), f), start, r));
    c.check(!finishes([&] { lib_import(true, p, key); }, 300), "rounds-dropped", "import finished with " + std::to_string(big) + " rounds in the header at once");
    c.count("huge_round_counts"); c.eval(fnv(&big, 8, h)); return;
  }
  for (int i = 0; i < 4; ++i) {
    auto seed = r.arr<32>(); if (r.chance(1, 6)) seed.fill(r.coin() ? 0 : 0xff);
    uint64_t n = r.chance(1, 5) ? r.below(3) : r.chance(1, 30) ? 6000 + r.below(60000) : r.below(300);
    // Counts of present-day databases, around the places where a counter could be cut.
    bool large = i == 0 && c.idx % (c.thorough ? 400 : 100) == 37;
    if (large) { n = ((uint64_t)1 << r.range(15, 20)) * r.range(1, 2); n = r.coin() ? n + r.below(3) : n + r.below(n); if (n > (1u << 21)) n = 1u << 21; c.count("large_round_counts"); arm_cpu_limit(0); }
    bool one = r.coin();
    for (bool all : {false, true}) {
      if (large && all != one) continue;
      K32 want = aes_transform(ref_resolve(k, all), seed, n);
      auto got = key.Transform(seed, n, all ? keepass::Key::SubKeyResolution::kHashSubKeys : keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey);
      if (!c.check(got == want, "derived-key-differs", std::string(all ? "always hashed" : "hashed when composite") + ", rounds " + std::to_string(n) + ", seed " + hex(seed) + ", " + k.str() + " file " + show(k.kf_text, 200))) return;
      c.count("derivations");
    }
    c.count("rounds", n); c.eval(fnv(&seed[0], 32, h + n));
  }
  c.count("kind_" + std::string(k.has_pw ? "pw" : "") + (k.kf == 1 ? "xml" : k.kf == 2 ? "hex" : ""));
  c.sample("{\"key\":" + jesc(k.str()) + ",\"key_file\":" + jesc(k.kf_text.substr(0, 120)) + "}");
}
