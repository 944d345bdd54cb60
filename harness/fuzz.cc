// Coverage-guided exploration of the importers (thorough tier of C10, C11 and C35): libFuzzer drives the same
// oracles as props_hostile.cc with inputs that are sealed (encrypted, hashed, counted) here.
#define HOSTILE_FUZZ
#include <sys/stat.h>
#include "props_hostile.cc"
#include <unistd.h>
void arm_cpu_limit(unsigned) {}
namespace {
Ctx& ctx() {
  static Ctx* c = nullptr;
  if (!c) {
    c = new Ctx; const char* d = getenv("FUZZ_DIR"); c->dir = std::string(d ? d : "/dev/shm") + "/f" + std::to_string(getpid()); mkdir(c->dir.c_str(), 0700); c->prop = "FUZZ";
    c->on_viol = [](const std::string& k, const std::string& m) { fprintf(stderr, "FUZZVIOL [%s] %s\n", k.c_str(), m.c_str()); abort(); };
    setenv("TZ", "UTC", 1); tzset();
  }
  return *c;
}
MDb head(bool gz) { MDb d; d.master_seed.assign(32, 3); d.rounds = 0; d.compress = gz; return d; }
void both(Ctx& c, bool kdbx, const std::string& f, const keepass::Key& key) {
  try_import(c, kdbx, f, key, "fuzz"); c.counts.clear(); c.distinct.clear();
}
void write_corpus(const std::string& dir) {
  for (int i = 0; i < 120; ++i) {
    Rng r(1000 + i); GenOpt o; o.kdb = i % 2; o.scale = 0; o.max_groups = 4; o.ctrl = false; MDb d = gen_db(r, o); KdbxStyle st = gen_kdbx_style(r); d.rounds = 0; std::string s, name = dir + "/s" + std::to_string(i);
    if (i % 2) { uint32_t g, e; std::string k = kdb_content(d, gen_kdb_style(r), r, lib_local, &g, &e); if (k.size() > 6000) continue; s = std::string(1, 0) + (char)g + (char)e + k; }
    else { d.inner_key = head(false).inner_key; Salsa20 z = inner_stream(d); std::string x = xml_write(kdbx_dom(d, st, "@HH@", r, z), st.xml, &r); if (x.size() > 12000) continue; s = std::string(1, 1) + x; }
    write_file(name, s);
  }
  for (int i = 0; i < 12; ++i) { Rng r(i); write_file(dir + "/k" + std::to_string(i), std::string(1, 4) + key_file_text(r, 1 + i % 2, r.bytes(32))); }
  { Rng r(7); GenOpt o; o.scale = 0; o.max_groups = 2; MDb d = gen_db(r, o); d.rounds = 0; MKey k; k.has_pw = true; k.pw = "p"; std::string f = kdbx_write(d, k, KdbxStyle(), r); write_file(dir + "/x", std::string(1, 3) + f); write_file(dir + "/g", std::string(1, 2) + gzip("<KeePassFile><Meta><HeaderHash>@HH@</HeaderHash></Meta><Root><Group/></Root></KeePassFile>", 9)); o.kdb = true; d = gen_db(r, o); d.rounds = 0; write_file(dir + "/b", std::string(1, 5) + kdb_write(d, k, KdbStyle(), r, lib_local)); }
}
}
extern "C" int LLVMFuzzerInitialize(int*, char***) { if (const char* d = getenv("FUZZ_SEEDS")) { ctx(); write_corpus(d); _exit(0); } return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n) {
  if (n < 1) return 0;
  Ctx& c = ctx(); static MKey k = [] { MKey m; m.has_pw = true; m.pw = "p"; return m; }(); static keepass::Key key("p");
  static const std::string prop = getenv("FUZZ_PROP") ? getenv("FUZZ_PROP") : ""; saving = prop == "C35";
  int mode = p[0] % 6; std::string s((const char*)p + 1, n - 1); Rng r(1); KdbxStyle st;
  if (prop == "C10" ? mode < 3 : !prop.empty() && mode > 2) return -1;   // kept out of the corpus
  switch (mode) {
    case 0: { if (s.size() < 2) return 0; MDb d = head(false); d.master_seed.resize(16); uint8_t g = s[0], e = s[1]; both(c, false, kdb_seal(d, k, s.substr(2), g, e, 3, 0x00030004), key); break; }
    case 1: both(c, true, kdbx_seal_xml(head(false), k, st, s, r, false), key); break;
    case 2: { MDb d = head(true); std::string start(32, 's'), h = kdbx_header(d, st, start, r); both(c, true, kdbx_encrypt(d, k, h, start, hash_blocks(s)), key); break; }
    case 3: both(c, true, s, key); break;
    case 4: { std::string f = c.path("key"); write_file(f, s); try { keepass::Key q; q.SetKeyFile(f); } catch (std::exception&) {} break; }
    default: both(c, false, s, key);
  }
  return 0;
}
