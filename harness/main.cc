// Case runner: executes cases [from, to) with i % shards == shard of one property and records what was observed.
#include "gen.hh"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <dirent.h>

static unsigned g_case_cpu = 30;
static void on_prof(int) { static const char m[] = "\nHANG: per-case CPU limit exceeded\n"; ssize_t n = write(2, m, sizeof m - 1); (void)n; _exit(99); }
void arm_cpu_limit(unsigned s) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s ? s : g_case_cpu; setitimer(ITIMER_PROF, &it, nullptr);
}
static void wipe(const std::string& d) {
  DIR* p = opendir(d.c_str()); if (!p) return;
  while (struct dirent* e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); }
  closedir(p);
}
void self_test();
int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
  auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
  std::string id = a["prop"]; const PropDef* def = nullptr;
  for (auto& p : props()) if (id == p.id) def = &p;
  if (!def) { fprintf(stderr, "no property %s\n", id.c_str()); return 3; }
  self_test();
  uint64_t seed = num("seed", 1), from = num("from", 0), to = num("to", 1), shards = num("shards", 1), shard = num("shard", 0);
  g_case_cpu = num("case-cpu", 30);
  double max_wall = num("max-wall", 100000);
  signal(SIGPROF, on_prof); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
  setenv("TZ", "UTC0", 1); tzset();
  Ctx c; c.prop = id; c.seed = seed; c.thorough = a["tier"] == "thorough"; c.dir = a["dir"]; c.phase = a["phase"]; c.repo = a.count("repo") ? a["repo"] : "/repo";
  int sfd = a.count("state") ? open(a["state"].c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0600) : -1;
  FILE* vf = a.count("viol") ? fopen(a["viol"].c_str(), "ae") : stdout;
  int reported = 0;
  c.on_viol = [&](const std::string& key, const std::string& msg) {
    ++reported;
    fprintf(vf, "{\"idx\":%llu,\"key\":%s,\"msg\":%s}\n", (unsigned long long)c.idx, jesc(key).c_str(), jesc(msg.substr(0, 3000)).c_str()); fflush(vf);
  };
  struct timeval t0; gettimeofday(&t0, nullptr);
  uint64_t done = 0, stopped = 0; std::string lasterr; bool timeup = false; uint64_t next = to;
  auto flush = [&](const char* suffix) {
    if (!a.count("out")) return;
    std::string tmp = a["out"] + ".tmp"; FILE* f = fopen(tmp.c_str(), "we"); if (!f) return;
    fprintf(f, "{\"cases\":%llu,\"stopped\":%llu,\"lasterr\":%s,\"timeup\":%s,\"next\":%llu,\"evaluations\":%llu,\"counts\":{", (unsigned long long)done, (unsigned long long)stopped, jesc(lasterr).c_str(), timeup ? "true" : "false", (unsigned long long)next, (unsigned long long)c.evaluations);
    const char* s = ""; for (auto& kv : c.counts) { fprintf(f, "%s%s:%llu", s, jesc(kv.first).c_str(), (unsigned long long)kv.second); s = ","; }
    fprintf(f, "},\"samples\":["); s = ""; for (auto& x : c.samples) { fprintf(f, "%s%s", s, x.c_str()); s = ","; }
    fprintf(f, "],\"distinct\":["); s = ""; size_t n = 0; for (auto x : c.distinct) { if (++n > 400000) break; fprintf(f, "%s%llu", s, (unsigned long long)x); s = ","; }
    fprintf(f, "],\"rule\":%s}\n", jesc(def->rule).c_str()); fclose(f); rename(tmp.c_str(), a["out"].c_str());
    (void)suffix;
  };
  time_t last_flush = time(nullptr);
  for (uint64_t i = from; i < to; ++i) {
    if (i % shards != shard) continue;
    struct timeval t1; gettimeofday(&t1, nullptr);
    if (t1.tv_sec - t0.tv_sec > max_wall) { timeup = true; next = i; break; }
    if (sfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)i); ssize_t w = pwrite(sfd, b, n, 0); (void)w; }
    c.idx = i; c.rng = Rng(fnv(id, seed * 0x9e3779b97f4a7c15ull + i * 2 + 1));
    arm_cpu_limit(0);
    try { def->fn(c); }
    catch (const Stop& e) { ++stopped; lasterr = e.what(); }
    catch (const std::exception& e) { c.viol("uncaught-exception", std::string("exception outside any documented throwing operation: ") + e.what()); }
    catch (...) { c.viol("foreign-exception", "exception not derived from std::exception"); }
    ++done;
    if (reported >= 40) { next = i + 1; break; }
    setenv("TZ", "UTC0", 1); tzset();
    wipe(c.dir);
    if (time(nullptr) - last_flush >= 3) { last_flush = time(nullptr); next = i + 1; flush(""); next = to; }
  }
  struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
  flush("");
  if (sfd >= 0) { ssize_t w = pwrite(sfd, "done                \n", 21, 0); (void)w; }
  return c.nviol ? 1 : 0;
}

// The reference codec is checked against published vectors at every start.
static void must(bool ok, const char* what) { if (!ok) { fprintf(stderr, "self-test failed: %s\n", what); _exit(3); } }
void self_test() {
  using namespace ref;
  must(hex(sha256("abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256");
  // FIPS-197 appendix C.3.
  K32 k; for (int i = 0; i < 32; ++i) k[i] = i;
  must(hex(make_aes(k)->enc(b16(unhex("00112233445566778899aabbccddeeff")))) == "8ea2b7ca516745bfeafc49904b496089", "aes");
  // Twofish ecb_tbl 256-bit, I=1 and the paper's full-key vector.
  must(hex(make_twofish(K32{})->enc(B16{})) == "57ff739d4dc92c1bd7fc01700cc8216f", "twofish zero key");
  must(hex(make_twofish(k32(unhex("0123456789abcdeffedcba987654321000112233445566778899aabbccddeeff")))->enc(B16{})) == "37527be0052334b89f0cfccae87cfa20", "twofish 256-bit key");
  // eSTREAM Salsa20/20 256-bit, set 1 vector 0.
  K32 s{}; s[0] = 0x80;
  must(hex(Salsa20(s, std::array<uint8_t, 8>{}).process(std::string(64, 0))).substr(0, 64) == "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844", "salsa20");
  must(b64("foobar") == "Zm9vYmFy" && b64("fo") == "Zm8=" && unb64("Zm9v YmE=") == "fooba", "base64");
  must(iso_time(951782400) == "2000-02-29T00:00:00Z" && parse_iso("2000-02-29T00:00:00Z") == 951782400, "calendar");
  std::string o; must(gunzip(gzip("hello"), o) && o == "hello", "gzip");
}
