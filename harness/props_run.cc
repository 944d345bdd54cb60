// Whole-process monitors: C21 (threads, under ThreadSanitizer), C25 (draws), C26 (heap, descriptors, uninitialised data).
#include "hostile.hh"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <mutex>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VK_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define VK_ASAN 1
#endif
#endif
using namespace ref;

// ---------------------------------------------------------------------------------------------- C21
// libc keeps state that ThreadSanitizer cannot see (it is not instrumented): the static buffers of the old calendar
// functions, the environment that setenv() changes and the local-time functions read, the random state, the
// tokenizer position. These stand-ins touch a visible word wherever the original touches hidden shared state, so that
// unsynchronised use from two threads is a reported race.
static thread_local uint64_t t_rng = 0;
static std::atomic<uint64_t> g_yields{0};
static bool g_inject = false;
static void maybe_yield(unsigned one_in) {
  if (!g_inject || !t_rng) return;
  t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
  if (t_rng % one_in == 0) { g_yields.fetch_add(1, std::memory_order_relaxed); if ((t_rng >> 40) % 16 == 0) { struct timespec ts{0, (long)((t_rng >> 44) % 60000)}; nanosleep(&ts, nullptr); } else sched_yield(); }
}
#ifdef VK_TSAN
static struct tm g_tm; static char g_text[64]; static int g_env, g_rand, g_tok, g_err;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
struct tm* localtime(const time_t* t) noexcept { struct tm b; if (!localtime_r(t, &b)) return nullptr; maybe_yield(2); g_tm = b; return &g_tm; }
struct tm* gmtime(const time_t* t) noexcept { struct tm b; if (!gmtime_r(t, &b)) return nullptr; maybe_yield(2); g_tm = b; return &g_tm; }
char* asctime(const struct tm* t) noexcept { char b[64]; if (!asctime_r(t, b)) return nullptr; maybe_yield(2); memcpy(g_text, b, 64); return g_text; }
char* ctime(const time_t* t) noexcept { char b[64]; if (!ctime_r(t, b)) return nullptr; maybe_yield(2); memcpy(g_text, b, 64); return g_text; }
int setenv(const char* n, const char* v, int o) noexcept { static auto f = real<int (*)(const char*, const char*, int)>("setenv"); ++g_env; return f(n, v, o); }
int unsetenv(const char* n) noexcept { static auto f = real<int (*)(const char*)>("unsetenv"); ++g_env; return f(n); }
int putenv(char* s) noexcept { static auto f = real<int (*)(char*)>("putenv"); ++g_env; return f(s); }
time_t mktime(struct tm* t) noexcept { static auto f = real<time_t (*)(struct tm*)>("mktime"); volatile int e = g_env; (void)e; maybe_yield(4); return f(t); }
struct tm* localtime_r(const time_t* t, struct tm* o) noexcept { static auto f = real<struct tm* (*)(const time_t*, struct tm*)>("localtime_r"); volatile int e = g_env; (void)e; maybe_yield(4); return f(t, o); }
int rand(void) noexcept { static auto f = real<int (*)(void)>("rand"); ++g_rand; return f(); }
void srand(unsigned s) noexcept { static auto f = real<void (*)(unsigned)>("srand"); ++g_rand; f(s); }
char* strtok(char* s, const char* d) noexcept { static char* pos; ++g_tok; return strtok_r(s, d, &pos); }
char* strerror(int e) noexcept { static char b[128]; char t[128]; const char* m = strerror_r(e, t, sizeof t); ++g_err; strncpy(b, m, sizeof b - 1); return b; }
}
// Delays inside library code: at some allocations the thread gives way.
extern "C" void __sanitizer_malloc_hook(const volatile void*, size_t) { maybe_yield(400); }
#endif

namespace {
struct World {   // what the threads share, none of them modifying it
  std::vector<std::unique_ptr<keepass::Database>> dbs; std::vector<std::unique_ptr<keepass::Key>> keys; std::vector<std::shared_ptr<keepass::Group>> copies;
};
struct Op { int kind = 0; size_t a = 0, b = 0, c = 0; uint64_t seed = 0; std::string result; int start = 0, end = 0; };
struct File { std::string path; size_t key; bool kdbx; };
}
static uint64_t flat_hash(const Flat& f) { uint64_t h = 7; for (auto& kv : f) h = fnv(kv.second, fnv(kv.first, h)); return h; }
static std::string brief(const Res& r, bool kdbx) {
  if (!r.ok()) return std::string(out_name(r.out)) + " " + r.what;
  FlatOpt o; o.mode = kdbx ? KDBX : KDB; char b[64]; snprintf(b, sizeof b, "ok %016llx json %016llx", (unsigned long long)flat_hash(flatten(from_lib(*r.db), o)), (unsigned long long)fnv(r.db->root()->ToJson())); return b;
}
static const char* kOps[] = {"import", "import with a wrong key", "export", "print", "compare", "derive from shared key", "own key", "create", "own database", "reuse file object"};
static std::string run_op(const Op& o, const World& w, const std::vector<File>& files, const std::vector<MKey>& mk, const std::vector<MDb>& ms, const std::string& scratch, const std::vector<std::string>& kfs) {
  switch (o.kind) {
    case 0: { auto& f = files[o.a % files.size()]; return brief(lib_import(f.kdbx, f.path, *w.keys[f.key]), f.kdbx); }
    case 1: { auto& f = files[o.a % files.size()]; return brief(lib_import(f.kdbx, f.path, *w.keys[(f.key + 1) % w.keys.size()]), f.kdbx); }
    case 2: {
      size_t d = o.a % w.dbs.size(); bool kdbx = o.b % 2; auto& k = *w.keys[o.c % w.keys.size()]; Res e = lib_export(kdbx, scratch, *w.dbs[d], k); if (!e.ok()) return brief(e, kdbx);
      std::string f; read_file(scratch, f); std::string s = kdbx ? "" : hex(sha256(f)); return s + brief(lib_import(kdbx, scratch, k), kdbx);
    }
    case 3: return std::to_string(fnv(w.dbs[o.a % w.dbs.size()]->root()->ToJson()));
    case 4: { size_t a = o.a % w.dbs.size(), b = o.b % w.copies.size(); const keepass::Group& x = *w.dbs[a]->root(); return std::string(x == *w.copies[b] ? "eq " : "ne ") + (*w.copies[a] != x ? "ne" : "eq"); }
    case 5: { auto t = w.keys[o.a % w.keys.size()]->Transform(Rng(o.seed).arr<32>(), 1 + o.b % 50, o.c % 2 ? keepass::Key::SubKeyResolution::kHashSubKeys : keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey); return hex(t); }
    case 6: { keepass::Key k; try { if (o.b % 2) k.SetPassword("p" + std::to_string(o.seed)); k.SetKeyFile(kfs[o.a % kfs.size()]); } catch (const std::exception& e) { return e.what(); } keepass::Key q(k); return hex(q.Transform(Rng(o.seed).arr<32>(), 1 + o.c % 20, keepass::Key::SubKeyResolution::kHashSubKeys)); }
    case 7: { std::set<std::string> s; int n = 20; for (int i = 0; i < n; ++i) { keepass::Entry e; keepass::Group g; s.insert(hex(e.uuid())); s.insert(hex(g.uuid())); } return std::to_string(s.size()); }
    case 8: { const MDb& m = ms[o.a % ms.size()]; auto L = to_lib(m); bool kdbx = o.b % 2; auto& k = *w.keys[o.c % w.keys.size()]; Res e = lib_export(kdbx, scratch, *L, k); if (!e.ok()) return brief(e, kdbx); return brief(lib_import(kdbx, scratch, k), kdbx); }
    default: {
      keepass::KdbFile f1; keepass::KdbxFile f2; std::string s; Rng r(o.seed);
      for (int i = 0; i < 3; ++i) { auto& f = files[r.below(files.size())]; s += brief(lib_import(f.kdbx, f.path, *w.keys[r.below(w.keys.size())], &f1, &f2), f.kdbx) + ";"; size_t d = r.below(w.dbs.size()); bool x = r.coin(); Res e = lib_export(x, scratch, *w.dbs[d], *w.keys[0], &f1, &f2); s += std::string(out_name(e.out)) + e.what + ";"; }
      return s;
    }
  }
}
static std::string case_threads(Ctx& c) {
  Rng& r = c.rng; std::vector<MDb> ms; std::vector<MKey> mk; std::vector<File> files; std::vector<std::string> kfs;
  // Everything up to the fork uses only the harness' own code, so that one-time initialisation in the library happens
  // in the threads.
  for (int i = 0; i < 2; ++i) { mk.push_back(gen_key(r)); MKey x = gen_key_kind(r, false, 1 + i); std::string p = c.path("kf" + std::to_string(i)); write_file(p, x.kf_text); kfs.push_back(p); }
  for (int i = 0; i < 3; ++i) {
    GenOpt o; o.both = true; o.scale = 0; o.max_groups = 4; o.json_safe = true; MDb d = gen_db(r, o); d.rounds = r.below(4); ms.push_back(d);
    for (bool kdbx : {false, true}) {
      KdbxStyle st = gen_kdbx_style(r); size_t k = r.below(2); MDb e = d; if (kdbx && e.master_seed.size() != 32) e.master_seed = r.bytes(32); std::string f = kdbx ? kdbx_write(e, mk[k], st, r) : kdb_write(d, mk[k], gen_kdb_style(r), r, lib_local);
      if (r.chance(1, 4)) { size_t h = header_size(kdbx, f); if (f.size() > h + 4) f[h + r.below(f.size() - h)] ^= 4; }
      std::string p = c.path("f" + std::to_string(files.size())); write_file(p, f); files.push_back({p, k, kdbx});
    }
  }
  int nt = 2 + r.below(5); std::vector<std::vector<Op>> prog(nt); int favourite = r.chance(1, 2) ? (int)r.below(10) : -1;
  for (auto& p : prog) for (int i = 2 + r.below(5); i > 0; --i) { Op o; o.kind = favourite >= 0 && r.chance(2, 3) ? favourite : r.below(10); o.a = r.below(1000); o.b = r.below(1000); o.c = r.below(1000); o.seed = r.next(); p.push_back(o); }
  auto world = [&](const char* tag) { World w; for (auto& m : ms) { w.dbs.push_back(to_lib(m)); w.copies.push_back(to_lib(m)->root()); } for (size_t i = 0; i < mk.size(); ++i) { w.keys.emplace_back(new keepass::Key(to_key(mk[i], c, tag + std::to_string(i)))); } return w; };
  World w = world("shared"); std::atomic<int> ticket{0}, ready{0}; std::vector<std::thread> th; uint64_t ys = r.next() | 1; g_inject = true;
  for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
    t_rng = ys * (t * 2 + 1); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
    for (auto& o : prog[t]) { o.start = ticket.fetch_add(1, std::memory_order_relaxed); o.result = run_op(o, w, files, mk, ms, c.path("t" + std::to_string(t)), kfs); o.end = ticket.fetch_add(1, std::memory_order_relaxed); }
    t_rng = 0;
  });
  for (auto& t : th) t.join(); g_inject = false;
  // Sequential run on fresh objects.
  World w2 = world("seq"); uint64_t order = 0; std::vector<std::pair<int, int>> ev; size_t overlaps = 0, nops = 0;
  for (int t = 0; t < nt; ++t) for (auto& o : prog[t]) {
    std::string want = run_op(o, w2, files, mk, ms, c.path("s"), kfs); ++nops; ev.emplace_back(o.start, t); ev.emplace_back(o.end, t); c.count(std::string("op_") + kOps[o.kind]); c.count(o.result.compare(0, 2, "ok") == 0 ? "results_ok" : "results_other");
    c.check(o.result == want, "differs-from-sequential-run", std::string(kOps[o.kind]) + ": concurrently " + o.result + ", alone " + want);
    for (int u = 0; u < t; ++u) for (auto& q : prog[u]) overlaps += q.start < o.end && o.start < q.end;
  }
  std::sort(ev.begin(), ev.end()); for (auto& e : ev) order = order * 131 + e.second + 1;
  c.count("threads", nt); c.count("operations", nops); c.count("overlapping_pairs", overlaps); c.count("injected_yields", g_yields.load()); c.eval(order, overlaps > 0);
  std::string s = "["; for (int t = 0; t < nt; ++t) { s += t ? ",\"" : "\""; for (auto& o : prog[t]) s += std::string(kOps[o.kind]) + "; "; s += "\""; } return s + "]";
}
// Runs `f` in a child process and takes over its counters; a crash of the child ends this process the same way.
static void in_child(Ctx& c, const std::function<std::string(Ctx&)>& f) {
  int p[2]; if (pipe(p)) throw Stop("pipe"); fflush(nullptr); pid_t pid = fork(); if (pid < 0) throw Stop("fork");
  if (!pid) {
    close(p[0]); arm_cpu_limit(0); Ctx d = c; d.counts.clear(); d.distinct.clear(); d.evaluations = 0; d.nviol = 0; std::string s = f(d), o;
    for (auto& kv : d.counts) o += "C " + std::to_string(kv.second) + " " + kv.first + "\n"; for (auto h : d.distinct) o += "D " + std::to_string(h) + "\n"; o += "E " + std::to_string(d.evaluations) + "\n"; if (!s.empty()) o += "S " + s + "\n";
    for (size_t i = 0; i < o.size();) { ssize_t n = write(p[1], o.data() + i, o.size() - i); if (n <= 0) break; i += n; } _exit(d.nviol ? 1 : 0);
  }
  close(p[1]); std::string o; char b[65536]; for (;;) { ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; o.append(b, n); } close(p[0]); int st = 0; while (waitpid(pid, &st, 0) < 0) {}
  if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
  if (WEXITSTATUS(st)) ++c.nviol;
  for (size_t i = 0, e; i < o.size() && (e = o.find('\n', i)) != std::string::npos; i = e + 1) { std::string l = o.substr(i, e - i); if (l[0] == 'C') { size_t q = l.find(' ', 2); std::string k = l.substr(q + 1); uint64_t v = strtoull(l.c_str() + 2, nullptr, 10); if (k.compare(0, 4, "max_") == 0) c.maxi(k, v); else c.count(k, v); } else if (l[0] == 'D') c.distinct.insert(strtoull(l.c_str() + 2, nullptr, 10)); else if (l[0] == 'E') c.evaluations += strtoull(l.c_str() + 2, nullptr, 10); else c.sample(l.substr(2)); }
}
PROP(C21, "non-trivial: operations of different threads overlapped; distinct by the order in which operations began and ended") { set_tz(c.rng); in_child(c, case_threads); }

// ---------------------------------------------------------------------------------------------- C25
namespace { struct Draws { std::string ids, starts; }; }
static std::string uuids(size_t n) { std::string s; s.reserve(n * 16); for (size_t i = 0; i < n; ++i) { if (i & 1) { keepass::Entry e; s.append((const char*)e.uuid().data(), 16); } else { keepass::Group g; s.append((const char*)g.uuid().data(), 16); } } return s; }
static std::string start_bytes(size_t n, const std::string& path, Rng r) {
  GenOpt o; o.scale = 0; o.max_groups = 1; MDb d; d.master_seed = r.bytes(32); d.rounds = 0; auto L = to_lib(d); keepass::Key k; k.SetPassword("x"); std::string s; s.reserve(n * 32); keepass::KdbxFile one;
  for (size_t i = 0; i < n; ++i) { Res e = i & 1 ? lib_export(true, path, *L, k) : lib_export(true, path, *L, k, nullptr, &one); if (!e.ok()) throw Stop("export: " + e.what); std::string f; read_file(path, f); size_t h = header_size(true, f); bool got = false; for (auto& x : kdbx_split(f.substr(0, h))) if (x.id == 9 && x.data.size() == 32) { s += x.data; got = true; } if (!got) throw Stop("no start bytes in exported file"); }
  return s;
}
// Draws in `np` processes with `nt` threads each; the parent draws before and after forking.
static std::string collect(Ctx& c, int np, int nt, size_t each, bool ids, bool nested) {
  std::string all = ids ? uuids(10) : start_bytes(3, c.path("p"), c.rng); std::vector<int> fds; std::vector<pid_t> pids; size_t w = ids ? 16 : 32;
  for (int i = 0; i < np; ++i) {
    int p[2]; if (pipe(p)) throw Stop("pipe"); fflush(nullptr); pid_t pid = fork(); if (pid < 0) throw Stop("fork");
    if (!pid) {
      close(p[0]); for (int q : fds) close(q); std::vector<std::string> res(nt); std::vector<std::thread> th; bool bad = false;
      auto work = [&](int t) { try { res[t] = ids ? uuids(each) : start_bytes(each, c.path("x" + std::to_string(i) + "_" + std::to_string(t)), Rng(i * 100 + t)); } catch (const std::exception&) { bad = true; } };
      if (nt == 1) work(0); else { for (int t = 0; t < nt; ++t) th.emplace_back(work, t); for (auto& t : th) t.join(); }
      for (auto& s : res) for (size_t k = 0; k < s.size();) { ssize_t n = write(p[1], s.data() + k, s.size() - k); if (n <= 0) _exit(4); k += n; } _exit(bad ? 5 : 0);
    }
    close(p[1]); fds.push_back(p[0]); pids.push_back(pid);
    if (nested) { std::string q = ids ? uuids(2) : start_bytes(1, c.path("p"), c.rng); all += q; }
    if ((int)fds.size() == 8 || i == np - 1) { for (size_t j = 0; j < fds.size(); ++j) { char b[65536]; for (;;) { ssize_t n = read(fds[j], b, sizeof b); if (n <= 0) break; all.append(b, n); } close(fds[j]); int st; while (waitpid(pids[j], &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) throw Stop("drawing process failed"); } fds.clear(); pids.clear(); }
  }
  all += ids ? uuids(10) : start_bytes(3, c.path("p"), c.rng); if (all.size() % w) throw Stop("short read"); c.count(ids ? "identifiers" : "start_byte_strings", all.size() / w); c.count("processes", np); return all;
}
static double chi(const std::array<uint64_t, 256>& h, double n) { double e = n / 256, x = 0; for (auto v : h) x += (v - e) * (v - e) / e; return x; }
static void judge(Ctx& c, const std::string& all, size_t w, const char* what) {
  size_t n = all.size() / w; auto u = (const uint8_t*)all.data();
  // Repetitions of whole draws and of any 8-byte part at the same place, or anywhere aligned to 4 for whole sets.
  for (size_t p = 0; p + 8 <= w; p += w == 16 ? 1 : 4) {
    std::vector<uint64_t> v(n); for (size_t i = 0; i < n; ++i) memcpy(&v[i], u + i * w + p, 8); std::sort(v.begin(), v.end()); size_t dup = 0; for (size_t i = 1; i < n; ++i) dup += v[i] == v[i - 1]; c.count("windows_compared", n);
    if (dup) { c.viol("draws-repeat", std::string(what) + ": " + std::to_string(dup) + " repetitions of bytes " + std::to_string(p) + ".." + std::to_string(p + 7) + " among " + std::to_string(n) + " draws"); return; }
  }
  { std::vector<uint64_t> v; v.reserve(n * (w / 8)); for (size_t i = 0; i < n; ++i) for (size_t p = 0; p + 8 <= w; p += 8) { uint64_t x; memcpy(&x, u + i * w + p, 8); v.push_back(x); } std::sort(v.begin(), v.end()); size_t dup = 0; for (size_t i = 1; i < v.size(); ++i) dup += v[i] == v[i - 1]; c.check(!dup, "draws-repeat", std::string(what) + ": " + std::to_string(dup) + " eight-byte parts occur at two places"); }
  if (n < 5000) return;
  auto test = [&](const std::string& of, const std::function<uint8_t(size_t)>& f, size_t m) { std::array<uint64_t, 256> h{}; for (size_t i = 0; i < m; ++i) ++h[f(i)]; double x = chi(h, m); c.maxi("max_chi_square", (uint64_t)x); c.count("distributions_tested"); size_t zero = std::count(h.begin(), h.end(), 0); if (x > 255 + 8 * 22.6 || zero > 8) c.viol("draws-not-uniform", std::string(what) + ": " + of + " has chi-square " + std::to_string(x) + " (255 expected), " + std::to_string(zero) + " values never occur in " + std::to_string(m)); };
  for (size_t p = 0; p < w; ++p) {
    test("byte " + std::to_string(p), [&](size_t i) { return u[i * w + p]; }, n);
    test("byte " + std::to_string(p) + " xor its neighbour", [&](size_t i) { return (uint8_t)(u[i * w + p] ^ u[i * w + (p + 1) % w]); }, n);
    test("byte " + std::to_string(p) + " xor that of the next draw", [&](size_t i) { return (uint8_t)(u[i * w + p] ^ u[(i + 1) * w + p]); }, n - 1);
    test("difference of byte " + std::to_string(p) + " and that of the next draw", [&](size_t i) { return (uint8_t)(u[i * w + p] - u[(i + 1) * w + p]); }, n - 1);
  }
}
PROP(C25, "every evaluation is one drawn value compared with all others of its case; distinct by value") {
  bool t = c.thorough; std::string a, b; arm_cpu_limit(3000); const char* how;
  switch (c.idx % 4) {
    case 0: how = "8 processes of 2 threads"; a = collect(c, 8, 2, t ? 200000 : 40000, true, true); break;
    case 1: how = "start bytes of exports"; b = collect(c, 8, 2, t ? 20000 : 3000, false, true); break;
    case 2: how = "many short processes"; a = collect(c, 400, 1, 20, true, false); b = collect(c, 200, 1, 3, false, false); break;
    default: how = "8 threads of one process"; a = collect(c, 1, 8, t ? 60000 : 10000, true, true); b = collect(c, 1, 4, t ? 3000 : 400, false, false); break;
  }
  if (!a.empty()) judge(c, a, 16, (std::string("identifiers, ") + how).c_str()); if (!b.empty()) judge(c, b, 32, (std::string("start bytes, ") + how).c_str());
  for (size_t i = 0; i < a.size(); i += 16) c.eval(fnv(a.data() + i, 16)); for (size_t i = 0; i < b.size(); i += 32) c.eval(fnv(b.data() + i, 32));
  c.sample("{\"how\":" + jesc(how) + ",\"identifiers\":" + std::to_string(a.size() / 16) + ",\"start_bytes\":" + std::to_string(b.size() / 32) + "}");
}

// ---------------------------------------------------------------------------------------------- C26
#ifdef VK_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap_now() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap_now() { return 0; }
#endif
static size_t fds_now() { size_t n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
PROP(C26, "non-trivial: an operation that acquires memory, done at least four times; distinct by operation and content") {
  Rng& r = c.rng; set_tz(r); bool vg = c.phase == "valgrind", kdbx = r.coin(); GenOpt o; o.kdb = !kdbx; o.scale = vg ? 0 : r.chance(1, 10) ? 1 : 0; o.max_groups = vg ? 4 : 8; o.json_safe = true; MDb d = gen_db(r, o); d.rounds = r.below(3); MKey k = gen_key(r), k2 = gen_key(r); auto key = to_key(k, c, "a"), key2 = to_key(k2, c, "b");
  std::string f = kdbx ? kdbx_write(d, k, gen_kdbx_style(r), r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local), p = c.path("in"); write_file(p, f); std::string what = describe(d); uint64_t h = model_hash(d);
  FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; uint64_t sink = 0;
  // One operation repeated: the heap and the descriptors return to where they were.
  auto steady = [&](const char* name, const std::function<void()>& op) {
    if (vg) { op(); c.eval(fnv(std::string(name), h)); c.count(std::string("op_") + name); return; }
    op(); op(); size_t h0 = heap_now(), f0 = fds_now(); for (int i = 0; i < 3; ++i) op(); size_t h1 = heap_now(), f1 = fds_now();
    c.check(h1 <= h0, "memory-not-released", std::string(name) + ": three repetitions keep " + std::to_string(h1 - h0) + " bytes | " + what); c.check(f1 <= f0, "descriptor-not-released", std::string(name) + ": three repetitions keep " + std::to_string(f1 - f0) + " descriptors | " + what);
    c.eval(fnv(std::string(name), h)); c.count(std::string("op_") + name); c.count("heap_balances");
  };
  auto use = [&](Res& x) { if (x.ok()) sink ^= flat_hash(flatten(from_lib(*x.db), fo)) ^ fnv(x.db->root()->ToJson()); else sink ^= fnv(x.what); };
  steady("import", [&] { Res x = lib_import(kdbx, p, key); use(x); });
  steady("import_wrong_key", [&] { Res x = lib_import(kdbx, p, key2); use(x); });
  steady("import_missing", [&] { Res x = lib_import(kdbx, c.path("missing"), key); use(x); });
  size_t body = header_size(kdbx, f);
  for (int i = 0; i < (vg ? 2 : 12); ++i) {
    std::string g = f; damage(r, g, body, f); if (!feasible(kdbx, g)) continue; std::string q = c.path("bad"); write_file(q, g); steady("import_damaged", [&] { Res x = lib_import(kdbx, q, key); use(x); });
  }
  for (int i = 0; i < (vg ? 2 : 6); ++i) {   // failures behind the decryption
    std::string g, q = c.path("bad");
    if (kdbx) { KdbxStyle st = gen_kdbx_style(r); Salsa20 s = inner_stream(d); std::string hd = kdbx_header(d, st, std::string(32, 's'), r); std::string x = xml_write(kdbx_dom(d, st, "@HH@", r, s), st.xml, &r); if (r.coin()) x = x.substr(0, r.below(x.size())); else { size_t z = r.below(x.size()); x[z] = r.pickl<char>({'<', '>', '&', '!', 'A', '/', '\0', '"'}); } g = kdbx_seal_xml(d, k, st, x, r, d.compress); }
    else { uint32_t a, b; std::string t = kdb_content(d, gen_kdb_style(r), r, lib_local, &a, &b); if (!t.empty()) { if (r.coin()) t = t.substr(0, r.below(t.size())); else t[r.below(t.size())] ^= 1 << r.below(8); } g = kdb_seal(d, k, t, a, b, d.alg == AES ? 3 : 9, 0x00030004); }
    write_file(q, g); steady("import_damaged_inside", [&] { Res x = lib_import(kdbx, q, key); c.count(std::string("inside_") + out_name(x.out)); use(x); });
  }
  { auto L = to_lib(d); auto M = to_lib(d);
    // With uninitialised data in any written byte, memcheck reports the write or the comparisons of the reader below.
    steady("export", [&] { std::string q = c.path("out"); Res x = lib_export(kdbx, q, *L, key); if (x.ok()) { std::string g; read_file(q, g); if (vg || r.chance(1, 3)) { Res y = lib_import(kdbx, q, key); use(y); } } });
    steady("export_full_device", [&] { Res x = lib_export(kdbx, "/dev/full", *L, key); use(x.ok() ? x : x); });
    steady("export_no_directory", [&] { Res x = lib_export(kdbx, c.path("no/such/dir"), *L, key); sink ^= fnv(x.what); });
    steady("print", [&] { sink ^= fnv(L->root()->ToJson()); });
    steady("compare", [&] { sink ^= *L->root() == *M->root(); sink ^= *L->root() != *L->root(); });
    steady("assemble", [&] { auto X = to_lib(d); sink ^= X->root()->Groups().size(); });
    if (kdbx) steady("export_unsupported", [&] { auto X = to_lib(d); X->set_cipher(keepass::Database::Cipher::kTwofish); Res x = lib_export(true, c.path("out"), *X, key); sink ^= fnv(x.what); });
    steady("defaults", [&] { keepass::Database X; X.set_root(std::make_shared<keepass::Group>()); auto g = std::make_shared<keepass::Group>(); g->AddEntry(std::make_shared<keepass::Entry>()); X.root()->AddGroup(g); X.set_transform_rounds(1); for (bool z : {false, true}) { Res x = lib_export(z, c.path("def"), X, key); if (x.ok()) { Res y = lib_import(z, c.path("def"), key); use(y); } } sink ^= fnv(g->ToJson()) ^ (*g == *g); X.set_meta(std::shared_ptr<keepass::Metadata>(new keepass::Metadata)); X.root()->AddGroup(std::shared_ptr<keepass::Group>(new keepass::Group)); X.root()->AddEntry(std::shared_ptr<keepass::Entry>(new keepass::Entry)); Res x = lib_export(true, c.path("def"), X, key); if (x.ok()) { Res y = lib_import(true, c.path("def"), key); use(y); } });
  }
  for (int i = 0; i < 3; ++i) { MKey x = gen_key_kind(r, r.coin(), 1 + r.below(2)); std::string q = c.path("kf"), t = x.kf_text; if (i) damage(r, t, t.size(), t); write_file(q, t); steady(i ? "key_file_damaged" : "key_file", [&] { keepass::Key z; try { z.SetKeyFile(q); auto y = z.Transform(std::array<uint8_t, 32>{}, 1, keepass::Key::SubKeyResolution::kHashSubKeys); sink ^= fnv(hex(y)); } catch (const std::exception& e) { sink ^= fnv(std::string(e.what())); } }); }
  if (sink == 0x123456789) c.count("coincidence"); c.sample(what);
}
