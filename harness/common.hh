// Shared utilities of the harness: deterministic random source, case context and reporting, files.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Rng {
  uint64_t s[4];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = mix(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  bool coin() { return next() >> 63; }
  template <class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
  template <class T> T pickl(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (size_t i = 0; i < n; i += 8) { uint64_t v = next(); memcpy(&r[i], &v, std::min<size_t>(8, n - i)); }
    return r;
  }
  template <size_t N> std::array<uint8_t, N> arr() {
    std::array<uint8_t, N> a; std::string b = bytes(N); memcpy(a.data(), b.data(), N); return a;
  }
};

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
template <size_t N> uint64_t fnv(const char (&)[N], uint64_t) = delete;   // would take the second argument for a length
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

std::string hex(const void* p, size_t n);
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
template <size_t N> std::string hex(const std::array<uint8_t, N>& a) { return hex(a.data(), N); }
std::string unhex(const std::string&);
std::string jesc(const std::string&);          // JSON string literal
std::string show(const std::string&, size_t max = 60);  // printable abbreviation

// Files (plain POSIX, independent of the library).
bool read_file(const std::string& path, std::string& out);
void write_file(const std::string& path, const std::string& data);
bool file_exists(const std::string& path);

struct Stop : std::runtime_error { using std::runtime_error::runtime_error; };  // abandon a case (harness problem)

struct Ctx {
  std::string prop;
  uint64_t seed = 1, idx = 0;
  bool thorough = false;
  std::string dir;      // private scratch directory
  std::string repo;     // /repo
  std::string phase;    // which run of the check (see check.py)
  Rng rng;
  // Results.
  std::map<std::string, uint64_t> counts;
  std::set<uint64_t> distinct;          // hashes of non-trivial evaluations
  uint64_t evaluations = 0;
  std::vector<std::string> samples;     // JSON values
  int nviol = 0;
  std::function<void(const std::string&, const std::string&)> on_viol;

  void viol(const std::string& key, const std::string& msg) { ++nviol; if (on_viol) on_viol(key, msg); }
  bool check(bool ok, const std::string& key, const std::string& msg) { if (!ok) viol(key, msg); return ok; }
  void count(const std::string& k, uint64_t n = 1) { counts[k] += n; }
  void maxi(const std::string& k, uint64_t n) { auto& v = counts[k]; if (n > v) v = n; }
  // One evaluation of the property; `h` identifies the case content, `nontrivial` by the property's rule.
  void eval(uint64_t h, bool nontrivial = true) { ++evaluations; if (nontrivial) distinct.insert(h); }
  void sample(const std::string& json) { if (samples.size() < 4) samples.push_back(json); }
  std::string path(const std::string& name) const { return dir + "/" + name; }
};

typedef void (*CaseFn)(Ctx&);
struct PropDef { const char* id; CaseFn fn; const char* rule; };
struct PropReg { PropReg(const char* id, CaseFn fn, const char* rule); };
const std::vector<PropDef>& props();
#define PROP(id, rule) static void case_##id(Ctx& c); static PropReg reg_##id(#id, case_##id, rule); static void case_##id(Ctx& c)

// CPU-limit watchdog (armed per case by the runner; cases may re-arm for long phases).
void arm_cpu_limit(unsigned seconds);
// Runs fn in a child for a bounded CPU time: 0 did not finish, 1 returned, 2 threw.
int bounded(const std::function<void()>& fn, unsigned ms);
