// The small building blocks: value wrappers, stream primitives, walks (C38).
#include "hostile.hh"
using namespace ref;

// ------------------------------------------------------------------ C38: the small building blocks
#include "binary.hh"
#include "io.hh"
#include "iterator.hh"
#include "temporal.hh"
#include "util.hh"
#include <ctime>
#include <sstream>
namespace {
struct PV { std::string v; bool p = false; };
struct TV { std::string v; int64_t lo = 0, hi = 0; };   // the time lies in [lo, hi]
void protect_values(Ctx& c) {
  Rng& r = c.rng; const int N = 4; std::vector<keepass::protect<std::string>> x(N); std::vector<PV> m(N); std::string log; GenOpt o; o.edge_ws = true;
  for (int i = 6 + r.below(30); i > 0; --i) {
    int a = r.below(N), b = r.below(N); std::string v = gen_text(r, o, 60); bool p = r.coin();
    switch (r.below(8)) {
      case 0: x[a] = keepass::protect<std::string>(v, p); m[a] = {v, p}; log += "assign a new value; "; break;
      case 1: x[a].set_value(v); m[a].v = v; log += "set_value; "; break;
      case 2: x[a].set_protected(p); m[a].p = p; log += "set_protected; "; break;
      case 3: x[a] = x[b]; m[a] = m[b]; log += a == b ? "assign to itself; " : "assign a copy; "; break;
      case 4: if (a != b) { x[a] = std::move(x[b]); m[a] = m[b]; x[b] = keepass::protect<std::string>(v, p); m[b] = {v, p}; log += "assign a moved value; "; } break;
      case 5: { keepass::protect<std::string> t(x[a]); x[b] = t; m[b] = m[a]; log += "copy; "; break; }
      case 6: if (a != b) { keepass::protect<std::string> t(std::move(x[a])); x[a] = keepass::protect<std::string>(v, p); x[b] = t; m[b] = m[a]; m[a] = {v, p}; log += "move; "; } break;
      default: { keepass::protect<std::string> t(x[b]); t.set_value(v); t.set_protected(!t.is_protected()); log += "change a copy; "; break; }
    }
    for (int k = 0; k < N; ++k) {
      const std::string& conv = x[k]; bool same = x[k].value() == m[k].v && *x[k] == m[k].v && x[k]->size() == m[k].v.size() && conv == m[k].v && x[k].is_protected() == m[k].p;
      if (!c.check(same, "protected-value-differs", "value " + std::to_string(k) + " is " + show(x[k].value()) + (x[k].is_protected() ? " protected" : "") + " instead of " + show(m[k].v) + (m[k].p ? " protected" : "") + " after: " + log)) return;
      for (int q = 0; q < N; ++q) { bool e = m[k].v == m[q].v && m[k].p == m[q].p; if (!c.check((x[k] == x[q]) == e && (x[k] != x[q]) == !e, "protected-comparison", log)) return; }
    }
    c.eval(fnv(log, c.idx));
  }
  c.count("protected_value_sequences");
}
void temporal_values(Ctx& c) {
  Rng& r = c.rng; const int N = 4; std::vector<keepass::temporal<std::string>> x(N); std::vector<TV> m(N); std::string log; GenOpt o;
  for (int i = 6 + r.below(30); i > 0; --i) {
    int a = r.below(N), b = r.below(N); std::string v = gen_text(r, o, 60); int64_t t = gen_time(r, o), t0 = time(nullptr);
    switch (r.below(9)) {
      case 0: x[a] = keepass::temporal<std::string>(v, t); m[a] = {v, t, t}; log += "assign a value of a time; "; break;
      case 1: x[a].Set(v); m[a] = {v, t0, (int64_t)time(nullptr)}; log += "Set; "; break;
      case 2: x[a] = v; m[a] = {v, t0, (int64_t)time(nullptr)}; log += "assign; "; break;
      case 3: x[a].set_time(t); m[a].lo = m[a].hi = t; log += "set_time; "; break;
      case 4: x[a] = x[b]; m[a] = m[b]; log += "assign a copy; "; break;
      case 5: if (a != b) { x[a] = std::move(x[b]); m[a] = m[b]; x[b] = keepass::temporal<std::string>(v, t); m[b] = {v, t, t}; log += "assign a moved value; "; } break;
      case 6: { keepass::temporal<std::string> q(x[a]); x[b] = q; m[b] = m[a]; log += "copy; "; break; }
      case 7: if (a != b) { keepass::temporal<std::string> q(std::move(x[a])); x[a] = keepass::temporal<std::string>(v, t); x[b] = q; m[b] = m[a]; m[a] = {v, t, t}; log += "move; "; } break;
      default: { keepass::temporal<std::string> q(x[b]); q.Set(v); q.set_time(t); log += "change a copy; "; break; }
    }
    for (int k = 0; k < N; ++k) {
      const std::string& conv = x[k]; bool same = x[k].value() == m[k].v && *x[k] == m[k].v && x[k]->size() == m[k].v.size() && conv == m[k].v && x[k].time() >= m[k].lo && x[k].time() <= m[k].hi;
      if (!c.check(same, "timed-value-differs", "value " + std::to_string(k) + " is " + show(x[k].value()) + " of time " + std::to_string(x[k].time()) + " instead of " + show(m[k].v) + " of " + std::to_string(m[k].lo) + ".." + std::to_string(m[k].hi) + " after: " + log)) return;
    }
    c.eval(fnv(log, c.idx));
  }
  c.count("timed_value_sequences");
}
void binary_values(Ctx& c) {
  Rng& r = c.rng; const int N = 3; std::vector<keepass::Binary> x(N, keepass::Binary(keepass::protect<std::string>("", false))); struct BV { std::string v; bool p = false, z = false; }; std::vector<BV> m(N); std::string log;
  for (int i = 4 + r.below(16); i > 0; --i) {
    int a = r.below(N), b = r.below(N); std::string v = gen_data(r, gen_size(r, 600)); bool p = r.coin();
    switch (r.below(5)) {
      case 0: x[a].set_data(keepass::protect<std::string>(v, p)); m[a].v = v; m[a].p = p; log += "set_data; "; break;
      case 1: x[a].set_compress(p); m[a].z = p; log += "set_compress; "; break;
      case 2: x[a] = x[b]; m[a] = m[b]; log += "assign; "; break;
      case 3: x[a] = keepass::Binary(keepass::protect<std::string>(v, p)); m[a] = {v, p, false}; log += "new; "; break;
      default: { keepass::Binary t(x[b]); t.set_data(keepass::protect<std::string>(v, p)); t.set_compress(!t.compress()); log += "change a copy; "; }
    }
    for (int k = 0; k < N; ++k) if (!c.check(*x[k].data() == m[k].v && x[k].data().is_protected() == m[k].p && x[k].compress() == m[k].z && x[k].Size() == m[k].v.size() && x[k].Empty() == m[k].v.empty(), "attachment-data-differs", "value " + std::to_string(k) + " after: " + log)) return;
    c.eval(fnv(log, c.idx));
  }
  auto u = r.arr<16>(); std::string s = gen_data(r, gen_size(r, 600)), s2 = r.bytes(r.below(50)); keepass::Icon i(u, Bytes(s.begin(), s.end())), j(i); j.set_data(Bytes(s2.begin(), s2.end())); c.check(i.uuid() == u && j.uuid() == u && i.data() == Bytes(s.begin(), s.end()) && j.data() == Bytes(s2.begin(), s2.end()), "icon-differs", "an icon and its changed copy");
  c.count("attachment_value_sequences");
}
template <class T> bool put_get(Ctx& c, std::stringstream& s, const std::vector<uint64_t>& v) { for (uint64_t x : v) keepass::conserve<T>(s, (T)x); for (uint64_t x : v) if (!c.check(keepass::consume<T>(s) == (T)x, "number-differs", std::to_string(sizeof(T)) + " byte number " + std::to_string(x))) return false; return true; }
void streams(Ctx& c) {
  Rng& r = c.rng; std::vector<uint64_t> v; for (int i = r.below(20); i >= 0; --i) v.push_back(r.coin() ? r.next() : r.pickl<uint64_t>({0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, ~0ull}));
  { std::stringstream s; if (!put_get<uint8_t>(c, s, v) || !put_get<uint16_t>(c, s, v) || !put_get<uint32_t>(c, s, v) || !put_get<uint64_t>(c, s, v)) return; c.check(s.str().size() == v.size() * 15, "number-size", "numbers took " + std::to_string(s.str().size()) + " bytes"); bool thrown = false; try { keepass::consume<uint32_t>(s); } catch (const keepass::IoError&) { thrown = true; } c.check(thrown, "end-not-reported", "a number was read behind the end"); }
  { std::stringstream s; keepass::conserve<uint32_t>(s, 0x01020304u); keepass::conserve<uint16_t>(s, 0xa0b0); c.check(s.str() == std::string("\x04\x03\x02\x01\xb0\xa0"), "byte-order", hex(s.str())); }
  { std::string t = r.bytes(r.below(8)); std::stringstream s(t); bool thrown = false; uint64_t x = 0; try { x = keepass::consume<uint64_t>(s); } catch (const keepass::IoError&) { thrown = true; } c.check(thrown == (t.size() < 8), "short-number", std::to_string(t.size()) + " bytes gave " + std::to_string(x)); }
  { std::string t = gen_data(r, 1 + gen_size(r, 3000)); std::stringstream s(t); auto a = keepass::consume<std::vector<uint8_t>>(s); c.check(std::string(a.begin(), a.end()) == t, "bytes-differ", std::to_string(t.size()) + " bytes"); std::stringstream q; keepass::conserve<std::vector<uint8_t>>(q, a); c.check(q.str() == t, "bytes-differ", "written"); std::stringstream z(t); auto b = keepass::consume<std::vector<char>>(z); c.check(std::string(b.begin(), b.end()) == t, "bytes-differ", "of char"); }
  { GenOpt o; o.edge_ws = true; std::string t = gen_text(r, o, 500); t = t.substr(0, t.find('\0')); std::stringstream s; keepass::conserve<std::string>(s, t); c.check(s.str() == t + std::string(1, 0), "text-differs", "written " + show(s.str())); c.check(keepass::consume<std::string>(s) == t, "text-differs", show(t)); }
  { size_t n = r.below(40), k = r.below(40); std::vector<int> src, dst(n, -1); for (size_t i = 0; i < k; ++i) src.push_back(i); bool thrown = false; try { std::copy(src.begin(), src.end(), keepass::bounds_checked(dst)); } catch (const std::out_of_range&) { thrown = true; } bool ok = thrown == (k > n); for (size_t i = 0; i < n; ++i) ok = ok && dst[i] == (i < k ? (int)i : -1); c.check(ok, "bounded-copy", std::to_string(k) + " elements into " + std::to_string(n)); }
  { int64_t a = (int32_t)r.next(), b = (int32_t)r.next(), x = (int32_t)r.next(); if (a > b) std::swap(a, b); int64_t g = keepass::clamp<int64_t>(a, b, x); c.check(g == (x < a ? a : x > b ? b : x), "clamp", std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(x)); }
  c.eval(fnv(&v[0], v.size() * 8)); c.count("stream_cases");
}
void walks(Ctx& c) {
  Rng& r = c.rng; GenOpt o; o.scale = 0; o.meta = false; o.refs = false; o.max_groups = r.chance(1, 10) ? 200 : 20; MDb d = gen_db(r, o); auto L = to_lib(d); std::vector<std::pair<keepass::Group*, size_t>> want, got;
  std::function<void(keepass::Group*, size_t)> own = [&](keepass::Group* g, size_t l) { for (auto& x : g->Groups()) { want.push_back({x.get(), l}); own(x.get(), l + 1); } }; own(L->root().get(), 0);
  keepass::dfs<keepass::Group, &keepass::Group::Groups>(L->root(), [&](const std::shared_ptr<keepass::Group>& g, size_t l) { got.push_back({g.get(), l}); });
  c.check(want == got, "walk-differs", std::to_string(want.size()) + " groups, " + std::to_string(got.size()) + " visited"); c.eval(model_hash(d), want.size() > 1); c.count("walks"); c.count("groups_visited", got.size());
}
}
PROP(C38, "every evaluation is one state of a sequence of operations, one batch of stream values or one walk; distinct by history or content") {
  protect_values(c); temporal_values(c); binary_values(c); streams(c); if (c.idx % 4 == 0) walks(c); c.sample("{\"case\":" + std::to_string(c.idx) + "}");
}
