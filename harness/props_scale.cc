// C39: memory and time of saving, printing and comparing grow with the database, not faster.
#include "hostile.hh"
#include <algorithm>
#include <ctime>
using namespace ref;

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
}
namespace {
struct Mem { bool on = false; size_t cur = 0, peak = 0; } M;
void on_malloc(const volatile void*, size_t n) { if (!M.on) return; M.cur += n; if (M.cur > M.peak) M.peak = M.cur; }
void on_free(const volatile void* p) { if (!M.on || !p) return; size_t n = __sanitizer_get_allocated_size(p); M.cur -= std::min(M.cur, n); }
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef std::shared_ptr<keepass::Group> G; typedef std::shared_ptr<keepass::Entry> E; typedef std::shared_ptr<keepass::Binary> B;
keepass::protect<std::string> ps(const std::string& s, bool p = false) { return keepass::protect<std::string>(s, p); }
G group(const std::string& n) { G g = std::make_shared<keepass::Group>(); g->set_name(n); return g; }
E entry(const std::string& t) { E e = std::make_shared<keepass::Entry>(); e->set_title(ps(t)); return e; }
B binary(const std::string& s, bool p = false) { return std::make_shared<keepass::Binary>(ps(s, p)); }
void attach(E e, const std::string& n, B b) { auto a = std::make_shared<keepass::Entry::Attachment>(); a->set_name(n); a->set_binary(b); e->AddAttachment(a); }
std::string num(uint64_t i) { return std::to_string(i); }
std::array<uint8_t, 16> uid(uint64_t i) { std::array<uint8_t, 16> u; u.fill(3); memcpy(&u[4], &i, 8); return u; }
void field(E e, std::string k, const std::string& v, bool p = false) { e->AddCustomField(k, ps(v, p)); }
std::string words(size_t n, const char* w) { std::string s; while (s.size() < n) s += w; s.resize(n); return s; }
// x: KDBX. The builder puts n parts into an empty database that has a root and one group g in it.
struct Kind { const char* name; bool x; size_t n; std::function<void(keepass::Database&, G g, size_t n, Rng&)> make; };
const std::vector<Kind>& kinds() {
  typedef keepass::Database D;
  static const std::vector<Kind> v = {
    {"groups", true, 3000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) g->AddGroup(group("g" + num(i))); }},
    {"groups in chains of 500", true, 3000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; i += 500) { G x = g; for (int j = 0; j < 500; ++j) { G y = group("x"); x->AddGroup(y); x = y; } } }},
    {"groups with references", true, 2000, [](D& d, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { G x = group("x"); E e = entry("e"); x->AddEntry(e); x->set_last_visible_entry(e); g->AddGroup(x); if (i + 1 == n) { d.meta()->set_recycle_bin(x); d.meta()->set_last_selected_group(x); } } }},
    {"entries", true, 1000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) g->AddEntry(entry("e" + num(i))); }},
    {"one entry per group", true, 1000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { G x = group("x"); x->AddEntry(entry("e")); g->AddGroup(x); } }},
    {"custom fields", true, 6000, [](D&, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) field(e, "k" + num(i), "v"); g->AddEntry(e); }},
    {"equal custom fields", true, 6000, [](D&, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) field(e, "k", "v"); g->AddEntry(e); }},
    {"protected fields", true, 5000, [](D&, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) field(e, "k" + num(i), "secret", true); g->AddEntry(e); }},
    {"history", true, 900, [](D&, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) { E h = entry("h"); field(h, "k", num(i)); e->AddHistoryEntry(h); if (e->history().size() > 50) { g->AddEntry(e); e = entry("e"); } } g->AddEntry(e); }},
    {"history of one entry", true, 900, [](D&, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) e->AddHistoryEntry(entry("h" + num(i))); g->AddEntry(e); }},
    {"nested histories", true, 900, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; i += 100) { E e = entry("e"); for (int j = 0; j < 100; ++j) { E f = entry("f"); f->AddHistoryEntry(e); e = f; } g->AddEntry(e); } }},
    {"pooled attachments of one entry", true, 2500, [](D& d, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) { B b = binary("x" + num(i)); d.meta()->AddBinary(b); attach(e, "a", b); } g->AddEntry(e); }},
    {"pooled attachments of many entries", true, 1000, [](D& d, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { B b = binary("x"); d.meta()->AddBinary(b); E e = entry("e"); attach(e, "a", b); g->AddEntry(e); } }},
    {"pool without references", true, 6000, [](D& d, G, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) d.meta()->AddBinary(binary("x")); }},
    {"references to one pool item", true, 6000, [](D& d, G g, size_t n, Rng&) { B b = binary(std::string(200, 'x')); d.meta()->AddBinary(b); E e = entry("e"); for (size_t i = 0; i < n; ++i) attach(e, "a", b); g->AddEntry(e); }},
    {"attachments outside the pool", true, 3000, [](D& d, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) d.meta()->AddBinary(binary("p")); E e = entry("e"); for (size_t i = 0; i < n; ++i) attach(e, "a", binary("x")); g->AddEntry(e); }},
    {"compressed attachments", true, 1000, [](D& d, G, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { B b = binary("x"); b->set_compress(true); d.meta()->AddBinary(b); } }},
    {"icons", true, 4000, [](D& d, G, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) d.meta()->AddIcon(std::make_shared<keepass::Icon>(uid(i), std::vector<uint8_t>(10, 1))); }},
    {"icons and references", true, 1500, [](D& d, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { auto c = std::make_shared<keepass::Icon>(uid(i), std::vector<uint8_t>(10, 1)); d.meta()->AddIcon(c); G x = group("g"); x->set_custom_icon(c); g->AddGroup(x); } }},
    {"associations", true, 6000, [](D&, G g, size_t n, Rng&) { E e = entry("e"); for (size_t i = 0; i < n; ++i) e->auto_type().AddAssociation("w" + num(i), "s"); g->AddEntry(e); }},
    {"custom data", true, 6000, [](D& d, G, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) d.meta()->AddField("k" + num(i), "v"); }},
    {"long text", true, 1000000, [](D&, G g, size_t n, Rng&) { g->set_notes(words(n, "word ")); }},
    {"long text of special characters", true, 300000, [](D&, G g, size_t n, Rng&) { g->set_notes(words(n, "<&>\"'\r")); }},
    {"long protected text", true, 500000, [](D&, G g, size_t n, Rng&) { E e = entry("e"); e->set_password(ps(words(n, "secret"), true)); g->AddEntry(e); }},
    {"long names", true, 500000, [](D& d, G g, size_t n, Rng&) { std::string t = words(n / 3, "name"); g->set_name(t); E e = entry("e"); field(e, t, "v"); g->AddEntry(e); d.meta()->AddField(t, "v"); }},
    {"large attachment", true, 1000000, [](D& d, G, size_t n, Rng& r) { d.meta()->AddBinary(binary(r.bytes(n))); }},
    {"large protected attachment", true, 500000, [](D& d, G, size_t n, Rng& r) { d.meta()->AddBinary(binary(r.bytes(n), true)); }},
    {"large compressed attachment", true, 500000, [](D& d, G, size_t n, Rng& r) { B b = binary(r.bytes(n)); b->set_compress(true); d.meta()->AddBinary(b); }},
    {"large uniform compressed attachment", true, 1000000, [](D& d, G, size_t n, Rng&) { B b = binary(std::string(n, 'x')); b->set_compress(true); d.meta()->AddBinary(b); }},
    {"large icon", true, 500000, [](D& d, G, size_t n, Rng&) { d.meta()->AddIcon(std::make_shared<keepass::Icon>(uid(1), std::vector<uint8_t>(n, 7))); }},
    {"groups", false, 6000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) g->AddGroup(group("g" + num(i))); }},
    {"groups in chains of 500", false, 6000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; i += 500) { G x = g; for (int j = 0; j < 500; ++j) { G y = group("x"); x->AddGroup(y); x = y; } } }},
    {"entries", false, 5000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) g->AddEntry(entry("e" + num(i))); }},
    {"one entry per group", false, 3000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { G x = group("x"); x->AddEntry(entry("e")); g->AddGroup(x); } }},
    {"attachments", false, 4000, [](D&, G g, size_t n, Rng&) { for (size_t i = 0; i < n; ++i) { E e = entry("e"); attach(e, "a", binary("x")); g->AddEntry(e); } }},
    {"long text", false, 2000000, [](D&, G g, size_t n, Rng&) { E e = entry("e"); e->set_notes(ps(words(n, "word "))); g->AddEntry(e); }},
    {"large attachment", false, 500000, [](D&, G g, size_t n, Rng& r) { E e = entry("e"); attach(e, "a", binary(r.bytes(n))); g->AddEntry(e); }},
  };
  return v;
}
std::unique_ptr<keepass::Database> build(const Kind& k, size_t n, Rng& r, bool gz) {
  std::unique_ptr<keepass::Database> d(new keepass::Database()); d->set_master_seed(std::vector<uint8_t>(k.x ? 32 : 16, 3)); d->set_init_vector(uid(1)); d->set_transform_seed(r.arr<32>()); d->set_transform_rounds(1);
  if (k.x) { d->set_inner_random_stream_key(r.arr<32>()); d->set_meta(std::make_shared<keepass::Metadata>()); d->set_compress(gz); }
  G root = group("root"), g = group("g"); root->AddGroup(g); d->set_root(root); k.make(*d, g, n, r); return d;
}
// Histories and chains are copied in memory only; everything else is compared with a copy built the same way.
double timed(Ctx& c, int op, const Kind& k, keepass::Database& d, keepass::Database& e, const keepass::Key& key, const std::string& p, int times) {
  double best = 1e9;
  for (int i = 0; i < times; ++i) {
    arm_cpu_limit(0); double a = cpu();
    if (op == 0) { Res x = lib_export(k.x, p, d, key); if (!x.ok()) throw Stop("export: " + x.what); }
    else if (op == 1) { std::string s = d.root()->ToJson(); c.maxi("max_json_bytes", s.size()); }
    else { volatile bool eq = *d.root() == *e.root(); (void)eq; }
    best = std::min(best, cpu() - a);
  }
  return best;
}
}
PROP(C39, "memory: one export; time: one comparison of CPU time at two sizes; distinct by kind, operation and size") {
  const Kind& k = kinds()[c.idx % kinds().size()]; MKey mk = gen_key(c.rng); auto key = to_key(mk, c); bool gz = c.rng.coin(); std::string p = c.path("f"), name = std::string(k.x ? "KDBX " : "KDB ") + k.name;
  if (c.phase == "memory") {
    static bool hooked = false;
    if (!hooked) { if (!__sanitizer_install_malloc_and_free_hooks || __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) < 1) throw Stop("no allocation hooks"); hooked = true; }
    size_t n = std::max<size_t>(1, k.n / (1 + c.rng.below(8))); auto d = build(k, n, c.rng, false); arm_cpu_limit(0);
    M = Mem(); M.on = true; Res x = lib_export(k.x, p, *d, key); M.on = false; if (!x.ok()) throw Stop("export: " + x.what);
    std::string f; read_file(p, f); size_t allowed = (12u << 20) + 40 * f.size();
    c.maxi("max_peak_bytes", M.peak); c.maxi("max_file_bytes", f.size()); if (f.size() > 50000) c.maxi("max_peak_per_file_byte", M.peak / f.size()); c.count("memory_measurements"); c.eval(fnv(name, n));
    c.check(M.peak <= allowed, "memory-grows-faster-than-database", name + ": " + num(M.peak) + " bytes at once for a file of " + num(f.size()) + " bytes");
    c.sample("{\"kind\":" + jesc(name) + "}"); return;
  }
  size_t f = c.thorough ? 16 : 8; auto a = build(k, k.n, c.rng, gz), b = build(k, k.n * f, c.rng, gz), a2 = build(k, k.n, c.rng, gz), b2 = build(k, k.n * f, c.rng, gz);
  static const char* ops[] = {"export", "JSON", "comparison"};
  for (int op = 0; op < 3; ++op) {
    double ta = timed(c, op, k, *a, *a2, key, p, 4), tb = timed(c, op, k, *b, *b2, key, p, 1); if (tb < 5) tb = std::min(tb, timed(c, op, k, *b, *b2, key, p, 1)); double grow = tb / f / ta;
    const double limit = 3;
    for (int i = 0; i < 6 && grow > limit && tb > 0.05 && !(tb > 3 && grow > 3.5) && (i < 2 || i * tb < 12); ++i) { ta = std::min(i ? ta : 1e9, timed(c, op, k, *a, *a2, key, p, 4)); tb = std::min(i ? tb : 1e9, timed(c, op, k, *b, *b2, key, p, 2)); c.count("measured_again"); grow = tb / f / ta; }
    c.maxi("max_growth_percent", (uint64_t)(grow * 100)); c.maxi("max_ms", (uint64_t)(tb * 1000)); c.eval(fnv(name + ops[op], k.n)); c.count("growth_measurements");
    c.check(!(grow > limit && tb > 0.05), "time-grows-faster-than-database", name + ", " + ops[op] + ": " + num((uint64_t)(ta * 1e6)) + " us for " + num(k.n) + ", " + num((uint64_t)(tb * 1e6)) + " us for " + num(k.n * f));
    if (getenv("VK_VERBOSE")) fprintf(stderr, "%-44s %-10s %8.1f ms %8.1f ms  growth %.2f\n", name.c_str(), ops[op], ta * 1e3, tb * 1e3, grow);
  }
  c.sample("{\"kind\":" + jesc(name) + "}");
}
