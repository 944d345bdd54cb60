// C12: memory and time of an import are bounded by the real input size.
#include "hostile.hh"
#include <algorithm>
#include <ctime>
using namespace ref;

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
}
namespace {
struct Mem { bool on = false; size_t cur = 0, peak = 0, largest = 0, calls = 0; } M;
void on_malloc(const volatile void*, size_t n) { if (!M.on) return; M.cur += n; ++M.calls; if (M.cur > M.peak) M.peak = M.cur; if (n > M.largest) M.largest = n; }
void on_free(const volatile void* p) { if (!M.on || !p) return; size_t n = __sanitizer_get_allocated_size(p); M.cur -= std::min(M.cur, n); }
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Input { bool kdbx = true; std::string file; size_t plain = 0; size_t size() const { return file.size() + plain; } };
struct Env { Ctx& c; Rng& r; MDb d; MKey k; };

std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> 8 * i); return s; }
std::string fld(uint16_t t, const std::string& d) { return le(t, 2) + le(d.size(), 4) + d; }
std::string kgroup(uint32_t id, uint16_t level) { return fld(1, le(id, 4)) + fld(8, le(level, 2)) + fld(0xffff, ""); }
std::string kentry(uint32_t id, const std::string& extra = "") { return fld(2, le(id, 4)) + extra + fld(0xffff, ""); }
std::string rep(const std::string& s, size_t n) { std::string o; o.reserve(s.size() * n); for (size_t i = 0; i < n; ++i) o += s; return o; }
std::string uid(uint64_t i) { std::string s(16, 3); memcpy(&s[4], &i, 8); return b64(s); }
std::string num(uint64_t i) { return std::to_string(i); }
Input kdbx(Env& e, const std::string& xml, bool gz = false, std::vector<uint32_t> bs = {}) {
  KdbxStyle st; st.block_sizes = bs; e.d.compress = gz; e.d.alg = AES; Input i; i.file = kdbx_seal_xml(e.d, e.k, st, xml, e.r, gz); i.plain = xml.size() + (bs.empty() ? 0 : 0); return i;
}
Input kdb(Env& e, const std::string& content, uint32_t g, uint32_t n) { e.d.alg = AES; e.d.master_seed.resize(16, 1); Input i; i.kdbx = false; i.file = kdb_seal(e.d, e.k, content, g, n, 3, 0x00030004); i.plain = 0; return i; }
std::string doc(const std::string& meta, const std::string& root) { return "<KeePassFile><Meta><HeaderHash>@HH@</HeaderHash>" + meta + "</Meta><Root>" + root + "</Root></KeePassFile>"; }
std::string grp(const std::string& in) { return "<Group>" + in + "</Group>"; }

struct Kind { const char* name; size_t n; std::function<Input(Env&, size_t)> make; };
const std::vector<Kind>& kinds() {
  static const std::vector<Kind> v = {
    {"kdbx flat groups", 12000, [](Env& e, size_t n) { return kdbx(e, doc("", grp(rep("<Group/>", n)))); }},
    {"kdbx groups, chains of 900", 12000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; i += 900) s += rep("<Group>", 900) + rep("</Group>", 900); return kdbx(e, doc("", grp(s))); }},
    {"kdbx entries", 8000, [](Env& e, size_t n) { return kdbx(e, doc("", grp(rep("<Entry/>", n)))); }},
    {"kdbx entries with UUID", 6000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Entry><UUID>" + uid(i) + "</UUID></Entry>"; return kdbx(e, doc("", "<Group><LastTopVisibleEntry>" + uid(n - 1) + "</LastTopVisibleEntry>" + s + "</Group>")); }},
    {"kdbx groups with last visible entry", 4000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Group><UUID>" + uid(n + i) + "</UUID><LastTopVisibleEntry>" + uid(i) + "</LastTopVisibleEntry><Entry><UUID>" + uid(i) + "</UUID></Entry></Group>"; return kdbx(e, doc("<RecycleBinUUID>" + uid(2 * n - 1) + "</RecycleBinUUID>", grp(s))); }},
    {"kdbx dangling last visible entries", 6000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Group><LastTopVisibleEntry>" + uid(i) + "</LastTopVisibleEntry></Group>"; return kdbx(e, doc("", grp(s))); }},
    {"kdbx nested groups with references", 6000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; i += 800) { for (size_t j = 0; j < 800; ++j) s += "<Group><LastTopVisibleEntry>" + uid(i + j) + "</LastTopVisibleEntry>"; s += rep("</Group>", 800); } return kdbx(e, doc("", grp(s))); }},
    {"kdbx custom fields", 12000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<String><Key>k" + num(i) + "</Key><Value/></String>"; return kdbx(e, doc("", grp("<Entry>" + s + "</Entry>"))); }},
    {"kdbx equal custom fields", 12000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry>" + rep("<String><Key>k</Key><Value>v</Value></String>", n) + "</Entry>"))); }},
    {"kdbx protected fields", 9000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry>" + rep("<String><Key>k</Key><Value Protected=\"True\">AAAA</Value></String>", n) + "</Entry>"))); }},
    {"kdbx history", 8000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry><History>" + rep("<Entry/>", n) + "</History></Entry>"))); }},
    {"kdbx nested histories", 8000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; i += 400) s += rep("<Entry><History>", 400) + rep("</History></Entry>", 400); return kdbx(e, doc("", grp(s))); }},
    {"kdbx shared attachments", 6000, [](Env& e, size_t n) { std::string m, s; for (size_t i = 0; i < n; ++i) { m += "<Binary ID=\"" + num(i) + "\">QQ==</Binary>"; s += "<Entry><Binary><Key>a</Key><Value Ref=\"" + num(n - 1 - i) + "\"/></Binary></Entry>"; } return kdbx(e, doc("<Binaries>" + m + "</Binaries>", grp(s))); }},
    {"kdbx attachments of equal id", 12000, [](Env& e, size_t n) { return kdbx(e, doc("<Binaries>" + rep("<Binary ID=\"7\">QQ==</Binary>", n) + "</Binaries>", grp(""))); }},
    {"kdbx references to one attachment", 12000, [](Env& e, size_t n) { return kdbx(e, doc("<Binaries><Binary ID=\"0\">" + b64(std::string(300000, 'x')) + "</Binary></Binaries>", grp("<Entry>" + rep("<Binary><Key>a</Key><Value Ref=\"0\"/></Binary>", n) + "</Entry>"))); }},
    {"kdbx dangling attachment references", 12000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Binary><Key>a</Key><Value Ref=\"" + num(i) + "\"/></Binary>"; return kdbx(e, doc("", grp("<Entry>" + s + "</Entry>"))); }},
    {"kdbx attachments inside entries", 9000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry>" + rep("<Binary><Key>a</Key><Value>QUJD</Value></Binary>", n) + "</Entry>"))); }},
    {"kdbx compressed attachments", 3000, [](Env& e, size_t n) { return kdbx(e, doc("<Binaries>" + rep("<Binary ID=\"7\" Compressed=\"True\">" + b64(gzip("x")) + "</Binary>", n) + "</Binaries>", grp(""))); }},
    {"kdbx large attachment", 1000000, [](Env& e, size_t n) { return kdbx(e, doc("<Binaries><Binary ID=\"7\">" + b64(std::string(n, 'x')) + "</Binary></Binaries>", grp(""))); }},
    {"kdbx large protected attachment", 500000, [](Env& e, size_t n) { return kdbx(e, doc("<Binaries><Binary ID=\"7\" Protected=\"True\">" + b64(std::string(n, 'x')) + "</Binary></Binaries>", grp(""))); }},
    {"kdbx large compressed attachment", 2000000, [](Env& e, size_t n) { Input i = kdbx(e, doc("<Binaries><Binary ID=\"7\" Compressed=\"True\">" + b64(gzip(e.r.bytes(n / 20) + std::string(n, 'x'))) + "</Binary></Binaries>", grp(""))); i.plain += n; return i; }},
    {"kdbx many large compressed attachments", 8, [](Env& e, size_t n) { Input i = kdbx(e, doc("<Binaries>" + rep("<Binary ID=\"7\" Compressed=\"True\">" + b64(gzip(std::string(600000, 'x'))) + "</Binary>", n) + "</Binaries>", grp(""))); i.plain += n * 600000; return i; }},
    {"kdbx icons", 8000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Icon><UUID>" + uid(i) + "</UUID><Data>QQ==</Data></Icon>"; return kdbx(e, doc("<CustomIcons>" + s + "</CustomIcons>", grp(""))); }},
    {"kdbx icons and references", 4000, [](Env& e, size_t n) { std::string s, t; for (size_t i = 0; i < n; ++i) { s += "<Icon><UUID>" + uid(i) + "</UUID><Data>QQ==</Data></Icon>"; t += "<Entry><CustomIconUUID>" + uid(n - 1 - i) + "</CustomIconUUID></Entry>"; } return kdbx(e, doc("<CustomIcons>" + s + "</CustomIcons>", grp(t))); }},
    {"kdbx associations", 12000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry><AutoType>" + rep("<Association><Window>a</Window><KeystrokeSequence/></Association>", n) + "</AutoType></Entry>"))); }},
    {"kdbx custom data", 12000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Item><Key>k" + num(i) + "</Key><Value/></Item>"; return kdbx(e, doc("<CustomData>" + s + "</CustomData>", grp(""))); }},
    {"kdbx unknown elements", 40000, [](Env& e, size_t n) { return kdbx(e, doc(rep("<x/>", n / 2), grp(rep("<y/>", n / 2)))); }},
    {"kdbx unknown protected elements", 10000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry>" + rep("<x Protected=\"True\">AAAA</x>", n) + "</Entry>"))); }},
    {"kdbx attributes", 30000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += " a" + num(i) + "=\"1\""; return kdbx(e, doc("<Binaries><Binary ID=\"1\"" + s + "/></Binaries>", "<Group" + s + "/>")); }},
    {"kdbx text", 1500000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + rep("word ", n / 5) + "</Notes>"))); }},
    {"kdbx entities", 1000000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + rep("&lt;&#65;\r\n", n / 10) + "</Notes>"))); }},
    {"kdbx comments in text", 60000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + rep("a<!-- -->", n) + "</Notes>"))); }},
    {"kdbx CDATA sections", 60000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + rep("<![CDATA[a]]>", n) + "</Notes>"))); }},
    {"kdbx protected text", 800000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry><String><Key>Notes</Key><Value Protected=\"True\">" + b64(std::string(n, 'x')) + "</Value></String></Entry>"))); }},
    {"kdbx repeated standard fields", 20000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry>" + rep("<String><Key>Title</Key><Value>v</Value></String>", n) + "</Entry>"))); }},
    {"kdbx repeated metadata", 40000, [](Env& e, size_t n) { return kdbx(e, doc(rep("<DatabaseName>a</DatabaseName>", n), grp(""))); }},
    {"kdbx repeated roots", 20000, [](Env& e, size_t n) { return kdbx(e, std::string("<KeePassFile>") + "<Meta><HeaderHash>@HH@</HeaderHash></Meta>" + rep("<Meta/><Root/>", n) + "<Root><Group/></Root></KeePassFile>"); }},
    {"kdbx blocks of one byte", 30000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + std::string(n, 'a') + "</Notes>")), false, {1}); }},
    {"kdbx gzip in small blocks", 300000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + hex(e.r.bytes(n / 2)) + "</Notes>")), true, {3}); }},
    {"kdbx highly compressed", 3000000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + std::string(n, 'a') + "</Notes>")), true); }},
    {"kdbx highly compressed white space", 3000000, [](Env& e, size_t n) { return kdbx(e, doc(std::string(n, ' '), grp("")), true); }},
    {"kdbx incompressible", 700000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + hex(e.r.bytes(n / 2)) + "</Notes>")), true); }},
    {"kdbx base64 with white space", 1000000, [](Env& e, size_t n) { return kdbx(e, doc("<Binaries><Binary ID=\"7\">" + rep("Q U\nJ\tD ", n / 8) + "</Binary></Binaries>", grp(""))); }},
    {"kdbx protected text with white space", 600000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Entry><String><Key>a</Key><Value Protected=\"True\">" + rep("QUJD\n    ", n / 9) + "</Value></String></Entry>"))); }},
    {"kdbx base64 of white space", 1500000, [](Env& e, size_t n) { return kdbx(e, doc("<CustomIcons><Icon><UUID>" + std::string(n, '\n') + "</UUID><Data>Q" + std::string(n, ' ') + "Q==</Data></Icon></CustomIcons>", grp(""))); }},
    {"kdbx large icon", 700000, [](Env& e, size_t n) { return kdbx(e, doc("<CustomIcons><Icon><UUID>" + uid(1) + "</UUID><Data>" + b64(std::string(n, 'x')) + "</Data></Icon></CustomIcons>", grp(""))); }},
    {"kdbx long names", 800000, [](Env& e, size_t n) { std::string t(n / 5, 'k'); return kdbx(e, doc("<CustomData><Item><Key>" + t + "</Key><Value>" + t + "</Value></Item></CustomData>", grp("<Name>" + t + "</Name><Entry><Tags>" + t + "</Tags><String><Key>" + t + "</Key><Value/></String></Entry>"))); }},
    {"kdbx long element names", 800000, [](Env& e, size_t n) { std::string t(n / 4, 'k'); return kdbx(e, doc("<" + t + " " + t + "=\"" + t + "\"></" + t + ">", grp(""))); }},
    {"kdbx long times and numbers", 700000, [](Env& e, size_t n) { return kdbx(e, doc("<MaintenanceHistoryDays>" + std::string(n / 2, '0') + "1</MaintenanceHistoryDays>", grp("<IconID>" + std::string(n / 2, ' ') + "7</IconID>"))); }},
    {"kdbx dangling icons", 8000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Entry><CustomIconUUID>" + uid(i) + "</CustomIconUUID></Entry>"; return kdbx(e, doc("", grp(s))); }},
    {"kdbx references to groups", 4000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += "<Group><UUID>" + uid(i) + "</UUID></Group>"; return kdbx(e, doc("<LastSelectedGroup>" + uid(n - 1) + "</LastSelectedGroup><LastTopVisibleGroup>" + uid(n / 2) + "</LastTopVisibleGroup><EntryTemplatesGroup>" + uid(n - 2) + "</EntryTemplatesGroup><RecycleBinUUID>" + uid(n - 3) + "</RecycleBinUUID>", grp(s))); }},
    {"kdbx large blocks", 1500000, [](Env& e, size_t n) { return kdbx(e, doc("", grp("<Notes>" + rep("word ", n / 5) + "</Notes>")), false, {16u << 20}); }},
    {"kdbx repeated header fields", 3000, [](Env& e, size_t n) { KdbxStyle st; std::string start = e.r.bytes(32), h = kdbx_header(e.d, st, start, e.r); auto f = kdbx_split(h); auto seed = f[0]; for (auto& x : f) if (x.id == 4) seed = x; f.insert(f.begin(), n, seed); h = kdbx_join(h.substr(0, 12), f); Input i; i.file = kdbx_around(e.d, e.k, st, h, start, e.r); return i; }},
    {"kdb long names", 1500000, [](Env& e, size_t n) { std::string t(n / 3, 'k'); t += std::string(1, 0); return kdb(e, fld(1, le(1, 4)) + fld(2, t) + fld(8, le(0, 2)) + fld(0xffff, "") + kentry(1, fld(4, t) + fld(7, t)), 1, 1); }},
    {"kdb flat groups", 15000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += kgroup(i + 1, 0); return kdb(e, s, n, 0); }},
    {"kdb deep groups", 15000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += kgroup(i + 1, i % 900); return kdb(e, s, n, 0); }},
    {"kdb groups of equal id", 15000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += kgroup(1, 0); return kdb(e, s, n, 0); }},
    {"kdb entries in one group", 10000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + rep(kentry(1), n), 1, n); }},
    {"kdb one entry per group", 6000, [](Env& e, size_t n) { std::string s, t; for (size_t i = 0; i < n; ++i) { s += kgroup(i + 1, 0); t += kentry(n - i); } return kdb(e, s + t, n, n); }},
    {"kdb entries of the last group", 6000, [](Env& e, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += kgroup(i + 1, i % 50); return kdb(e, s + rep(kentry(n), n), n, n); }},
    {"kdb repeated fields", 60000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + kentry(1, rep(fld(4, std::string("a\0", 2)), n)), 1, 1); }},
    {"kdb repeated attachment fields", 60000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + kentry(1, rep(fld(13, std::string("a\0", 2)) + fld(14, "xy"), n / 2)), 1, 1); }},
    {"kdb extension fields", 60000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + kentry(1, rep(fld(0, "abc"), n)), 1, 1); }},
    {"kdb long text", 3000000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + kentry(1, fld(8, std::string(n, 'a') + std::string(1, 0))), 1, 1); }},
    {"kdb large attachment", 3000000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + kentry(1, fld(13, std::string("a\0", 2)) + fld(14, std::string(n, 'a'))), 1, 1); }},
    {"kdb trailing bytes", 3000000, [](Env& e, size_t n) { return kdb(e, kgroup(1, 0) + std::string(n, 'a'), 1, 0); }},
  };
  return v;
}
double timed(Env& e, const Input& in, const keepass::Key& key, int times) {
  std::string p = e.c.path("t"); write_file(p, in.file); double best = 1e9;
  for (int i = 0; i < times; ++i) {
    arm_cpu_limit(0); double a = cpu(); { Res x = lib_import(in.kdbx, p, key); e.c.count(std::string("time_") + out_name(x.out)); if (getenv("VK_VERBOSE") && !i) fprintf(stderr, "   %s %s\n", out_name(x.out), x.what.c_str()); } best = std::min(best, cpu() - a);
  }
  return best;
}
void budget(Env& e, const Input& in, const keepass::Key& key, const std::string& how) {
  std::string p = e.c.path("m"); write_file(p, in.file); arm_cpu_limit(0);
  M = Mem(); M.on = true; double a = cpu(); Res x = lib_import(in.kdbx, p, key); double t = cpu() - a; M.on = false;
  size_t allowed = (12u << 20) + 100 * in.size();
  e.c.count(std::string("mem_") + out_name(x.out)); e.c.maxi("max_peak_bytes", M.peak); e.c.maxi("max_single_allocation", M.largest); e.c.maxi("max_input_bytes", in.size());
  if (in.size() > 50000) e.c.maxi("max_peak_per_input_byte", M.peak / in.size());
  e.c.count("allocations", M.calls); e.c.eval(fnv(in.file));
  e.c.check(M.peak <= allowed, "memory-not-bounded-by-input", how + ": " + num(M.peak) + " bytes at once for " + num(in.file.size()) + " bytes of file and " + num(in.plain) + " of content; result " + out_name(x.out) + " " + x.what);
  // A fixed allowance plus 40 microseconds per byte of input (hundreds of times the usual cost, sanitizers included).
  e.c.check(t <= 5 + 4e-5 * in.size(), "time-not-bounded-by-input", how + ": " + num((uint64_t)(t * 1000)) + " ms of CPU for " + num(in.size()) + " bytes");
}
uint32_t lie(Rng& r) { return r.pickl<uint32_t>({0xffffffffu, 0xfffffff0u, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x10000000u, 0x08000000u, 0x04000000u, 0x02000000u, (uint32_t)r.next() | 0x02000000u}); }
void lies(Ctx& c) {
  Rng& r = c.rng; MKey k = gen_key(r); auto key = to_key(k, c); bool x = r.coin(); GenOpt o; o.kdb = !x; o.scale = 0; o.max_groups = 6; MDb d = gen_db(r, o); d.rounds = 0; Env e{c, r, d, k};
  if (d.master_seed.size() > 200) d.master_seed.resize(32);
  for (int i = 0; i < 12; ++i) {
    Input in; in.kdbx = x; std::string how; uint32_t v = lie(r);
    if (x) {
      KdbxStyle st = gen_kdbx_style(r); st.version = 0x00030001; d.compress = r.coin(); std::string start = r.bytes(32), h = kdbx_header(d, st, start, r); Salsa20 obf = inner_stream(d);
      std::string xml = xml_write(kdbx_dom(d, st, b64(str(sha256(h))), r, obf), st.xml, &r), body = d.compress ? gzip(xml) : xml; in.plain = xml.size();
      switch (r.below(5)) {
        case 0: { how = "block size"; std::string b = hash_blocks(body, st.block_sizes); size_t p = 0; for (int j = r.below(4); j > 0; --j) { size_t n = get32(b, p + 36); if (p + 40 + n + 40 > b.size()) break; p += 40 + n; } b.replace(p + 36, 4, le(v, 4)); if (r.coin()) b.resize(std::min(b.size(), p + 40 + r.below(40))); in.file = kdbx_encrypt(d, k, h, start, b); break; }
        case 1: { how = "header field size"; std::string f = kdbx_encrypt(d, k, h, start, hash_blocks(body)); size_t p = 12, n = header_size(true, f); for (int j = r.below(9); j > 0; --j) { size_t l = (uint8_t)f[p + 1] | (size_t)(uint8_t)f[p + 2] << 8; if (p + 3 + l >= n) break; p += 3 + l; } f.replace(p + 1, 2, le(0xffff - r.below(3), 2)); in.file = f; break; }
        case 2: { how = "gzip length field"; std::string g = gzip(xml); g.replace(g.size() - 4, 4, le(v, 4)); d.compress = true; h = kdbx_header(d, st, start, r); in.file = kdbx_encrypt(d, k, h, start, hash_blocks(g)); break; }
        case 3: { how = "attachment id, counts in the document"; std::string s = "<Meta><HeaderHash>@HH@</HeaderHash><Binaries><Binary ID=\"" + num(v) + "\">QQ==</Binary></Binaries><MaintenanceHistoryDays>" + num(v) + "</MaintenanceHistoryDays><HistoryMaxItems>2147483647</HistoryMaxItems><HistoryMaxSize>" + num(v) + "</HistoryMaxSize></Meta><Root><Group><IconID>" + num(v) + "</IconID><Entry><IconID>" + num(v) + "</IconID><Binary><Key>a</Key><Value Ref=\"" + num(v) + "\"/></Binary><Times><UsageCount>" + num(v) + "</UsageCount></Times></Entry></Group></Root>"; d.compress = false; in = kdbx(e, "<KeePassFile>" + s + "</KeePassFile>"); break; }
        default: { how = "attachment gzip length"; std::string g = gzip("abc"); g.replace(g.size() - 4, 4, le(v, 4)); in = kdbx(e, doc("<Binaries><Binary ID=\"0\" Compressed=\"True\">" + b64(g) + "</Binary></Binaries>", grp(""))); break; }
      }
    } else {
      uint32_t ng, ne; std::string t = kdb_content(d, KdbStyle(), r, lib_local, &ng, &ne);
      switch (r.below(4)) {
        case 0: how = "group count"; ng = v; break;
        case 1: how = "entry count"; ne = v; break;
        case 2: how = "both counts"; ng = v; ne = lie(r); if (r.coin()) t.clear(); break;
        default: { how = "field size"; size_t p = 0; for (int j = r.below(30); j > 0 && t.size() >= 6; --j) { size_t n = get32(t, p + 2); if (p + 6 + n + 6 > t.size()) break; p += 6 + n; } if (t.size() >= 6) t.replace(p + 2, 4, le(v, 4)); if (r.coin() && p + 6 < t.size()) t.resize(p + 6 + r.below(t.size() - p - 6)); if (r.chance(1, 4)) ng = 1u << 30; break; }
      }
      in.file = kdb_seal(d, k, t, ng, ne, d.alg == AES ? 3 : 9, 0x00030004);
    }
    budget(e, in, key, "lying " + how + " " + num(v)); c.count("lies");
    if (r.coin()) { Input g = in; damage(r, g.file, std::min<size_t>(124, g.file.size()), g.file); if (feasible(x, g.file)) budget(e, g, key, "lying and damaged"); }
  }
}
}
PROP(C12, "memory: one import of one adversarial input; time: one comparison of CPU time at two sizes; distinct by input") {
  if (c.phase == "memory") {
    static bool hooked = false;
    if (!hooked) { if (!__sanitizer_install_malloc_and_free_hooks || __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) < 1) throw Stop("no allocation hooks"); hooked = true; }
    if (c.idx % 4 != 0) { lies(c); c.sample("{\"kind\":\"lies\"}"); return; }
    const Kind& kd = kinds()[(c.idx / 4) % kinds().size()]; MKey k = gen_key(c.rng); auto key = to_key(k, c); MDb d; d.rounds = 0; d.master_seed = c.rng.bytes(32); Env e{c, c.rng, d, k};
    size_t n = std::max<size_t>(1, kd.n / (1 + c.rng.below(6))); budget(e, kd.make(e, n), key, kd.name); c.count("repetitive_inputs"); c.sample("{\"kind\":" + jesc(kd.name) + "}");
    return;
  }
  const Kind& kd = kinds()[c.idx % kinds().size()]; MKey k = gen_key(c.rng); auto key = to_key(k, c); MDb d; d.rounds = 0; d.master_seed = c.rng.bytes(32); Env e{c, c.rng, d, k};
  size_t f = c.thorough ? 16 : 8, n = kd.n; Input a = kd.make(e, n), b = kd.make(e, n * f);
  double ta = timed(e, a, key, 5), tb = timed(e, b, key, 1); if (tb < 5) tb = std::min(tb, timed(e, b, key, 1)); double grow = (tb / b.size()) / (ta / a.size());
  const double limit = 2.2;
  for (int i = 0; i < 6 && grow > limit && tb > 0.05 && !(tb > 3 && grow > 3.5) && (i < 2 || i * tb < 12); ++i) { ta = std::min(i ? ta : 1e9, timed(e, a, key, 4)); tb = std::min(i ? tb : 1e9, timed(e, b, key, 2)); c.count("measured_again"); grow = (tb / b.size()) / (ta / a.size()); }
  c.maxi("max_growth_per_byte_percent", (uint64_t)(grow * 100)); c.maxi("max_input_bytes", b.size()); c.maxi("max_ms", (uint64_t)(tb * 1000)); c.eval(fnv(std::string(kd.name), n)); c.count("growth_measurements");
  c.check(!(grow > limit && tb > 0.05), "time-grows-faster-than-input", std::string(kd.name) + ": " + num((uint64_t)(ta * 1e6)) + " us for " + num(a.size()) + " bytes, " + num((uint64_t)(tb * 1e6)) + " us for " + num(b.size()) + " bytes");
  c.maxi("max_ns_per_byte", (uint64_t)(tb / b.size() * 1e9)); if (getenv("VK_VERBOSE")) fprintf(stderr, "%-44s %8.1f ms %10zu B  %8.1f ms %10zu B  growth %.2f  ns/B %.1f\n", kd.name, ta * 1e3, a.size(), tb * 1e3, b.size(), grow, tb / b.size() * 1e9);
  c.sample("{\"kind\":" + jesc(kd.name) + ",\"growth_per_byte\":" + std::to_string(grow) + "}");
}
