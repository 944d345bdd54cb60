// Object-level properties: C23 (equality), C24 (JSON).
#include "hostile.hh"
#include <algorithm>
using namespace ref;

// ---------------------------------------------------------------------------------------------- C23
// All single changes of an entry or group: each closure changes one property.
typedef std::function<void(Rng&)> Change;
static void flip(std::string& s, Rng& r) {
  switch (r.below(6)) { case 0: s += (char)r.range(1, 255); break; case 1: s += std::string(1, 0); break; case 2: if (!s.empty()) { s[r.below(s.size())] ^= (char)(1 << r.below(8)); break; } s = "x"; break; case 3: if (!s.empty()) { s.pop_back(); break; } s = "y"; break; case 4: if (!s.empty()) { s.clear(); break; } s = std::string(1, 0); break; default: s = "q" + s; }
}
static void entry_changes(MEntry& e, std::vector<std::pair<std::string, Change>>& v, const std::string& at, Rng& r) {
  auto str = [&](const char* n, std::string& s) { v.emplace_back(at + n, [&s](Rng& q) { flip(s, q); }); };
  auto prot = [&](const char* n, MProt& p) { v.emplace_back(at + n, [&p](Rng& q) { flip(p.v, q); }); v.emplace_back(at + n + ".protected", [&p](Rng&) { p.p = !p.p; }); };
  auto time = [&](const char* n, int64_t& t) { v.emplace_back(at + n, [&t](Rng& q) { t += q.pickl<int64_t>({1, -1, 4294967296ll, 86400}); }); };
  v.emplace_back(at + "uuid", [&e](Rng& q) { e.uuid[q.below(16)] ^= 1 << q.below(8); }); v.emplace_back(at + "icon", [&e](Rng& q) { e.icon ^= 1u << q.below(32); });
  prot("title", e.title); prot("url", e.url); prot("username", e.username); prot("password", e.password); prot("notes", e.notes);
  str("override_url", e.override_url); str("tags", e.tags); str("bg", e.bg); str("fg", e.fg);
  time("creation", e.t.creation); time("modification", e.t.modification); time("access", e.t.access); time("expiry", e.t.expiry); time("move", e.t.move);
  v.emplace_back(at + "expires", [&e](Rng&) { e.expires = !e.expires; }); v.emplace_back(at + "usage", [&e](Rng& q) { e.usage ^= 1u << q.below(32); });
  v.emplace_back(at + "at_enabled", [&e](Rng&) { e.at_enabled = !e.at_enabled; }); v.emplace_back(at + "at_obf", [&e](Rng& q) { e.at_obf ^= 1u << q.below(32); }); str("at_seq", e.at_seq);
  for (auto& a : e.assoc) { str("assoc.window", a.window); str("assoc.seq", a.seq); }
  for (auto& a : e.atts) { str("att.name", a.name); if (a.pool < 0 && !a.null_bin) { str("att.data", a.bin.data); v.emplace_back(at + "att.protected", [&a](Rng&) { a.bin.prot = !a.bin.prot; }); } }
  for (auto& x : e.fields) { str("field.key", x.first); prot("field.value", x.second); }
  v.emplace_back(at + "assoc.add", [&e](Rng& q) { e.assoc.insert(e.assoc.begin() + (q.coin() ? 0 : e.assoc.size()), MAssoc()); });
  v.emplace_back(at + "att.add", [&e](Rng& q) { MAtt a; e.atts.push_back(a); });
  v.emplace_back(at + "field.add", [&e](Rng& q) { e.fields.emplace_back("", MProt()); });
  v.emplace_back(at + "history.add", [&e](Rng& q) { MEntry h = e.history.empty() ? MEntry() : e.history.back(); e.history.push_back(h); });
  if (!e.assoc.empty()) v.emplace_back(at + "assoc.remove", [&e](Rng& q) { e.assoc.erase(e.assoc.begin() + q.below(e.assoc.size())); });
  if (!e.atts.empty()) v.emplace_back(at + "att.remove", [&e](Rng& q) { e.atts.erase(e.atts.begin() + (q.coin() ? e.atts.size() - 1 : q.below(e.atts.size()))); });
  if (!e.fields.empty()) v.emplace_back(at + "field.remove", [&e](Rng& q) { e.fields.erase(e.fields.begin() + (q.coin() ? e.fields.size() - 1 : q.below(e.fields.size()))); });
  if (!e.history.empty()) v.emplace_back(at + "history.remove", [&e](Rng& q) { e.history.erase(e.history.begin() + (q.coin() ? e.history.size() - 1 : q.below(e.history.size()))); });
  if (e.atts.size() > 1) v.emplace_back(at + "att.order", [&e](Rng& q) { std::swap(e.atts.front(), e.atts.back()); });
  if (e.fields.size() > 1) v.emplace_back(at + "field.order", [&e](Rng& q) { std::swap(e.fields.front(), e.fields.back()); });
  if (e.history.size() > 1) v.emplace_back(at + "history.order", [&e](Rng& q) { std::swap(e.history.front(), e.history.back()); });
  for (size_t i = 0; i < e.history.size() && i < 3; ++i) entry_changes(e.history[e.history.size() - 1 - i], v, at + "history.", r);
}
static void group_changes(MGroup& g, std::vector<std::pair<std::string, Change>>& v, const std::string& at, Rng& r) {
  auto str = [&](const char* n, std::string& s) { v.emplace_back(at + n, [&s](Rng& q) { flip(s, q); }); };
  auto time = [&](const char* n, int64_t& t) { v.emplace_back(at + n, [&t](Rng& q) { t += q.pickl<int64_t>({1, -1, 4294967296ll, 86400}); }); };
  v.emplace_back(at + "uuid", [&g](Rng& q) { g.uuid[q.below(16)] ^= 1 << q.below(8); }); v.emplace_back(at + "icon", [&g](Rng& q) { g.icon ^= 1u << q.below(32); });
  str("name", g.name); str("notes", g.notes); str("default_seq", g.default_seq);
  time("creation", g.t.creation); time("modification", g.t.modification); time("access", g.t.access); time("expiry", g.t.expiry); time("move", g.t.move);
  v.emplace_back(at + "expires", [&g](Rng&) { g.expires = !g.expires; }); v.emplace_back(at + "expanded", [&g](Rng&) { g.expanded = !g.expanded; }); v.emplace_back(at + "autotype", [&g](Rng&) { g.autotype = !g.autotype; }); v.emplace_back(at + "search", [&g](Rng&) { g.search = !g.search; });
  v.emplace_back(at + "usage", [&g](Rng& q) { g.usage ^= 1u << q.below(32); }); v.emplace_back(at + "flags", [&g](Rng& q) { g.flags ^= 1u << q.below(32); });
  v.emplace_back(at + "group.add", [&g](Rng& q) { MGroup x; if (!g.groups.empty()) x = g.groups.back(); g.groups.insert(q.coin() ? g.groups.begin() : g.groups.end(), x); });
  v.emplace_back(at + "entry.add", [&g](Rng& q) { MEntry x; if (!g.entries.empty()) x = g.entries.back(); g.entries.push_back(x); });
  if (!g.groups.empty()) v.emplace_back(at + "group.remove", [&g](Rng& q) { g.groups.erase(g.groups.begin() + (q.coin() ? g.groups.size() - 1 : q.below(g.groups.size()))); });
  if (!g.entries.empty()) v.emplace_back(at + "entry.remove", [&g](Rng& q) { g.entries.erase(g.entries.begin() + (q.coin() ? g.entries.size() - 1 : q.below(g.entries.size()))); });
  if (g.groups.size() > 1) v.emplace_back(at + "group.order", [&g](Rng&) { std::swap(g.groups.front(), g.groups.back()); });
  if (g.entries.size() > 1) v.emplace_back(at + "entry.order", [&g](Rng&) { std::swap(g.entries.front(), g.entries.back()); });
  for (auto& e : g.entries) entry_changes(e, v, at + "entry.", r);
  for (auto& x : g.groups) group_changes(x, v, at + "group.", r);
}
// Structural equality of models (own code; pool attachments are replaced by their data beforehand).
static bool meq(const MProt& a, const MProt& b) { return a.v == b.v && a.p == b.p; }
static bool meq(const MTimes& a, const MTimes& b) { return a.creation == b.creation && a.modification == b.modification && a.access == b.access && a.expiry == b.expiry && a.move == b.move; }
template <class T, class F> static bool all_eq(const std::vector<T>& a, const std::vector<T>& b, F f) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!f(a[i], b[i])) return false; return true; }
static bool meq(const MEntry& a, const MEntry& b) {
  return a.uuid == b.uuid && a.icon == b.icon && meq(a.title, b.title) && meq(a.url, b.url) && meq(a.username, b.username) && meq(a.password, b.password) && meq(a.notes, b.notes) && a.override_url == b.override_url && a.tags == b.tags && a.bg == b.bg && a.fg == b.fg && meq(a.t, b.t) && a.expires == b.expires && a.usage == b.usage && a.at_enabled == b.at_enabled && a.at_obf == b.at_obf && a.at_seq == b.at_seq &&
    all_eq(a.assoc, b.assoc, [](const MAssoc& x, const MAssoc& y) { return x.window == y.window && x.seq == y.seq; }) && all_eq(a.atts, b.atts, [](const MAtt& x, const MAtt& y) { return x.name == y.name && x.null_bin == y.null_bin && (x.null_bin || (x.bin.data == y.bin.data && x.bin.prot == y.bin.prot)); }) &&
    all_eq(a.fields, b.fields, [](const std::pair<std::string, MProt>& x, const std::pair<std::string, MProt>& y) { return x.first == y.first && meq(x.second, y.second); }) && all_eq(a.history, b.history, [](const MEntry& x, const MEntry& y) { return meq(x, y); });
}
static bool meq(const MGroup& a, const MGroup& b) {
  return a.uuid == b.uuid && a.icon == b.icon && a.name == b.name && a.notes == b.notes && a.default_seq == b.default_seq && meq(a.t, b.t) && a.expires == b.expires && a.expanded == b.expanded && a.autotype == b.autotype && a.search == b.search && a.usage == b.usage && a.flags == b.flags &&
    all_eq(a.groups, b.groups, [](const MGroup& x, const MGroup& y) { return meq(x, y); }) && all_eq(a.entries, b.entries, [](const MEntry& x, const MEntry& y) { return meq(x, y); });
}
static void strip_entry(MEntry& e, const MMeta& m, Rng& r) { e.custom_icon = -1; for (auto& a : e.atts) { if (a.pool >= 0) { a.bin = m.bins[a.pool]; a.pool = -1; } a.bin.compress = false; if (r.chance(1, 10)) { a.null_bin = true; a.bin = MBin(); } } for (auto& h : e.history) strip_entry(h, m, r); }
static void strip_group(MGroup& g, const MMeta& m, Rng& r) { g.custom_icon = -1; g.last_visible = -1; for (auto& e : g.entries) strip_entry(e, m, r); for (auto& x : g.groups) strip_group(x, m, r); }
PROP(C23, "every evaluation compares two objects in both directions; distinct by object and change") {
  Rng& r = c.rng; GenOpt o; o.scale = 0; o.edge_ws = true; o.max_groups = r.chance(1, 6) ? 12 : 4; MDb d = gen_db(r, o); bool many = c.idx % 97 == 13; if (many) c.count(std::string("many_") + add_many(d, r, false)); strip_group(d.root, d.meta, r);
  std::vector<std::shared_ptr<keepass::Binary>> pool; std::vector<std::shared_ptr<keepass::Icon>> icons; MGroup& root = d.root; uint64_t h = model_hash(d);
  // Sometimes equal attachments share one object, as the formats make them do.
  auto build = [&](const MGroup& g) { return to_lib_group(g, pool, icons); };
  auto cmp = [&](keepass::Group& a, keepass::Group& b, bool want, const std::string& what) {
    bool ab = a == b, ba = b == a, nab = a != b, nba = b != a;
    c.check(ab == want && ba == want, want ? "equal-objects-compare-unequal" : "different-objects-compare-equal", what + ": a == b is " + (ab ? "true" : "false") + ", b == a is " + (ba ? "true" : "false") + " | " + describe(d));
    c.check(nab == !ab && nba == !ba, "operators-contradict", what + " | " + describe(d)); c.eval(fnv(what, h));
  };
  auto A = build(root), B = build(root); cmp(*A, *A, true, "itself"); cmp(*A, *B, true, "a separately built copy");
  MGroup w = root; std::vector<std::pair<std::string, Change>> ch; group_changes(w, ch, "", r); c.count("possible_changes", ch.size());
  int n = std::min<size_t>(ch.size(), many ? 8 : 60);
  for (int i = 0; i < n; ++i) {
    MGroup copy = root; std::vector<std::pair<std::string, Change>> cc; group_changes(copy, cc, "", r); auto& x = cc[(i * 7919ull + r.below(cc.size())) % cc.size()];
    x.second(r); bool want = meq(root, copy); auto X = build(copy); std::string nm = x.first; cmp(*A, *X, want, nm); c.count(want ? "changes_without_effect" : "changes");
    size_t p = nm.find("entry."); if (p == std::string::npos) while (nm.compare(0, 6, "group.") == 0 && nm.find('.', 6) != std::string::npos) nm = nm.substr(6); else { nm = nm.substr(p + 6); while (nm.compare(0, 8, "history.") == 0 && nm.find("history.", 8) == 0) nm = nm.substr(8); } c.count("change_" + nm);
  }
  // References: equal when both refer to the same object or to none, different when only one does or the targets differ.
  {
    auto X = build(root), Y = build(root); std::array<uint8_t, 16> u1 = r.arr<16>(), u2 = r.arr<16>(); MEntry m1, m2; m1.uuid = u1; m2.uuid = u2; m2.title.v = "x";
    auto i1 = std::make_shared<keepass::Icon>(u1, std::vector<uint8_t>{1, 2}), i2 = std::make_shared<keepass::Icon>(u2, std::vector<uint8_t>{1, 3}); auto v1 = to_lib_entry(m1, pool, icons), v2 = to_lib_entry(m2, pool, icons);
    for (int i = 0; i < 14; ++i) {
      auto a = X, b = Y; while (!a->Groups().empty() && r.chance(2, 3)) { size_t k = r.below(a->Groups().size()); a = a->Groups()[k]; b = b->Groups()[k]; }
      std::shared_ptr<keepass::Entry> ea, eb; int kind = r.below(3);   // custom icon of an entry, of a group, last visible entry
      if (kind == 0) { if (a->Entries().empty()) kind = 1; else { size_t k = r.below(a->Entries().size()); ea = a->Entries()[k]; eb = b->Entries()[k]; while (!ea->history().empty() && r.coin()) { k = r.below(ea->history().size()); ea = ea->history()[k]; eb = eb->history()[k]; } } }
      auto set = [&](int side, int t) {
        std::shared_ptr<keepass::Icon> ic = t == 1 ? i1 : t == 2 ? i2 : nullptr; std::shared_ptr<keepass::Entry> vi = t == 1 ? v1 : t == 2 ? v2 : nullptr;
        if (t == 3) { ic = std::make_shared<keepass::Icon>(u1, std::vector<uint8_t>{1, 2}); vi = to_lib_entry(m1, pool, icons); }   // gone when this ends
        if (kind == 0) (side ? eb : ea)->set_custom_icon(ic); else if (kind == 1) (side ? b : a)->set_custom_icon(ic); else (side ? b : a)->set_last_visible_entry(vi);
      };
      int ta = r.below(4), tb = r.coin() ? ta : r.below(4); bool want = ta % 3 == tb % 3; set(0, ta); set(1, tb);
      std::string nm = std::string(kind == 0 ? "entry's custom icon" : kind == 1 ? "group's custom icon" : "last visible entry") + " " + std::to_string(ta) + "/" + std::to_string(tb) + " (0 none, 1 and 2 objects, 3 a destroyed object)";
      cmp(*X, *Y, want, nm); cmp(*a, *b, want, nm); if (ea) c.check((*ea == *eb) == want && (*eb == *ea) == want && (*ea != *eb) == !want, "entries-compare-wrong", nm + " | " + describe(d));
      c.count(want ? "references_same" : "references_different"); set(0, 0); set(1, 0);
    }
    cmp(*X, *Y, true, "references removed");
  }
  // Entries on their own, against others of the same database.
  std::vector<MGroup*> gs; preorder(root, gs); std::vector<const MEntry*> es; for (auto* g : gs) for (auto& e : g->entries) { es.push_back(&e); for (auto& q : e.history) es.push_back(&q); }
  for (int i = 0; i < 12 && es.size() > 1; ++i) {
    const MEntry &a = *es[r.below(es.size())]; MEntry b = *es[r.below(es.size())]; if (r.coin()) { b = a; if (r.coin()) { std::vector<std::pair<std::string, Change>> cc; entry_changes(b, cc, "", r); cc[r.below(cc.size())].second(r); } }
    auto X = to_lib_entry(a, pool, icons), Y = to_lib_entry(b, pool, icons); bool want = meq(a, b), ab = *X == *Y, ba = *Y == *X; c.check(ab == want && ba == want && (*X != *Y) == !ab && (*Y != *X) == !ba, "entries-compare-wrong", std::string("want ") + (want ? "equal" : "different") + " got " + (ab ? "equal" : "different") + "/" + (ba ? "equal" : "different")); c.count("entry_pairs"); c.eval(fnv("e" + std::to_string(i), h));
    if (!X->attachments().empty() && !Y->attachments().empty()) { auto &p = *X->attachments()[0], &q = *Y->attachments()[0]; const MAtt &s = a.atts[0], &t = b.atts[0]; bool we = s.name == t.name && s.null_bin == t.null_bin && (s.null_bin || (s.bin.data == t.bin.data && s.bin.prot == t.bin.prot)); c.check((p == q) == we && (q == p) == we && (p != q) == !we, "attachments-compare-wrong", show(s.name) + " / " + show(t.name)); c.count("attachment_pairs"); }
  }
  c.sample(describe(d));
}

// ---------------------------------------------------------------------------------------------- C24
struct JVal { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; std::string s; std::vector<JVal> a; std::vector<std::pair<std::string, JVal>> o; };
struct JParser {   // RFC 8259, strict, keeps repeated names
  const std::string& s; size_t i = 0; int depth = 0; JParser(const std::string& x) : s(x) {}
  [[noreturn]] void bad(const std::string& m) { throw std::runtime_error(m + " at offset " + std::to_string(i) + " near " + show(s.substr(i > 20 ? i - 20 : 0, 50))); }
  void ws() { while (i < s.size() && strchr(" \t\n\r", s[i]) && s[i]) ++i; }
  unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; ++k) { if (i >= s.size() || !isxdigit((unsigned char)s[i])) bad("bad \\u escape"); char h = s[i++]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } return v; }
  static void cp(std::string& o, uint32_t v) { if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xf0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } }
  std::string str() {
    if (i >= s.size() || s[i] != '"') bad("string expected"); ++i; std::string o;
    for (;;) {
      if (i >= s.size()) bad("unterminated string"); unsigned char ch = s[i++];
      if (ch == '"') return o; if (ch < 0x20) { --i; bad("control character in string"); }
      if (ch == '\\') { if (i >= s.size()) bad("unterminated escape"); char e = s[i++]; switch (e) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'u': { uint32_t v = hex4(); if (v >= 0xd800 && v < 0xdc00) { if (i + 1 >= s.size() || s[i] != '\\' || s[i + 1] != 'u') bad("lone surrogate"); i += 2; uint32_t w = hex4(); if (w < 0xdc00 || w > 0xdfff) bad("lone surrogate"); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } else if (v >= 0xdc00 && v < 0xe000) bad("lone surrogate"); cp(o, v); break; } default: bad("unknown escape"); } continue; }
      if (ch < 0x80) { o += (char)ch; continue; }
      int n = ch >= 0xf0 && ch < 0xf5 ? 3 : ch >= 0xe0 && ch < 0xf0 ? 2 : ch >= 0xc2 && ch < 0xe0 ? 1 : -1; if (n < 0) bad("invalid UTF-8"); o += (char)ch; for (; n > 0; --n) { if (i >= s.size() || ((unsigned char)s[i] & 0xc0) != 0x80) bad("invalid UTF-8"); o += s[i++]; }
    }
  }
  JVal val() {
    if (++depth > 5000) bad("nesting"); ws(); JVal v; if (i >= s.size()) bad("value expected");
    if (s[i] == '{') { v.t = JVal::OBJ; ++i; ws(); if (i < s.size() && s[i] == '}') ++i; else for (;;) { ws(); std::string k = str(); ws(); if (i >= s.size() || s[i] != ':') bad("':' expected"); ++i; v.o.emplace_back(k, val()); ws(); if (i < s.size() && s[i] == ',') { ++i; continue; } if (i < s.size() && s[i] == '}') { ++i; break; } bad("',' or '}' expected"); } }
    else if (s[i] == '[') { v.t = JVal::ARR; ++i; ws(); if (i < s.size() && s[i] == ']') ++i; else for (;;) { v.a.push_back(val()); ws(); if (i < s.size() && s[i] == ',') { ++i; continue; } if (i < s.size() && s[i] == ']') { ++i; break; } bad("',' or ']' expected"); } }
    else if (s[i] == '"') { v.t = JVal::STR; v.s = str(); }
    else if (s[i] == '-' || isdigit((unsigned char)s[i])) { v.t = JVal::NUM; size_t b = i; if (s[i] == '-') ++i; if (i < s.size() && s[i] == '0') ++i; else { size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i == q) bad("number"); } if (i < s.size() && s[i] == '.') { ++i; size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i == q) bad("number"); } if (i < s.size() && (s[i] | 32) == 'e') { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i == q) bad("number"); } v.s = s.substr(b, i - b); }
    else { for (const char* w : {"true", "false", "null"}) if (s.compare(i, strlen(w), w) == 0) { v.t = *w == 'n' ? JVal::NUL : JVal::BOOL; v.s = w; i += strlen(w); --depth; return v; } bad("value expected"); }
    --depth; return v;
  }
  JVal all() { JVal v = val(); ws(); if (i != s.size()) bad("text after the value"); return v; }
};
// Differences between the parsed JSON and the object; absent names stand for empty text, zero and no elements.
struct JCmp {
  std::string err; void fail(const std::string& m) { if (err.empty()) err = m; }
  const JVal* one(const JVal& v, const char* k) { const JVal* r = nullptr; for (auto& x : v.o) if (x.first == k) { if (r) fail(std::string("repeated name ") + k); r = &x.second; } return r; }
  void text(const JVal& v, const char* k, const std::string& want, const std::string& at) { const JVal* x = one(v, k); std::string got = x ? x->s : ""; if (x && x->t != JVal::STR) fail(at + k + " is not a string"); if (got != want) fail(at + k + " is " + show(got) + ", object has " + show(want)); }
  void num(const JVal& v, const char* k, uint64_t want, const std::string& at) { const JVal* x = one(v, k); std::string got = x ? x->s : "0"; if (x && x->t != JVal::NUM) fail(at + k + " is not a number"); if (got != std::to_string(want)) fail(at + k + " is " + got + ", object has " + std::to_string(want)); }
  void time(const JVal& v, const char* k, int64_t t, const std::string& at) { const JVal* x = one(v, k); if (t == 0) { if (x) fail(at + k + " is given although the time is not set"); return; } Civil ci = lib_local(t); char b[64]; snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d", (long long)ci.y, ci.mo, ci.d, ci.h, ci.mi, ci.s); if (!x) fail(at + k + " is missing"); else if (x->t != JVal::STR || x->s != b) fail(at + k + " is " + show(x->s) + ", local time is " + b); }
  void att(const JVal& v, const MAtt& a, const MMeta& m, const std::string& at) { if (v.t != JVal::OBJ) return fail(at + "attachment is not an object"); text(v, "name", a.name, at); text(v, "data", a.null_bin ? "" : a.pool >= 0 ? m.bins[a.pool].data : a.bin.data, at); }
  void entry(const JVal& v, const MEntry& e, const MMeta& m, const std::string& at) {
    if (v.t != JVal::OBJ) return fail(at + "entry is not an object"); num(v, "icon", e.icon, at);
    text(v, "title", e.title.v, at); text(v, "url", e.url.v, at); text(v, "username", e.username.v, at); text(v, "password", e.password.v, at); text(v, "notes", e.notes.v, at);
    time(v, "creation_time", e.t.creation, at); time(v, "modification_time", e.t.modification, at); time(v, "access_time", e.t.access, at); time(v, "expiry_time", e.t.expiry, at);
    size_t n = 0; for (auto& x : v.o) if (x.first == "attachment") { if (n < e.atts.size()) att(x.second, e.atts[n], m, at + "attachment " + std::to_string(n) + " "); ++n; } if (n != e.atts.size()) fail(at + std::to_string(n) + " attachments, object has " + std::to_string(e.atts.size()));
  }
  static bool meta(const MEntry& e) { bool b = false; for (auto& a : e.atts) b |= a.name == "bin-stream"; return b && e.title.v == "Meta-Info" && e.url.v == "$" && e.username.v == "SYSTEM" && !e.notes.v.empty(); }
  void group(const JVal& v, const MGroup& g, const MMeta& m, const std::string& at) {
    if (v.t != JVal::OBJ) return fail(at + "group is not an object"); num(v, "icon", g.icon, at); num(v, "flags", g.flags, at); text(v, "name", g.name, at); text(v, "notes", g.notes, at);
    time(v, "creation_time", g.t.creation, at); time(v, "modification_time", g.t.modification, at); time(v, "access_time", g.t.access, at); time(v, "expiry_time", g.t.expiry, at); time(v, "move_time", g.t.move, at);
    const JVal *gs = one(v, "groups"), *es = one(v, "entries"); size_t ng = gs ? gs->a.size() : 0, ne = es ? es->a.size() : 0;
    if (gs && gs->t != JVal::ARR) fail(at + "groups is not an array"); if (es && es->t != JVal::ARR) fail(at + "entries is not an array");
    std::vector<const MEntry*> want; for (auto& e : g.entries) if (!meta(e)) want.push_back(&e);
    if (ng != g.groups.size()) return fail(at + std::to_string(ng) + " groups, object has " + std::to_string(g.groups.size())); if (ne != want.size()) return fail(at + std::to_string(ne) + " entries, object has " + std::to_string(want.size()) + " besides meta entries");
    for (size_t i = 0; i < ng; ++i) group(gs->a[i], g.groups[i], m, at + "group " + std::to_string(i) + " / "); for (size_t i = 0; i < ne; ++i) entry(es->a[i], *want[i], m, at + "entry " + std::to_string(i) + " / ");
  }
};
PROP(C24, "non-trivial: at least one entry; distinct by content") {
  Rng& r = c.rng; std::string tz = set_tz(r); GenOpt o; o.json_safe = true; o.ctrl = true; o.edge_ws = true; o.scale = r.chance(1, 10) ? 1 : 0; o.max_groups = r.chance(1, 10) ? 40 : 8; o.kdb = r.chance(1, 5); MDb d = gen_db(r, o); if (c.idx % 301 == 13) c.count(std::string("many_") + add_many(d, r, o.kdb));
  Walk w; w.f = [&](std::string& s, bool) { if (r.chance(1, 6)) s = gen_utf8(r, 200); if (r.chance(1, 8)) for (int i = 1 + r.below(6); i > 0; --i) s += r.pickl<const char*>({"\"", "\\", "\n", "\r", "\t", "\b", "\f", "\x01", "\x1f", "\x7f", "/", "</script>", "\\u0041", "\\\"", "\xe2\x80\xa8", "\xc2\x80", "\xf0\x9f\x98\x80", "'", "{", "]"}); if (r.chance(1, 60)) s += std::string(1, 0) + "x"; };
  w.bin = [&](MBin& b) { GenOpt g; g.json_safe = true; b.data = gen_text(r, g, 300); if (r.chance(1, 4)) b.data += "\"\\\n\x02"; };
  w.db(d);
  std::function<void(MGroup&)> tweak = [&](MGroup& g) { g.flags = r.coin() ? 0 : (uint32_t)r.next(); for (auto& e : g.entries) { if (r.chance(1, 12)) { e.title = MProt("Meta-Info"); e.url = MProt("$"); e.username = MProt("SYSTEM"); e.notes = MProt(r.coin() ? "x" : ""); if (r.coin()) { MAtt a; a.name = "bin-stream"; a.bin.data = "1"; e.atts.push_back(a); } else if (r.coin()) e.title.v = "Meta-Infos"; c.count("nearly_meta_entries"); } if (r.chance(1, 15)) { MAtt a; a.name = r.coin() ? "" : "n"; a.null_bin = true; e.atts.push_back(a); } } for (auto& x : g.groups) tweak(x); };
  tweak(d.root);
  auto L = to_lib(d); std::string what = "TZ=" + tz + " " + describe(d);
  auto parse = [&](const std::string& t, JVal& v, const char* of) { c.count("documents"); c.count("json_bytes", t.size()); try { v = JParser(t).all(); return true; } catch (const std::exception& x) { c.viol("invalid-json", std::string(of) + ": " + x.what() + " | " + what); return false; } };
  JVal v; if (!parse(L->root()->ToJson(), v, "group")) return; JCmp j; j.group(v, d.root, d.meta, ""); c.check(j.err.empty(), "json-differs-from-object", j.err + " | " + what);
  std::vector<MGroup*> ms; preorder(d.root, ms); std::vector<keepass::Group*> ls; std::function<void(keepass::Group&)> pre = [&](keepass::Group& g) { ls.push_back(&g); for (auto& x : g.Groups()) pre(*x); }; pre(*L->root());
  for (size_t i = 0; i < ms.size() && i < 30; ++i) for (size_t q = 0; q < ms[i]->entries.size(); ++q) {
    auto& le = *ls[i]->Entries()[q]; const MEntry& me = ms[i]->entries[q]; JVal x; if (!parse(le.ToJson(), x, "entry")) return; JCmp k; k.entry(x, me, d.meta, ""); c.check(k.err.empty(), "json-differs-from-object", k.err + " | " + what);
    for (size_t z = 0; z < me.atts.size(); ++z) { JVal y; if (!parse(le.attachments()[z]->ToJson(), y, "attachment")) return; JCmp l; l.att(y, me.atts[z], d.meta, ""); c.check(l.err.empty(), "json-differs-from-object", l.err + " | " + what); }
    if (ls[i]->HasNonMetaEntries() != std::any_of(ms[i]->entries.begin(), ms[i]->entries.end(), [](const MEntry& e) { return !JCmp::meta(e); })) c.viol("meta-entries-misjudged", what);
  }
  c.eval(model_hash(d), count_entries(d.root) > 0); c.sample(describe(d));
}

// ------------------------------------------------------------------ C40: the sample program
int sample_main(int, const char*[]);
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
namespace {
struct Ran { int rc = 0; std::string out, err, thrown; };
Ran run_sample(const std::vector<std::string>& args) {
  Ran x; std::vector<const char*> a; for (auto& s : args) a.push_back(s.c_str()); a.push_back(nullptr); std::ostringstream o, e;
  auto so = std::cout.rdbuf(o.rdbuf()), se = std::cerr.rdbuf(e.rdbuf()); std::cout.clear(); std::cerr.clear();
  try { x.rc = sample_main((int)args.size(), a.data()); } catch (const std::exception& y) { x.thrown = y.what(); if (x.thrown.empty()) x.thrown = "an exception"; } catch (...) { x.thrown = "an exception"; }
  std::cout.rdbuf(so); std::cerr.rdbuf(se); x.out = o.str(); x.err = e.str(); return x;
}
}
PROP(C40, "non-trivial: a file with at least one entry; distinct by file bytes and name") {
  Rng& r = c.rng; std::string tz = set_tz(r); bool kdbx = c.idx % 2; GenOpt o; o.json_safe = true; o.ctrl = !kdbx; o.kdb = !kdbx; o.scale = r.chance(1, 12) ? 1 : 0; o.max_groups = r.chance(1, 10) ? 40 : 8; MDb d = gen_db(r, o); d.rounds = r.below(40);
  Walk w; w.bin = [&](MBin& b) { GenOpt g; g.json_safe = true; b.data = gen_text(r, g, 200); if (b.data.empty()) b.data = "x"; }; w.f = [](std::string&, bool) {}; w.db(d);
  MKey k; k.has_pw = true; k.pw = "password"; std::string f = kdbx ? kdbx_write(d, k, gen_kdbx_style(r), r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local);
  // Only a name that ends in ".kdb" stands for the older format.
  static const char* kdb_names[] = {"f.kdb", "f.g.kdb", ".kdb", "f.kdbx.kdb", "f g.kdb"}; static const char* kdbx_names[] = {"f.kdbx", "f", "f.kdb.bak", "f.kdb.kdbx", "kdb", "f.", "fkdb", "f.xkdb", "f.kdb2", ".kdbx"};
  std::string dir = c.path(r.chance(1, 4) ? "s.kdb.d" : "s"), name = kdbx ? kdbx_names[r.below(10)] : kdb_names[r.below(5)], p = dir + "/" + name; mkdir(dir.c_str(), 0700);
  unsigned kind = c.idx / 2 % 8; std::string what = name + " TZ=" + tz + " " + describe(d), how;
  if (kind < 5) {
    write_file(p, f); Ran x = run_sample({"sample", p}); unlink(p.c_str());
    if (!c.check(x.thrown.empty() && x.err.empty(), "readable-file-refused", x.thrown + x.err + " | " + what)) return;
    c.check(x.rc == 0, "exit-status", "status " + std::to_string(x.rc) + " | " + what);
    if (!c.check(!x.out.empty() && x.out.back() == '\n', "output-differs", "no line end behind the JSON text | " + what)) return;
    JVal v; try { v = JParser(x.out).all(); } catch (const std::exception& y) { c.viol("output-differs", std::string("no JSON: ") + y.what() + " | " + what); return; }
    MGroup top; top.groups = d.root.groups; JCmp j; j.group(v, kdbx ? d.root : top, d.meta, ""); c.check(j.err.empty(), "output-differs", j.err + " | " + what); c.count("files_shown");
  } else {
    std::vector<std::string> a = {"sample", p};
    if (kind == 5) { MKey q; q.has_pw = true; q.pw = r.pickl<const char*>({"Password", "password ", "passwor", "", "password1"}); write_file(p, kdbx ? kdbx_write(d, q, gen_kdbx_style(r), r) : kdb_write(d, q, gen_kdb_style(r), r, lib_local)); how = "other password"; }
    else if (kind == 6) { switch (r.below(4)) { case 0: how = "missing file"; break; case 1: { MDb e = d; MKey q = k; GenOpt oo; oo.kdb = kdbx; oo.scale = 0; e = gen_db(r, oo); e.rounds = 1; write_file(p, kdbx ? kdb_write(e, q, gen_kdb_style(r), r, lib_local) : kdbx_write(e, q, gen_kdbx_style(r), r)); how = "file of the other format"; break; } case 2: write_file(p, f.substr(0, r.below(f.size() - 40))); how = "cut file"; break; default: write_file(p, r.bytes(r.below(300))); how = "no database"; } }
    else { how = "wrong arguments"; a.resize(1); if (r.coin()) { a.push_back(p); for (int i = 1 + r.below(3); i > 0; --i) a.push_back("x"); } write_file(p, f); }
    Ran x = run_sample(a); unlink(p.c_str()); what = how + ": " + what;
    c.check(x.thrown.empty(), "exception-escapes", x.thrown + " | " + what);
    c.check(x.out.empty(), "output-of-unreadable-file", show(x.out, 200) + " | " + what);
    c.check(x.err.compare(0, 7, "error: ") == 0 && x.err.size() > 8 && x.err.back() == '\n', "no-error-text", "standard error: " + show(x.err, 200) + " | " + what);
    if (kind == 7) c.check(x.rc != 0, "exit-status", "status 0 | " + what);
    c.count(how);
  }
  rmdir(dir.c_str()); c.eval(fnv(f, fnv(name) + kind), count_entries(d.root) > 0); c.sample(describe(d));
}
