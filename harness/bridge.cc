#include "bridge.hh"
#include <exception>
#include "exception.hh"
using namespace keepass;

static protect<std::string> P(const MProt& p) { return protect<std::string>(p.v, p.p); }
static std::shared_ptr<Binary> B(const MBin& b) {
  auto r = std::make_shared<Binary>(protect<std::string>(b.data, b.prot)); r->set_compress(b.compress); return r;
}
std::shared_ptr<Entry> to_lib_entry(const MEntry& e, const std::vector<std::shared_ptr<Binary>>& pool, const std::vector<std::shared_ptr<Icon>>& icons) {
  auto r = std::make_shared<Entry>();
  r->set_uuid(e.uuid); r->set_icon(e.icon);
  if (e.custom_icon >= 0) r->set_custom_icon(icons.at(e.custom_icon));
  r->set_title(P(e.title)); r->set_url(P(e.url)); r->set_username(P(e.username)); r->set_password(P(e.password)); r->set_notes(P(e.notes));
  r->set_override_url(e.override_url); r->set_tags(e.tags); r->set_bg_color(e.bg); r->set_fg_color(e.fg);
  r->set_creation_time(e.t.creation); r->set_modification_time(e.t.modification); r->set_access_time(e.t.access);
  r->set_expiry_time(e.t.expiry); r->set_move_time(e.t.move);
  r->set_expires(e.expires); r->set_usage_count(e.usage);
  r->auto_type().set_enabled(e.at_enabled); r->auto_type().set_obfuscation(e.at_obf); r->auto_type().set_sequence(e.at_seq);
  for (auto& a : e.assoc) r->auto_type().AddAssociation(a.window, a.seq);
  for (auto& a : e.atts) {
    auto x = std::make_shared<Entry::Attachment>(); x->set_name(a.name);
    if (!a.null_bin) x->set_binary(a.pool >= 0 ? pool.at(a.pool) : B(a.bin));
    r->AddAttachment(x);
  }
  for (auto& f : e.fields) { std::string k = f.first; r->AddCustomField(k, P(f.second)); }
  for (auto& h : e.history) r->AddHistoryEntry(to_lib_entry(h, pool, icons));
  return r;
}
std::shared_ptr<Group> to_lib_group(const MGroup& g, const std::vector<std::shared_ptr<Binary>>& pool, const std::vector<std::shared_ptr<Icon>>& icons, std::vector<std::shared_ptr<Group>>* pre) {
  auto r = std::make_shared<Group>();
  if (pre) pre->push_back(r);
  r->set_uuid(g.uuid); r->set_icon(g.icon); r->set_name(g.name); r->set_notes(g.notes);
  if (g.custom_icon >= 0) r->set_custom_icon(icons.at(g.custom_icon));
  r->set_creation_time(g.t.creation); r->set_modification_time(g.t.modification); r->set_access_time(g.t.access);
  r->set_expiry_time(g.t.expiry); r->set_move_time(g.t.move);
  r->set_flags(g.flags); r->set_expires(g.expires); r->set_expanded(g.expanded); r->set_usage_count(g.usage);
  r->set_default_autotype_sequence(g.default_seq); r->set_autotype(g.autotype); r->set_search(g.search);
  for (auto& e : g.entries) r->AddEntry(to_lib_entry(e, pool, icons));
  if (g.last_visible >= 0) r->set_last_visible_entry(r->Entries().at(g.last_visible));
  for (auto& c : g.groups) r->AddGroup(to_lib_group(c, pool, icons, pre));
  return r;
}
std::unique_ptr<Database> to_lib(const MDb& db) {
  std::unique_ptr<Database> r(new Database());
  r->set_cipher(db.alg == ref::AES ? Database::Cipher::kAes : Database::Cipher::kTwofish);
  r->set_master_seed(std::vector<uint8_t>(db.master_seed.begin(), db.master_seed.end()));
  r->set_init_vector(db.iv); r->set_transform_seed(db.transform_seed); r->set_inner_random_stream_key(db.inner_key);
  r->set_transform_rounds(db.rounds); r->set_compress(db.compress);
  std::vector<std::shared_ptr<Binary>> pool; std::vector<std::shared_ptr<Icon>> icons; std::vector<std::shared_ptr<Group>> pre;
  const MMeta& m = db.meta;
  if (db.has_meta) {
    for (auto& b : m.bins) pool.push_back(B(b));
    for (auto& i : m.icons) icons.push_back(std::make_shared<Icon>(i.uuid, std::vector<uint8_t>(i.data.begin(), i.data.end())));
  }
  r->set_root(to_lib_group(db.root, pool, icons, &pre));
  if (db.has_meta) {
    auto x = std::make_shared<Metadata>();
    auto T = [](const MTemp& t) { return temporal<std::string>(t.v, t.t); };
    x->set_generator(m.generator); x->set_database_color(m.color);
    x->set_database_name(T(m.name)); x->set_database_desc(T(m.desc)); x->set_default_username(T(m.user));
    x->set_maintenance_hist_days(m.hist_days); x->set_master_key_changed(m.key_changed);
    x->set_master_key_change_rec(m.key_rec); x->set_master_key_change_force(m.key_force);
    x->memory_protection().set_title(m.p_title); x->memory_protection().set_username(m.p_user);
    x->memory_protection().set_password(m.p_pass); x->memory_protection().set_url(m.p_url); x->memory_protection().set_notes(m.p_notes);
    if (m.recycle_bin >= 0) x->set_recycle_bin(pre.at(m.recycle_bin));
    x->set_recycle_bin_changed(m.recycle_changed);
    if (m.templates >= 0) x->set_entry_templates(pre.at(m.templates));
    x->set_entry_templates_changed(m.templates_changed);
    x->set_history_max_items(m.hist_items); x->set_history_max_size(m.hist_size);
    if (m.last_selected >= 0) x->set_last_selected_group(pre.at(m.last_selected));
    if (m.last_visible >= 0) x->set_last_visible_group(pre.at(m.last_visible));
    for (auto& b : pool) x->AddBinary(b);
    for (auto& i : icons) x->AddIcon(i);
    for (auto& f : m.fields) x->AddField(f.first, f.second);
    r->set_meta(x);
  }
  return r;
}
namespace {
struct Back {
  std::vector<std::shared_ptr<Binary>> pool; std::vector<std::shared_ptr<Icon>> icons; std::vector<const Group*> pre;
  MProt P(const protect<std::string>& p) { return MProt(p.value(), p.is_protected()); }
  MBin B(const Binary& b) { MBin r; r.data = b.data().value(); r.prot = b.data().is_protected(); r.compress = b.compress(); return r; }
  int icon(const std::weak_ptr<Icon>& w) {
    auto p = w.lock(); if (!p) return -1;
    for (size_t i = 0; i < icons.size(); ++i) if (icons[i] == p) return i;
    return -2;
  }
  MEntry entry(Entry& e) {
    MEntry r; r.uuid = e.uuid(); r.icon = e.icon(); r.custom_icon = icon(e.custom_icon());
    r.title = P(e.title()); r.url = P(e.url()); r.username = P(e.username()); r.password = P(e.password()); r.notes = P(e.notes());
    r.override_url = e.override_url(); r.tags = e.tags(); r.bg = e.bg_color(); r.fg = e.fg_color();
    r.t.creation = e.creation_time(); r.t.modification = e.modification_time(); r.t.access = e.access_time(); r.t.expiry = e.expiry_time(); r.t.move = e.move_time();
    r.expires = e.expires(); r.usage = e.usage_count();
    r.at_enabled = e.auto_type().enabled(); r.at_obf = e.auto_type().obfuscation(); r.at_seq = e.auto_type().sequence();
    for (auto& a : e.auto_type().associations()) { MAssoc m; m.window = a.window(); m.seq = a.sequence(); r.assoc.push_back(m); }
    for (auto& a : e.attachments()) {
      MAtt m; m.name = a->name(); auto b = a->binary();
      if (!b) m.null_bin = true;
      else {
        for (size_t i = 0; i < pool.size() && m.pool < 0; ++i) if (pool[i] == b) m.pool = i;
        m.bin = B(*b);
      }
      r.atts.push_back(m);
    }
    for (auto& f : e.custom_fields()) r.fields.emplace_back(f.key(), P(f.value()));
    for (auto& h : e.history()) r.history.push_back(entry(*h));
    return r;
  }
  MGroup group(Group& g) {
    pre.push_back(&g);
    MGroup r; r.uuid = g.uuid(); r.icon = g.icon(); r.custom_icon = icon(g.custom_icon()); r.name = g.name(); r.notes = g.notes();
    r.t.creation = g.creation_time(); r.t.modification = g.modification_time(); r.t.access = g.access_time(); r.t.expiry = g.expiry_time(); r.t.move = g.move_time();
    r.flags = g.flags(); r.expires = g.expires(); r.expanded = g.expanded(); r.usage = g.usage_count();
    r.default_seq = g.default_autotype_sequence(); r.autotype = g.autotype(); r.search = g.search();
    auto lv = g.last_visible_entry().lock();
    if (lv) { r.last_visible = -2; for (size_t i = 0; i < g.Entries().size(); ++i) if (g.Entries()[i] == lv) r.last_visible = i; }
    for (auto& e : g.Entries()) r.entries.push_back(entry(*e));
    for (auto& c : g.Groups()) r.groups.push_back(group(*c));
    return r;
  }
  int gref(const std::shared_ptr<Group>& g) {
    if (!g) return -1;
    for (size_t i = 0; i < pre.size(); ++i) if (pre[i] == g.get()) return i;
    return -2;
  }
};
}
MDb from_lib(const Database& db) {
  MDb r; Back b;
  r.alg = db.cipher() == Database::Cipher::kAes ? ref::AES : ref::TWOFISH;
  r.master_seed.assign(db.master_seed().begin(), db.master_seed().end());
  r.iv = db.init_vector(); r.transform_seed = db.transform_seed(); r.inner_key = db.inner_random_stream_key();
  r.rounds = db.transform_rounds(); r.compress = db.compress();
  auto m = db.meta(); r.has_meta = !!m;
  if (m) { b.pool = m->binaries(); b.icons = m->icons(); }
  if (db.root()) r.root = b.group(*db.root());
  if (m) {
    MMeta& x = r.meta;
    auto T = [](const temporal<std::string>& t) { MTemp r; r.v = t.value(); r.t = t.time(); return r; };
    x.generator = m->generator(); x.color = m->database_color(); x.name = T(m->database_name()); x.desc = T(m->database_desc()); x.user = T(m->default_username());
    x.hist_days = m->maintenance_hist_days(); x.key_changed = m->master_key_changed(); x.key_rec = m->master_key_change_rec(); x.key_force = m->master_key_change_force();
    auto& p = m->memory_protection(); x.p_title = p.title(); x.p_user = p.username(); x.p_pass = p.password(); x.p_url = p.url(); x.p_notes = p.notes();
    x.recycle_bin = b.gref(m->recycle_bin()); x.recycle_changed = m->recycle_bin_changed();
    x.templates = b.gref(m->entry_templates()); x.templates_changed = m->entry_templates_changed();
    x.hist_items = m->history_max_items(); x.hist_size = m->history_max_size();
    x.last_selected = b.gref(m->last_selected_group().lock()); x.last_visible = b.gref(m->last_visible_group().lock());
    for (auto& y : m->binaries()) x.bins.push_back(b.B(*y));
    for (auto& y : m->icons()) { MIcon i; i.uuid = y->uuid(); i.data.assign(y->data().begin(), y->data().end()); x.icons.push_back(i); }
    for (auto& f : m->fields()) x.fields.emplace_back(f.key(), f.value());
  }
  return r;
}
Key to_key(const MKey& k, Ctx& c, const std::string& tag) {
  Key r; bool first = (k.pw.size() + c.idx) & 1;   // the order of the parts must not matter
  if (k.has_pw && first) r.SetPassword(k.pw);
  if (k.kf) { std::string p = c.path(tag + ".key"); write_file(p, k.kf_text); r.SetKeyFile(p); }
  if (k.has_pw && !first) r.SetPassword(k.pw);
  return r;
}
const char* out_name(Out o) {
  static const char* n[] = {"ok", "PasswordError", "FormatError", "FileNotFoundError", "IoError", "InternalError", "other std::exception"};
  return n[(int)o];
}
Out classify(const std::exception& e) {
  if (dynamic_cast<const PasswordError*>(&e)) return Out::password;
  if (dynamic_cast<const FormatError*>(&e)) return Out::format;
  if (dynamic_cast<const FileNotFoundError*>(&e)) return Out::notfound;
  if (dynamic_cast<const IoError*>(&e)) return Out::io;
  if (dynamic_cast<const InternalError*>(&e)) return Out::internal;
  return Out::other;
}
Res lib_import(bool kdbx, const std::string& path, const Key& key, KdbFile* f1, KdbxFile* f2) {
  Res r;
  try {
    if (kdbx) { if (f2) r.db = f2->Import(path, key); else { KdbxFile f; r.db = f.Import(path, key); } }
    else { if (f1) r.db = f1->Import(path, key); else { KdbFile f; r.db = f.Import(path, key); } }
  } catch (const std::exception& e) { r.out = classify(e); r.what = e.what(); r.db.reset(); }
  return r;
}
Res lib_export(bool kdbx, const std::string& path, const Database& db, const Key& key, KdbFile* f1, KdbxFile* f2) {
  Res r;
  try {
    if (kdbx) { if (f2) f2->Export(path, db, key); else { KdbxFile f; f.Export(path, db, key); } }
    else { if (f1) f1->Export(path, db, key); else { KdbFile f; f.Export(path, db, key); } }
  } catch (const std::exception& e) { r.out = classify(e); r.what = e.what(); }
  return r;
}
