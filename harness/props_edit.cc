// C34: edits made through the object interface to a database that came from a file survive saving.
#include "gen.hh"
#include "bridge.hh"
using namespace keepass;

namespace {
protect<std::string> P(const MProt& p) { return protect<std::string>(p.v, p.p); }
typedef std::shared_ptr<Entry> LE;
typedef std::shared_ptr<Group> LG;

struct Edit {
  Ctx& c; Rng& r; bool kdbx; GenOpt o; MDb m; std::unique_ptr<Database> L; std::vector<std::string> log;
  std::vector<MGroup*> mg; std::vector<LG> lg;
  Edit(Ctx& ctx, bool x) : c(ctx), r(ctx.rng), kdbx(x) { o.kdb = !x; o.ctrl = !x; o.max_groups = 10; o.scale = r.chance(1, 20) ? 1 : 0; }
  void note(const char* n) { log.push_back(n); c.count(std::string("edit_") + n); }

  void walk(const LG& g) { lg.push_back(g); for (auto& x : g->Groups()) walk(x); }
  void index() { mg.clear(); lg.clear(); preorder(m.root, mg); walk(L->root()); if (mg.size() != lg.size()) throw Stop("model and library trees differ in shape"); }
  std::vector<std::shared_ptr<Binary>> pool() { return L->meta() ? L->meta()->binaries() : std::vector<std::shared_ptr<Binary>>(); }
  std::vector<std::shared_ptr<Icon>> icons() { return L->meta() ? L->meta()->icons() : std::vector<std::shared_ptr<Icon>>(); }
  const MDb* ctxdb() { return kdbx ? &m : nullptr; }

  bool pick_entry(MEntry*& me, LE& le, size_t& gi, size_t& ei) {
    std::vector<std::pair<size_t, size_t>> all;
    for (size_t g = 0; g < mg.size(); ++g) for (size_t e = 0; e < mg[g]->entries.size(); ++e) if (kdbx || g) all.emplace_back(g, e);
    if (all.empty()) return false;
    auto p = r.pick(all); gi = p.first; ei = p.second; me = &mg[gi]->entries[ei]; le = lg[gi]->Entries().at(ei);
    return true;
  }
  void times_entry(MEntry& e, Entry& l, const MTimes& t) {
    if (r.coin()) { e.t.creation = t.creation; l.set_creation_time(t.creation); } if (r.coin()) { e.t.modification = t.modification; l.set_modification_time(t.modification); }
    if (r.coin()) { e.t.access = t.access; l.set_access_time(t.access); } if (r.coin()) { e.t.expiry = t.expiry; l.set_expiry_time(t.expiry); }
    if (kdbx && r.coin()) { e.t.move = t.move; l.set_move_time(t.move); }
  }
  void entry_scalars(MEntry& e, Entry& l, unsigned den) {
    MEntry d = gen_entry(r, o, ctxdb(), 0);
    auto on = [&]() { return r.chance(1, den); };
    if (on()) { e.title = d.title; l.set_title(P(d.title)); } if (on()) { e.url = d.url; l.set_url(P(d.url)); }
    if (on()) { e.username = d.username; l.set_username(P(d.username)); } if (on()) { e.password = d.password; l.set_password(P(d.password)); }
    if (on()) { e.notes = d.notes; l.set_notes(P(d.notes)); } if (on()) { e.icon = d.icon; l.set_icon(d.icon); }
    times_entry(e, l, d.t);
    if (on()) { e.uuid = r.arr<16>(); l.set_uuid(e.uuid); }
    if (!kdbx) return;
    // Only the protection flips, or only the text changes.
    if (on()) { e.password.p = !e.password.p; if (!e.password.p) e.password.v = xml_trim(e.password.v); l.set_password(P(e.password)); }
    if (on()) { e.title.v = d.title.p && !e.title.p ? xml_trim(d.title.v) : d.title.v; l.set_title(P(e.title)); }
    if (on()) { e.override_url = d.override_url; l.set_override_url(d.override_url); } if (on()) { e.tags = d.tags; l.set_tags(d.tags); }
    if (on()) { e.bg = d.bg; l.set_bg_color(d.bg); } if (on()) { e.fg = d.fg; l.set_fg_color(d.fg); }
    if (on()) { e.expires = d.expires; l.set_expires(d.expires); } if (on()) { e.usage = d.usage; l.set_usage_count(d.usage); }
    if (on()) { e.at_enabled = d.at_enabled; l.auto_type().set_enabled(d.at_enabled); } if (on()) { e.at_obf = d.at_obf; l.auto_type().set_obfuscation(d.at_obf); }
    if (on()) { e.at_seq = d.at_seq; l.auto_type().set_sequence(d.at_seq); }
    if (on()) { int i = m.meta.icons.empty() || r.chance(1, 3) ? -1 : (int)r.below(m.meta.icons.size()); e.custom_icon = i; l.set_custom_icon(i < 0 ? std::weak_ptr<Icon>() : std::weak_ptr<Icon>(icons().at(i))); }
  }
  void group_scalars(size_t gi) {
    MGroup& g = *mg[gi]; Group& l = *lg[gi]; MGroup d = gen_group(r, o, ctxdb());
    auto on = [&]() { return r.chance(1, 3); };
    if (on()) { g.name = d.name; l.set_name(d.name); } if (on()) { g.icon = d.icon; l.set_icon(d.icon); }
    if (on()) { g.t.creation = d.t.creation; l.set_creation_time(d.t.creation); } if (on()) { g.t.modification = d.t.modification; l.set_modification_time(d.t.modification); }
    if (on()) { g.t.access = d.t.access; l.set_access_time(d.t.access); } if (on()) { g.t.expiry = d.t.expiry; l.set_expiry_time(d.t.expiry); }
    if (!kdbx) { if (on()) { g.flags = d.flags; l.set_flags(d.flags); } return; }
    if (on()) { g.t.move = d.t.move; l.set_move_time(d.t.move); } if (on()) { g.uuid = d.uuid; l.set_uuid(d.uuid); }
    if (on()) { g.notes = d.notes; l.set_notes(d.notes); } if (on()) { g.default_seq = d.default_seq; l.set_default_autotype_sequence(d.default_seq); }
    if (on()) { g.expires = d.expires; l.set_expires(d.expires); } if (on()) { g.expanded = d.expanded; l.set_expanded(d.expanded); }
    if (on()) { g.autotype = d.autotype; l.set_autotype(d.autotype); } if (on()) { g.search = d.search; l.set_search(d.search); }
    if (on()) { g.usage = d.usage; l.set_usage_count(d.usage); }
    if (on()) { int i = m.meta.icons.empty() || r.chance(1, 3) ? -1 : (int)r.below(m.meta.icons.size()); g.custom_icon = i; l.set_custom_icon(i < 0 ? std::weak_ptr<Icon>() : std::weak_ptr<Icon>(icons().at(i))); }
    if (on()) last_visible(gi);
  }
  void last_visible(size_t gi) {
    MGroup& g = *mg[gi]; Group& l = *lg[gi];
    if (g.entries.empty() || r.chance(1, 4)) { g.last_visible = -1; l.set_last_visible_entry(std::weak_ptr<Entry>()); return; }
    size_t k = r.below(g.entries.size()); g.entries[k].uuid = r.arr<16>(); l.Entries()[k]->set_uuid(g.entries[k].uuid);
    g.last_visible = k; l.set_last_visible_entry(l.Entries()[k]);
  }
  // References by preorder index after n groups were inserted at index p.
  void shift(int p, int n) { for (int* x : {&m.meta.recycle_bin, &m.meta.templates, &m.meta.last_selected, &m.meta.last_visible}) if (*x >= p) *x += n; }
  MEntry fresh_entry() { return gen_entry(r, o, ctxdb(), 1); }

  // Tree of what exists now, for moving, deleting and reordering. The object interface has no removal: users rebuild groups.
  struct Node { MGroup shell; LG old; int oldidx; std::vector<Node> kids; std::vector<std::pair<MEntry, LE>> entries; LE lv; };
  Node lift(const MGroup& g, const LG& l, int& n) {
    Node x; x.shell = g; x.shell.groups.clear(); x.shell.entries.clear(); x.old = l; x.oldidx = n++;
    for (size_t i = 0; i < g.entries.size(); ++i) x.entries.emplace_back(g.entries[i], l->Entries().at(i));
    if (g.last_visible >= 0) x.lv = l->Entries().at(g.last_visible);
    for (size_t i = 0; i < g.groups.size(); ++i) x.kids.push_back(lift(g.groups[i], l->Groups().at(i), n));
    return x;
  }
  LG drop(Node& x, MGroup& g, std::map<int, std::pair<int, LG>>& where, int& n) {
    LG l = std::make_shared<Group>(); Group& s = *x.old; g = x.shell; where[x.oldidx] = {n++, l};
    l->set_uuid(s.uuid()); l->set_icon(s.icon()); l->set_custom_icon(s.custom_icon()); l->set_name(s.name()); l->set_notes(s.notes());
    l->set_creation_time(s.creation_time()); l->set_modification_time(s.modification_time()); l->set_access_time(s.access_time()); l->set_expiry_time(s.expiry_time()); l->set_move_time(s.move_time());
    l->set_flags(s.flags()); l->set_expires(s.expires()); l->set_expanded(s.expanded()); l->set_usage_count(s.usage_count());
    l->set_default_autotype_sequence(s.default_autotype_sequence()); l->set_autotype(s.autotype()); l->set_search(s.search());
    g.last_visible = -1;
    for (auto& e : x.entries) { if (e.second == x.lv) { g.last_visible = g.entries.size(); l->set_last_visible_entry(e.second); } g.entries.push_back(e.first); l->AddEntry(e.second); }
    for (auto& k : x.kids) { g.groups.emplace_back(); l->AddGroup(drop(k, g.groups.back(), where, n)); }
    return l;
  }
  void nodes(Node& x, std::vector<Node*>& v) { v.push_back(&x); for (auto& k : x.kids) nodes(k, v); }
  void restructure() {
    int n = 0; Node t = lift(m.root, L->root(), n);
    for (int i = 1 + r.below(4); i > 0; --i) {
      std::vector<Node*> v; nodes(t, v); Node* a = r.pick(v);
      switch (r.below(6)) {
        case 0: for (size_t k = a->kids.size(); k > 1; --k) std::swap(a->kids[k - 1], a->kids[r.below(k)]); break;
        case 1: for (size_t k = a->entries.size(); k > 1; --k) std::swap(a->entries[k - 1], a->entries[r.below(k)]); break;
        case 2: if (!a->kids.empty() && r.coin()) a->kids.erase(a->kids.begin() + r.below(a->kids.size())); break;
        case 3: if (!a->entries.empty()) a->entries.erase(a->entries.begin() + r.below(a->entries.size())); break;
        case 4: if (!a->kids.empty()) {   // move a subtree
          size_t k = r.below(a->kids.size()); Node s = a->kids[k]; a->kids.erase(a->kids.begin() + k);
          v.clear(); nodes(t, v); Node* b = r.pick(v); b->kids.insert(b->kids.begin() + r.below(b->kids.size() + 1), s); break; }
        default: if (!a->entries.empty()) {   // move an entry
          size_t k = r.below(a->entries.size()); auto s = a->entries[k]; Node* b = r.pick(v); if (!kdbx && b == &t) break;
          a->entries.erase(a->entries.begin() + k); b->entries.insert(b->entries.begin() + r.below(b->entries.size() + 1), s); }
      }
    }
    std::map<int, std::pair<int, LG>> where; MGroup g; n = 0; LG l = drop(t, g, where, n);
    // Replace the root first or the references first; the result is the same.
    bool first = r.coin(); if (first) L->set_root(l);
    if (kdbx && L->meta()) {
      auto& x = *L->meta(); MMeta& y = m.meta;
      auto map = [&](int& i, LG& to) { if (i >= 0 && where.count(i)) { to = where[i].second; i = where[i].first; } else { to.reset(); i = -1; } };
      LG p; map(y.recycle_bin, p); x.set_recycle_bin(p); map(y.templates, p); x.set_entry_templates(p); map(y.last_selected, p); x.set_last_selected_group(p); map(y.last_visible, p); x.set_last_visible_group(p);
    }
    if (!first) L->set_root(l);
    m.root = g; note("restructure");
  }
  void attachment(MEntry& me, LE& le) {
    if (!kdbx) {
      if (me.atts.empty()) {
        MAtt a; a.name = gen_text(r, o, 30); a.bin.data = gen_data(r, gen_size(r, 600)); if (a.name.empty() && a.bin.data.empty()) a.name = "n";
        auto x = std::make_shared<Entry::Attachment>(); x->set_name(a.name); x->set_binary(std::make_shared<Binary>(protect<std::string>(a.bin.data, false)));
        le->AddAttachment(x); me.atts.push_back(a); note("add-attachment");
      } else {
        MAtt& a = me.atts[0]; auto& x = le->attachments()[0];
        if (r.coin()) { a.name = "n" + gen_text(r, o, 30); x->set_name(a.name); }
        if (r.coin() || a.name.empty()) {
          a.bin.data = gen_data(r, gen_size(r, 600)); if (a.name.empty() && a.bin.data.empty()) a.bin.data = "x";
          if (r.coin() && x->binary()) x->binary()->set_data(protect<std::string>(a.bin.data, false)); else x->set_binary(std::make_shared<Binary>(protect<std::string>(a.bin.data, false)));
        }
        note("change-attachment");
      }
      return;
    }
    auto fresh = [&]() { MBin b; b.data = gen_data(r, gen_size(r, 600)); b.prot = r.chance(1, 3); b.compress = r.chance(1, 3); return b; };
    auto lib = [](const MBin& b) { auto x = std::make_shared<Binary>(protect<std::string>(b.data, b.prot)); x->set_compress(b.compress); return x; };
    // A binary for an attachment: pooled already, pooled now, or only in the entry.
    auto assign = [&](MAtt& a, Entry::Attachment& x) {
      switch (r.below(3)) {
        case 0: if (!m.meta.bins.empty()) { a.pool = r.below(m.meta.bins.size()); x.set_binary(pool().at(a.pool)); break; }   // fall through
        case 1: { MBin b = fresh(); auto y = lib(b); L->meta()->AddBinary(y); m.meta.bins.push_back(b); a.pool = m.meta.bins.size() - 1; x.set_binary(y); break; }
        default: a.pool = -1; a.bin = fresh(); x.set_binary(lib(a.bin)); break;
      }
    };
    if (me.atts.empty() || r.chance(1, 3)) {
      MAtt a; a.name = gen_text(r, o, 30); auto x = std::make_shared<Entry::Attachment>(); x->set_name(a.name); assign(a, *x);
      le->AddAttachment(x); me.atts.push_back(a); note("add-attachment"); return;
    }
    size_t k = r.below(me.atts.size()); auto& x = le->attachments()[k]; MAtt& a = me.atts[k];
    if (x.use_count() != 1) return;   // shared with a history entry: the model does not follow aliases
    if (r.coin()) { a.name = gen_text(r, o, 30); x->set_name(a.name); }
    if (r.coin()) assign(a, *x);
    else if (a.pool < 0 && !a.null_bin && x->binary().use_count() == 2) { a.bin = fresh(); x->binary()->set_data(protect<std::string>(a.bin.data, a.bin.prot)); x->binary()->set_compress(a.bin.compress); }
    note("change-attachment");
  }
  void meta() {
    Metadata& x = *L->meta(); MMeta& y = m.meta; MMeta d;
    auto T = [&](MTemp& t) { t.v = gen_text(r, o, 40); t.t = gen_time(r, o); return temporal<std::string>(t.v, t.t); };
    auto gref = [&](int& i) { i = r.chance(1, 3) ? -1 : (int)r.below(lg.size()); return i < 0 ? LG() : lg[i]; };
    for (int n = 1 + r.below(6); n > 0; --n) switch (r.below(24)) {
      case 0: x.set_generator(y.generator = gen_text(r, o, 30)); break;
      case 1: x.set_database_color(y.color = gen_text(r, o, 10)); break;
      case 2: x.set_database_name(T(y.name)); break;
      case 3: x.set_database_desc(T(y.desc)); break;
      case 4: x.set_default_username(T(y.user)); break;
      case 5: x.set_maintenance_hist_days(y.hist_days = r.next()); break;
      case 6: x.set_master_key_changed(y.key_changed = gen_time(r, o)); break;
      case 7: x.set_master_key_change_rec(y.key_rec = (int64_t)(r.next() >> r.range(1, 62))); x.set_master_key_change_force(y.key_force = -1 + (int64_t)r.below(1000)); break;
      case 8: x.memory_protection().set_title(y.p_title = r.coin()); x.memory_protection().set_notes(y.p_notes = r.coin()); break;
      case 9: x.memory_protection().set_username(y.p_user = r.coin()); x.memory_protection().set_password(y.p_pass = r.coin()); x.memory_protection().set_url(y.p_url = r.coin()); break;
      case 10: x.set_recycle_bin(gref(y.recycle_bin)); break;
      case 11: x.set_entry_templates(gref(y.templates)); break;
      case 12: x.set_last_selected_group(gref(y.last_selected)); break;
      case 13: x.set_last_visible_group(gref(y.last_visible)); break;
      case 14: x.set_recycle_bin_changed(y.recycle_changed = gen_time(r, o)); x.set_entry_templates_changed(y.templates_changed = gen_time(r, o)); break;
      case 15: x.set_history_max_items(y.hist_items = (int32_t)(r.next() >> r.range(33, 62))); x.set_history_max_size(y.hist_size = (int64_t)(r.next() >> r.range(1, 62))); break;
      case 16: case 17: { MBin b; b.data = gen_data(r, gen_size(r, 600)); b.prot = r.coin(); b.compress = r.coin(); auto z = std::make_shared<Binary>(protect<std::string>(b.data, b.prot)); z->set_compress(b.compress); x.AddBinary(z); y.bins.push_back(b); break; }
      case 18: { MIcon i; i.uuid = r.arr<16>(); i.data = gen_data(r, 1 + gen_size(r, 200)); x.AddIcon(std::make_shared<Icon>(i.uuid, std::vector<uint8_t>(i.data.begin(), i.data.end()))); y.icons.push_back(i); break; }
      case 19: { std::string k = gen_text(r, o, 20); if (xml_trim(k).empty()) k = "k"; std::string v = gen_text(r, o, 60); x.AddField(k, v); y.fields.emplace_back(k, v); break; }
      case 20: case 21: if (!y.bins.empty()) { size_t k = r.below(y.bins.size()); MBin& b = y.bins[k]; b.data = gen_data(r, gen_size(r, 600)); b.prot = r.coin(); x.binaries()[k]->set_data(protect<std::string>(b.data, b.prot)); if (r.coin()) x.binaries()[k]->set_compress(b.compress = r.coin()); } break;
      default: if (!y.icons.empty()) { size_t k = r.below(y.icons.size()); y.icons[k].data = gen_data(r, 1 + gen_size(r, 200)); x.icons()[k]->set_data(std::vector<uint8_t>(y.icons[k].data.begin(), y.icons[k].data.end())); } break;
    }
    note("metadata");
  }
  static void detach(MEntry& e, const MMeta& y) {
    e.custom_icon = -1;
    for (auto& a : e.atts) if (a.pool >= 0) { a.bin = y.bins.at(a.pool); a.pool = -1; }
    for (auto& h : e.history) detach(h, y);
  }
  void new_meta() {   // the metadata object is replaced: pool items become the entries' own, icons disappear
    for (auto g : mg) { g->custom_icon = -1; for (auto& e : g->entries) detach(e, m.meta); }
    m.meta = MMeta(); L->set_meta(std::make_shared<Metadata>()); note("replace-metadata");
  }
  void header() {
    switch (r.below(6)) {
      case 0: m.rounds = r.below(60); L->set_transform_rounds(m.rounds); break;
      case 1: m.transform_seed = r.arr<32>(); L->set_transform_seed(m.transform_seed); break;
      case 2: m.iv = r.arr<16>(); L->set_init_vector(m.iv); break;
      case 3: if (!kdbx || r.coin()) { m.master_seed = r.bytes(16); std::array<uint8_t, 16> a; memcpy(a.data(), m.master_seed.data(), 16); L->set_master_seed(a); }
              else { m.master_seed = r.bytes(r.pickl<size_t>({32, 32, 1, 40, 15})); L->set_master_seed(std::vector<uint8_t>(m.master_seed.begin(), m.master_seed.end())); } break;
      case 4: if (kdbx) L->set_inner_random_stream_key(m.inner_key = r.arr<32>()); break;
      default: if (kdbx) L->set_compress(m.compress = r.coin()); else { m.alg = m.alg == ref::AES ? ref::TWOFISH : ref::AES; L->set_cipher(m.alg == ref::AES ? Database::Cipher::kAes : Database::Cipher::kTwofish); } break;
    }
    note("settings");
  }
  void step() {
    index();
    MEntry* me = nullptr; LE le; size_t gi = 0, ei = 0;
    switch (r.below(kdbx ? 16 : 9)) {
      case 0: if (pick_entry(me, le, gi, ei)) { entry_scalars(*me, *le, 3); note("entry-fields"); } break;
      case 1: { size_t g = r.below(lg.size()); if (!kdbx && g == 0) break; group_scalars(g); note("group-fields"); break; }
      case 2: {   // add an entry
        size_t g = r.below(lg.size()); if (!kdbx && g == 0) break;
        MEntry e = fresh_entry(); mg[g]->entries.push_back(e); lg[g]->AddEntry(to_lib_entry(e, pool(), icons())); note("add-entry"); break; }
      case 3: {   // add a subtree
        size_t g = r.below(lg.size()); GenOpt q = o; MGroup s = gen_group(r, q, ctxdb());
        for (int n = r.below(3); n > 0; --n) s.entries.push_back(fresh_entry());
        for (int n = r.below(3); n > 0; --n) { s.groups.push_back(gen_group(r, q, ctxdb())); if (r.coin()) s.groups.back().entries.push_back(fresh_entry()); }
        int at = (int)g + (int)count_groups(*mg[g]), n = (int)count_groups(s);
        lg[g]->AddGroup(to_lib_group(s, pool(), icons())); mg[g]->groups.push_back(s); shift(at, n); note("add-group"); break; }
      case 4: case 5: if (pick_entry(me, le, gi, ei)) attachment(*me, le); break;
      case 6: if (r.coin()) restructure(); break;
      case 7: header(); break;
      case 8: if (pick_entry(me, le, gi, ei)) { std::string nv = gen_text(r, o, 30); me->password.v = nv; le->set_password(protect<std::string>(nv, me->password.p)); note("new-password"); } break;
      case 9: case 10: meta(); break;
      case 11: if (pick_entry(me, le, gi, ei) && me->history.size() < 6) {   // archive, then change
        MEntry old = *me; old.history.clear(); LE lo;
        if (me->history.empty() && r.coin()) lo = std::make_shared<Entry>(*le); else lo = to_lib_entry(old, pool(), icons());
        le->AddHistoryEntry(lo); me->history.push_back(old); entry_scalars(*me, *le, 3); note("archive"); } break;
      case 12: if (pick_entry(me, le, gi, ei)) { MProt v; v.p = r.coin(); v.v = gen_text(r, o, 60, v.p); std::string k = "k" + gen_text(r, o, 20); le->AddCustomField(k, P(v)); me->fields.emplace_back(k, v); note("add-field"); } break;
      case 13: if (pick_entry(me, le, gi, ei)) { MAssoc a; a.window = gen_text(r, o, 30); a.seq = gen_text(r, o, 30); le->auto_type().AddAssociation(a.window, a.seq); me->assoc.push_back(a); note("add-association"); } break;
      case 14: if (pick_entry(me, le, gi, ei) && !me->history.empty()) { size_t h = r.below(me->history.size()); entry_scalars(me->history[h], *le->history()[h], 3); note("history-fields"); } break;
      default: if (r.chance(1, 6)) new_meta(); else last_visible(r.below(lg.size())); break;
    }
  }
  std::string trail() const { std::string s; for (auto& x : log) s += (s.empty() ? "" : ", ") + x; return s; }
};
}

PROP(C34, "non-trivial: at least three edits were made between loading and saving; distinct by content hash of the saved database") {
  Rng& r = c.rng; bool kdbx = c.idx % 3 != 0; set_tz(r);
  Edit ed(c, kdbx);
  MDb d = gen_db(r, ed.o); MKey k = gen_key(r); auto key = std::make_shared<Key>(to_key(k, c));
  FlatOpt fo; fo.mode = kdbx ? KDBX : KDB;
  std::string p = c.path("src"), how = kdbx ? "KDBX" : "KDB";
  if (kdbx && d.has_meta && r.chance(1, 3)) { std::string f; KdbxStyle st = gen_kdbx_style(r); st.zero_uuid_none = false; try { f = kdbx_write(d, k, st, r); } catch (const std::exception& e) { throw Stop(e.what()); } write_file(p, f); how += " (reference writer)"; }
  else if (!kdbx && r.coin()) { write_file(p, kdb_write(d, k, gen_kdb_style(r), r, lib_local)); how += " (reference writer)"; }
  else { auto L = to_lib(d); Res e = lib_export(kdbx, p, *L, *key); if (!c.check(e.ok(), "export-failed", "first export: " + e.what)) return; }
  KdbFile held1; KdbxFile held2; bool hold = r.coin();
  auto f1 = [&]() { return hold ? &held1 : nullptr; }; auto f2 = [&]() { return hold ? &held2 : nullptr; };
  Res i = lib_import(kdbx, p, *key, f1(), f2());
  if (!c.check(i.ok(), "import-failed", "first import: " + i.what + " | " + how + " " + describe(d))) return;
  ed.L = std::move(i.db); ed.m = from_lib(*ed.L);
  if (kdbx && !ed.L->meta()) throw Stop("no metadata");
  int cycles = 1 + r.below(4), total = 0;
  for (int cy = 0; cy < cycles; ++cy) {
    ed.log.clear(); int n = 1 + r.below(14);
    for (int s = 0; s < n; ++s) ed.step();
    total += ed.log.size();
    if (r.chance(1, 4)) { k = gen_key(r); key = std::make_shared<Key>(to_key(k, c, "k" + std::to_string(cy))); c.count("rekeyed"); }
    std::string what = how + " cycle " + std::to_string(cy) + " edits: " + ed.trail() + " | " + describe(ed.m);
    Flat want = flatten(ed.m, fo);
    std::string df = flat_diff(want, flatten(from_lib(*ed.L), fo));
    if (!c.check(df.empty(), "edit-not-visible", "the edited objects do not show the edits: " + df + " | " + what)) return;
    std::string q = r.coin() ? p : c.path("s" + std::to_string(cy));
    Res e = lib_export(kdbx, q, *ed.L, *key, f1(), f2());
    if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return;
    df = flat_diff(want, flatten(from_lib(*ed.L), fo));
    if (!c.check(df.empty(), "saving-changed-objects", df + " | " + what)) return;
    std::string f; if (!read_file(q, f)) { c.viol("file-unreadable", "exported file cannot be read"); return; }
    MDb a;
    try { a = kdbx ? kdbx_read(f, k).db : kdb_read(f, k, lib_mktime).db; } catch (const std::exception& x) { c.viol("file-undecodable", std::string("independent decoder rejects the saved file: ") + x.what() + " | " + what); return; }
    df = flat_diff(want, flatten(a, fo));
    if (!c.check(df.empty(), "edit-not-saved", "the saved file differs from the edited database: " + df + " | " + what)) return;
    Res b = lib_import(kdbx, q, *key, f1(), f2());
    if (!c.check(b.ok(), "import-failed", b.what + " | " + what)) return;
    df = flat_diff(want, flatten(from_lib(*b.db), fo));
    if (!c.check(df.empty(), "edit-lost-after-reload", df + " | " + what)) return;
    c.count(kdbx ? "kdbx_saves" : "kdb_saves"); c.eval(model_hash(ed.m), ed.log.size() >= 3);
    if (r.coin()) { ed.L = std::move(b.db); ed.m = from_lib(*ed.L); c.count("continued_reloaded"); } else c.count("continued_held");
  }
  c.count("edits", total); c.maxi("max_edits", total); c.sample(describe(ed.m));
}
