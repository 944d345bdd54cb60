// Plain model of a database, independent of the library's classes and operators.
#pragma once
#include "common.hh"
#include "refcrypto.hh"

typedef std::array<uint8_t, 16> Uuid;

struct MProt { std::string v; bool p = false; MProt() {} MProt(const std::string& s, bool q = false) : v(s), p(q) {} };
struct MBin { std::string data; bool prot = false, compress = false; };
struct MAtt {
  std::string name;
  int pool = -1;        // index into MMeta::bins, or -1: stored in the entry
  MBin bin;             // when pool < 0
  bool null_bin = false;  // library object without data (API-assembled only)
};
struct MAssoc { std::string window, seq; };
struct MTimes { int64_t creation = 0, modification = 0, access = 0, expiry = 0, move = 0; };
struct MEntry {
  Uuid uuid{};
  uint32_t icon = 0; int custom_icon = -1;
  MProt title, url, username, password, notes;
  std::string override_url, tags, bg, fg;
  MTimes t; bool expires = false; uint32_t usage = 0;
  bool at_enabled = false; uint32_t at_obf = 0; std::string at_seq; std::vector<MAssoc> assoc;
  std::vector<MAtt> atts;
  std::vector<std::pair<std::string, MProt>> fields;
  std::vector<MEntry> history;
};
struct MGroup {
  Uuid uuid{};
  uint32_t icon = 0; int custom_icon = -1;
  std::string name, notes, default_seq;
  MTimes t; bool expires = false, expanded = false, autotype = false, search = false;
  uint32_t usage = 0; uint32_t flags = 0;
  int last_visible = -1;    // index into entries; -2: refers to something else
  std::vector<MGroup> groups;
  std::vector<MEntry> entries;
};
struct MTemp { std::string v; int64_t t = 0; };
struct MIcon { Uuid uuid{}; std::string data; };
struct MMeta {
  std::string generator, color;
  MTemp name, desc, user;
  uint32_t hist_days = 365;
  int64_t key_changed = 0, key_rec = -1, key_force = -1;
  bool p_title = false, p_user = false, p_pass = true, p_url = false, p_notes = false;
  // Group references: preorder index (root = 0), -1 none, -2 dangling/outside the tree.
  int recycle_bin = -1, templates = -1, last_selected = -1, last_visible = -1;
  int64_t recycle_changed = 0, templates_changed = 0;
  int32_t hist_items = -1; int64_t hist_size = -1;
  std::vector<MBin> bins;
  std::vector<MIcon> icons;
  std::vector<std::pair<std::string, std::string>> fields;
};
struct MDb {
  ref::Alg alg = ref::AES;
  std::string master_seed;            // 16 bytes for KDB, 32 usually for KDBX
  Uuid iv{};
  std::array<uint8_t, 32> transform_seed{}, inner_key{};
  uint64_t rounds = 1;
  bool compress = false;
  bool has_meta = true;
  MMeta meta;
  MGroup root;
};

// Which facts a comparison covers.
enum Mode {
  KDBX,        // everything KDBX stores
  KDB,         // everything KDB stores (root group itself is not stored)
  SHARED,      // what both formats store (conversions)
};
typedef std::vector<std::pair<std::string, std::string>> Flat;   // path -> value, in canonical order
struct FlatOpt { Mode mode = KDBX; bool header = true; bool refs = true; bool pool_identity = true; };
Flat flatten(const MDb& db, const FlatOpt& o);
// "" when equal, otherwise the first difference, human-readable.
std::string flat_diff(const Flat& want, const Flat& got);
inline std::string diff(const MDb& want, const MDb& got, const FlatOpt& o) { return flat_diff(flatten(want, o), flatten(got, o)); }
uint64_t model_hash(const MDb& db);
std::string describe(const MDb& db);   // JSON summary for samples

// Preorder list of groups (root first).
void preorder(const MGroup& g, std::vector<const MGroup*>& out);
void preorder(MGroup& g, std::vector<MGroup*>& out);
size_t count_groups(const MGroup&);
size_t count_entries(const MGroup&, bool history = false);

// Key material.
struct MKey {
  bool has_pw = false; std::string pw;
  int kf = 0;                      // 0 none, 1 XML key file, 2 hex key file
  std::string kf_key;              // 32 bytes
  std::string kf_text;             // file contents
  std::string str() const;
};
ref::K32 ref_resolve(const MKey&, bool always_hash);
