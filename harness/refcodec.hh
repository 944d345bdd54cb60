// Independent implementations of the KDB 3 and KDBX 3.1 file formats and of the XML subset they need.
#pragma once
#include "model.hh"

// --- calendar (proleptic Gregorian, own arithmetic) ---
struct Civil { int64_t y; int mo, d, h, mi, s; };
int64_t civil_to_unix(const Civil&);
Civil unix_to_civil(int64_t);
std::string iso_time(int64_t t);       // 0 -> the KDBX "never" constant
int64_t parse_iso(const std::string&); // throws

// --- XML ---
struct XNode {
  std::string name, text;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<XNode> kids;
  std::string raw;                       // serializer: verbatim content (used for hostile payloads)
  int style = -1;                        // serializer: -1 escape, 1 CDATA
  bool has_text = false;
  bool masked = false;                    // writer: text is the plain value, masked in document order at the end
  XNode() {}
  XNode(const std::string& n) : name(n) {}
  XNode(const std::string& n, const std::string& t) : name(n), text(t), has_text(true) {}
  const XNode* child(const std::string& n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; }
  const std::string* attribute(const std::string& n) const { for (auto& a : attr) if (a.first == n) return &a.second; return nullptr; }
  XNode& add(const XNode& k) { kids.push_back(k); return kids.back(); }
  XNode& set(const std::string& k, const std::string& v) { attr.emplace_back(k, v); return *this; }
};
XNode xml_parse(const std::string& s);   // strict; throws std::runtime_error
struct XmlStyle {
  bool decl = true, bom = false; int indent = 0;   // 0 none, 1 tabs, 2 two spaces, 3 CRLF + tabs
  unsigned cdata = 0, charref = 0, comments = 0;   // per mille
  bool self_close = false; bool single_quotes = false;
};
std::string xml_write(const XNode& root, const XmlStyle& st, Rng* rng);

// --- KDB 3 ---
struct KdbStyle {
  uint32_t flags_extra = 1;            // SHA2 flag as KeePass writes it
  uint32_t version = 0x00030004;
  bool ext_data = false;               // ignored 0x0000 fields
  bool shuffle_fields = false;
  bool random_ids = true;
  bool empty_att_placeholders = false;
  bool entries_shuffled = false;       // entries of different groups interleaved
  bool big_flags = false;
};
// Local-time conversion is the caller's: `local` maps an instant to calendar fields and back.
typedef std::function<Civil(int64_t)> ToLocal;
typedef std::function<int64_t(const Civil&)> FromLocal;
std::string kdb_content(const MDb&, const KdbStyle&, Rng&, const ToLocal&, uint32_t* ngroups = nullptr, uint32_t* nentries = nullptr);
std::string kdb_seal(const MDb&, const MKey&, const std::string& content, uint32_t ngroups, uint32_t nentries, uint32_t flags, uint32_t version);
std::string kdb_write(const MDb&, const MKey&, const KdbStyle&, Rng&, const ToLocal&);
struct KdbDoc { MDb db; std::string content; uint32_t ngroups = 0, nentries = 0, flags = 0, version = 0; };
KdbDoc kdb_read(const std::string& file, const MKey&, const FromLocal&);   // strict; throws
std::string kdb_decrypt(const std::string& file, const MKey&);             // content only
std::string kdb_pack_time(const Civil&);
struct KdbField { uint16_t type; std::string data; };
std::vector<KdbField> kdb_split(const std::string& content);   // throws on a malformed sequence
std::string kdb_join(const std::vector<KdbField>&);
struct HdrField { uint8_t id; std::string data; };
std::vector<HdrField> kdbx_split(const std::string& header);     // fields after signature and version, end field included
std::string kdbx_join(const std::string& first12, const std::vector<HdrField>&);
// A complete file around a given header (header hash and keys from `db`).
std::string kdbx_around(const MDb&, const MKey&, const struct KdbxStyle&, const std::string& header, const std::string& start, Rng&);

// --- KDBX 3.1 ---
struct KdbxStyle {
  uint32_t version = 0x00030001;
  bool shuffle_header = false; std::string end_marker = "\r\n\r\n";
  std::vector<uint32_t> block_sizes;   // cycled; empty: 1 MiB
  int gzip_level = 6; bool gzip_flush = false;
  XmlStyle xml;
  bool shuffle_elements = false, omit_defaults = false, unknown_elements = false, unknown_protected = false, sparse_ids = false;
  bool in_memory_flag = false;         // some protected values stored in clear with ProtectedInMemory
  bool zero_uuid_none = false;         // absent references written as the all-zero UUID
  bool ws_base64 = false;              // white space inside Base64 text
  bool disabled_bin = false;           // a disabled recycle bin keeps the UUID of its group
  int comments = 0;                    // comment fields in the header
  bool omit_never = false;             // leave out time elements that hold "never"
};
std::string kdbx_header(const MDb&, const KdbxStyle&, const std::string& start_bytes, Rng&);
std::string hash_blocks(const std::string& data, const std::vector<uint32_t>& sizes = {}, bool terminator = true);
std::string unhash_blocks(const std::string& data);   // strict; throws
XNode kdbx_dom(const MDb&, const KdbxStyle&, const std::string& header_hash_b64, Rng&, ref::Salsa20&);
// Encrypts start bytes + body (already block-hashed).
std::string kdbx_encrypt(const MDb&, const MKey&, const std::string& header, const std::string& start, const std::string& body);
std::string kdbx_write(const MDb&, const MKey&, const KdbxStyle&, Rng&);
// Seals arbitrary XML text (HeaderHash placeholder "@HH@" is replaced).
std::string kdbx_seal_xml(const MDb&, const MKey&, const KdbxStyle&, const std::string& xml, Rng&, bool gz);
struct KdbxDoc { MDb db; std::string xml, header, start; XNode dom; std::vector<std::string> protected_raw; size_t nprotected = 0; };
KdbxDoc kdbx_read(const std::string& file, const MKey&);   // strict; throws
// The decrypted, unverified pieces (for hostile mutation): start bytes + block stream.
std::string kdbx_decrypt(const std::string& file, const MKey&, std::string* header = nullptr);
ref::Salsa20 inner_stream(const MDb&);
ref::K32 kdb_final_key(const MDb&, const MKey&);
ref::K32 kdbx_final_key(const MDb&, const MKey&);

void put16(std::string&, uint16_t); void put32(std::string&, uint32_t); void put64(std::string&, uint64_t);
uint32_t get32(const std::string&, size_t);
