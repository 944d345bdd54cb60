// Workload generators: databases, keys, byte strings with heavy-tailed, boundary-seeking sizes.
#pragma once
#include "refcodec.hh"

struct GenOpt {
  bool kdb = false;          // stay inside what KDB can represent
  bool both = false;         // representable in both formats (implies KDB limits; text valid in XML)
  bool edge_ws = false;      // unprotected XML text may start or end with white space (otherwise never)
  bool ctrl = true;          // control characters other than TAB/LF/CR in text (not well-formed XML 1.0)
  bool json_safe = false;    // text is valid UTF-8
  bool meta = true;
  bool refs = true;
  int scale = 1;             // 0 tiny, 1 usual, 2 large contents
  int max_groups = 24;
  bool far_times = true;
};
// Sizes: mostly small, often next to block/buffer boundaries, sometimes large.
size_t gen_size(Rng&, size_t max);
std::string gen_data(Rng&, size_t n);                    // bytes of varied compressibility
std::string gen_text(Rng&, const GenOpt&, size_t max = 400, bool prot = false);
int64_t gen_time(Rng&, const GenOpt&);
bool kdb_time_ok(int64_t t);                             // unambiguous local time inside the KDB range (process TZ)
MDb gen_db(Rng&, const GenOpt&);
MEntry gen_entry(Rng&, const GenOpt&, const MDb* db = nullptr, int hist = 1);
MGroup gen_group(Rng&, const GenOpt&, const MDb* db = nullptr);   // without children
MKey gen_key(Rng&);
MKey gen_key_kind(Rng&, bool pw, int kf);
std::string key_file_text(Rng&, int kind, const std::string& key);
KdbStyle gen_kdb_style(Rng&);
void add_large(MDb&, Rng&);   // a text or an attachment of several MiB
const char* add_many(MDb&, Rng&, bool kdb, bool meta = false);   // hundreds or thousands of one kind of part, or one long text; meta: parts of the metadata
KdbxStyle gen_kdbx_style(Rng&);
Civil lib_local(int64_t t);                              // calendar fields by localtime_r
int64_t lib_mktime(const Civil&);
const char* set_tz(Rng&);                                // picks and installs a process time zone
void set_tz(const char* tz);
std::string gen_utf8(Rng&, size_t max);
extern const std::string kXmlWs;
// Removes leading/trailing XML white space (what the importer is known to do to unprotected text).
std::string xml_trim(const std::string&);
