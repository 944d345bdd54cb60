// Model <-> library objects, and guarded library calls.
#pragma once
#include "model.hh"
#include "database.hh"
#include "entry.hh"
#include "group.hh"
#include "icon.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "metadata.hh"

std::unique_ptr<keepass::Database> to_lib(const MDb& db);
MDb from_lib(const keepass::Database& db);     // records dangling references as -2, null pieces defensively
std::shared_ptr<keepass::Entry> to_lib_entry(const MEntry& e, const std::vector<std::shared_ptr<keepass::Binary>>& pool,
                                             const std::vector<std::shared_ptr<keepass::Icon>>& icons);
std::shared_ptr<keepass::Group> to_lib_group(const MGroup& g, const std::vector<std::shared_ptr<keepass::Binary>>& pool,
                                             const std::vector<std::shared_ptr<keepass::Icon>>& icons,
                                             std::vector<std::shared_ptr<keepass::Group>>* pre = nullptr);
keepass::Key to_key(const MKey& k, Ctx& c, const std::string& tag = "k");

enum class Out { ok, password, format, notfound, io, internal, other };
const char* out_name(Out);
struct Res { Out out = Out::ok; std::string what; std::unique_ptr<keepass::Database> db; bool ok() const { return out == Out::ok; } };
Out classify(const std::exception& e);
// kdbx selects the format; optional existing file objects may be passed for reuse.
Res lib_import(bool kdbx, const std::string& path, const keepass::Key& key, keepass::KdbFile* f1 = nullptr, keepass::KdbxFile* f2 = nullptr);
Res lib_export(bool kdbx, const std::string& path, const keepass::Database& db, const keepass::Key& key, keepass::KdbFile* f1 = nullptr, keepass::KdbxFile* f2 = nullptr);
