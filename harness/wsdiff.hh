// Comparison that sets aside the known trimming of unprotected text.
#pragma once
#include "gen.hh"
inline bool ends(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
// want = ws* got ws*: the importer strips white space written literally but keeps what was written as a reference.
inline bool trimmed_form(const std::string& want, const std::string& got) {
  if (got.empty()) return xml_trim(want).empty();
  for (size_t p = want.find(got); p != std::string::npos; p = want.find(got, p + 1)) {
    if (want.find_first_not_of(kXmlWs) < p && want.find_first_not_of(kXmlWs) != std::string::npos) break;
    if (want.find_first_not_of(kXmlWs, p + got.size()) == std::string::npos) return true;
  }
  return false;
}
// Unprotected text that got trimmed on import is the one known deviation; everything else is a difference.
inline std::string ws_diff(const Flat& want, const Flat& got, bool& trimmed) {
  Flat w = want; std::map<std::string, std::string> prot;
  for (auto& kv : want) if (ends(kv.first, ".protected")) prot[kv.first.substr(0, kv.first.size() - 10)] = kv.second;
  for (size_t i = 0; i < w.size() && i < got.size(); ++i) {
    if (w[i].first != got[i].first || w[i].second == got[i].second || ends(w[i].first, ".data")) continue;
    auto p = prot.find(w[i].first);
    if (p != prot.end() && p->second == "1") continue;
    if (trimmed_form(w[i].second, got[i].second)) { trimmed = true; w[i].second = got[i].second; }
  }
  return flat_diff(w, got);
}

