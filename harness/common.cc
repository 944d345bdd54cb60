#include "common.hh"
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include <cstdio>

uint64_t fnv(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef"; std::string r;
  for (size_t i = 0; i < n; ++i) { uint8_t c = ((const uint8_t*)p)[i]; r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
std::string unhex(const std::string& s) {
  std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}
std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
std::string show(const std::string& s, size_t max) {
  std::string r = jesc(s.substr(0, max));
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes, fnv " + std::to_string(fnv(s)) + ")";
  return r;
}
bool read_file(const std::string& path, std::string& out) {
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  struct stat st; fstat(fd, &st);
  out.resize(st.st_size);
  size_t off = 0;
  while (off < out.size()) { ssize_t n = ::pread(fd, &out[off], out.size() - off, off); if (n <= 0) break; off += n; }
  close(fd);
  return off == out.size();
}
void write_file(const std::string& path, const std::string& data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (fd < 0) throw Stop("cannot write " + path);
  size_t off = 0;
  while (off < data.size()) {
    ssize_t n = ::pwrite(fd, data.data() + off, data.size() - off, off);
    if (n <= 0) { if (n < 0 && errno == EINTR) continue; close(fd); throw Stop("short write to " + path); }
    off += n;
  }
  close(fd);
}
bool file_exists(const std::string& path) { struct stat st; return stat(path.c_str(), &st) == 0; }

static std::vector<PropDef>& reg() { static std::vector<PropDef> v; return v; }
PropReg::PropReg(const char* id, CaseFn fn, const char* rule) { reg().push_back({id, fn, rule}); }
const std::vector<PropDef>& props() { return reg(); }

int bounded(const std::function<void()>& fn, unsigned ms) {
  pid_t p = fork(); if (p < 0) throw Stop("fork");
  if (!p) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = ms % 1000 * 1000; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, nullptr); int rc = 7; try { fn(); } catch (...) { rc = 8; } _exit(rc); }
  int st = 0; while (waitpid(p, &st, 0) < 0) {}
  return !WIFEXITED(st) ? 0 : WEXITSTATUS(st) == 7 ? 1 : WEXITSTATUS(st) == 8 ? 2 : 0;
}
