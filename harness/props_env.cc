// Surroundings of the process: C36 (what an operation leaves behind besides its result), C37 (what the locale changes).
#include "hostile.hh"
#include <clocale>
#include <cstdarg>
#include <cstdio>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <climits>
#include <iostream>
#include <locale>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#define VK_ASAN 1
#endif
#endif
extern char** environ;
using namespace ref;

// ------------------------------------------------------------------ C36: calls that reach beyond the process
static struct { bool on = false, inside = false, reading = false; std::string root, dest; std::vector<std::string> log; uint64_t seen = 0; } M;
static std::string absolute(const char* p) { if (!p) return "?"; if (*p == '/') return p; char b[4096]; return std::string(getcwd(b, sizeof b) ? b : "?") + "/" + p; }
static std::string real_of(const std::string& a) { char b[PATH_MAX]; if (realpath(a.c_str(), b)) return b; size_t q = a.rfind('/'); std::string d = a.substr(0, q); return realpath(d.empty() ? "/" : d.c_str(), b) ? std::string(b) + a.substr(q) : a; }
// A path outside the scratch directory is written to, or another one in it than the destination, or any by a reading operation, or the outside world is addressed.
static void saw(const std::string& what, const char* path = nullptr) {
  if (!M.on || M.inside) return; M.inside = true; ++M.seen;
  std::string a = path ? absolute(path) : ""; bool in = path && a.compare(0, M.root.size() + 1, M.root + "/") == 0 && a.find("/../") == std::string::npos;
  if (in && M.reading) in = false;
  if (in && !M.dest.empty() && real_of(a) != M.dest) in = false;
  if (!in) M.log.push_back(what + (path ? " " + a : "")); M.inside = false;
}
template <class F> static F next_fn(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static bool writes(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
static bool writes(const char* m) { return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')); }
extern "C" {
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (writes(fl)) saw("open for writing", p); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (writes(fl)) saw("open for writing", p); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (writes(fl)) saw("open for writing", p); return syscall(SYS_openat, d, p, fl, m); }
int creat(const char* p, mode_t m) { saw("creat", p); return syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE* fopen(const char* p, const char* m) { static auto f = next_fn<FILE* (*)(const char*, const char*)>("fopen"); if (writes(m)) saw("open for writing", p); return f(p, m); }
FILE* fopen64(const char* p, const char* m) { static auto f = next_fn<FILE* (*)(const char*, const char*)>("fopen64"); if (writes(m)) saw("open for writing", p); return f(p, m); }
FILE* tmpfile(void) { static auto f = next_fn<FILE* (*)(void)>("tmpfile"); saw("tmpfile"); return f(); }
int mkstemp(char* t) { static auto f = next_fn<int (*)(char*)>("mkstemp"); saw("mkstemp", t); return f(t); }
int rename(const char* a, const char* b) noexcept { static auto f = next_fn<int (*)(const char*, const char*)>("rename"); saw("rename from", a); saw("rename to", b); return f(a, b); }
int unlink(const char* p) noexcept { saw("unlink", p); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int remove(const char* p) noexcept { static auto f = next_fn<int (*)(const char*)>("remove"); saw("remove", p); return f(p); }
int mkdir(const char* p, mode_t m) noexcept { saw("mkdir", p); return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int rmdir(const char* p) noexcept { saw("rmdir", p); return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int link(const char* a, const char* b) noexcept { saw("link", b); return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char* a, const char* b) noexcept { saw("symlink", b); return syscall(SYS_symlinkat, a, AT_FDCWD, b); }
int truncate(const char* p, off_t n) noexcept { saw("truncate", p); return syscall(SYS_truncate, p, n); }
int socket(int a, int b, int c) noexcept { saw("socket"); return syscall(SYS_socket, a, b, c); }
int system(const char* s) { static auto f = next_fn<int (*)(const char*)>("system"); saw(std::string("system ") + (s ? s : "")); return f(s); }
FILE* popen(const char* s, const char* m) { static auto f = next_fn<FILE* (*)(const char*, const char*)>("popen"); saw(std::string("popen ") + s); return f(s, m); }
pid_t fork(void) noexcept { static auto f = next_fn<pid_t (*)(void)>("fork"); saw("fork"); return f(); }
int execve(const char* p, char* const a[], char* const e[]) noexcept { saw(std::string("execve ") + p); return syscall(SYS_execve, p, a, e); }
void syslog(int, const char*, ...) { saw("syslog"); }
}

namespace {
// The tree below the scratch directory: kind, permissions, identity, links and contents of everything in it.
struct Node { char kind; unsigned mode; uint64_t ino, links; std::string content;
  bool operator==(const Node& o) const { return kind == o.kind && mode == o.mode && ino == o.ino && links == o.links && content == o.content; } };
void snap(const std::string& d, const std::string& rel, std::map<std::string, Node>& out) {
  DIR* x = opendir(d.c_str()); if (!x) return;
  while (dirent* e = readdir(x)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s)) continue; Node q; q.mode = s.st_mode & 07777; q.ino = s.st_ino; q.links = s.st_nlink;
    if (S_ISLNK(s.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); q.kind = 'l'; q.content.assign(b, k > 0 ? k : 0); }
    else if (S_ISDIR(s.st_mode)) { q.kind = 'd'; q.links = 0; snap(p, rel + n + "/", out); }
    else { q.kind = S_ISREG(s.st_mode) ? 'f' : '?'; if (q.kind == 'f') read_file(p, q.content); }
    out[rel + n] = q;
  }
  closedir(x);
}
// What the process as a whole is set to.
struct State {
  mode_t mask; std::string cwd, cloc, env; std::locale loc; std::vector<void*> sig; unsigned fds = 0, threads = 0; int exc; std::ios::fmtflags out, err;
  static unsigned entries(const char* d) { unsigned n = 0; if (DIR* x = opendir(d)) { while (readdir(x)) ++n; closedir(x); } return n; }
  State() : mask(umask(0)), exc(std::uncaught_exceptions()), out(std::cout.flags()), err(std::cerr.flags()) {
    umask(mask); char b[4096]; cwd = getcwd(b, sizeof b) ? b : "?"; cloc = setlocale(LC_ALL, nullptr);
    for (char** e = environ; e && *e; ++e) env += std::string(*e) + "\n";
    for (int i = 1; i < 65; ++i) { struct sigaction a; memset(&a, 0, sizeof a); sigaction(i, nullptr, &a); sig.push_back((void*)a.sa_handler); }
    sigset_t m; sigprocmask(SIG_BLOCK, nullptr, &m); for (int i = 1; i < 65; ++i) if (sigismember(&m, i) == 1) sig.push_back((void*)(intptr_t)i);
    fds = entries("/proc/self/fd"); threads = entries("/proc/self/task");
  }
  std::string diff(const State& o) const {
    if (mask != o.mask) return "the file creation mask"; if (cwd != o.cwd) return "the working directory: " + o.cwd; if (cloc != o.cloc) return "the C locale: " + o.cloc; if (!(loc == o.loc)) return "the global C++ locale";
    if (env != o.env) return "the environment"; if (sig != o.sig) return "the signal dispositions"; if (fds != o.fds) return "the number of open files: " + std::to_string(fds) + " -> " + std::to_string(o.fds);
    if (threads != o.threads) return "the number of threads"; if (exc != o.exc) return "the exceptions in flight"; if (out != o.out || err != o.err) return "the formatting of std::cout or std::cerr"; return "";
  }
};
// Standard output and error go to a file while an operation runs.
struct Quiet {
  int o, e, f; std::string path;
  explicit Quiet(const std::string& p) : path(p) {
    fflush(nullptr); std::cout.flush(); o = dup(1); e = dup(2); f = ::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
#ifdef VK_ASAN
    __sanitizer_set_report_fd((void*)(intptr_t)e);
#endif
    dup2(f, 1); dup2(f, 2);
  }
  ~Quiet() { done(); }
  std::string done() {
    if (f < 0) return ""; fflush(nullptr); std::cout.flush(); std::clog.flush(); dup2(o, 1); dup2(e, 2); close(o); close(e); close(f); f = -1;
#ifdef VK_ASAN
    __sanitizer_set_report_fd((void*)2);
#endif
    std::string s; read_file(path, s); return s;
  }
};
std::string marker(Rng& r) { return "Zq" + hex(r.bytes(4)) + "xW"; }
XNode* leaf(XNode& n, Rng& r) { XNode* p = &n; while (!p->kids.empty() && !(p != &n && r.chance(1, 30))) p = &p->kids[r.below(p->kids.size())]; return p; }
// A leaf whose place in the format (its path, and whether it refers to the pool) is picked first, so that rare places come up too.
XNode* leaf_of_kind(XNode& n, Rng& r) {
  std::map<std::string, std::vector<XNode*>> by; std::function<void(XNode&, const std::string&)> go = [&](XNode& x, const std::string& in) {
    if (x.kids.empty()) by[in + "/" + x.name + (x.attribute("Ref") ? "@" : "")].push_back(&x); for (auto& k : x.kids) go(k, x.name); };
  go(n, ""); auto it = by.begin(); std::advance(it, r.below(by.size())); return r.pick(it->second);
}
void wipe(const std::string& d) { if (DIR* x = opendir(d.c_str())) { while (dirent* e = readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; if (!lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) { wipe(p); rmdir(p.c_str()); } else ::unlink(p.c_str()); } closedir(x); } }
}

PROP(C36, "every evaluation is one monitored operation; distinct by operation, situation and content") {
  Rng& r = c.rng; set_tz(r); bool kdbx = c.idx % 2; GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = r.chance(1, 12) ? 1 : 0; o.max_groups = 6;
  MDb d = gen_db(r, o); d.rounds = r.below(3); MKey k = gen_key(r); std::set<std::string> secrets;
  // Marks in everything secret, so that it is recognised wherever it turns up.
  auto mark = [&](std::string& s) { std::string m = marker(r); secrets.insert(m); s += m; };
  Walk w; w.f = [&](std::string& s, bool p) { if (p || r.chance(1, 3)) mark(s); }; w.bin = [&](MBin& b) { if (!b.data.empty() || r.coin()) mark(b.data); }; w.db(d);
  if (k.has_pw) mark(k.pw);
  if (k.kf) { secrets.insert(hex(k.kf_key)); secrets.insert(k.kf_key.substr(0, 12)); secrets.insert(b64(k.kf_key).substr(0, 20)); }
  if (k.kf && k.kf_key == std::string(32, 0)) { secrets.erase(k.kf_key.substr(0, 12)); secrets.erase(hex(k.kf_key)); secrets.erase(b64(k.kf_key).substr(0, 20)); }
  if (k.kf == 1 || k.kf == 2) { std::string up; for (char ch : hex(k.kf_key)) up += (char)toupper(ch); if (secrets.count(hex(k.kf_key))) secrets.insert(up); }
  auto key = to_key(k, c); MKey k2 = k; k2.has_pw = true; mark(k2.pw); auto wrong = to_key(k2, c, "w");
  auto L = to_lib(d); std::string root = c.path("area"), cap = c.path("captured"), what = std::string(kdbx ? "KDBX " : "KDB ") + describe(d); uint64_t h = model_hash(d);
  wipe(root); mkdir(root.c_str(), 0700); mkdir((root + "/sub").c_str(), 0755); mkdir((root + "/tmp").c_str(), 0700); mkdir((root + "/home").c_str(), 0700); write_file(root + "/other.txt", r.bytes(50)); write_file(root + "/sub/b.kdbx", r.bytes(80));
  char back[4096]; if (!getcwd(back, sizeof back)) throw Stop("cwd"); std::string old_home = getenv("HOME") ? getenv("HOME") : "", old_tmp = getenv("TMPDIR") ? getenv("TMPDIR") : "";
  setenv("HOME", (root + "/home").c_str(), 1); setenv("TMPDIR", (root + "/tmp").c_str(), 1); if (chdir((root + "/sub").c_str())) throw Stop("chdir"); mode_t um = r.pickl<mode_t>({022, 077, 002, 027}), old_um = umask(um);
  std::string good = kdbx ? kdbx_write(d, k, gen_kdbx_style(r), r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local);
  // Settings of the process that differ from those it starts with.
  struct Settings { std::locale l; std::ios::fmtflags f; Settings() : f(std::cerr.flags()) {} ~Settings() { std::locale::global(l); setlocale(LC_ALL, "C"); std::cout.flags(f); std::cerr.flags(f); } } restore;
  if (r.coin()) { try { std::locale::global(std::locale("C.utf8")); } catch (const std::exception&) {} setlocale(LC_ALL, r.coin() ? "C.utf8" : "C"); setlocale(LC_NUMERIC, r.coin() ? "C.utf8" : "C"); setlocale(LC_TIME, r.coin() ? "C.utf8" : "C"); }
  if (r.coin()) { std::cerr.setf(std::ios::hex, std::ios::basefield); std::cerr.setf(std::ios::boolalpha); }
  // Runs one operation under all monitors; dest is the one file it may write.
  auto run = [&](const std::string& op, const std::string& dest, const std::function<Res()>& fn) {
    std::map<std::string, Node> a, b; snap(root, "", a); State before; std::string text; Res res; std::vector<std::string> log; arm_cpu_limit(0);
    { Quiet q(cap); State inner; M.root = root; M.reading = op.compare(0, 6, "export") && op.compare(0, 7, "refused"); { char rb[PATH_MAX]; M.dest = dest.empty() ? "" : std::string(realpath(root.c_str(), rb) ? rb : root.c_str()) + "/" + dest; } M.log.clear(); M.on = true; try { res = fn(); } catch (const std::exception& x) { res.out = Out::other; res.what = x.what(); } M.on = false; log = M.log; State inner2; std::string sd = inner.diff(inner2); text = q.done(); if (!sd.empty()) c.viol("process-state-changed", op + " changed " + sd + " | " + what); }
    res.db.reset(); snap(root, "", b); std::string st = op + " (" + out_name(res.out) + ")";
    c.count(op.substr(0, op.find(':'))); c.count(res.ok() ? "succeeded" : "failed"); c.eval(fnv(op, h)); c.count("system_calls_seen", M.seen); M.seen = 0;
    for (auto& l : log) c.viol("beyond-the-named-file", st + ": " + l + " | " + what);
    c.check(text.empty(), "output-written", st + " wrote to standard output or error: " + show(text, 120) + " | " + what);
    for (auto& t : secrets) { std::string s = t.compare(0, 2, "Zq") ? t : t.substr(0, 7); if (res.what.find(s) != std::string::npos) c.viol("secret-in-error-text", st + ": " + show(res.what, 200) + " | " + what); if (text.find(s) != std::string::npos) c.viol("secret-printed", st + " | " + what); }
    for (auto& x : b) if (!a.count(x.first) && x.first != dest) c.viol("file-created", st + " created " + x.first + " (" + std::to_string(x.second.content.size()) + " bytes) | " + what);
    for (auto& x : a) { if (x.first == dest) continue; auto y = b.find(x.first); if (y == b.end()) c.viol("file-removed", st + " removed " + x.first + " | " + what); else if (!(y->second == x.second)) c.viol("file-changed", st + " changed " + x.first + (y->second.kind != x.second.kind ? " into another kind of file" : y->second.mode != x.second.mode ? " (permissions)" : y->second.content != x.second.content ? " (contents)" : " (identity)") + " | " + what); }
    if (!dest.empty() && b.count(dest)) {
      auto y = b[dest]; auto x = a.find(dest);
      if (x != a.end()) { c.check(x->second.kind == y.kind && x->second.links == y.links, "destination-replaced", st + ": the destination was a file of " + std::to_string(x->second.links) + " names, now " + std::to_string(y.links) + " | " + what); c.check(x->second.mode == y.mode, "destination-permissions-changed", st + ": permissions " + std::to_string(x->second.mode) + " -> " + std::to_string(y.mode) + " | " + what); }
      else c.check((y.mode & ~(0666 & ~um)) == 0, "destination-permissions-changed", st + ": created with permissions " + std::to_string(y.mode) + " under mask " + std::to_string(um) + " | " + what);
    }
    return res.out;
  };
  auto readback = [&](const std::string& p, const std::string& op) {   // the file the path leads to is the database
    std::string f; read_file(p, f); try { if (kdbx) kdbx_read(f, k); else kdb_read(f, k, lib_mktime); } catch (const std::exception& x) { c.viol("destination-not-written", op + ": " + x.what() + " | " + what); }
  };
  auto exp = [&](const std::string& p) { return [&, p]() { return lib_export(kdbx, p, *L, key); }; };
  auto imp = [&](const std::string& p, const keepass::Key& q) { return [&, p]() { return lib_import(kdbx, p, q); }; };
  std::string rel = r.coin() ? "" : root + "/sub/";   // relative or absolute names
  unsigned kind = c.idx / 2 % 6;
  if (kind == 0) {
    if (run("export to a new file: " + rel, "sub/new", exp(rel + "new")) == Out::ok) readback(root + "/sub/new", "export to a new file");
    for (unsigned m : {0600u, 0640u, 0400u, 0666u}) { if (r.coin()) continue; write_file(root + "/sub/old", r.bytes(r.below(30000))); chmod((root + "/sub/old").c_str(), m); if (run("export to an existing file: " + std::to_string(m), "sub/old", exp(rel + "old")) == Out::ok) readback(root + "/sub/old", "export to an existing file"); }
  } else if (kind == 1) {
    write_file(root + "/target", r.bytes(100)); chmod((root + "/target").c_str(), 0600); symlink("../target", (root + "/sub/link").c_str());
    if (run("export through a symbolic link: ", "target", exp(rel + "link")) == Out::ok) readback(root + "/target", "export through a symbolic link");
    write_file(root + "/first", "x"); chmod((root + "/first").c_str(), 0600); link((root + "/first").c_str(), (root + "/sub/second").c_str());
    // Both names are one file: its second name is looked at by itself.
    Out e = Out::ok; { std::map<std::string, Node> a; snap(root, "", a); e = lib_export(kdbx, rel + "second", *L, key).out; std::map<std::string, Node> b; snap(root, "", b); c.count("export to a file with two names"); c.eval(fnv("two names" + std::string(rel), h)); if (e == Out::ok) { c.check(b["first"].ino == b["sub/second"].ino && b["first"].links == 2, "destination-replaced", "a file with two names became two files | " + what); readback(root + "/first", "export to a file with two names"); } for (auto& x : a) if (x.first != "first" && x.first != "sub/second") c.check(b.count(x.first) && b[x.first] == x.second, "file-changed", "export to a file with two names changed " + x.first + " | " + what); c.check(a.size() == b.size(), "file-created", "export to a file with two names | " + what); }
  } else if (kind == 2) {
    run("export below a missing directory: ", "", exp(rel + "none/x.kdbx")); run("export onto a directory: ", "", exp(root + "/tmp")); run("export to an empty name: ", "", exp("")); run("export below a file: ", "", exp(root + "/other.txt/x"));
    // Full: only so many bytes fit.
    struct rlimit rl, old; getrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_IGN); size_t lim = r.below(good.size());
    run("export to a full device: " + std::to_string(lim), "sub/full", [&]() { rl = old; rl.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &rl); Res x = lib_export(kdbx, rel + "full", *L, key); setrlimit(RLIMIT_FSIZE, &old); return x; });
    auto bad = to_lib(d); if (kdbx) bad->set_root(nullptr); else if (r.coin()) bad->set_root(nullptr); else bad->set_master_seed(Bytes(5, 1));
    write_file(root + "/sub/keep", r.bytes(90)); run("refused export: ", "", [&]() { return lib_export(kdbx, rel + "keep", *bad, key); });
  } else if (kind == 3) {
    write_file(root + "/sub/in", good); chmod((root + "/sub/in").c_str(), r.coin() ? 0400 : 0644);
    run("import: ", "", imp(rel + "in", key)); run("import with a wrong key: ", "", imp(rel + "in", wrong)); run("import of a missing file: ", "", imp(rel + "missing", key)); run("import of a directory: ", "", imp(root + "/tmp", key)); run("import by the other reader: ", "", [&]() { return lib_import(!kdbx, rel + "in", key); });
    for (int i = 0; i < 4; ++i) { std::string f = good; std::string how = damage(r, f, header_size(kdbx, good), good); if (!feasible(kdbx, f)) continue; write_file(root + "/sub/in", f); run("import of a damaged file: " + how, "", imp(rel + "in", key)); }
  } else if (kind == 4) {
    // Malformed content inside correct encryption: the values themselves are what the reader stumbles over.
    for (int i = 0; i < 6; ++i) {
      std::string f, how;
      if (kdbx) {
        KdbxStyle st = gen_kdbx_style(r); std::string start = r.bytes(32), hd = kdbx_header(d, st, start, r); Salsa20 obf = inner_stream(d); XNode dom = kdbx_dom(d, st, b64(str(sha256(hd))), r, obf);
        for (int q = 1 + r.below(2); q > 0; --q) { XNode* n = r.coin() ? leaf(dom, r) : leaf_of_kind(dom, r); how += n->name + " "; switch (n->attribute("Ref") && r.coin() ? 2 : r.below(6)) { case 4: case 5: { std::string m = marker(r), t = r.coin() ? m + n->text : m; secrets.insert(m); t += r.pickl<const char*>({"*", "-", "~", "", "\xc3"}); while (t.size() % 4) t += 'A'; n->text = t; break; } case 0: n->text = marker(r); secrets.insert(n->text); break; case 1: { std::string m = marker(r); secrets.insert(m); n->text += " " + m; break; } case 2: { std::string m = marker(r); secrets.insert(m); bool had = false; for (auto& at : n->attr) if (at.first == "Ref" || at.first == "ID") { at.second = m; had = true; } if (!had) n->set("Ref", m); break; } default: { std::string m = marker(r); secrets.insert(m); n->text = m + "*" + n->text; } } n->has_text = true; }
        std::string xml = xml_write(dom, st.xml, &r); if (r.chance(1, 5)) { std::string m = marker(r); secrets.insert(m); xml.insert(xml.rfind("</"), "<" + m + ">"); }
        f = kdbx_encrypt(d, k, hd, start, hash_blocks(d.compress ? gzip(xml, 6, false) : xml, st.block_sizes));
      } else {
        uint32_t ng, ne; auto fs = kdb_split(kdb_content(d, gen_kdb_style(r), r, lib_local, &ng, &ne)); if (fs.empty()) continue; auto& x = fs[r.below(fs.size())]; how = "field " + std::to_string(x.type); std::string m = marker(r); secrets.insert(m); if (r.coin()) x.data = m; else x.data += m; if (r.chance(1, 3)) x.type = r.below(16);
        f = kdb_seal(d, k, kdb_join(fs), ng, ne, d.alg == AES ? 3 : 9, 0x00030004);
      }
      write_file(root + "/sub/in", f); run("import of malformed content: " + how, "", imp(rel + "in", key));
    }
  } else {
    std::string kf = k.kf ? k.kf_text : r.coin() ? key_file_text(r, 1, r.bytes(32)) : r.bytes(64); std::string bad = kf; if (r.coin() && bad.size() > 3) bad.resize(r.below(bad.size())); else if (r.coin()) mark(bad); else { std::string m = marker(r); secrets.insert(m); if (r.coin()) m += "*="; size_t at = r.below(bad.size() + 1); if (r.coin() && at + m.size() <= bad.size()) bad.replace(at, m.size(), m); else bad.insert(at, m); }
    auto lf = [&](const std::string& p) { return [&, p]() { Res x; try { keepass::Key q; q.SetKeyFile(p); q.Transform(r.arr<32>(), 3, keepass::Key::SubKeyResolution::kHashSubKeys); } catch (const std::exception& y) { x.out = classify(y); x.what = y.what(); } return x; }; };
    write_file(root + "/sub/key", kf); chmod((root + "/sub/key").c_str(), 0400); run("key file: ", "", lf(rel + "key")); write_file(root + "/sub/key", bad); run("damaged key file: ", "", lf(rel + "key")); run("missing key file: ", "", lf(rel + "nokey")); run("directory as key file: ", "", lf(root + "/tmp"));
    run("JSON and comparison: ", "", [&]() { Res x; try { std::string j = L->root()->ToJson(); auto L2 = to_lib(d); bool e = *L->root() == *L2->root(); (void)e; } catch (const std::exception& y) { x.out = classify(y); x.what = y.what(); } return x; });
  }
  umask(old_um); if (chdir(back)) throw Stop("chdir"); if (old_tmp.empty()) unsetenv("TMPDIR"); else setenv("TMPDIR", old_tmp.c_str(), 1); if (old_home.empty()) unsetenv("HOME"); else setenv("HOME", old_home.c_str(), 1); wipe(root); c.sample(describe(d));
}

// ------------------------------------------------------------------ C37
namespace {
struct Punct : std::numpunct<char> { char s, p; std::string g; Punct(char s, char p, std::string g) : s(s), p(p), g(g) {} char do_thousands_sep() const override { return s; } char do_decimal_point() const override { return p; } std::string do_grouping() const override { return g; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
// Eight-bit character classes as in the Latin encodings: no-break space and NEL are white space, letters above 0x7f.
struct Latin : std::ctype<char> {
  static const mask* table() { static mask t[table_size]; static bool done = false; if (!done) { memcpy(t, classic_table(), sizeof t); for (int i = 0x80; i < 256; ++i) t[i] = i == 0x85 || i == 0xa0 ? (mask)(space) : i >= 0xc0 ? (mask)(alpha | (i < 0xe0 ? upper : lower) | print) : (mask)(punct | print); done = true; } return t; }
  Latin() : std::ctype<char>(table()) {}
};
std::string locale_kind(unsigned k) { static const char* n[] = {"grouping by one, ','", "grouping by three, '.'", "grouping by three, ' '", "Latin character classes", "C.utf8", "grouping by two, '0'", "Latin character classes and grouping"}; return n[k % 7]; }
struct InLocale {
  std::locale old;
  explicit InLocale(unsigned k) {
    std::locale c = std::locale::classic();
    switch (k % 7) {
      case 0: c = std::locale(c, new Punct(',', '.', "\1")); break; case 1: c = std::locale(c, new Punct('.', ',', "\3")); break; case 2: c = std::locale(c, new Punct(' ', ',', "\3")); break; case 3: c = std::locale(c, new Latin()); break;
      case 4: try { c = std::locale("C.utf8"); } catch (...) {} break; case 5: c = std::locale(c, new Punct('0', '1', "\2")); break; default: c = std::locale(std::locale(c, new Latin()), new Punct('\'', ',', "\3"));
    }
    old = std::locale::global(c); if (k % 7 == 4) setlocale(LC_ALL, "C.utf8");
  }
  ~InLocale() { std::locale::global(old); setlocale(LC_ALL, "C"); }
};
}
PROP(C37, "every evaluation is one operation under another locale than the classic one; distinct by operation, locale and content") {
  Rng& r = c.rng; set_tz(r); bool kdbx = c.idx % 2; GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = r.chance(1, 12) ? 1 : 0; o.max_groups = r.chance(1, 10) ? 40 : 8; MDb d = gen_db(r, o); d.rounds = r.chance(1, 4) ? 1000 + r.below(3000) : r.below(3);
  std::function<void(MGroup&)> big = [&](MGroup& g) { if (r.coin()) g.icon = 1000 + (uint32_t)r.below(4000000); if (r.coin()) g.flags = kdbx ? g.flags : (uint32_t)r.next(); for (auto& e : g.entries) if (r.coin()) e.icon = r.coin() ? 1000 + r.below(100000) : (uint32_t)r.next(); for (auto& x : g.groups) big(x); }; big(d.root);
  unsigned lk = r.below(7); std::string what = locale_kind(lk) + ": " + (kdbx ? "KDBX " : "KDB ") + describe(d), p = c.path("f"); uint64_t h = model_hash(d); FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; Flat want = flatten(d, fo); MKey k = gen_key(r);
  auto key0 = to_key(k, c); keepass::Key key = [&] { InLocale in(lk); return to_key(k, c, "l"); }();
  auto seed = r.arr<32>(); for (bool all : {false, true}) { auto m = all ? keepass::Key::SubKeyResolution::kHashSubKeys : keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey; auto a = key0.Transform(seed, 5, m); InLocale in(lk); auto b = key.Transform(seed, 5, m); c.check(a == b && a == aes_transform(ref_resolve(k, all), seed, 5), "key-differs", k.str() + " | " + what); }
  c.count("keys"); c.eval(fnv("key" + k.str(), lk));
  { // export
    auto L = to_lib(d); Res e; { InLocale in(lk); e = lib_export(kdbx, p, *L, key); }
    if (!c.check(e.ok(), "export-failed", e.what + " | " + what)) return; std::string f; read_file(p, f);
    try { std::string df = flat_diff(want, flatten(kdbx ? kdbx_read(f, k).db : kdb_read(f, k, lib_mktime).db, fo)); c.check(df.empty(), "exported-data-differs", df + " | " + what); } catch (const std::exception& x) { c.viol("exported-file-undecodable", std::string(x.what()) + " | " + what); }
    c.count("exports"); c.eval(fnv("export", 6, h + lk));
  }
  { // import
    KdbxStyle st = gen_kdbx_style(r); st.zero_uuid_none = false; write_file(p, kdbx ? kdbx_write(d, k, st, r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local));
    Res i; { InLocale in(lk); i = lib_import(kdbx, p, key); }
    if (!c.check(i.ok(), "import-failed", i.what + " | " + what)) return; std::string df = flat_diff(want, flatten(from_lib(*i.db), fo)); c.check(df.empty(), "imported-data-differs", df + " | " + what);
    c.count("imports"); c.eval(fnv("import", 6, h + lk));
  }
  for (int t = 0; t < 3; ++t) { // malformed content: the same outcome and the same result
    static const char* odd[] = {"\xa0", "\x85", "\xc2\xa0", "\xe9", ",", ".", " ", "\t", "\v", "\f", "'", "0", "1,000", "1.000", "+1", "-1", "0x1", "wahr", "falsch", "TRUE", "true", "\xd9\xa1", "1e3", "\xe2\x80\x89"};
    std::string f, how, ins = odd[r.below(sizeof odd / sizeof *odd)];
    if (kdbx) {
      KdbxStyle st = gen_kdbx_style(r); st.zero_uuid_none = false; std::string start = r.bytes(32), hd = kdbx_header(d, st, start, r); Salsa20 obf = inner_stream(d); XNode dom = kdbx_dom(d, st, b64(str(sha256(hd))), r, obf);
      for (int q = 1 + r.below(3); q > 0; --q) { XNode* n = leaf(dom, r); how += n->name + " "; size_t at = r.below(n->text.size() + 1); if (r.chance(1, 3)) n->text = ins; else n->text.insert(at, ins); n->has_text = true; }
      std::string xml = xml_write(dom, st.xml, &r); f = kdbx_encrypt(d, k, hd, start, hash_blocks(d.compress ? gzip(xml, 6, false) : xml, st.block_sizes));
    } else {
      uint32_t ng, ne; auto fs = kdb_split(kdb_content(d, gen_kdb_style(r), r, lib_local, &ng, &ne)); if (fs.empty()) continue; auto& x = fs[r.below(fs.size())]; how = "field " + std::to_string(x.type); x.data.insert(r.below(x.data.size() + 1), ins);
      f = kdb_seal(d, k, kdb_join(fs), ng, ne, d.alg == AES ? 3 : 9, 0x00030004);
    }
    write_file(p, f); Res a = lib_import(kdbx, p, key0), b; { InLocale in(lk); b = lib_import(kdbx, p, key0); } c.count("malformed_imports"); c.count("malformed_" + std::string(out_name(a.out)));
    c.eval(fnv("malformed" + how + ins, lk)); std::string s = "'" + show(ins, 20) + "' in " + how + "| " + what;
    if (!c.check(a.out == b.out, "outcome-differs", std::string(out_name(a.out)) + " under the classic locale, " + out_name(b.out) + " otherwise: " + s)) continue;
    if (a.ok()) { std::string df = flat_diff(flatten(from_lib(*a.db), fo), flatten(from_lib(*b.db), fo)); c.check(df.empty(), "imported-data-differs", df + ": " + s); }
  }
  for (int t = 0; t < 2; ++t) { // odd key files
    std::string f = key_file_text(r, 1 + r.below(3), r.bytes(32)); static const char* odd[] = {"\xa0", "\x85", "\xe9", " ", "\t", "\v", "0x", "\xef\xbc\x91"}; std::string ins = odd[r.below(8)]; size_t at = r.below(f.size() + 1); if (r.coin()) f.insert(at, ins); else f.replace(at, ins.size(), ins);
    std::string q = c.path("odd"); write_file(q, f); auto run = [&](std::string& out) { try { keepass::Key x; x.SetKeyFile(q); auto y = x.Transform(seed, 2, keepass::Key::SubKeyResolution::kHashSubKeys); out.assign(y.begin(), y.end()); return Out::ok; } catch (const std::exception& x) { return classify(x); } };
    std::string x, y; Out a = run(x), b; { InLocale in(lk); b = run(y); } c.count("odd_key_files"); c.eval(fnv("kf" + f, lk)); c.check(a == b && x == y, "key-differs", "key file " + show(f, 120) + ": " + out_name(a) + " and " + out_name(b) + " | " + what);
  }
  { // JSON
    auto L = to_lib(d); std::string a = L->root()->ToJson(), b; { InLocale in(lk); b = L->root()->ToJson(); }
    size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) ++q;
    c.check(a == b, "json-differs", "..." + show(a.substr(q > 30 ? q - 30 : 0), 80) + " became ..." + show(b.substr(q > 30 ? q - 30 : 0), 80) + " | " + what); c.count("documents"); c.count("json_bytes", a.size()); c.eval(fnv("json", 4, h + lk));
  }
  c.count(locale_kind(lk)); c.sample("{\"locale\":" + jesc(locale_kind(lk)) + "}");
}
