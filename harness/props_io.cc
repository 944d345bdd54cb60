// I/O faults: C13 (writing), C30 (reading). The library's system calls on one file are observed and made to fail.
#include "hostile.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace ref;

// ------------------------------------------------------------------ call interposition (this program only)
enum Op { WRITE, READ, SEEK, CLOSE, OPEN, SYNC, NOPS };
enum Kind { NONE, ERR_FOREVER, ERR_ONCE, PART_THEN_ERR, SHORT_ONCE, SHORT_ALWAYS, INTR_ONCE, INTR_MANY, ZERO_ONCE, EOF_ONCE, SHORT_THEN_ERR, NKINDS };
static const char* kOps[] = {"write", "read", "seek", "close", "open", "sync"};
static const char* kKinds[] = {"none", "error from then on", "one error", "partial write then errors", "one short transfer", "short transfers", "one EINTR", "EINTRs", "zero bytes once", "early end of file", "a short transfer, then one error"};
struct Fault { Op op = NOPS; Kind kind = NONE; unsigned at = 0, amount = 0; int err = EIO; };
static struct { bool on = false; std::string target; Fault f; unsigned calls[NOPS], delivered, intr; uint64_t bytes; } S;
static bool match_path(const char* p) { return p && S.on && strncmp(p, S.target.c_str(), S.target.size()) == 0; }
static bool match(int fd) {
  if (!S.on) return false;
  char a[64], b[4096]; snprintf(a, sizeof a, "/proc/self/fd/%d", fd); ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, a, b, sizeof b - 1);
  if (n < 0) return false; b[n] = 0; return strncmp(b, S.target.c_str(), S.target.size()) == 0;
}
// Decides the fate of one transfer of n bytes: returns -1 (fail, errno set), otherwise the number of bytes to transfer.
static ssize_t fate(Op op, size_t n) {
  unsigned i = S.calls[op]++; const Fault& f = S.f;
  if (f.op != op || i < f.at) return n;
  bool first = i == f.at;
  switch (f.kind) {
    case ERR_FOREVER: ++S.delivered; errno = f.err; return -1;
    case ERR_ONCE: if (!first) return n; ++S.delivered; errno = f.err; return -1;
    case PART_THEN_ERR: ++S.delivered; if (first && n > 1) return 1 + f.amount % (n - 1); errno = f.err; return -1;
    case SHORT_ONCE: if (!first || n < 2) return n; ++S.delivered; return 1 + f.amount % (n - 1);
    case SHORT_ALWAYS: if (n < 2) return n; ++S.delivered; return 1 + f.amount % std::min<size_t>(n - 1, 97);
    case INTR_ONCE: if (!first) return n; ++S.delivered; errno = EINTR; return -1;
    case INTR_MANY: if (S.intr++ % 4 == 3) return n; ++S.delivered; errno = EINTR; return -1;
    case ZERO_ONCE: if (!first) return n; ++S.delivered; return 0;
    case EOF_ONCE: if (!first) return n; ++S.delivered; return 0;
    case SHORT_THEN_ERR: if (first) return n > 1 ? 1 + f.amount % (n - 1) : n; if (i != f.at + 1) return n; ++S.delivered; errno = f.err; return -1;
    default: return n;
  }
}
extern "C" {
ssize_t write(int fd, const void* p, size_t n) { if (match(fd)) { ssize_t k = fate(WRITE, n); if (k <= 0 && n) return k; n = k; S.bytes += n; } return syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (match(fd)) {
    size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
    ssize_t k = fate(WRITE, n); if (k <= 0 && n) return k;
    if ((size_t)k < n) { std::string b; for (int i = 0; i < c; ++i) b.append((const char*)v[i].iov_base, v[i].iov_len); S.bytes += k; return syscall(SYS_write, fd, b.data(), (size_t)k); }
    S.bytes += n;
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { if (match(fd)) { ssize_t k = fate(WRITE, n); if (k <= 0 && n) return k; n = k; } return syscall(SYS_pwrite64, fd, p, n, o); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { return pwrite(fd, p, n, o); }
ssize_t read(int fd, void* p, size_t n) { if (match(fd)) { ssize_t k = fate(READ, n); if (k <= 0 && n) return k; n = k; } ssize_t r = syscall(SYS_read, fd, p, n); if (S.on && r > 0) S.bytes += r; return r; }
ssize_t readv(int fd, const struct iovec* v, int c) { if (match(fd)) { ssize_t k = fate(READ, 1 << 20); if (k <= 0) return k; if (k < (1 << 20) && c) { size_t n = std::min<size_t>(k, v[0].iov_len); return syscall(SYS_read, fd, v[0].iov_base, n); } } return syscall(SYS_readv, fd, v, c); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { if (match(fd)) { ssize_t k = fate(READ, n); if (k <= 0 && n) return k; n = k; } return syscall(SYS_pread64, fd, p, n, o); }
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { return pread(fd, p, n, o); }
off_t lseek(int fd, off_t o, int w) { if (match(fd) && fate(SEEK, 1) < 0) return -1; return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd) { if (match(fd) && fate(SYNC, 1) < 0) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (match(fd) && fate(SYNC, 1) < 0) return -1; return syscall(SYS_fdatasync, fd); }
int close(int fd) { bool bad = match(fd) && fate(CLOSE, 1) < 0; int e = errno, r = syscall(SYS_close, fd); if (bad) { errno = e; return -1; } return r; }
int fclose(FILE* f) {
  static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(f); bool bad = fd >= 0 && match(fd) && fate(CLOSE, 1) < 0; int e = errno, r = real(f); if (bad) { errno = e; return EOF; } return r;
}
FILE* fopen(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
  if (match_path(p) && fate(OPEN, 1) < 0) return nullptr; return real(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64");
  if (match_path(p) && fate(OPEN, 1) < 0) return nullptr; return real(p, m);
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (match_path(p) && fate(OPEN, 1) < 0) return -1; return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (match_path(p) && fate(OPEN, 1) < 0) return -1; return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
}
struct Armed { Armed(const std::string& t, const Fault& f) { S.target = t; S.f = f; memset(S.calls, 0, sizeof S.calls); S.delivered = S.intr = 0; S.bytes = 0; S.on = true; } ~Armed() { S.on = false; } };
static std::string str(const Fault& f) { return std::string(kKinds[f.kind]) + " at " + (f.op < NOPS ? kOps[f.op] : "-") + " call " + std::to_string(f.at) + " (errno " + std::to_string(f.err) + ", amount " + std::to_string(f.amount) + ")"; }
static void add_big(Rng& r, MDb& d, bool kdbx, size_t n) {
  MEntry e; e.uuid = r.arr<16>(); MAtt a; a.name = "big"; a.bin.data = r.bytes(n); e.atts.push_back(a);
  if (kdbx) { d.root.entries.push_back(e); d.root.last_visible = -1; }
  else { if (d.root.groups.empty()) { MGroup g; g.uuid = r.arr<16>(); g.name = "g"; d.root.groups.push_back(g); } d.root.groups[0].entries.push_back(e); }
}

// ------------------------------------------------------------------ C13
PROP(C13, "every evaluation is one export under one fault, file size limit or full device; distinct by database and fault") {
  Rng& r = c.rng; set_tz(r); bool kdbx = c.idx % 2; GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = 0; o.max_groups = r.chance(1, 4) ? 20 : 5;
  MDb d = gen_db(r, o); d.rounds = r.below(2); MKey k = gen_key(r); auto key = to_key(k, c);
  if (kdbx && d.master_seed.size() > 2000) d.master_seed.resize(32);
  unsigned cls = c.idx / 2 % 10;   // mostly within one stream buffer, sometimes several, sometimes several blocks
  if (cls == 7) add_big(r, d, kdbx, 3000 + r.below(9000)); else if (cls == 8) add_big(r, d, kdbx, 20000 + r.below(40000)); else if (cls == 9) { if (c.idx % 3 == 0) add_big(r, d, kdbx, 1000000 + r.below(1500000)); else add_big(r, d, kdbx, 8000 + r.below(500)); }
  auto L = to_lib(d); FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; Flat want = flatten(d, fo); std::string p = c.path("out"), what = describe(d), target = p; uint64_t h = model_hash(d);
  // Judges one export: nothing is demanded of an export that throws.
  auto judge = [&](const Res& e, const std::string& how, bool must_throw) {
    c.count(e.ok() ? "exports_completed" : "exports_refused"); if (!e.ok()) return;
    if (!c.check(!must_throw, "failed-write-not-reported", "Export returned normally although the file could not be written completely: " + how + " | " + what)) return;
    std::string f; if (!read_file(p, f)) { c.viol("no-file-after-export", how + " | " + what); return; }
    try { std::string df = flat_diff(want, flatten(kdbx ? kdbx_read(f, k).db : kdb_read(f, k, lib_mktime).db, fo)); c.check(df.empty(), "incomplete-file-after-export", how + ": " + df + " | " + what); }
    catch (const std::exception& x) { c.viol("incomplete-file-after-export", "Export returned normally but the file is not complete (" + std::to_string(f.size()) + " bytes): " + how + ": " + x.what() + " | " + what); }
  };
  auto prepare = [&]() { unlink(p.c_str()); if (r.chance(1, 8)) { write_file(p, r.bytes(r.below(50000))); c.count("existing_destination"); } };
  // Without faults: how many calls and bytes there are.
  prepare(); Res clean; unsigned calls[NOPS]; { Armed a(target, Fault()); clean = lib_export(kdbx, p, *L, key); memcpy(calls, S.calls, sizeof calls); }
  if (!c.check(clean.ok(), "export-failed", clean.what + " " + what)) return;
  judge(clean, "no fault", false); std::string full; read_file(p, full); size_t size = full.size();
  c.count("write_calls_seen", calls[WRITE]); c.count("close_calls_seen", calls[CLOSE]); c.maxi("max_file_bytes", size); c.maxi("max_write_calls", calls[WRITE]);
  auto run = [&](const Fault& f) {
    prepare(); arm_cpu_limit(0); Res e; unsigned del; { Armed a(target, f); e = lib_export(kdbx, p, *L, key); del = S.delivered; }
    if (!del) { c.count("faults_not_reached"); return; }
    c.count("faults_delivered"); c.count(std::string("fault_") + kOps[f.op]); c.eval(fnv(str(f), h));
    judge(e, str(f), f.op == CLOSE || f.op == SYNC);
  };
  bool big = size > 300000; unsigned budget = big ? 40 : 160;
  std::vector<Fault> fs;
  for (unsigned at = 0; at < calls[WRITE]; ++at) for (int kd : {ERR_FOREVER, ERR_ONCE, PART_THEN_ERR, SHORT_ONCE, INTR_ONCE, ZERO_ONCE}) { Fault f; f.op = WRITE; f.kind = (Kind)kd; f.at = at; f.amount = r.coin() ? 0 : (unsigned)r.next() >> 8; f.err = r.pickl<int>({EIO, ENOSPC, EFBIG, EDQUOT, EPIPE, EAGAIN}); fs.push_back(f); }
  for (int kd : {SHORT_ALWAYS, INTR_MANY}) for (int i = 0; i < 2; ++i) { Fault f; f.op = WRITE; f.kind = (Kind)kd; f.at = 0; f.amount = i ? (unsigned)r.next() >> 8 : 96; fs.push_back(f); }
  c.count("fault_points", fs.size());
  if (fs.size() > budget) { // first and last calls always, the others sampled
    std::vector<Fault> g; for (size_t i = 0; i < fs.size(); ++i) if (i < 12 || i + 22 > fs.size() || r.below(fs.size()) < budget - 34) g.push_back(fs[i]); fs.swap(g);
  }
  for (auto& f : fs) run(f);
  for (unsigned at = 0; at < calls[CLOSE]; ++at) { Fault f; f.op = CLOSE; f.kind = ERR_ONCE; f.at = at; f.err = r.coin() ? EIO : ENOSPC; run(f); }
  for (unsigned at = 0; at < calls[SYNC]; ++at) { Fault f; f.op = SYNC; f.kind = ERR_ONCE; f.at = at; run(f); }
  for (unsigned at = 0; at < calls[OPEN]; ++at) { Fault f; f.op = OPEN; f.kind = ERR_ONCE; f.at = at; f.err = r.pickl<int>({EACCES, EMFILE, ENOSPC, EROFS}); run(f); }
  // File size limits, byte by byte where it matters.
  std::set<size_t> lim; bool every = c.idx % 40 < 2 && size < 4000;
  if (every) { for (size_t b = 0; b < size; ++b) lim.insert(b); c.count("byte_exhaustive_files"); }
  else { lim.insert({0, 1, size - 1, size - 2, size - 15, size - 16, size - 17, size / 2}); for (int i = 0; i < (big ? 8 : 30); ++i) lim.insert(r.coin() ? r.below(size) : size - 1 - r.below(std::min<size_t>(size, 600))); for (size_t m = 8191; m < size && m < 5 * 8192; m += 8191) for (int q = -1; q <= 1; ++q) lim.insert(m + q); }
  for (size_t b : lim) if (b < size) {
    struct rlimit rl, old; getrlimit(RLIMIT_FSIZE, &old); rl = old; rl.rlim_cur = b; unlink(p.c_str()); arm_cpu_limit(0);
    setrlimit(RLIMIT_FSIZE, &rl); Res e = lib_export(kdbx, p, *L, key); setrlimit(RLIMIT_FSIZE, &old);
    c.count("size_limits"); c.eval(fnv("limit" + std::to_string(b), h));
    judge(e, "file size limited to " + std::to_string(b) + " of " + std::to_string(size) + " bytes", kdbx ? b + 16 < size : true);   // KDBX sizes may vary by nothing; allow one block
  }
  // A full device, through a symbolic link of our own.
  std::string full_dev = c.path("fulldev"); unlink(full_dev.c_str());
  if (symlink("/dev/full", full_dev.c_str()) == 0) { Res e = lib_export(kdbx, full_dev, *L, key); c.count("full_device"); c.check(!e.ok(), "failed-write-not-reported", "Export to a full device returned normally | " + what); c.eval(fnv(std::string("full"), h)); unlink(full_dev.c_str()); }
  if (c.idx % 5 == 0) { Res e = lib_export(kdbx, c.dir, *L, key); c.check(!e.ok(), "failed-write-not-reported", "Export to a directory returned normally"); Res e2 = lib_export(kdbx, c.path("no/such/dir"), *L, key); c.check(!e2.ok(), "failed-write-not-reported", "Export into a missing directory returned normally"); }
  // Afterwards everything still works.
  unlink(p.c_str()); judge(lib_export(kdbx, p, *L, key), "no fault, afterwards", false);
  c.sample("{\"size\":" + std::to_string(size) + ",\"write_calls\":" + std::to_string(calls[WRITE]) + ",\"db\":" + what + "}");
}

// ------------------------------------------------------------------ C30
PROP(C30, "every evaluation is one import or key file load under one read fault; distinct by file and fault") {
  Rng& r = c.rng; set_tz(r); int kind = c.idx % 3; std::string p = c.path("in");
  auto faults = [&](const unsigned* calls, unsigned budget) {
    std::vector<Fault> fs;
    for (unsigned at = 0; at < calls[READ]; ++at) for (int kd : {ERR_FOREVER, ERR_ONCE, SHORT_ONCE, INTR_ONCE, SHORT_THEN_ERR}) { Fault f; f.op = READ; f.kind = (Kind)kd; f.at = at; f.amount = r.coin() ? 0 : (unsigned)r.next() >> 8; f.err = r.pickl<int>({EIO, EIO, EISDIR, ESTALE, EBADF, EAGAIN}); fs.push_back(f); }
    for (unsigned at = 0; at < calls[SEEK]; ++at) for (int kd : {ERR_FOREVER, ERR_ONCE}) { Fault f; f.op = SEEK; f.kind = (Kind)kd; f.at = at; f.err = EIO; fs.push_back(f); }
    for (int kd : {SHORT_ALWAYS, INTR_MANY}) for (unsigned amt : {0u, 96u, (unsigned)r.next() >> 8}) { Fault f; f.op = READ; f.kind = (Kind)kd; f.amount = amt; fs.push_back(f); }
    for (unsigned at = 0; at < calls[OPEN]; ++at) { Fault f; f.op = OPEN; f.kind = ERR_ONCE; f.at = at; f.err = r.pickl<int>({EACCES, EMFILE, EIO}); fs.push_back(f); }
    c.count("fault_points", fs.size());
    if (fs.size() > budget) { std::vector<Fault> g; for (size_t i = 0; i < fs.size(); ++i) if (i < 12 || i + 22 > fs.size() || r.below(fs.size()) < budget - 34) g.push_back(fs[i]); fs.swap(g); }
    return fs;
  };
  unsigned calls[NOPS];
  if (kind < 2) {
    bool kdbx = kind; GenOpt o; o.kdb = !kdbx; o.ctrl = false; o.scale = 0; o.max_groups = 6; MDb d = gen_db(r, o); d.rounds = r.below(2); MKey k = gen_key(r); auto key = to_key(k, c);
    unsigned cls = c.idx / 3 % 8; if (cls == 5) add_big(r, d, kdbx, 7000 + r.below(3000)); else if (cls == 6) add_big(r, d, kdbx, 20000 + r.below(60000)); else if (cls == 7 && c.idx % 4 == 0) add_big(r, d, kdbx, 1000000 + r.below(1000000));
    KdbxStyle st = gen_kdbx_style(r); st.zero_uuid_none = false; if (!kdbx && c.idx % 2) d.rounds = 0;
    std::string f = kdbx ? kdbx_write(d, k, st, r) : kdb_write(d, k, gen_kdb_style(r), r, lib_local), what = describe(d); write_file(p, f);
    FlatOpt fo; fo.mode = kdbx ? KDBX : KDB; uint64_t h = fnv(f);
    Res base; { Armed a(p, Fault()); base = lib_import(kdbx, p, key); memcpy(calls, S.calls, sizeof calls); }
    if (!c.check(base.ok(), "intact-file-refused", base.what + " " + what)) return;
    Flat want = flatten(d, fo); { std::string df = flat_diff(want, flatten(from_lib(*base.db), fo)); if (!c.check(df.empty(), "intact-file-differs", df + " " + what)) return; }
    c.count("read_calls_seen", calls[READ]); c.count("seek_calls_seen", calls[SEEK]); c.maxi("max_file_bytes", f.size());
    for (auto& ft : faults(calls, f.size() > 300000 ? 60 : 200)) {
      arm_cpu_limit(0); Res i; unsigned del; { Armed a(p, ft); i = lib_import(kdbx, p, key); del = S.delivered; }
      if (!del) { c.count("faults_not_reached"); continue; }
      c.count("faults_delivered"); c.count(std::string("fault_") + kOps[ft.op]); c.count(std::string("outcome_") + out_name(i.out)); c.eval(fnv(str(ft), h));
      if (!i.ok()) { bool benign = ft.kind == SHORT_ONCE || ft.kind == SHORT_ALWAYS || ft.kind == INTR_ONCE || ft.kind == INTR_MANY; c.check(!benign, "short-or-interrupted-read-changes-result", str(ft) + ": " + i.what + " | " + what); continue; }
      std::string df = flat_diff(want, flatten(from_lib(*i.db), fo));
      c.check(df.empty(), "partial-database-after-read-error", str(ft) + ": " + df + " | " + what);
    }
    c.sample("{\"kdbx\":" + std::to_string(kdbx) + ",\"size\":" + std::to_string(f.size()) + ",\"read_calls\":" + std::to_string(calls[READ]) + "}");
    return;
  }
  // Key files, short and long (white space and comments make XML key files any size).
  if (c.idx / 3 % 4 == 3) {   // Not a key file as a whole, though its last bytes alone would be one: no read fault makes it one.
    std::string t = r.coin() ? hex(r.bytes(32)) : r.bytes(32), head; size_t n = r.coin() ? 1 + r.below(400) : 8191 * (1 + r.below(2)) + r.below(2); for (size_t i = 0; i < n; ++i) head += r.pickl<char>({'g', ' ', 'z', '\n', '0', '<'}); if (n == 32 && t.size() == 32) head += "g"; write_file(p, head + t);
    auto load = [&](const Fault& f) { keepass::Key q; bool ok = true; arm_cpu_limit(0); Armed a(p, f); try { q.SetKeyFile(p); } catch (const std::exception&) { ok = false; } memcpy(calls, S.calls, sizeof calls); return ok; };
    if (load(Fault())) { c.viol("invalid-key-file-accepted", show(head + t, 200)); return; }
    unsigned n0 = calls[READ]; std::vector<Fault> fs = faults(calls, 200);
    for (unsigned at = 0; at < n0; ++at) for (size_t part : {head.size(), head.size() % 8191, head.size() + 32}) if (part) { Fault f; f.op = READ; f.kind = SHORT_THEN_ERR; f.at = at; f.amount = part - 1; fs.push_back(f); f.kind = ERR_ONCE; fs.push_back(f); }
    for (auto& f : fs) { bool ok = load(f); if (!S.delivered) { c.count("faults_not_reached"); continue; } c.count("invalid_key_file_faults"); c.eval(fnv(str(f), fnv(head + t))); c.check(!ok, "part-of-key-file-accepted", str(f) + " | file of " + std::to_string(head.size()) + "+" + std::to_string(t.size()) + " bytes"); }
    return;
  }
  MKey k = gen_key_kind(r, r.coin(), 1 + r.below(2));
  if (k.kf == 1 && r.coin()) { size_t n = r.pickl<size_t>({4000, 8100, 8192, 9000, 20000, 70000}) + r.below(300); size_t at = r.coin() ? k.kf_text.find("<Key>") : k.kf_text.find("</KeyFile>"); std::string fill = r.coin() ? std::string(n, r.coin() ? ' ' : '\n') : "<!--" + std::string(n, 'x') + "-->"; k.kf_text.insert(at, fill); }
  if (k.kf == 1 && r.chance(1, 3)) { // a value that decodes to another key when cut at a group boundary is impossible; break lines inside it
    size_t p0 = k.kf_text.find("<Data>"); if (p0 != std::string::npos) k.kf_text.insert(p0 + 6 + r.below(8), "\n"); }
  write_file(p, k.kf_text); std::array<uint8_t, 32> seed = r.arr<32>(); auto all = [&](const keepass::Key& q) { return q.Transform(seed, 2, keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey); };
  auto want = aes_transform(ref_resolve(k, false), seed, 2); keepass::Key kk; if (k.has_pw) kk.SetPassword(k.pw);
  { Armed a(p, Fault()); try { kk.SetKeyFile(p); } catch (const std::exception& e) { S.on = false; c.viol("intact-key-file-refused", std::string(e.what()) + " " + k.str()); return; } memcpy(calls, S.calls, sizeof calls); }
  auto eq = [&](const keepass::Key& q) { auto t = all(q); return std::equal(t.begin(), t.end(), want.begin()); };
  if (!c.check(eq(kk), "key-file-wrong", k.str())) return;
  c.count("key_read_calls_seen", calls[READ]);
  for (auto& ft : faults(calls, 200)) {
    keepass::Key q; if (k.has_pw) q.SetPassword(k.pw); bool ok = true; std::string err; unsigned del; arm_cpu_limit(0);
    { Armed a(p, ft); try { q.SetKeyFile(p); } catch (const std::exception& e) { ok = false; err = e.what(); } del = S.delivered; }
    if (!del) { c.count("faults_not_reached"); continue; }
    c.count("key_faults_delivered"); c.count(ok ? "key_loaded" : "key_refused"); c.eval(fnv(str(ft), fnv(k.kf_text)));
    bool benign = ft.kind == SHORT_ONCE || ft.kind == SHORT_ALWAYS || ft.kind == INTR_ONCE || ft.kind == INTR_MANY;
    if (!ok) { c.check(!benign, "short-or-interrupted-read-changes-result", "key file: " + str(ft) + ": " + err + " | " + k.str()); continue; }
    c.check(eq(q), "other-key-after-read-error", str(ft) + " | " + k.str());
  }
  c.sample("{\"key_file_bytes\":" + std::to_string(k.kf_text.size()) + "}");
}
