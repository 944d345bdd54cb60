// The coding and cryptography layers on their own: C14 C15 C16 C17 C18 C31.
#include "gen.hh"
#include "bridge.hh"
#include <sstream>
#include <zlib.h>
#include "base64.hh"
#include "cipher.hh"
#include "exception.hh"
#include "iterator.hh"
#include "random.hh"
#include "stream.hh"
using namespace ref;

namespace {
// A seekable source that hands out its data in small windows, like a slow device.
struct DripBuf : std::streambuf {
  std::string d; size_t pos = 0; Rng* r; size_t maxw;
  DripBuf(const std::string& s, Rng* rng, size_t w) : d(s), r(rng), maxw(w) {}
  int_type underflow() override {
    pos += egptr() - eback();
    if (pos >= d.size()) { setg(nullptr, nullptr, nullptr); pos = d.size(); return traits_type::eof(); }
    size_t n = std::min<size_t>(d.size() - pos, 1 + r->below(maxw));
    setg(&d[pos], &d[pos], &d[pos] + n); return traits_type::to_int_type(*gptr());
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override {
    off_type cur = pos + (gptr() - eback());
    off_type t = w == std::ios_base::beg ? o : w == std::ios_base::cur ? cur + o : (off_type)d.size() + o;
    if (t < 0 || t > (off_type)d.size()) return pos_type(off_type(-1));
    if (!(w == std::ios_base::cur && o == 0)) { setg(nullptr, nullptr, nullptr); pos = t; }
    return pos_type(t);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
// Writes data in pieces of many sizes and by different calls.
void feed(std::ostream& os, const std::string& d, Rng& r) {
  unsigned mode = r.below(5); size_t i = 0;
  while (i < d.size()) {
    size_t n = mode == 0 ? d.size() : mode == 1 ? 1 : mode == 2 ? 1 + r.below(7) : 1 + gen_size(r, 40000);
    n = std::min(n, d.size() - i);
    if (n == 1) { if (r.coin()) os.put(d[i]); else os.rdbuf()->sputc(d[i]); }
    else if (mode == 4 && r.coin()) { std::stringstream s(d.substr(i, n)); os << s.rdbuf(); }
    else if (r.coin()) os.write(&d[i], n); else os.rdbuf()->sputn(&d[i], n);
    i += n;
  }
}
struct Taken { std::string data; bool failed = false; std::string what; };
// Reads everything; failed: the reader reported an error instead of a clean end.
Taken take(std::streambuf& sb, Rng& r, size_t cap) {
  Taken t; unsigned mode = r.below(7);
  try {
    if (mode == 0) { for (int c; (c = sb.sbumpc()) != EOF && t.data.size() < cap;) t.data += (char)c; }
    else if (mode == 1) { int c = sb.sgetc(); while (c != EOF && t.data.size() < cap) { t.data += (char)c; c = sb.snextc(); } }
    else if (mode == 2) { std::istreambuf_iterator<char> a(&sb), b; while (a != b && t.data.size() < cap) t.data += *a++; }
    else if (mode == 6) { std::istream is(&sb); is.exceptions(std::ios::badbit); std::stringstream o; o.exceptions(std::ios::badbit); std::string junk; int c; while ((c = is.get()) != EOF && t.data.size() < cap) { t.data += (char)c; if (r.chance(1, 50)) is.peek(); } }
    else {
      std::istream is(&sb); if (r.coin()) is.exceptions(std::ios::badbit);
      std::string b; size_t mx = mode == 3 ? 64 : mode == 4 ? 5000 : 300000;
      for (;;) {
        b.resize(1 + r.below(mx)); is.read(&b[0], b.size()); t.data.append(b, 0, is.gcount());
        if (is.bad()) { t.failed = true; t.what = "badbit"; break; }
        if (!is || t.data.size() >= cap) break;
      }
      return t;
    }
  } catch (const std::exception& e) { t.failed = true; t.what = e.what(); return t; }
  // The end stays the end.
  try { for (int i = 0; i < 3; ++i) if (t.data.size() < cap && sb.sgetc() != EOF) { t.data += "<data after the end>"; break; } } catch (const std::exception& e) { t.failed = true; t.what = std::string("error after the end was reported: ") + e.what(); }
  return t;
}
std::string seen(const Taken& t) { return std::to_string(t.data.size()) + " bytes" + (t.failed ? ", then error " + t.what : ", then end"); }
// What a strict reader makes of a block stream: intact leading blocks, whether it ends properly.
void strict_blocks(const std::string& d, std::vector<size_t>& bounds, std::string& data, bool& complete) {
  size_t i = 0; complete = false; bounds.push_back(0);
  for (uint32_t idx = 0;; ++idx) {
    if (i + 40 > d.size() || get32(d, i) != idx) return;
    std::string h = d.substr(i + 4, 32); uint32_t n = get32(d, i + 36); i += 40;
    if (!n) { complete = h == std::string(32, 0); return; }
    if (n > d.size() - i || str(sha256(d.substr(i, n))) != h) return;
    data += d.substr(i, n); i += n; bounds.push_back(data.size());
  }
}
std::string mutate_bytes(std::string d, Rng& r) {
  for (int k = 1 + r.below(3); k > 0 && !d.empty(); --k) {
    size_t p = r.coin() ? r.below(d.size()) : r.coin() ? r.below(std::min<size_t>(d.size(), 60)) : d.size() - 1 - r.below(std::min<size_t>(d.size(), 60));
    size_t n = 1 + gen_size(r, std::max<size_t>(1, d.size() / 3));
    switch (r.below(9)) {
      case 0: d[p] ^= (char)(1 << r.below(8)); break;
      case 1: d[p] = (char)r.next(); break;
      case 2: d.resize(p); break;
      case 3: d.erase(p, n); break;
      case 4: d.insert(p, r.bytes(std::min<size_t>(n, 2000))); break;
      case 5: d.insert(p, d.substr(p, n)); break;
      case 6: { std::string x = d.substr(p, n); d.erase(p, n); d.insert(r.below(d.size() + 1), x); break; }
      case 7: for (size_t i = p; i < std::min(d.size(), p + n); ++i) d[i] = r.coin() ? 0 : (char)0xff; break;
      case 8: d.resize(d.size() - std::min<size_t>(d.size(), 1 + r.below(45))); break;
    }
  }
  return d;
}
}

// ---------------------------------------------------------------- C14
PROP(C14, "non-trivial: at least one data block; distinct by data, block size and treatment") {
  Rng& r = c.rng; unsigned mode = c.idx % 4;
  bool deflt = r.chance(1, 12);
  uint32_t bs = deflt ? 1 << 20 : r.pickl<uint32_t>({1, 2, 16, 64, 1000, 4096, 65536, (uint32_t)(1 + gen_size(r, 70000))});
  size_t n = deflt ? r.pickl<size_t>({0, 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, (size_t)r.below(3000000)}) : r.coin() ? gen_size(r, std::min<size_t>(60000, 500 * (size_t)bs)) : std::min<size_t>(120000, (size_t)bs * r.below(6) + r.pickl<int>({0, 0, 1, -1}) + 1) - 1;
  if (n > 4000000) n = 0;
  std::string d = gen_data(r, n), what = "size " + std::to_string(n) + " block " + std::to_string(bs);
  std::string enc;
  if (mode < 2) {
    std::stringstream out; keepass::hashed_ostreambuf ob(out, bs); keepass::hashed_ostreambuf od(out);
    std::ostream os(deflt && r.coin() ? &od : &ob);
    feed(os, d, r); os.flush();
    if (!c.check(os.good(), "write-failed", what)) return;
    enc = out.str();
    std::string back;
    try { back = unhash_blocks(enc); } catch (const std::exception& e) { c.viol("layout", std::string(e.what()) + " | " + what); return; }
    c.check(back == d, "written-data-differs", what);
    c.count("streams_written");
  } else {
    std::vector<uint32_t> sz; for (int i = 1 + r.below(4); i > 0; --i) sz.push_back(1 + gen_size(r, 3 * bs)); if (deflt) sz.clear();
    enc = hash_blocks(d, sz);
  }
  uint64_t h = fnv(enc);
  bool damaged = mode == 1 || mode == 3;
  std::string in = enc;
  if (damaged) {
    // Aim at header fields of one block half of the time.
    std::vector<size_t> hd; for (size_t i = 0; i + 40 <= enc.size();) { hd.push_back(i); i += 40 + get32(enc, i + 36); }
    if (r.coin()) {
      size_t b = r.pick(hd); uint32_t len = get32(enc, b + 36);
      switch (r.below(8)) {
        case 0: in[b + r.below(4)] ^= (char)(1 << r.below(8)); break;
        case 1: in[b + 4 + r.below(32)] ^= (char)(1 << r.below(8)); break;
        case 2: in[b + 36 + r.below(4)] ^= (char)(1 << r.below(8)); break;
        case 3: if (len) in[b + 40 + r.below(len)] ^= (char)(1 << r.below(8)); else in[b + 4] ^= 1; break;
        case 4: in.resize(b + r.below(41)); break;
        case 5: in.resize(b); break;
        case 6: if (len) in.resize(b + 40 + r.below(len)); else in.resize(b); break;
        case 7: { size_t b2 = r.pick(hd); std::string blk = enc.substr(b, 40 + len); in.erase(b, 40 + len); if (b2 < in.size()) in.insert(b2, blk); else in += blk; break; }
      }
    } else in = mutate_bytes(enc, r);
  }
  std::vector<size_t> bounds; std::string good; bool complete; strict_blocks(in, bounds, good, complete);
  DripBuf drip(in, &r, r.coin() ? 7 : 5000); std::stringstream ss(in); std::istream ds(&drip);
  keepass::hashed_istreambuf ib(r.coin() ? (std::istream&)ss : ds);
  Taken t = take(ib, r, d.size() * 2 + 100000);
  if (!damaged) c.check(!t.failed && t.data == d, "read-differs", seen(t) + " of " + std::to_string(d.size()) + " | " + what);
  else {
    bool prefix = good.compare(0, t.data.size(), t.data) == 0 && t.data.size() <= good.size();
    c.check(prefix, "altered-bytes-delivered", seen(t) + ", " + std::to_string(good.size()) + " intact | " + what);
    if (complete) c.check(!t.failed && t.data == good, "intact-stream-refused", seen(t) + " | " + what);
    else c.check(t.failed, "damage-not-reported", seen(t) + " | " + what);
    c.count(complete ? "damage_outside_stream" : "damaged_streams"); h = fnv(in, h);
  }
  c.count("blocks", bounds.size() - 1); c.eval(h + mode, !d.empty()); c.sample("{\"size\":" + std::to_string(n) + ",\"block\":" + std::to_string(bs) + ",\"damaged\":" + (damaged ? "true" : "false") + ",\"result\":" + jesc(seen(t)) + "}");
}

// ---------------------------------------------------------------- C15
static std::string zlib_gzip(const std::string& d, Rng& r) {
  z_stream z; memset(&z, 0, sizeof z);
  if (deflateInit2(&z, r.range(-1, 9), Z_DEFLATED, 16 + (int)r.range(9, 15), (int)r.range(1, 9), (int)r.range(0, 4)) != Z_OK) throw Stop("deflateInit2");
  gz_header gh; memset(&gh, 0, sizeof gh); std::string extra = r.bytes(gen_size(r, 40000) % 65536), name = std::string(1 + r.below(r.chance(1, 5) ? 40000 : 20), 'n'), com = "comment " + std::string(r.below(30), 'c');
  if (r.chance(1, 3)) {
    gh.time = r.next(); gh.os = 3; gh.text = r.coin();
    if (r.coin()) { gh.extra = (Bytef*)&extra[0]; gh.extra_len = extra.size(); } if (r.coin()) gh.name = (Bytef*)name.c_str(); if (r.coin()) gh.comment = (Bytef*)com.c_str(); gh.hcrc = r.coin();
    deflateSetHeader(&z, &gh);
  }
  std::string out; size_t i = 0; char b[8192]; int ret; size_t cap = 64 + r.below(sizeof b - 64);   // zlib repeats flush markers when given less than seven bytes
  do {
    size_t n = std::min<size_t>(d.size() - i, 1 + gen_size(r, 100000)); z.next_in = (Bytef*)(d.data() + i); z.avail_in = n; i += n;
    int fl = i >= d.size() ? Z_FINISH : r.pickl<int>({Z_NO_FLUSH, Z_NO_FLUSH, Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK});
    do { z.next_out = (Bytef*)b; z.avail_out = cap; ret = deflate(&z, fl); if (ret == Z_STREAM_ERROR) { deflateEnd(&z); throw Stop("deflate"); } out.append(b, cap - z.avail_out); } while (z.avail_out == 0);
  } while (ret != Z_STREAM_END);
  deflateEnd(&z); return out;
}
PROP(C15, "non-trivial: at least one byte of content; distinct by content and treatment") {
  Rng& r = c.rng; unsigned mode = c.idx % 4;
  size_t n = r.chance(1, 3) ? r.pickl<size_t>({0, 1, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65536}) : gen_size(r, r.chance(1, 8) ? 1500000 : 60000);
  std::string d = gen_data(r, n), what = "size " + std::to_string(n) + " fnv " + std::to_string(fnv(d)), enc;
  if (mode < 2) {
    if (r.chance(1, 2)) {   // search for a compressed size next to the buffer size
      d = r.bytes(16384 * r.range(1, 2) - 40 + r.below(60)); if (r.coin()) d += std::string(r.below(4000), 'a'); what = "size " + std::to_string(d.size());
    }
    else if (r.chance(1, 5)) {   // nearly incompressible in just the degree that the output of one piece of input fills the buffer exactly
      unsigned A = r.range(250, 252); d = r.bytes(32768 + 16384 * r.below(4)); for (auto& x : d) x = (uint8_t)x % A; d += r.bytes(r.below(300)); what = "alphabet " + std::to_string(A) + " size " + std::to_string(d.size()); c.count("output_fills_buffer_inputs");
    }
    std::stringstream out; keepass::gzip_ostreambuf ob(out); std::ostream os(&ob); feed(os, d, r); os.flush();
    if (!c.check(os.good(), "write-failed", what)) return;
    enc = out.str(); std::string back;
    c.check(gunzip(enc, back) && back == d, "zlib-cannot-read", what); c.count("streams_written"); if (enc.size() % 16384 < 2 || enc.size() % 16384 > 16382) c.count("compressed_size_near_buffer");
  } else enc = zlib_gzip(d, r);
  std::string in = enc; bool damaged = mode % 2;
  if (damaged) { if (r.coin()) in.resize(r.coin() ? r.below(in.size()) : in.size() - 1 - r.below(std::min<size_t>(in.size(), 20))); else in = mutate_bytes(enc, r); }
  bool trailing = !damaged && r.chance(1, 6); if (trailing) in += r.bytes(1 + r.below(40000));   // bytes after the member are not part of it
  DripBuf drip(in, &r, r.coin() ? 9 : 20000); std::stringstream ss(in); std::istream ds(&drip);
  keepass::gzip_istreambuf ib(r.coin() ? (std::istream&)ss : ds);
  Taken t = take(ib, r, d.size() * 2 + 3000000);
  if (!damaged) c.check(!t.failed && t.data == d, "read-differs", seen(t) + " of " + std::to_string(d.size()) + (trailing ? " with trailing bytes" : "") + " | " + what);
  else if (!t.failed) {
    bool same = t.data == d, empty_in = in.empty() && t.data.empty();
    c.check(same || empty_in, "damage-accepted", seen(t) + " of " + std::to_string(d.size()) + ", damaged input of " + std::to_string(in.size()) + " bytes, intact " + std::to_string(enc.size()) + " | " + what);
    c.count("damage_without_effect");
  } else c.count("damage_reported");
  c.count("bytes", d.size()); c.eval(fnv(in, fnv(d)) + mode, !d.empty()); c.sample("{\"size\":" + std::to_string(d.size()) + ",\"gzip\":" + std::to_string(enc.size()) + ",\"damaged\":" + (damaged ? "true" : "false") + ",\"result\":" + jesc(seen(t)) + "}");
}

// ---------------------------------------------------------------- C16
static std::string keyish(Rng& r, size_t n) {
  std::string k = r.bytes(n);
  switch (r.below(7)) { case 0: k = std::string(n, r.coin() ? 0 : (char)0xff); break; case 1: k = std::string(n, 0); k[r.below(n)] = (char)(1 << r.below(8)); break; case 2: for (auto& x : k) x &= r.coin() ? 0xff : 0x80; break; case 3: for (size_t i = 0; i < n; ++i) k[i] = (char)(i * 17 + r.below(2)); break; default: break; }
  return k;
}
PROP(C16, "every case compares at least eight block operations; distinct by key and blocks") {
  Rng& r = c.rng; bool tf = c.idx % 2; std::string ks = keyish(r, 32); K32 k = k32(ks); B16 iv = b16(r.bytes(16)); uint64_t h = fnv(ks);
  std::unique_ptr<keepass::Cipher<16>> x(tf ? (keepass::Cipher<16>*)new keepass::TwofishCipher(k, iv) : new keepass::AesCipher(k, iv));
  std::unique_ptr<keepass::Cipher<16>> other(!tf ? (keepass::Cipher<16>*)new keepass::TwofishCipher(k) : new keepass::AesCipher(k));
  auto ref_ = tf ? make_twofish(k) : make_aes(k);
  c.check(x->InitializationVector() == iv, "iv", "initialization vector");
  std::string log; auto bad = [&](const char* key) { c.viol(key, std::string(tf ? "Twofish" : "AES") + " key " + hex(ks) + " sequence " + log); };
  int ops = 8 + r.below(24); B16 blk = b16(keyish(r, 16));
  for (int i = 0; i < ops; ++i) {
    if (!r.chance(1, 4)) blk = b16(keyish(r, 16));
    unsigned op = r.below(6); log += "edxaRb"[op]; B16 out; out.fill(0x5a);
    if (op == 0) { x->Encrypt(blk, out); if (out != ref_->enc(blk)) return bad("encrypt"); }
    else if (op == 1) { x->Decrypt(blk, out); if (out != ref_->dec(blk)) return bad("decrypt"); }
    else if (op == 2) { B16 t; x->Encrypt(blk, t); x->Decrypt(t, out); if (out != blk) return bad("not-inverse"); x->Decrypt(blk, t); x->Encrypt(t, out); if (out != blk) return bad("not-inverse"); }
    else if (op == 3) { B16 t = blk; x->Encrypt(t, t); if (t != ref_->enc(blk)) return bad("in-place"); x->Decrypt(t, t); if (t != blk) return bad("in-place"); }
    else if (op == 4) {   // 32 bytes in ECB
      std::array<uint8_t, 32> a = r.arr<32>(); if (r.coin()) memcpy(&a[16], &a[0], 16); B16 p, q; memcpy(&p[0], &a[0], 16); memcpy(&q[0], &a[16], 16);
      auto e = keepass::encrypt_ecb(a, *x); B16 ep = ref_->enc(p), eq = ref_->enc(q); if (memcmp(&e[0], &ep[0], 16) || memcmp(&e[16], &eq[0], 16)) return bad("ecb-encrypt");
      auto f = keepass::decrypt_ecb(a, *x); B16 dp = ref_->dec(p), dq = ref_->dec(q); if (memcmp(&f[0], &dp[0], 16) || memcmp(&f[16], &dq[0], 16)) return bad("ecb-decrypt");
    } else { other->Encrypt(blk, out); other->Decrypt(out, out); if (out != blk) return bad("other-cipher"); }
    h = fnv(&blk[0], 16, h); c.count("block_operations");
  }
  c.count(tf ? "twofish_keys" : "aes_keys"); c.eval(h); c.sample("{\"cipher\":" + std::string(tf ? "\"twofish\"" : "\"aes\"") + ",\"key\":" + jesc(hex(ks)) + ",\"sequence\":" + jesc(log) + "}");
}

// ---------------------------------------------------------------- C17
PROP(C17, "every case encrypts and decrypts one text and tries one invalid cipher text; distinct by text and key") {
  Rng& r = c.rng; bool tf = c.idx % 2; K32 k = k32(keyish(r, 32)); B16 iv = b16(keyish(r, 16)); Alg alg = tf ? TWOFISH : AES;
  std::unique_ptr<keepass::Cipher<16>> x(tf ? (keepass::Cipher<16>*)new keepass::TwofishCipher(k, iv) : new keepass::AesCipher(k, iv));
  size_t n = r.coin() ? r.below(70) : r.chance(1, 10) ? gen_size(r, 30000) : 16 * r.below(40) + r.pickl<int>({0, 0, 1, 15});
  std::string d = r.coin() ? keyish(r, n ? n : 1).substr(0, n) : gen_data(r, n), want = cbc_encrypt(alg, k, iv, d), what = std::string(tf ? "Twofish" : "AES") + " size " + std::to_string(n) + " data " + show(d, 40);
  // Sources and destinations may start in the middle of a stream.
  std::string pre = r.coin() ? "" : r.bytes(r.below(50));
  auto run = [&](bool enc, const std::string& in, std::string& out, Out& o) {
    std::string all = pre + in; DripBuf drip(all, &r, r.coin() ? 5 : 3000); std::istream ds(&drip); std::stringstream ss(all);
    std::istream& s = r.coin() ? ds : (std::istream&)ss; std::string skip(pre.size(), 0); if (pre.size()) s.read(&skip[0], pre.size());
    std::stringstream dst; std::string dpre = r.coin() ? "" : "xyz"; dst << dpre; o = Out::ok;
    try { if (enc) keepass::encrypt_cbc(s, dst, *x); else keepass::decrypt_cbc(s, dst, *x); } catch (const std::exception& e) { o = classify(e); }
    out = dst.str().substr(dpre.size());
  };
  std::string out; Out o;
  run(true, d, out, o);
  if (!c.check(o == Out::ok && out == want, "encrypt-differs", what)) return;
  run(false, want, out, o);
  c.check(o == Out::ok && out == d, "decrypt-differs", std::string(out_name(o)) + " " + what);
  // Invalid ones.
  std::string bad; std::string kind; std::string padded = pkcs7(d); size_t L = padded.size();
  switch (r.below(8)) {
    case 0: kind = "length"; bad = want.substr(0, want.size() - 1 - r.below(15)); break;
    case 1: kind = "length"; bad = want + r.bytes(1 + r.below(15)); break;
    case 2: kind = "empty"; bad = ""; break;
    case 3: kind = "pad length 0"; padded[L - 1] = 0; break;
    case 4: kind = "pad length above 16"; { int v = r.range(17, 255); for (int i = 0; i < 16; ++i) if (r.coin() || i == 0) padded[L - 1 - i] = (char)v; } break;
    case 5: case 6: kind = "inconsistent padding"; { int v = r.range(2, 16); for (int i = 0; i < v; ++i) padded[L - 1 - i] = (char)v; int at = 1 + r.below(v - 1); if (r.coin()) at = v - 1; padded[L - 1 - at] ^= (char)(1 << r.below(8)); } break;
    case 7: kind = "random block"; padded = r.bytes(16 + 16 * r.below(3)); break;
  }
  bool invalid = true;
  if (kind == "random block" || kind.compare(0, 3, "pad") == 0 || kind == "inconsistent padding") { bad = cbc_encrypt_raw(alg, k, iv, padded); std::string t = padded; invalid = !unpkcs7(t); }
  if (invalid) { run(false, bad, out, o); c.check(o != Out::ok, "invalid-accepted", kind + ": decryption returned " + std::to_string(out.size()) + " bytes | " + what); c.count(kind); }
  c.eval(fnv(want)); c.count("bytes", n); c.sample("{\"cipher\":" + std::string(tf ? "\"twofish\"" : "\"aes\"") + ",\"size\":" + std::to_string(n) + ",\"invalid\":" + jesc(kind) + "}");
}

// ---------------------------------------------------------------- C18
static const char kAlpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
PROP(C18, "every case codes one byte string and one malformed text; distinct by content") {
  Rng& r = c.rng; size_t n = r.coin() ? r.below(40) : gen_size(r, 5000); std::string d = r.coin() ? r.bytes(n) : gen_data(r, n), want = b64(d);
  Bytes v(d.begin(), d.end());
  c.check(keepass::base64_encode(d) == want, "encode", show(d));
  c.check(keepass::base64_encode(v.begin(), v.end()) == want, "encode-iterators", show(d));
  std::string ws = want; for (int i = r.coin() ? 0 : r.below(12); i > 0; --i) ws.insert(r.below(ws.size() + 1), r.pickl<const char*>({" ", "\n", "\r\n", "\t", "   ", "\v", "\f"}));
  Out o = Out::ok; std::string got; Bytes gv;
  try { got = keepass::base64_decode(ws); keepass::base64_decode(ws, std::back_inserter(gv)); } catch (const std::exception& e) { o = classify(e); }
  c.check(o == Out::ok && got == d && std::string(gv.begin(), gv.end()) == d, "decode", std::string(out_name(o)) + " " + show(ws));
  // Malformed.
  std::string bad = want, kind; size_t body = want.find('='); if (body == std::string::npos) body = want.size();
  if (r.coin() && body > 0) {
    kind = "foreign character"; static const std::string al = kAlpha; unsigned char f; do f = (unsigned char)(r.coin() ? r.range(128, 255) : r.range(0, 127)); while (al.find((char)f) != std::string::npos || f == '=' || f == ' ' || (f >= 9 && f <= 13));
    bad[r.below(body)] = (char)f;
  } else {
    kind = "length"; bad += std::string(1 + r.below(3), 'A'); if (r.coin()) bad = std::string(1 + 4 * r.below(6) + r.below(3), 'Q'); if (bad.size() % 4 == 0) bad += "Q";
    for (int i = r.below(4); i > 0; --i) bad.insert(r.below(bad.size() + 1), " ");
  }
  o = Out::ok; std::string bw; try { bw = keepass::base64_decode(bad); } catch (const std::exception& e) { o = classify(e); bw = e.what(); }
  c.check(o == Out::format, "malformed-accepted", kind + " " + show(bad) + ": " + out_name(o) + " " + show(bw)); c.count(kind);
  // Bounded destinations (heap, so that a write outside is seen).
  std::string src = r.coin() ? ws : r.coin() ? bad : b64(r.bytes(r.below(60)));
  auto bounded = [&](auto& dst, size_t size) {
    Out ob = Out::ok; try { keepass::base64_decode(src, keepass::bounds_checked(dst)); } catch (const std::out_of_range&) { ob = Out::other; } catch (const std::exception& e) { ob = classify(e); }
    std::string ref_; bool ok = true; try { ref_ = keepass::base64_decode(src); } catch (const std::exception&) { ok = false; }
    if (ok && ref_.size() <= size) c.check(ob == Out::ok && std::equal(ref_.begin(), ref_.end(), dst.begin(), [](char a, uint8_t b) { return (uint8_t)a == b; }), "bounded-decode", show(src));
    else if (ok) c.check(ob != Out::ok, "bounded-overrun-unreported", std::to_string(ref_.size()) + " bytes into " + std::to_string(size));
    c.count("bounded_decodes");
  };
  { std::unique_ptr<std::array<uint8_t, 16>> a(new std::array<uint8_t, 16>()); bounded(*a, 16); }
  { std::unique_ptr<std::array<uint8_t, 32>> a(new std::array<uint8_t, 32>()); bounded(*a, 32); }
  { Bytes b(r.below(50)); bounded(b, b.size()); }
  c.eval(fnv(d, fnv(bad))); c.sample("{\"bytes\":" + std::to_string(n) + ",\"text\":" + jesc(ws.substr(0, 60)) + ",\"malformed\":" + jesc(kind) + "}");
}

// ---------------------------------------------------------------- C31
PROP(C31, "every case compares at least one key stream; distinct by key, nonce and split") {
  Rng& r = c.rng; std::string ks = keyish(r, 32); K32 k = k32(ks); std::array<uint8_t, 8> nonce = r.coin() ? kKdbxNonce : r.arr<8>(); uint64_t h = fnv(ks);
  std::string what = "key " + hex(ks) + " nonce " + hex(nonce);
  // Blocks, also far into the stream.
  {
    keepass::Salsa20Cipher x(k, nonce); Salsa20 ref_(k, nonce); int n = 1 + r.below(r.chance(1, 20) ? 3000 : 12); c.count("blocks", n);
    for (int i = 0; i < n; ++i) { auto b = r.arr<64>(), out = r.arr<64>(); x.Process(b, out); if (!c.check(std::string((char*)&out[0], 64) == ref_.process(std::string((char*)&b[0], 64)), "block", "block " + std::to_string(i) + " " + what)) return; }
    { keepass::Salsa20Cipher z(k); Salsa20 zr(k, std::array<uint8_t, 8>{}); auto b = r.arr<64>(), o = b; z.Process(b, o); c.check(std::string((char*)&o[0], 64) == zr.process(std::string((char*)&b[0], 64)), "default-nonce", what); }
  }
  if (std::is_trivially_copyable<keepass::Salsa20Cipher>::value) {
    // The position counter is the only part of the object that moves; advance it to far positions.
    keepass::Salsa20Cipher x(k, nonce); unsigned char a[sizeof x], b[sizeof x]; memcpy(a, (void*)&x, sizeof x); auto t = r.arr<64>(); x.Process(t, t); memcpy(b, (void*)&x, sizeof x);
    std::vector<size_t> ch; for (size_t i = 0; i < sizeof x; ++i) if (a[i] != b[i]) ch.push_back(i);
    if (ch.size() == 1 && ch[0] % 4 == 0 && a[ch[0]] == 0 && b[ch[0]] == 1 && ch[0] + 8 <= sizeof x) {
      uint64_t p = r.coin() ? 0xffffffffull - r.below(3) : r.coin() ? 0x1ffffffffull - r.below(3) : (r.next() >> r.below(40));
      memcpy(b + ch[0], &p, 8); memcpy((void*)&x, b, sizeof x); Salsa20 ref_(k, nonce, p);
      for (int i = 0; i < 5; ++i) { auto in = r.arr<64>(), out = in; x.Process(in, out); if (!c.check(std::string((char*)&out[0], 64) == ref_.process(std::string((char*)&in[0], 64)), "far-block", "position " + std::to_string(p) + "+" + std::to_string(i) + " " + what)) return; }
      c.count("far_positions");
    }
  }
  // The obfuscator, split arbitrarily.
  std::string d = gen_data(r, r.chance(1, 6) ? r.below(r.chance(1, 8) ? 300000 : 20000) : gen_size(r, 4000)); bool coarse = r.coin(); Salsa20 ref_(k, nonce); std::string want = ref_.process(d), got, back; keepass::RandomObfuscator o1(k, nonce), o2(k, nonce); std::string split;
  for (size_t i = 0; i <= d.size();) {
    size_t n = std::min<size_t>(d.size() - i, r.pickl<size_t>({0, 1, 63, 64, 65, 128, (size_t)r.below(300), (size_t)r.below(20), coarse ? (size_t)r.below(9000) : 3u, coarse ? (size_t)r.below(d.size() + 1) : 7u, coarse ? (size_t)64 << r.below(10) : 64u})); std::string p = d.substr(i, n);
    if (r.coin()) got += o1.Process(p); else { Bytes v = o1.Process(Bytes(p.begin(), p.end())); got.append(v.begin(), v.end()); }
    i += n; c.count("pieces"); if (i == d.size() && r.chance(3, 4)) break;
  }
  c.check(got == want, "obfuscator-stream", "size " + std::to_string(d.size()) + " " + what);
  for (size_t i = 0; i < got.size();) { size_t n = std::min<size_t>(got.size() - i, 1 + r.below(200)); back += o2.Process(got.substr(i, n)); i += n; }
  c.check(got != want || back == d, "not-involutive", what);
  // A copy continues from the same position on its own.
  { keepass::RandomObfuscator o3(k, nonce); std::string a = r.bytes(r.below(150)); Salsa20 rr(k, nonce); bool ok = o3.Process(a) == rr.process(a); keepass::RandomObfuscator o4 = o3; Salsa20 r4 = rr; std::string q = r.bytes(100); ok = ok && o3.Process(q) == rr.process(q) && o4.Process(q) == r4.process(q); c.check(ok, "copied-obfuscator", what); }
  c.eval(fnv(d, h)); c.sample("{\"key\":" + jesc(hex(ks)) + ",\"bytes\":" + std::to_string(d.size()) + "}");
}
