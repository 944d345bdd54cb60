#include "refcrypto.hh"
#include <openssl/evp.h>
#include <zlib.h>
namespace ref {
const std::array<uint8_t, 8> kKdbxNonce = {{0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a}};

K32 sha256(const std::string& d) {
  K32 r; unsigned n = 32;
  if (!EVP_Digest(d.data(), d.size(), r.data(), &n, EVP_sha256(), nullptr)) throw Stop("EVP_Digest");
  return r;
}
K32 k32(const std::string& s) { if (s.size() != 32) throw std::runtime_error("not 32 bytes"); K32 k; memcpy(k.data(), s.data(), 32); return k; }
B16 b16(const std::string& s) { if (s.size() != 16) throw std::runtime_error("not 16 bytes"); B16 k; memcpy(k.data(), s.data(), 16); return k; }

static std::string evp(const EVP_CIPHER* ci, bool enc, const uint8_t* key, const uint8_t* iv, const std::string& d) {
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  std::string out(d.size() + 32, 0); int n = 0, m = 0;
  bool ok = EVP_CipherInit_ex(x, ci, nullptr, key, iv, enc) && EVP_CIPHER_CTX_set_padding(x, 0) &&
            EVP_CipherUpdate(x, (uint8_t*)&out[0], &n, (const uint8_t*)d.data(), d.size()) &&
            EVP_CipherFinal_ex(x, (uint8_t*)&out[n], &m);
  EVP_CIPHER_CTX_free(x);
  if (!ok) throw Stop("EVP cipher");
  out.resize(n + m);
  return out;
}
struct AesBlock : Block {
  K32 key; explicit AesBlock(const K32& k) : key(k) {}
  B16 enc(const B16& b) const override { return b16(evp(EVP_aes_256_ecb(), true, key.data(), nullptr, str(b))); }
  B16 dec(const B16& b) const override { return b16(evp(EVP_aes_256_ecb(), false, key.data(), nullptr, str(b))); }
};
std::unique_ptr<Block> make_aes(const K32& key) { return std::unique_ptr<Block>(new AesBlock(key)); }

// --- Twofish, written from the specification (Schneier et al. 1998), 256-bit keys, table-free. ---
namespace {
const uint8_t Q0[4][16] = {{8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4},{14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13},{11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1},{13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10}};
const uint8_t Q1[4][16] = {{2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5},{1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8},{4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15},{11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10}};
uint8_t qperm(const uint8_t t[4][16], uint8_t x) {
  auto ror4 = [](uint8_t v) { return (uint8_t)(((v >> 1) | (v << 3)) & 15); };
  uint8_t a = x >> 4, b = x & 15;
  uint8_t a1 = a ^ b, b1 = a ^ ror4(b) ^ ((8 * a) & 15);
  uint8_t a2 = t[0][a1], b2 = t[1][b1];
  uint8_t a3 = a2 ^ b2, b3 = a2 ^ ror4(b2) ^ ((8 * a2) & 15);
  return (uint8_t)(16 * t[3][b3] + t[2][a3]);
}
struct QTab { uint8_t q[2][256]; QTab() { for (int i = 0; i < 256; ++i) { q[0][i] = qperm(Q0, i); q[1][i] = qperm(Q1, i); } } };
const QTab& qt() { static QTab t; return t; }
uint8_t gmul(uint8_t a, uint8_t b, unsigned poly) {
  unsigned r = 0, x = a;
  for (int i = 0; i < 8; ++i) { if (b >> i & 1) r ^= x << i; }
  for (int i = 14; i >= 8; --i) if (r >> i & 1) r ^= poly << (i - 8);
  return (uint8_t)r;
}
const uint8_t MDS[4][4] = {{0x01,0xEF,0x5B,0x5B},{0x5B,0xEF,0xEF,0x01},{0xEF,0x5B,0x01,0xEF},{0xEF,0x01,0xEF,0x5B}};
const uint8_t RS[4][8] = {{0x01,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E},{0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5},{0x02,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19},{0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,0x03}};
uint32_t rol(uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
uint32_t ror(uint32_t v, int n) { return (v >> n) | (v << (32 - n)); }
uint32_t ld(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
void st(uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
struct MdsTab { uint32_t m[4][256]; MdsTab() {
  for (int j = 0; j < 4; ++j) for (int v = 0; v < 256; ++v) { uint8_t z[4]; for (int i = 0; i < 4; ++i) z[i] = gmul(MDS[i][j], v, 0x169); m[j][v] = ld(z); } } };
uint32_t hfun(uint32_t X, const uint32_t L[4]) {
  static const MdsTab mt; const QTab& t = qt();
  uint8_t y[4]; st(y, X);
  uint8_t l[4][4]; for (int i = 0; i < 4; ++i) st(l[i], L[i]);
  const int o3[4] = {1, 0, 0, 1}, o2[4] = {1, 1, 0, 0}, oA[4] = {0, 1, 0, 1}, oB[4] = {0, 0, 1, 1}, oC[4] = {1, 0, 1, 0};
  uint32_t r = 0;
  for (int i = 0; i < 4; ++i) {
    uint8_t v = y[i];
    v = t.q[o3[i]][v] ^ l[3][i];
    v = t.q[o2[i]][v] ^ l[2][i];
    v = t.q[oA[i]][v] ^ l[1][i];
    v = t.q[oB[i]][v] ^ l[0][i];
    v = t.q[oC[i]][v];
    r ^= mt.m[i][v];
  }
  return r;
}
}
struct TwofishBlock : Block {
  uint32_t K[40], S[4];
  explicit TwofishBlock(const K32& key) {
    uint32_t Me[4], Mo[4];
    for (int i = 0; i < 4; ++i) {
      Me[i] = ld(&key[8 * i]); Mo[i] = ld(&key[8 * i + 4]);
      uint8_t s[4];
      for (int r = 0; r < 4; ++r) { s[r] = 0; for (int k = 0; k < 8; ++k) s[r] ^= gmul(RS[r][k], key[8 * i + k], 0x14D); }
      S[3 - i] = ld(s);
    }
    for (uint32_t i = 0; i < 20; ++i) {
      uint32_t A = hfun(2 * i * 0x01010101u, Me), B = rol(hfun((2 * i + 1) * 0x01010101u, Mo), 8);
      K[2 * i] = A + B; K[2 * i + 1] = rol(A + 2 * B, 9);
    }
  }
  B16 enc(const B16& b) const override {
    uint32_t R[4]; for (int i = 0; i < 4; ++i) R[i] = ld(&b[4 * i]) ^ K[i];
    for (int r = 0; r < 16; ++r) {
      uint32_t T0 = hfun(R[0], S), T1 = hfun(rol(R[1], 8), S), F0 = T0 + T1 + K[2 * r + 8], F1 = T0 + 2 * T1 + K[2 * r + 9];
      uint32_t n2 = ror(R[2] ^ F0, 1), n3 = rol(R[3], 1) ^ F1;
      R[2] = R[0]; R[3] = R[1]; R[0] = n2; R[1] = n3;
    }
    B16 o; for (int i = 0; i < 4; ++i) st(&o[4 * i], R[(i + 2) & 3] ^ K[i + 4]);
    return o;
  }
  B16 dec(const B16& b) const override {
    uint32_t R[4]; for (int i = 0; i < 4; ++i) R[(i + 2) & 3] = ld(&b[4 * i]) ^ K[i + 4];
    for (int r = 15; r >= 0; --r) {
      uint32_t p0 = R[2], p1 = R[3], T0 = hfun(p0, S), T1 = hfun(rol(p1, 8), S), F0 = T0 + T1 + K[2 * r + 8], F1 = T0 + 2 * T1 + K[2 * r + 9];
      uint32_t p2 = rol(R[0], 1) ^ F0, p3 = ror(R[1] ^ F1, 1);
      R[0] = p0; R[1] = p1; R[2] = p2; R[3] = p3;
    }
    B16 o; for (int i = 0; i < 4; ++i) st(&o[4 * i], R[i] ^ K[i]);
    return o;
  }
};
std::unique_ptr<Block> make_twofish(const K32& key) { return std::unique_ptr<Block>(new TwofishBlock(key)); }

std::string cbc_encrypt_raw(Alg a, const K32& key, const B16& iv, const std::string& d) {
  if (d.size() % 16) throw Stop("cbc size");
  if (a == AES) return evp(EVP_aes_256_cbc(), true, key.data(), iv.data(), d);
  auto b = make_twofish(key); B16 prev = iv; std::string out;
  for (size_t i = 0; i < d.size(); i += 16) {
    B16 x; for (int k = 0; k < 16; ++k) x[k] = (uint8_t)d[i + k] ^ prev[k];
    prev = b->enc(x); out += str(prev);
  }
  return out;
}
std::string cbc_decrypt_raw(Alg a, const K32& key, const B16& iv, const std::string& d) {
  if (d.size() % 16) throw std::runtime_error("ciphertext size");
  if (a == AES) return evp(EVP_aes_256_cbc(), false, key.data(), iv.data(), d);
  auto b = make_twofish(key); B16 prev = iv; std::string out;
  for (size_t i = 0; i < d.size(); i += 16) {
    B16 x = b16(d.substr(i, 16)), y = b->dec(x);
    for (int k = 0; k < 16; ++k) y[k] ^= prev[k];
    prev = x; out += str(y);
  }
  return out;
}
std::string pkcs7(const std::string& d) { size_t n = 16 - d.size() % 16; return d + std::string(n, (char)n); }
bool unpkcs7(std::string& d) {
  if (d.empty() || d.size() % 16) return false;
  unsigned n = (uint8_t)d.back();
  if (n < 1 || n > 16) return false;
  for (unsigned i = 0; i < n; ++i) if ((uint8_t)d[d.size() - 1 - i] != n) return false;
  d.resize(d.size() - n);
  return true;
}
K32 aes_transform(const K32& key, const K32& seed, uint64_t rounds) {
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  K32 a = key, b; int n = 0;
  if (!EVP_EncryptInit_ex(x, EVP_aes_256_ecb(), nullptr, seed.data(), nullptr)) throw Stop("EVP");
  EVP_CIPHER_CTX_set_padding(x, 0);
  for (uint64_t i = 0; i < rounds; ++i) { EVP_EncryptUpdate(x, b.data(), &n, a.data(), 32); a = b; }
  EVP_CIPHER_CTX_free(x);
  return sha256(str(a));
}
Salsa20::Salsa20(const K32& key, const std::array<uint8_t, 8>& nonce, uint64_t blk) {
  static const char sigma[] = "expand 32-byte k";
  const uint8_t* c = (const uint8_t*)sigma;
  st[0] = ld(c); st[5] = ld(c + 4); st[10] = ld(c + 8); st[15] = ld(c + 12);
  for (int i = 0; i < 4; ++i) { st[1 + i] = ld(&key[4 * i]); st[11 + i] = ld(&key[16 + 4 * i]); }
  st[6] = ld(&nonce[0]); st[7] = ld(&nonce[4]);
  st[8] = (uint32_t)blk; st[9] = (uint32_t)(blk >> 32);
}
void Salsa20::block() {
  uint32_t x[16]; memcpy(x, st, sizeof x);
  auto qr = [&](int a, int b, int c, int d) {
    x[b] ^= rol(x[a] + x[d], 7); x[c] ^= rol(x[b] + x[a], 9); x[d] ^= rol(x[c] + x[b], 13); x[a] ^= rol(x[d] + x[c], 18);
  };
  for (int i = 0; i < 10; ++i) {
    qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11);
    qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14);
  }
  for (int i = 0; i < 16; ++i) ref::st(buf + 4 * i, x[i] + st[i]);
  if (!++st[8]) ++st[9];
  pos = 0;
}
std::string Salsa20::process(const std::string& s) {
  std::string r = s;
  for (auto& c : r) { if (pos == 64) block(); c ^= buf[pos++]; }
  return r;
}
static const char* kAlpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string& s) {
  std::string r; uint32_t acc = 0; int bits = 0;
  for (unsigned char c : s) { acc = acc << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; r += kAlpha[acc >> bits & 63]; } acc &= 0xff; }
  if (bits) r += kAlpha[acc << (6 - bits) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
std::string unb64(const std::string& in) {
  std::string t; for (char c : in) if (!strchr(" \t\r\n\v\f", c) || !c) t += c;
  if (t.size() % 4) throw std::runtime_error("base64 length");
  size_t pad = 0; while (pad < 2 && pad < t.size() && t[t.size() - 1 - pad] == '=') ++pad;
  t.resize(t.size() - pad);
  std::string r; uint32_t acc = 0; int bits = 0;
  for (char c : t) {
    const char* p = c ? strchr(kAlpha, c) : nullptr;
    if (!p) throw std::runtime_error("base64 character");
    acc = (acc << 6 | (p - kAlpha)) & 0xffffff; bits += 6;
    if (bits >= 8) { bits -= 8; r += (char)(acc >> bits & 255); }
  }
  return r;
}
std::string gzip(const std::string& d, int level, bool flush_often) {
  z_stream z; memset(&z, 0, sizeof z);
  if (deflateInit2(&z, level, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY) != Z_OK) throw Stop("deflateInit2");
  std::string out(compressBound(d.size()) + 64 + (flush_often ? d.size() / 50 + 4096 : 0), 0);
  z.next_out = (Bytef*)&out[0]; z.avail_out = out.size();
  size_t off = 0;
  while (flush_often && off < d.size()) {
    size_t n = std::min<size_t>(997, d.size() - off);
    z.next_in = (Bytef*)d.data() + off; z.avail_in = n; off += n;
    if (deflate(&z, Z_FULL_FLUSH) != Z_OK) { deflateEnd(&z); throw Stop("deflate"); }
  }
  z.next_in = (Bytef*)d.data() + off; z.avail_in = d.size() - off;
  int r = deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  if (r != Z_STREAM_END) throw Stop("deflate");
  return out;
}
bool gunzip(const std::string& d, std::string& out) {
  z_stream z; memset(&z, 0, sizeof z);
  if (inflateInit2(&z, 31) != Z_OK) throw Stop("inflateInit2");
  z.next_in = (Bytef*)d.data(); z.avail_in = d.size();
  out.clear(); char buf[65536]; int r;
  do {
    z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
    r = inflate(&z, Z_NO_FLUSH);
    out.append(buf, sizeof buf - z.avail_out);
  } while (r == Z_OK && (z.avail_in || !z.avail_out));
  bool ok = r == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}
}
