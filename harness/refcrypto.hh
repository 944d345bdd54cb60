// Independent reference cryptography and codings (never uses the library).
#pragma once
#include "common.hh"
namespace ref {
typedef std::array<uint8_t, 32> K32;
typedef std::array<uint8_t, 16> B16;
K32 sha256(const std::string& data);
inline std::string str(const K32& k) { return std::string((const char*)k.data(), k.size()); }
inline std::string str(const B16& k) { return std::string((const char*)k.data(), k.size()); }
K32 k32(const std::string& s);
B16 b16(const std::string& s);

struct Block { virtual ~Block() {} virtual B16 enc(const B16&) const = 0; virtual B16 dec(const B16&) const = 0; };
std::unique_ptr<Block> make_aes(const K32& key);
std::unique_ptr<Block> make_twofish(const K32& key);  // from the published specification

enum Alg { AES, TWOFISH };
std::string cbc_encrypt_raw(Alg, const K32& key, const B16& iv, const std::string& data);  // no padding; size % 16 == 0
std::string cbc_decrypt_raw(Alg, const K32& key, const B16& iv, const std::string& data);
std::string pkcs7(const std::string& data);
bool unpkcs7(std::string& data);   // strict
inline std::string cbc_encrypt(Alg a, const K32& k, const B16& iv, const std::string& d) { return cbc_encrypt_raw(a, k, iv, pkcs7(d)); }

K32 aes_transform(const K32& key, const K32& seed, uint64_t rounds);  // rounds of ECB on both halves, then SHA-256

struct Salsa20 {
  uint32_t st[16]; uint8_t buf[64]; size_t pos = 64;
  Salsa20(const K32& key, const std::array<uint8_t, 8>& nonce, uint64_t block = 0);
  void block();
  std::string process(const std::string& s);
};
std::string b64(const std::string&);
std::string unb64(const std::string&);   // strict; throws std::runtime_error; white space ignored
std::string gzip(const std::string&, int level = 6, bool multi = false);
bool gunzip(const std::string&, std::string& out);  // false if damaged/truncated/trailing data
extern const std::array<uint8_t, 8> kKdbxNonce;
}
