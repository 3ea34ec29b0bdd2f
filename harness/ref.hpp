// Independent reference implementations (never linked with /repo's code).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
namespace ref {
void sha256(const void *p, size_t n, uint8_t out[32]);
void hmac(const void *k, size_t kl, const void *p, size_t n, uint8_t out[32]);
// Incremental hash for huge inputs.
struct Hasher { void *c; bool h; Hasher(); Hasher(const Bytes &key); ~Hasher(); void up(const void *, size_t); void fin(uint8_t[32]); };
void pbkdf2(const void *pw, size_t pl, const void *sa, size_t sl, uint64_t c, uint8_t *out, size_t n);
// block j (1-based), used to spot check enormous outputs
void pbkdf2_block(const void *pw, size_t pl, const void *sa, size_t sl, uint64_t c, uint32_t j, uint8_t out[32]);
void smix(uint8_t *B, size_t r, uint64_t N);
bool scrypt(const void *pw, size_t pl, const void *sa, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t *out, size_t n);
void aes_ecb(const uint8_t *key, size_t kl, const uint8_t in[16], uint8_t out[16]);
// CTR keystream XOR starting at byte offset off of stream with the 8-byte nonce
void aesctr(const uint8_t *key, size_t kl, uint64_t nonce, uint64_t off, const uint8_t *in, uint8_t *out, size_t n);
// 176 or 240 bytes for keys of 16 or 32 bytes
void aes_round_keys(const uint8_t *key, size_t kl, uint8_t *out);
void aes256_round_keys(const uint8_t key[32], uint8_t out[240]);

// --- the scrypt file format (FORMAT) ---
Bytes header48(int logN, uint32_t r, uint32_t p, const uint8_t salt[32]);	// 48 bytes
Bytes encrypt(const Bytes &pass, const uint8_t salt[32], int logN, uint32_t r, uint32_t p, const Bytes &data);
// Same with a caller-supplied 64-byte derived key (no KDF).
Bytes encrypt_dk(const uint8_t dk[64], const uint8_t salt[32], int logN, uint32_t r, uint32_t p, const Bytes &data);
enum Code { OK = 0, EINVAL_ = 7, EVERSION_ = 8, EPASS_ = 11 };
struct Result { int code; Bytes plain; int logN; uint32_t r, p; bool params; };
// Classification of arbitrary bytes as input to decryption (limits forced off).
// maxcost: N*r*p above which the KDF is not computed (code = -1: undetermined).
Result decrypt(const Bytes &in, const Bytes &pass, double maxcost);
bool params_valid(int logN, uint64_t r, uint64_t p);
// The forms in which HMAC-SHA256 holds a key: the two 64-byte pads (as bytes and
// as big-endian words) and the hash states after them, which are as good as the key.
std::vector<std::string> hmac_key_forms(const std::string &key);
}
