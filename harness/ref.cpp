#include "ref.hpp"
#include <cstring>
#include <map>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
namespace ref {
void sha256(const void *p, size_t n, uint8_t out[32]) { SHA256((const uint8_t *)p, n, out); }
namespace {
struct HM { SHA256_CTX in, out; };
void hm_init(HM &h, const void *k, size_t kl)
{
	uint8_t kb[64] = { 0 }, x[64];
	if (kl > 64) SHA256((const uint8_t *)k, kl, kb);
	else if (kl) memcpy(kb, k, kl);
	for (int i = 0; i < 64; i++) x[i] = kb[i] ^ 0x36;
	SHA256_Init(&h.in); SHA256_Update(&h.in, x, 64);
	for (int i = 0; i < 64; i++) x[i] = kb[i] ^ 0x5c;
	SHA256_Init(&h.out); SHA256_Update(&h.out, x, 64);
}
void hm_fin(HM &h, uint8_t out[32])
{
	uint8_t t[32];
	SHA256_Final(t, &h.in);
	SHA256_Update(&h.out, t, 32);
	SHA256_Final(out, &h.out);
}
}
void hmac(const void *k, size_t kl, const void *p, size_t n, uint8_t out[32])
{
	HM h; hm_init(h, k, kl);
	SHA256_Update(&h.in, p, n);
	hm_fin(h, out);
}
Hasher::Hasher() { c = new SHA256_CTX; h = false; SHA256_Init((SHA256_CTX *)c); }
Hasher::Hasher(const Bytes &key) { c = new HM; h = true; hm_init(*(HM *)c, key.data(), key.size()); }
Hasher::~Hasher() { if (h) delete (HM *)c; else delete (SHA256_CTX *)c; }
void Hasher::up(const void *p, size_t n) { SHA256_Update(h ? &((HM *)c)->in : (SHA256_CTX *)c, p, n); }
void Hasher::fin(uint8_t o[32]) { if (h) hm_fin(*(HM *)c, o); else SHA256_Final(o, (SHA256_CTX *)c); }

static void pb_block(const HM &base, const HM &salted, uint64_t c, uint32_t j, uint8_t out[32])
{
	uint8_t u[32], ctr[4] = { (uint8_t)(j >> 24), (uint8_t)(j >> 16), (uint8_t)(j >> 8), (uint8_t)j };
	HM h = salted;
	SHA256_Update(&h.in, ctr, 4);
	hm_fin(h, u);
	memcpy(out, u, 32);
	for (uint64_t i = 1; i < c; i++) {
		h = base;
		SHA256_Update(&h.in, u, 32);
		hm_fin(h, u);
		for (int k = 0; k < 32; k++) out[k] ^= u[k];
	}
}
void pbkdf2_block(const void *pw, size_t pl, const void *sa, size_t sl, uint64_t c, uint32_t j, uint8_t out[32])
{
	HM base; hm_init(base, pw, pl);
	HM s = base; if (sl) SHA256_Update(&s.in, sa, sl);
	pb_block(base, s, c, j, out);
}
void pbkdf2(const void *pw, size_t pl, const void *sa, size_t sl, uint64_t c, uint8_t *out, size_t n)
{
	HM base; hm_init(base, pw, pl);
	HM s = base; if (sl) SHA256_Update(&s.in, sa, sl);
	for (size_t i = 0; i * 32 < n; i++) {
		uint8_t t[32];
		pb_block(base, s, c, (uint32_t)(i + 1), t);
		size_t k = n - i * 32 < 32 ? n - i * 32 : 32;
		memcpy(out + i * 32, t, k);
	}
}
static inline uint32_t rd(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void wr(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
#define ROTL(a, b) (((a) << (b)) | ((a) >> (32 - (b))))
static void salsa8(uint32_t B[16])
{
	uint32_t x[16];
	memcpy(x, B, 64);
	for (int i = 0; i < 4; i++) {	// RFC 7914 section 3
		x[4] ^= ROTL(x[0] + x[12], 7); x[8] ^= ROTL(x[4] + x[0], 9);
		x[12] ^= ROTL(x[8] + x[4], 13); x[0] ^= ROTL(x[12] + x[8], 18);
		x[9] ^= ROTL(x[5] + x[1], 7); x[13] ^= ROTL(x[9] + x[5], 9);
		x[1] ^= ROTL(x[13] + x[9], 13); x[5] ^= ROTL(x[1] + x[13], 18);
		x[14] ^= ROTL(x[10] + x[6], 7); x[2] ^= ROTL(x[14] + x[10], 9);
		x[6] ^= ROTL(x[2] + x[14], 13); x[10] ^= ROTL(x[6] + x[2], 18);
		x[3] ^= ROTL(x[15] + x[11], 7); x[7] ^= ROTL(x[3] + x[15], 9);
		x[11] ^= ROTL(x[7] + x[3], 13); x[15] ^= ROTL(x[11] + x[7], 18);
		x[1] ^= ROTL(x[0] + x[3], 7); x[2] ^= ROTL(x[1] + x[0], 9);
		x[3] ^= ROTL(x[2] + x[1], 13); x[0] ^= ROTL(x[3] + x[2], 18);
		x[6] ^= ROTL(x[5] + x[4], 7); x[7] ^= ROTL(x[6] + x[5], 9);
		x[4] ^= ROTL(x[7] + x[6], 13); x[5] ^= ROTL(x[4] + x[7], 18);
		x[11] ^= ROTL(x[10] + x[9], 7); x[8] ^= ROTL(x[11] + x[10], 9);
		x[9] ^= ROTL(x[8] + x[11], 13); x[10] ^= ROTL(x[9] + x[8], 18);
		x[12] ^= ROTL(x[15] + x[14], 7); x[13] ^= ROTL(x[12] + x[15], 9);
		x[14] ^= ROTL(x[13] + x[12], 13); x[15] ^= ROTL(x[14] + x[13], 18);
	}
	for (int i = 0; i < 16; i++) B[i] += x[i];
}
// scryptBlockMix on 2r 64-byte chunks held as words
static void blockmix(const uint32_t *B, uint32_t *Y, size_t r)
{
	uint32_t X[16];
	memcpy(X, B + (2 * r - 1) * 16, 64);
	for (size_t i = 0; i < 2 * r; i++) {
		for (int k = 0; k < 16; k++) X[k] ^= B[i * 16 + k];
		salsa8(X);
		memcpy(Y + ((i & 1) ? (r + i / 2) : i / 2) * 16, X, 64);
	}
}
void smix(uint8_t *B8, size_t r, uint64_t N)
{
	size_t w = 32 * r;
	uint32_t *X = new uint32_t[w], *T = new uint32_t[w];
	uint32_t *V = new uint32_t[w * N];
	for (size_t i = 0; i < w; i++) X[i] = rd(B8 + 4 * i);
	for (uint64_t i = 0; i < N; i++) {
		memcpy(V + i * w, X, w * 4);
		blockmix(X, T, r);
		std::swap(X, T);
	}
	for (uint64_t i = 0; i < N; i++) {
		const uint32_t *L = X + (2 * r - 1) * 16;
		uint64_t j = ((uint64_t)L[1] << 32 | L[0]) & (N - 1);
		const uint32_t *v = V + j * w;
		for (size_t k = 0; k < w; k++) X[k] ^= v[k];
		blockmix(X, T, r);
		std::swap(X, T);
	}
	for (size_t i = 0; i < w; i++) wr(B8 + 4 * i, X[i]);
	delete[] X; delete[] T; delete[] V;
}
bool scrypt(const void *pw, size_t pl, const void *sa, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t *out, size_t n)
{
	size_t bl = (size_t)128 * r;
	uint8_t *B = new uint8_t[bl * p];
	pbkdf2(pw, pl, sa, sl, 1, B, bl * p);
	for (uint32_t i = 0; i < p; i++) smix(B + bl * i, r, N);
	pbkdf2(pw, pl, B, bl * p, 1, out, n);
	delete[] B;
	return true;
}
void aes_ecb(const uint8_t *key, size_t kl, const uint8_t in[16], uint8_t out[16])
{
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	int n;
	uint8_t o[32];
	EVP_EncryptInit_ex(c, kl == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), 0, key, 0);
	EVP_CIPHER_CTX_set_padding(c, 0);
	EVP_EncryptUpdate(c, o, &n, in, 16);
	memcpy(out, o, 16);
	EVP_CIPHER_CTX_free(c);
}
void aesctr(const uint8_t *key, size_t kl, uint64_t nonce, uint64_t off, const uint8_t *in, uint8_t *out, size_t n)
{
	uint8_t iv[16];
	uint64_t blk = off / 16;
	for (int i = 0; i < 8; i++) { iv[i] = nonce >> (56 - 8 * i); iv[8 + i] = blk >> (56 - 8 * i); }
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	EVP_EncryptInit_ex(c, kl == 16 ? EVP_aes_128_ctr() : EVP_aes_256_ctr(), 0, key, iv);
	int l;
	uint8_t skip[16] = { 0 }, d[16];
	if (off % 16) EVP_EncryptUpdate(c, d, &l, skip, off % 16);
	while (n) {
		int k = n > (1 << 30) ? (1 << 30) : (int)n;
		EVP_EncryptUpdate(c, out, &l, in, k);
		in += k; out += k; n -= k;
	}
	EVP_CIPHER_CTX_free(c);
}
static uint8_t sbox(uint8_t a)
{
	// multiplicative inverse then affine map
	static uint8_t t[256]; static bool init = false;
	if (!init) {
		auto mul = [](uint8_t x, uint8_t y) { uint8_t r = 0; while (y) { if (y & 1) r ^= x; x = (x << 1) ^ ((x & 0x80) ? 0x1b : 0); y >>= 1; } return r; };
		for (int x = 0; x < 256; x++) {
			uint8_t inv = 0;
			for (int y = 1; y < 256 && x; y++) if (mul(x, y) == 1) inv = y;
			uint8_t s = inv, v = inv;
			for (int i = 0; i < 4; i++) { v = (v << 1) | (v >> 7); s ^= v; }
			t[x] = s ^ 0x63;
		}
		init = true;
	}
	return t[a];
}
void aes_round_keys(const uint8_t *key, size_t kl, uint8_t *w)
{
	memcpy(w, key, kl);
	uint8_t rc = 1;
	int nk = kl / 4;
	for (int i = nk; i < 4 * (nk + 7); i++) {
		uint8_t t[4];
		memcpy(t, w + 4 * (i - 1), 4);
		if (i % nk == 0) {
			uint8_t x = t[0];
			t[0] = sbox(t[1]) ^ rc; t[1] = sbox(t[2]); t[2] = sbox(t[3]); t[3] = sbox(x);
			rc = (rc << 1) ^ ((rc & 0x80) ? 0x1b : 0);
		} else if (nk == 8 && i % 8 == 4)
			for (int k = 0; k < 4; k++) t[k] = sbox(t[k]);
		for (int k = 0; k < 4; k++) w[4 * i + k] = w[4 * (i - nk) + k] ^ t[k];
	}
}
void aes256_round_keys(const uint8_t key[32], uint8_t w[240]) { aes_round_keys(key, 32, w); }
static void be(Bytes &b, uint32_t v) { b.push_back(v >> 24); b.push_back(v >> 16); b.push_back(v >> 8); b.push_back(v); }
Bytes header48(int logN, uint32_t r, uint32_t p, const uint8_t salt[32])
{
	Bytes h = { 's', 'c', 'r', 'y', 'p', 't', 0, (uint8_t)logN };
	be(h, r); be(h, p);
	h.insert(h.end(), salt, salt + 32);
	return h;
}
Bytes encrypt_dk(const uint8_t dk[64], const uint8_t salt[32], int logN, uint32_t r, uint32_t p, const Bytes &data)
{
	Bytes o = header48(logN, r, p, salt);
	uint8_t t[32];
	sha256(o.data(), 48, t);
	o.insert(o.end(), t, t + 16);
	hmac(dk + 32, 32, o.data(), 64, t);
	o.insert(o.end(), t, t + 32);
	size_t n = data.size();
	o.resize(96 + n);
	if (n) aesctr(dk, 32, 0, 0, data.data(), o.data() + 96, n);
	hmac(dk + 32, 32, o.data(), o.size(), t);
	o.insert(o.end(), t, t + 32);
	return o;
}
static const std::string &kdf(const Bytes &pass, const uint8_t *salt, int logN, uint32_t r, uint32_t p)
{
	static std::map<std::string, std::string> memo;
	std::string k((const char *)salt, 32);
	k += std::string((char *)&logN, 4) + std::string((char *)&r, 4) + std::string((char *)&p, 4) + std::string(pass.begin(), pass.end());
	auto it = memo.find(k);
	if (it != memo.end()) return it->second;
	if (memo.size() > 1000) memo.clear();
	uint8_t dk[64];
	scrypt(pass.data(), pass.size(), salt, 32, 1ULL << logN, r, p, dk, 64);
	return memo[k] = std::string((char *)dk, 64);
}
Bytes encrypt(const Bytes &pass, const uint8_t salt[32], int logN, uint32_t r, uint32_t p, const Bytes &data)
{
	return encrypt_dk((const uint8_t *)kdf(pass, salt, logN, r, p).data(), salt, logN, r, p, data);
}
bool params_valid(int logN, uint64_t r, uint64_t p)
{
	return logN >= 1 && logN <= 63 && r > 0 && p > 0 && r * p < (1ULL << 30);
}
Result decrypt(const Bytes &in, const Bytes &pass, double maxcost)
{
	Result R = { EINVAL_, Bytes(), 0, 0, 0, false };
	if (in.size() < 7 || memcmp(in.data(), "scrypt", 6)) return R;
	if (in[6] != 0) { R.code = EVERSION_; return R; }
	if (in.size() < 96) return R;
	uint8_t t[32];
	sha256(in.data(), 48, t);
	R.logN = in[7];
	R.r = (uint32_t)in[8] << 24 | in[9] << 16 | in[10] << 8 | in[11];
	R.p = (uint32_t)in[12] << 24 | in[13] << 16 | in[14] << 8 | in[15];
	if (memcmp(t, in.data() + 48, 16)) return R;
	if (!params_valid(R.logN, R.r, R.p)) return R;
	R.params = true;
	if ((double)(1ULL << R.logN) * R.r * R.p > maxcost) { R.code = -1; return R; }
	const std::string &dk = kdf(pass, in.data() + 16, R.logN, R.r, R.p);
	hmac(dk.data() + 32, 32, in.data(), 64, t);
	if (memcmp(t, in.data() + 64, 32)) { R.code = EPASS_; return R; }
	if (in.size() < 128) return R;
	hmac(dk.data() + 32, 32, in.data(), in.size() - 32, t);
	if (memcmp(t, in.data() + in.size() - 32, 32)) return R;
	R.code = OK;
	R.plain.resize(in.size() - 128);
	if (R.plain.size()) aesctr((const uint8_t *)dk.data(), 32, 0, 0, in.data() + 96, R.plain.data(), R.plain.size());
	return R;
}
std::vector<std::string> hmac_key_forms(const std::string &key)
{
	std::vector<std::string> v;
	std::string k = key;
	if (k.size() > 64) { unsigned char h[32]; SHA256((const unsigned char *)k.data(), k.size(), h); k.assign((char *)h, 32); }
	if (key.size() > 64) v.push_back(k);
	k.resize(64);
	for (int x : { 0x36, 0x5c }) {
		std::string p = k, w;
		for (auto &ch : p) ch ^= x;
		w = p;
		for (int i = 0; i < 64; i++) w[i] = p[i ^ 3];
		SHA256_CTX C; SHA256_Init(&C); SHA256_Update(&C, p.data(), 64);
		v.push_back(p); v.push_back(w); v.emplace_back((char *)C.h, 32);
	}
	return v;
}
}
