// C03: MD5 and SHA-1 against the RFC text, and independence from how the data is cut.
#include "vp.h"
#include <crab/crab.hpp>
#include <crab/crypto/md5.hpp>
#include <crab/crypto/sha1.hpp>
#include <string>

static uint32_t rol32(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
// padded message as in both RFCs
static std::string pad(const uint8_t *p, size_t n, bool big) {
	std::string m((const char *)p, n);
	m += (char)0x80;
	while (m.size() % 64 != 56)
		m += (char)0;
	uint64_t bits = (uint64_t)n * 8;
	for (int i = 0; i < 8; i++)
		m += (char)(uint8_t)(bits >> (big ? 56 - 8 * i : 8 * i));
	return m;
}
// RFC 1321 (the additive constants are floor(2^32 |sin(i)|))
static const uint32_t MD5T[64] = {
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391};
static const unsigned MD5S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
static void ref_md5(const uint8_t *p, size_t n, uint8_t *out) {
	std::string m = pad(p, n, false);
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
	for (size_t b = 0; b < m.size(); b += 64) {
		uint32_t x[16];
		for (int i = 0; i < 16; i++) {
			const uint8_t *q = (const uint8_t *)m.data() + b + i * 4;
			x[i] = (uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24;
		}
		uint32_t A = h[0], B = h[1], C = h[2], D = h[3];
		for (int i = 0; i < 64; i++) {
			uint32_t f;
			int k;
			switch (i / 16) {
			case 0: f = (B & C) | (~B & D); k = i; break;
			case 1: f = (B & D) | (C & ~D); k = (5 * i + 1) % 16; break;
			case 2: f = B ^ C ^ D; k = (3 * i + 5) % 16; break;
			default: f = C ^ (B | ~D); k = (7 * i) % 16; break;
			}
			uint32_t t = A + (f + x[k] + MD5T[i]);
			t = rol32(t, MD5S[i / 16][i % 4]) + B;
			A = D;
			D = C;
			C = B;
			B = t;
		}
		h[0] += A;
		h[1] += B;
		h[2] += C;
		h[3] += D;
	}
	for (int i = 0; i < 16; i++)
		out[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4)));
}
// FIPS 180 (with the choice and majority functions in the factored forms, equal bit by bit: see h_bitfn)
static uint32_t ch(uint32_t b, uint32_t c, uint32_t d) { return (b & (c ^ d)) ^ d; }
static uint32_t maj(uint32_t b, uint32_t c, uint32_t d) { return ((b | c) & d) | (b & c); }
static void ref_sha1(const uint8_t *p, size_t n, uint8_t *out) {
	std::string m = pad(p, n, true);
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
	for (size_t b = 0; b < m.size(); b += 64) {
		uint32_t w[80];
		for (int i = 0; i < 16; i++) {
			const uint8_t *q = (const uint8_t *)m.data() + b + i * 4;
			w[i] = (uint32_t)q[0] << 24 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 8 | (uint32_t)q[3];
		}
		for (int i = 16; i < 80; i++)
			w[i] = rol32(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t A = h[0], B = h[1], C = h[2], D = h[3], E = h[4];
		for (int i = 0; i < 80; i++) {
			uint32_t f, k;
			switch (i / 20) {
			case 0: f = ch(B, C, D); k = 0x5a827999; break;
			case 1: f = B ^ C ^ D; k = 0x6ed9eba1; break;
			case 2: f = maj(B, C, D); k = 0x8f1bbcdc; break;
			default: f = B ^ C ^ D; k = 0xca62c1d6; break;
			}
			uint32_t t = E + (f + w[i] + k + rol32(A, 5));
			E = D;
			D = C;
			C = rol32(B, 30);
			B = A;
			A = t;
		}
		h[0] += A;
		h[1] += B;
		h[2] += C;
		h[3] += D;
		h[4] += E;
	}
	for (int i = 0; i < 20; i++)
		out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
}
extern "C" void h_bitfn() {
	uint32_t b = vp_sym<uint32_t>("b"), c = vp_sym<uint32_t>("c"), d = vp_sym<uint32_t>("d");
	vp_assert(ch(b, c, d) == ((b & c) | (~b & d)), "choice");
	vp_assert(maj(b, c, d) == ((b & c) ^ (b & d) ^ (c & d)), "majority");
	vp_cover("done");
}
static size_t pick_len() {
	size_t maxn = (size_t)vp_param("n", 135);
	size_t k = vp_choice(maxn + 1, "len");
	return k;
}
template<size_t N>
static bool eq(const uint8_t *a, const uint8_t *b) {
	bool r = true;
	for (size_t i = 0; i < N; i++)
		r &= a[i] == b[i];
	return r;
}
template<class H>
static void hash_it(const uint8_t *p, size_t n, uint8_t *out) {
	H h;
	h.add(p, n);
	h.finalize(out);
}
// an exactly sized heap block, so that touching a byte beyond the data is seen
struct Block {
	uint8_t *p;
	explicit Block(size_t n) : p(new uint8_t[n]) {}
	~Block() { delete[] p; }
};
template<class H, size_t N>
static void ref_case(void (*ref)(const uint8_t *, size_t, uint8_t *)) {
	size_t n = pick_len();
	Block d(n);
	vp_symbolic(d.p, n, "d");
	uint8_t a[N], b[N];
	hash_it<H>(d.p, n, a);
	ref(d.p, n, b);
	vp_assert(eq<N>(a, b), "the standard digest");
}
extern "C" void h_md5_ref() {
	ref_case<crab::md5, 16>(ref_md5);
	vp_cover("done");
}
extern "C" void h_sha1_ref() {
	ref_case<crab::sha1, 20>(ref_sha1);
	vp_cover("done");
}
template<class H, size_t N>
static void split_case() {
	size_t n = pick_len();
	size_t step = (size_t)vp_param("step", 1);
	Block d(n);
	vp_symbolic(d.p, n, "d");
	size_t c1 = vp_choice(n / step + 1, "cut1") * step;
	size_t c2 = n;
	if (vp_param("three", 0))
		c2 = c1 + vp_choice(n - c1 + 1, "cut2");
	uint8_t a[N], b[N];
	hash_it<H>(d.p, n, a);
	{
		H h;
		const size_t cut[4] = {0, c1, c2, n};
		for (int i = 0; i < 3; i++) {
			Block piece(cut[i + 1] - cut[i]);
			memcpy(piece.p, d.p + cut[i], cut[i + 1] - cut[i]);
			h.add(piece.p, cut[i + 1] - cut[i]);
		}
		h.finalize(b);
	}
	vp_assert(eq<N>(a, b), "same digest however the message is cut");
}
extern "C" void h_md5_split() {
	split_case<crab::md5, 16>();
	vp_cover("done");
}
extern "C" void h_sha1_split() {
	split_case<crab::sha1, 20>();
	vp_cover("done");
}
