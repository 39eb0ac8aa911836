// C01 base64, C02 crc, C03 md5/sha1, C18 utf-8, C19 hex: the real functions against specifications written here.
#include "vp.h"
#include <crab/crab.hpp>
#include <crab/crypto/base64.hpp>
#include <crab/crypto/crc32.hpp>
#include <crab/crypto/md5.hpp>
#include <crab/crypto/sha1.hpp>

static bool bytes_equal(const uint8_t *a, const uint8_t *b, size_t n) {
	uint8_t d = 0;
	for (size_t i = 0; i < n; i++)
		d |= a[i] ^ b[i];
	return d == 0;
}

// ---- C01 -------------------------------------------------------------------------------------------------------
// character for a six-bit value / value for a character (64: none), by RFC 4648 table 1, without a table
static uint32_t b64_char(uint32_t v) {
	uint32_t up = 'A' + v, lo = 'a' + (v - 26), di = '0' + (v - 52);
	uint32_t r = v < 26 ? up : lo;
	r = v < 52 ? r : di;
	r = v == 62 ? '+' : r;
	r = v == 63 ? '/' : r;
	return r;
}
static uint32_t b64_val(uint8_t c) {
	uint32_t r = 64;
	r = (c >= 'A') & (c <= 'Z') ? c - 'A' : r;
	r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26 : r;
	r = (c >= '0') & (c <= '9') ? c - '0' + 52 : r;
	r = c == '+' ? 62 : r;
	r = c == '/' ? 63 : r;
	return r;
}
extern "C" void h_b64_roundtrip() {
	size_t n = vp_choice((size_t)vp_param("n", 13), "n");
	uint8_t *b = new uint8_t[n];
	vp_symbolic(b, n, "b");
	std::string s = crab::base64::encode(b, n);
	vp_assert(s.size() == (n + 2) / 3 * 4 && s.size() == crab::base64::encoded_size(n), "encoded length");
	bool ok = true;
	for (size_t g = 0; g * 3 < n; g++) {
		size_t left = n - g * 3;
		uint32_t x = b[g * 3], y = left > 1 ? b[g * 3 + 1] : 0, z = left > 2 ? b[g * 3 + 2] : 0;
		uint32_t e[4] = {b64_char(x >> 2), b64_char((x & 3) << 4 | y >> 4), left > 1 ? b64_char((y & 15) << 2 | z >> 6) : '=', left > 2 ? b64_char(z & 63) : '='};
		for (size_t i = 0; i < 4; i++)
			ok &= (uint8_t)s[g * 4 + i] == e[i];
	}
	vp_assert(ok, "encoding is not the RFC 4648 encoding of the bytes");
	// the variant writing into a caller's buffer of the announced size
	char *o = new char[s.size()];
	crab::base64::encode(o, s.size(), b, n);
	vp_assert(bytes_equal((uint8_t *)o, (uint8_t *)s.data(), s.size()), "both encoders agree");
	crab::bdata d;
	vp_assert(crab::base64::decode(&d, s), "own encoding is decodable");
	vp_assert(d.size() == n && bytes_equal(d.data(), b, n), "decoding the encoding gives the original bytes");
	if (n % 3 == 1) vp_cover("one byte left over");
	if (n % 3 == 2) vp_cover("two bytes left over");
	if (n % 3 == 0) vp_cover("whole groups");
	delete[] o;
	delete[] b;
}
extern "C" void h_b64_decode() {
	size_t n = vp_choice((size_t)vp_param("n", 11), "n");
	std::string s(n, 'A');
	vp_symbolic(&s[0], n, "s");
	crab::bdata d(2, 0x5a);
	bool got = crab::base64::decode(&d, s);
	// specification
	std::vector<uint8_t> bits(3 * (n / 4 + 1));
	bool valid = n % 4 != 1;
	size_t w = 0;
	const uint8_t *p = (const uint8_t *)s.data();
	size_t full = n / 4;
	// expected output position is symbolic only through padding, so groups are walked after the real run fixed the padding
	for (size_t g = 0; g < full; g++) {
		uint32_t v0 = b64_val(p[g * 4]), v1 = b64_val(p[g * 4 + 1]), v2 = b64_val(p[g * 4 + 2]), v3 = b64_val(p[g * 4 + 3]);
		size_t k = 3;
		if (p[g * 4 + 3] == '=') {
			k = 2;
			if (p[g * 4 + 2] == '=')
				k = 1;
		}
		valid &= (v0 < 64) & (v1 < 64) & ((k < 2) | (v2 < 64)) & ((k < 3) | (v3 < 64));
		uint32_t v = v0 << 18 | v1 << 12 | (k > 1 ? v2 << 6 : 0) | (k > 2 ? v3 : 0);
		for (size_t i = 0; i < k; i++)
			bits[w++] = (uint8_t)(v >> (16 - 8 * i));
	}
	size_t rest = n % 4;
	if (rest >= 2) {
		uint32_t v0 = b64_val(p[full * 4]), v1 = b64_val(p[full * 4 + 1]), v2 = rest == 3 ? b64_val(p[full * 4 + 2]) : 0;
		valid &= (v0 < 64) & (v1 < 64) & (v2 < 64);
		bits[w++] = (uint8_t)(v0 << 2 | v1 >> 4);
		if (rest == 3)
			bits[w++] = (uint8_t)(v1 << 4 | v2 >> 2);
	}
	vp_assert(got == valid, "the decoder accepts exactly the well-formed texts");
	if (got) {
		vp_assert(d.size() == w, "decoded length");
		if (d.size() == w)
			vp_assert(bytes_equal(d.data(), bits.data(), w), "decoded bytes are the bits the text carries");
		vp_cover("accepted");
	} else {
		vp_assert(d.size() == 2 && d[0] == 0x5a && d[1] == 0x5a, "a failed decode leaves the result untouched");
		vp_cover("rejected");
	}
}

// ---- C02 -------------------------------------------------------------------------------------------------------
static uint32_t crc_spec(uint32_t crc, const uint8_t *p, size_t n, uint32_t poly) {
	crc = ~crc;
	for (size_t i = 0; i < n; i++) {
		crc ^= p[i];
		for (int k = 0; k < 8; k++)
			crc = (crc >> 1) ^ (poly & (0u - (crc & 1)));
	}
	return ~crc;
}
typedef uint32_t (*crc_fn)(uint32_t, const uint8_t *, size_t);
static void crc_case(crc_fn f, uint32_t poly) {
	// one step from any state with any byte: by induction the table is right everywhere
	uint32_t init = vp_sym<uint32_t>("init");
	uint8_t b = vp_sym<uint8_t>("b");
	vp_assert(f(init, &b, 1) == crc_spec(init, &b, 1, poly), "one byte from any starting value");
	vp_assert(f(init, &b, 0) == init, "empty data leaves the checksum unchanged");
	vp_cover("step");
}
static void crc_long(crc_fn f, uint32_t poly) {
	// whole buffers: any alignment, any length in the bound, one free byte anywhere; and any split
	size_t max = (size_t)vp_param("n", 24);
	size_t n = vp_choice(max + 1, "n");
	size_t al = vp_choice(n < 8 ? 8 : 4, "align");
	uint8_t *mem = new uint8_t[al + n];
	uint8_t *p = mem + al;
	for (size_t i = 0; i < n; i++)
		p[i] = (uint8_t)(i * 37 + 11);
	if (n) {
		size_t at = vp_choice(n, "at");
		p[at] = vp_sym<uint8_t>("x");
	}
	uint32_t whole = f(0, p, n);
	vp_assert(whole == crc_spec(0, p, n, poly), "checksum of a whole buffer");
	size_t cut = vp_choice(n + 1, "cut");
	vp_assert(f(f(0, p, cut), p + cut, n - cut) == whole, "checksum composes over a split");
	vp_cover("whole");
	delete[] mem;
}
extern "C" void h_crc32_step() { crc_case(crab::crc32, 0xEDB88320u); }
extern "C" void h_crc32c_step() { crc_case(crab::crc32c, 0x82F63B78u); }
extern "C" void h_crc32_long() { crc_long(crab::crc32, 0xEDB88320u); }
extern "C" void h_crc32c_long() { crc_long(crab::crc32c, 0x82F63B78u); }

// ---- C19 -------------------------------------------------------------------------------------------------------
static int hex_val(uint8_t c) {
	int r = -1;
	r = (c >= '0') & (c <= '9') ? c - '0' : r;
	r = (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : r;
	r = (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : r;
	return r;
}
extern "C" void h_hex_roundtrip() {
	size_t n = vp_choice((size_t)vp_param("n", 9), "n");
	uint8_t *b = new uint8_t[n];
	vp_symbolic(b, n, "b");
	std::string s = crab::to_hex(b, n);
	vp_assert(s.size() == 2 * n, "two digits per byte");
	bool ok = true;
	for (size_t i = 0; i < n; i++) {
		uint32_t h = b[i] >> 4, l = b[i] & 15;
		ok &= (uint8_t)s[2 * i] == (h < 10 ? '0' + h : 'a' + h - 10);
		ok &= (uint8_t)s[2 * i + 1] == (l < 10 ? '0' + l : 'a' + l - 10);
	}
	vp_assert(ok, "lower-case hex digits, high nibble first");
	crab::bdata bd(b, b + n);
	vp_assert(crab::to_hex((const char *)b, n) == s && crab::to_hex(bd) == s, "of characters and byte vectors alike");
	crab::bdata d(1, 7);
	vp_assert(crab::from_hex(d, s), "own hex is accepted");
	vp_assert(d.size() == n && bytes_equal(d.data(), b, n), "hex round trip");
	vp_cover("done");
	delete[] b;
}
extern "C" void h_hex_decode() {
	size_t n = vp_choice((size_t)vp_param("n", 7), "n");
	std::string s(n, '0');
	vp_symbolic(&s[0], n, "s");
	crab::bdata d(1, 7);
	bool got = crab::from_hex(d, s);
	bool valid = n % 2 == 0;
	bool same = true;
	for (size_t i = 0; i < n; i++)
		valid &= hex_val((uint8_t)s[i]) >= 0;
	vp_assert(got == valid, "accepts exactly even-length hex text");
	if (got) {
		vp_assert(d.size() == n / 2, "one byte per two digits");
		for (size_t i = 0; i < n / 2 && i < d.size(); i++)
			same &= d[i] == hex_val((uint8_t)s[2 * i]) * 16 + hex_val((uint8_t)s[2 * i + 1]);
		vp_assert(same, "decoded bytes");
		vp_cover("accepted");
	} else {
		vp_assert(d.size() == 1 && d[0] == 7, "rejected text leaves the output alone");
		vp_cover("rejected");
	}
}
extern "C" void h_hex_digit() {
	uint8_t c = vp_sym<uint8_t>("c");
	vp_assert(crab::from_hex_digit((char)c) == hex_val(c), "value of a hex digit");
	vp_cover("done");
}

// ---- C18 -------------------------------------------------------------------------------------------------------
// Unicode 15 table 3-7: does a well-formed sequence of length k start at p (m bytes available)?
static bool u8_cont(uint8_t c) { return (c & 0xC0) == 0x80; }
static bool utf8_spec(const uint8_t *p, size_t n) {
	// ok[i]: the bytes from i on are well formed
	bool ok[64];
	ok[n] = true;
	for (size_t i = n; i-- > 0;) {
		uint8_t a = p[i];
		bool r = (a < 0x80) & ok[i + 1];
		if (i + 2 <= n)
			r |= (a >= 0xC2) & (a <= 0xDF) & u8_cont(p[i + 1]) & ok[i + 2];
		if (i + 3 <= n) {
			uint8_t b = p[i + 1];
			bool second = ((a == 0xE0) & (b >= 0xA0) & (b <= 0xBF)) | ((a >= 0xE1) & (a <= 0xEC) & u8_cont(b)) | ((a == 0xED) & (b >= 0x80) & (b <= 0x9F)) | ((a >= 0xEE) & (a <= 0xEF) & u8_cont(b));
			r |= second & u8_cont(p[i + 2]) & ok[i + 3];
		}
		if (i + 4 <= n) {
			uint8_t b = p[i + 1];
			bool second = ((a == 0xF0) & (b >= 0x90) & (b <= 0xBF)) | ((a >= 0xF1) & (a <= 0xF3) & u8_cont(b)) | ((a == 0xF4) & (b >= 0x80) & (b <= 0x8F));
			r |= second & u8_cont(p[i + 2]) & u8_cont(p[i + 3]) & ok[i + 4];
		}
		ok[i] = r;
	}
	return ok[0];
}
extern "C" void h_utf8() {
	size_t n = vp_choice((size_t)vp_param("n", 6), "n");
	uint8_t *b = new uint8_t[n];
	vp_symbolic(b, n, "b");
	bool got = crab::is_valid_utf8(b, n);
	vp_assert(got == utf8_spec(b, n), "accepts exactly well-formed UTF-8");
	vp_assert(crab::is_valid_utf8(std::string((const char *)b, n)) == got, "string overload agrees");
	vp_cover("done");
	delete[] b;
}
// longer texts: concrete context around a free window
extern "C" void h_utf8_window() {
	static const char *ctx[] = {"a\xC3\xA9" "b", "\xE2\x82\xAC\xF0\x9F\x98\x80", "zz\xF4\x8F\xBF\xBF", "\xE2\x82", "plain ascii text"};
	std::string pre = ctx[vp_choice(5, "pre")], post = ctx[vp_choice(5, "post")];
	size_t n = (size_t)vp_param("w", 2);
	std::string s = pre + std::string(n, '\0') + post;
	vp_symbolic(&s[pre.size()], n, "w");
	vp_assert(crab::is_valid_utf8(s) == utf8_spec((const uint8_t *)s.data(), s.size()), "verdict inside a longer text");
	vp_cover("done");
}
