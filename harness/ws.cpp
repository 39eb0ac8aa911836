// C04 websocket frame headers, C05 masking and frame bodies.
#include "vp.h"
#include <crab/crab.hpp>
using namespace crab;
using namespace crab::http;

static bool opcode_known(int op) { return (op == 0) | (op == 1) | (op == 2) | (op == 8) | (op == 9) | (op == 10); }

// RFC 6455 5.2 header bytes for the given fields
static size_t spec_header(uint8_t *o, bool fin, int op, uint64_t len, bool masked, uint32_t key) {
	size_t n = 0;
	o[n++] = (uint8_t)((fin ? 0x80 : 0) | op);
	uint8_t m = masked ? 0x80 : 0;
	if (len < 126) {
		o[n++] = (uint8_t)(m | len);
	} else if (len < 65536) {
		o[n++] = m | 126;
		o[n++] = (uint8_t)(len >> 8);
		o[n++] = (uint8_t)len;
	} else {
		o[n++] = m | 127;
		for (int i = 7; i >= 0; i--)
			o[n++] = (uint8_t)(len >> (8 * i));
	}
	if (masked)
		for (int i = 3; i >= 0; i--)
			o[n++] = (uint8_t)(key >> (8 * i));
	return n;
}
extern "C" void h_wshdr_roundtrip() {
	static const int ops[] = {0, 1, 2, 8, 9, 10};
	int op = ops[vp_choice(6, "op")];
	bool fin = vp_flag("fin"), masked = vp_flag("masked");
	uint32_t key = vp_sym<uint32_t>("key");
	uint64_t len = vp_sym<uint64_t>("len");
	if (op & 8)
		vp_assume(fin & (len <= 125));
	vp_assume(len >> 63 == 0);
	optional<uint32_t> mk;
	if (masked)
		mk = key;
	WebMessageHeaderSaver saver(fin, op, len, mk);
	uint8_t want[16];
	size_t wn = spec_header(want, fin, op, len, masked, key);
	vp_assert(saver.size() == wn, "header length is the minimal RFC 6455 encoding");
	bool same = true;
	for (size_t i = 0; i < wn && i < saver.size(); i++)
		same &= saver.data()[i] == want[i];
	vp_assert(same, "header bytes are the RFC 6455 encoding");
	// parse it back in two pieces, with bytes of the payload following
	std::vector<uint8_t> in(saver.data(), saver.data() + saver.size());
	in.push_back(0x81);
	in.push_back(0x02);
	WebMessageHeaderParser p;
	size_t c1 = vp_choice(wn + 2, "cut"), c2 = in.size();
	const uint8_t *b = in.data();
	const uint8_t *r = p.parse(b, b + c1);
	vp_assert(p.is_good() == (c1 >= wn), "complete exactly when the last header byte was given");
	r = p.parse(r, b + c2);
	vp_assert(p.is_good() && r == b + wn, "consumes exactly the header");
	vp_assert((p.fin == fin) & (p.opcode == op) & (p.payload_len == len), "fields survive");
	vp_assert((bool)p.masking_key == masked, "mask flag survives");
	if (masked)
		vp_assert(*p.masking_key == key, "masking key survives");
	vp_cover("done");
}
// any bytes: exactly the legal headers are accepted, the fields are what the bytes say, splits do not matter
extern "C" void h_wshdr_parse() {
	size_t n = vp_choice(15, "n");
	uint8_t *b = new uint8_t[n];
	vp_symbolic(b, n, "b");
	WebMessageHeaderParser p;
	bool threw = false;
	const uint8_t *r = b;
	size_t cut = vp_choice(n + 1, "cut");
	try {
		r = p.parse((const uint8_t *)b, (const uint8_t *)b + cut);
		r = p.parse(r, (const uint8_t *)b + n);
	} catch (const std::exception &) {
		threw = true;
	}
	bool bad = false;
	if (n >= 1)
		bad = (b[0] & 0x70) || !opcode_known(b[0] & 15);
	if (!bad && n >= 2)
		bad = (b[0] & 8) && ((b[1] & 0x7F) > 125 || !(b[0] & 0x80));
	vp_assert(threw == bad, "exactly the headers RFC 6455 forbids are rejected");
	if (threw) {
		vp_cover("rejected");
		delete[] b;
		return;
	}
	size_t need = 2;
	uint64_t len = 0;
	if (n >= 2) {
		len = b[1] & 0x7F;
		size_t k = 0;
		if (len == 126) k = 2;
		if (len == 127) k = 8;
		need += k;
		if (b[1] & 0x80) need += 4;
		if (k && n >= 2 + k) {
			len = 0;
			for (size_t i = 0; i < k; i++)
				len = len << 8 | b[2 + i];
		}
	}
	vp_assert(p.is_good() == (n >= need), "a header is complete exactly with its last byte");
	if (n >= need) {
		vp_assert(r == b + need, "consumes exactly the header");
		vp_assert((p.fin == ((b[0] & 0x80) != 0)) & (p.opcode == (b[0] & 15)) & (p.payload_len == len), "fields as spelled");
		vp_assert((bool)p.masking_key == ((b[1] & 0x80) != 0), "mask flag as spelled");
		if (b[1] & 0x80)
			vp_assert(*p.masking_key == ((uint32_t)b[need - 4] << 24 | (uint32_t)b[need - 3] << 16 | (uint32_t)b[need - 2] << 8 | b[need - 1]), "key as spelled");
		vp_cover("complete");
	} else {
		vp_assert(r == b + n, "an incomplete header consumes everything");
		vp_cover("incomplete");
	}
	delete[] b;
}
static uint8_t key_byte(uint32_t key, size_t i) { return (uint8_t)(key >> (24 - 8 * (i % 4))); }
extern "C" void h_wsmask() {
	size_t n = vp_choice((size_t)vp_param("n", 20), "n"), al = vp_choice(8, "align"), shift = vp_choice(9, "shift");
	uint32_t key = vp_sym<uint32_t>("key");
	std::vector<uint8_t> d(n);
	vp_symbolic(d.data(), n, "d");
	char *mem = new char[n + al], *p = mem + al;
	memcpy(p, d.data(), n);
	WebMessageHeaderParser::mask_data(shift, p, n, key);
	bool ok = true;
	for (size_t i = 0; i < n; i++)
		ok &= (uint8_t)p[i] == (uint8_t)(d[i] ^ key_byte(key, i + shift));
	vp_assert(ok, "byte i is XORed with key byte (i + position) mod 4");
	WebMessageHeaderParser::mask_data(shift, p, n, key);
	ok = true;
	for (size_t i = 0; i < n; i++)
		ok &= (uint8_t)p[i] == d[i];
	vp_assert(ok, "masking twice restores the data");
	delete[] mem;
	vp_cover("done");
}
extern "C" void h_wsbody() {
	size_t max = (size_t)vp_param("n", 13);
	size_t len = vp_choice(max, "len");
	bool masked = vp_flag("masked");
	uint32_t key = vp_sym<uint32_t>("key");
	const size_t extra = 3;
	std::vector<uint8_t> in(len + extra);
	vp_symbolic(in.data(), in.size(), "in");
	optional<uint32_t> mk;
	if (masked)
		mk = key;
	WebMessageBodyParser p(len, mk);
	vp_assert(p.is_good() == (len == 0), "an empty body is complete at once");
	const uint8_t *b = in.data();
	size_t c1 = vp_choice(len + 2, "c1");
	size_t c2 = c1 + vp_choice(len + 2 - c1, "c2");
	const uint8_t *r = p.parse(b, b + c1);
	vp_assert(r == b + std::min(c1, len), "consumes no more than the body");
	vp_assert(p.is_good() == (c1 >= len), "complete exactly with the last byte");
	r = p.parse(r, b + std::max(c2, (size_t)(r - b)));
	r = p.parse(r, b + in.size());
	vp_assert(p.is_good() && r == b + len, "consumes exactly the announced length");
	std::string body = p.body.clear();
	vp_assert(body.size() == len, "delivers the whole body");
	bool ok = true;
	for (size_t i = 0; i < len && i < body.size(); i++)
		ok &= (uint8_t)body[i] == (uint8_t)(in[i] ^ (masked ? key_byte(key, i) : 0));
	vp_assert(ok, "delivers the unmasked payload");
	vp_cover("done");
}
// through the circular read buffer, at any read position, so that the frame wraps around
extern "C" void h_wsframe_ring() {
	const size_t cap = 12;
	Buffer buf(cap);
	size_t start = vp_choice(cap, "start");
	size_t len = vp_choice(6, "len");
	uint32_t key = vp_sym<uint32_t>("key");
	std::vector<uint8_t> pay(len);
	vp_symbolic(pay.data(), len, "pay");
	optional<uint32_t> mk;
	mk = key;
	WebMessageHeaderSaver sv(true, 2, len, mk);
	std::vector<uint8_t> wire(sv.data(), sv.data() + sv.size());
	for (size_t i = 0; i < len; i++)
		wire.push_back(pay[i] ^ key_byte(key, i));
	wire.push_back(0x55);  // first byte of the next frame
	WebMessageHeaderParser hp;
	WebMessageBodyParser bp;
	bool have = false;
	size_t off = 0;
	// bytes of an earlier frame keep the first part of this one away from position 0, then are taken
	size_t step = 1 + vp_choice(5, "step");
	static const uint8_t filler[cap] = {};
	buf.write_some(filler, start);
	off += buf.write_some(wire.data(), std::min(step, wire.size()));
	buf.did_read(start);
	while (off < wire.size() || !buf.empty()) {
		size_t w = buf.write_some(wire.data() + off, std::min(step, wire.size() - off));
		off += w;
		while (!buf.empty()) {
			size_t before = buf.size();
			if (!have) {
				hp.parse(buf);
				if (hp.is_good()) {
					bp = WebMessageBodyParser(hp.payload_len, hp.masking_key);
					have = true;
				}
			} else if (!bp.is_good())
				bp.parse(buf);
			if (buf.size() == before)
				break;
		}
		if (have && bp.is_good() && off == wire.size())
			break;
	}
	vp_assert(have && bp.is_good() && buf.size() == 1, "frame complete, next frame's byte untouched");
	std::string body = bp.body.clear();
	vp_assert(body.size() == len, "length");
	bool ok = true;
	for (size_t i = 0; i < len; i++)
		ok &= (uint8_t)body[i] == pay[i];
	vp_assert(ok, "payload through the read buffer");
	vp_cover("done");
}
