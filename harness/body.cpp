// C14: HTTP bodies, by length and chunked.
#include "vp.h"
#include <crab/crab.hpp>
using namespace crab;

static bool eq(const std::string &a, const std::string &b) {
	if (a.size() != b.size())
		return false;
	uint8_t d = 0;
	for (size_t i = 0; i < a.size(); i++)
		d |= (uint8_t)(a[i] ^ b[i]);
	return d == 0;
}
static bool sp(char c) { return (c == ' ') | (c == '\t'); }
static int hexv(char ch) {  // branches: simpler sums for the solver
	uint8_t c = (uint8_t)ch;
	if ((c >= '0') & (c <= '9'))
		return c - '0';
	if ((c >= 'a') & (c <= 'f'))
		return c - 'a' + 10;
	if ((c >= 'A') & (c <= 'F'))
		return c - 'A' + 10;
	return -1;
}
static bool tchar(char ch) {
	uint8_t c = (uint8_t)ch;
	bool special = (c == '(') | (c == ')') | (c == '<') | (c == '>') | (c == '@') | (c == ',') | (c == ';') | (c == ':') | (c == '\\') | (c == '"') | (c == '/') | (c == '[') | (c == ']') | (c == '?') | (c == '=') | (c == '{') | (c == '}');
	return (c < 127) & (c > 32) & !special;
}
struct Ref {
	enum { BAD, SHORT, DONE } v = SHORT;
	size_t used = 0;
	std::string body;
};
// end of the line holding position i: 1 (j: behind it), 0 not there yet, -1 malformed
static int newline(const std::string &s, size_t &j) {
	if (j >= s.size())
		return 0;
	if (s[j] == '\n') {
		j++;
		return 1;
	}
	if (s[j] != '\r')
		return -1;
	if (j + 1 >= s.size())
		return 0;
	if (s[j + 1] != '\n')
		return -1;
	j += 2;
	return 1;
}
static Ref ref_chunked(const std::string &s) {
	Ref r;
	size_t i = 0;
	while (true) {
		while (i < s.size() && sp(s[i]))
			i++;
		size_t digits = 0;
		uint64_t size = 0;
		int h;
		while (i < s.size() && (h = hexv(s[i])) >= 0) {
			if (size >> 60) {
				r.v = Ref::BAD;
				return r;
			}
			size = size * 16 + (uint64_t)h;
			digits++;
			i++;
		}
		if (i >= s.size())
			return r;
		if (digits == 0) {
			r.v = Ref::BAD;
			return r;
		}
		if (sp(s[i]) || s[i] == ';')  // extension
			while (i < s.size() && s[i] != '\r' && s[i] != '\n')
				i++;
		int k = newline(s, i);
		if (k <= 0) {
			r.v = k < 0 ? Ref::BAD : Ref::SHORT;
			return r;
		}
		if (size <= s.size())
			size = vp_concretize(size);
		if (size == 0)
			break;
		while (size && i < s.size()) {
			r.body.push_back(s[i++]);
			size--;
		}
		if (size)
			return r;
		while (i < s.size() && sp(s[i]))
			i++;
		k = newline(s, i);
		if (k <= 0) {
			r.v = k < 0 ? Ref::BAD : Ref::SHORT;
			return r;
		}
	}
	while (true) {  // trailer
		if (i >= s.size())
			return r;
		if (s[i] == '\r' || s[i] == '\n') {
			int k = newline(s, i);
			r.v = k < 0 ? Ref::BAD : k == 0 ? Ref::SHORT : Ref::DONE;
			r.used = i;
			return r;
		}
		if (!tchar(s[i])) {
			r.v = Ref::BAD;
			return r;
		}
		while (i < s.size() && s[i] != '\r' && s[i] != '\n')
			i++;
		int k = newline(s, i);
		if (k <= 0) {
			r.v = k < 0 ? Ref::BAD : Ref::SHORT;
			return r;
		}
	}
}
struct Run {
	http::BodyParser p;
	bool thrown = false;
	size_t used = 0;
	explicit Run(optional<uint64_t> len, bool chunked) : p(len, chunked) {}
	void feed(const std::string &s, size_t upto) {
		if (thrown)
			return;
		try {
			const uint8_t *b = uint8_cast(s.data()) + used, *e = uint8_cast(s.data()) + upto;
			const uint8_t *m = p.parse(b, e);
			vp_assert(m >= b && m <= e && (m == e || p.is_good()), "reads on to the end of the data or of the body");
			used += (size_t)(m - b);
		} catch (const std::exception &) {
			thrown = true;
		}
	}
	bool good() const { return !thrown && p.is_good(); }
	std::string body() { return p.body.get_buffer(); }
};
static void check_chunked(const std::string &s, size_t at, size_t ins) {
	Ref r = ref_chunked(s);
	Run a(optional<uint64_t>(), true), b(optional<uint64_t>(), true), c(optional<uint64_t>(), true);
	a.feed(s, s.size());
	vp_assert(a.thrown == (r.v == Ref::BAD), "malformed chunk framing is rejected, and only that");
	vp_assert(a.good() == (r.v == Ref::DONE), "complete exactly after the last framing byte");
	for (size_t i = 1; i <= s.size(); i++)
		b.feed(s, i);
	size_t lo = at > 0 ? at - 1 : 0, hi = at + ins + 1 < s.size() ? at + ins + 1 : s.size();
	size_t cut = lo + vp_choice(hi - lo + 1, "cut");
	c.feed(s, cut);
	c.feed(s, cut);
	c.feed(s, s.size());
	vp_assert((a.thrown == b.thrown) & (a.thrown == c.thrown) & (a.good() == b.good()) & (a.good() == c.good()), "same verdict for every split");
	if (a.thrown)
		return;
	vp_assert((a.used == b.used) & (a.used == c.used), "same bytes consumed for every split");
	vp_assert(eq(a.body(), r.body) && eq(b.body(), r.body) && eq(c.body(), r.body), "exactly the payload bytes");
	if (a.good())
		vp_assert(a.used == r.used, "bytes behind the body are left alone");
}
static const char *const BODIES[] = {
    "5\r\nhello\r\n0\r\n\r\nNEXT", "1;a=b\r\nx\r\n00A\nabcdefghij\n0\n\nN", " 3 ext\r\na\r\n\t\r\n2\r\n\r\n\r\n0;l\r\nT: v\r\nU:w\r\n\r\n0", "0\r\n\r\n", "0\r\na: b\nc:d\r\n\nPOST", "fffffffffffffff\r\nabc",
};
extern "C" void h_chunked() {
	std::string s = BODIES[vp_choice(5, "body")];
	size_t max = (size_t)vp_param("w", 2);
	size_t ins = vp_choice(max + 1, "ins"), del = vp_choice(max + 1, "del"), at = vp_choice(s.size() + 1 - del, "at");
	std::string w(ins, 'x');
	if (ins)
		vp_symbolic(&w[0], ins, "w");
	s = s.substr(0, at) + w + s.substr(at + del);
	check_chunked(s, at, ins);
	vp_cover("done");
}
extern "C" void h_chunked_any() {
	size_t n = vp_choice((size_t)vp_param("n", 5) + 1, "n");
	std::string s(n, 'x');
	if (n)
		vp_symbolic(&s[0], n, "s");
	check_chunked(s, 0, n);
	vp_cover("done");
}
extern "C" void h_chunk_size() {
	static const size_t lengths[] = {1, 2, 3, 15, 16, 17, 18};
	size_t n = lengths[vp_choice(7, "n")], win = (size_t)vp_param("win", 3);
	static const char fillers[] = "f01";
	char f = fillers[vp_choice(3, "fill")];
	size_t w = win < n ? win : n, at = vp_choice(n - w + 1, "at");
	std::string s(n, f);
	vp_symbolic(&s[at], w, "w");
	s += "\r\nab";
	Ref r = ref_chunked(s);
	Run a(optional<uint64_t>(), true);
	a.feed(s, s.size());
	vp_assert(a.thrown == (r.v == Ref::BAD), "a size is rejected exactly when it is malformed or does not fit 64 bits");
	if (!a.thrown) {
		vp_assert(a.good() == (r.v == Ref::DONE), "complete exactly when all the announced bytes are there");
		vp_assert(a.used == (a.good() ? r.used : s.size()) && eq(a.body(), r.body), "the announced bytes are taken");
		vp_cover("accepted");
	} else
		vp_cover("rejected");
}
// limits: everything up to the limit is accepted, everything more than one byte over it is rejected
extern "C" void h_chunk_limits() {
	size_t kind = vp_choice(3, "kind");
	bool real = vp_flag("real");
	Run a(optional<uint64_t>(), true);
	size_t limit = kind < 2 ? 256 : 4096;
	if (!real) {
		limit = 12 + vp_choice(4, "limit");
		if (kind < 2)
			a.p.max_chunk_header_total_length = limit;
		else
			a.p.max_trailers_total_length = limit;
	} else
		vp_assert(a.p.max_chunk_header_total_length == 256 && a.p.max_trailers_total_length == 4096, "documented limits");
	size_t len = limit - 3 + vp_choice(8, "len");  // length of the whole line or trailer
	std::string s;
	if (kind == 0)
		s = "1;" + std::string(len - 4, 'e') + "\r\nX\r\n0\r\n\r\n";
	else if (kind == 1)  // the chunk end and the next header count together
		s = "1\r\nX" + std::string(2, ' ') + "\r\n1;" + std::string(len - 8, 'e') + "\r\nY\r\n0\r\n\r\n";
	else
		s = "0\r\n" + std::string(len - 4, 't') + "\r\n\r\n";
	bool bytewise = vp_flag("bytewise");
	for (size_t i = bytewise ? 1 : s.size(); i <= s.size(); i++)
		a.feed(s, i);
	if (len <= limit)
		vp_assert(a.good(), "accepted up to the limit");
	if (len > limit + 1)
		vp_assert(a.thrown, "rejected over the limit");
	if (len <= limit) vp_cover("within");
	if (len > limit + 1) vp_cover("over");
}
extern "C" void h_length_body() {
	size_t n = (size_t)vp_param("n", 8);
	std::string s(n, 'x');
	vp_symbolic(&s[0], n, "s");
	uint64_t len = vp_sym<uint64_t>("len");
	vp_assume((len <= n + 1) | (len == 100) | (len >= 4094));
	if ((len > n) & (len < 4096))
		len = vp_concretize(len);
	bool announced = vp_flag("announced"), chunked_too = vp_flag("chunked");
	if (chunked_too) {  // chunked coding overrides a length
		Run c(optional<uint64_t>(len), true);
		std::string t = "1\r\nq\r\n0\r\n\r\nZ";
		c.feed(t, t.size());
		vp_assert(c.good() && c.used == t.size() - 1 && eq(c.body(), "q"), "chunked coding overrides the length");
		return;
	}
	Run a(announced ? optional<uint64_t>(len) : optional<uint64_t>(), false);
	if (!announced)
		len = 0;
	if (len <= n)
		len = vp_concretize(len);
	size_t c1 = vp_choice(n + 1, "c1"), c2 = c1 + vp_choice(n + 1 - c1, "c2");
	vp_assert(a.good() == (len == 0), "a body of no bytes is complete at once");
	a.feed(s, c1);
	vp_assert(a.good() == (len <= c1), "complete with its last byte");
	a.feed(s, c2);
	a.feed(s, n);
	vp_assert(!a.thrown, "content is never rejected");
	vp_assert(a.good() == (len <= n), "complete with its last byte");
	size_t want = len <= n ? (size_t)len : n;
	vp_assert(a.used == want && eq(a.body(), s.substr(0, want)), "exactly the announced bytes are taken");
	if (a.good()) vp_cover("complete");
	if (!a.good()) vp_cover("incomplete");
}
extern "C" void h_body_buffer() {
	bool chunked = vp_flag("chunked");
	std::string s = BODIES[vp_choice(6, "body")];
	uint64_t len = chunked ? 0 : vp_choice(s.size() + 1, "len");
	size_t cap = 1 + vp_choice((size_t)vp_param("cap", 6), "cap");
	Buffer buf(cap);
	size_t pre = vp_choice(cap, "pre");
	for (size_t i = 0; i < pre; i++) {
		buf.write(uint8_cast("p"), 1);
		buf.did_read(1);
	}
	Run a(chunked ? optional<uint64_t>() : optional<uint64_t>(len), chunked);
	a.feed(s, s.size());
	http::BodyParser p(chunked ? optional<uint64_t>() : optional<uint64_t>(len), chunked);
	size_t pos = 0, taken = 0;
	bool thrown = false;
	while (!thrown && !p.is_good()) {
		size_t step = buf.write_count() + buf.write_count2();
		if (step > s.size() - pos)
			step = s.size() - pos;
		buf.write(uint8_cast(s.data()) + pos, step);
		pos += step;
		size_t before = buf.size();
		if (before == 0)
			break;
		try {
			p.parse(buf);
			vp_assert(buf.size() < before, "progress");
		} catch (const std::exception &) {
			thrown = true;
		}
		taken += before - buf.size();
	}
	vp_assert(thrown == a.thrown && p.is_good() == a.good(), "same verdict through a buffer");
	if (!thrown)
		vp_assert(taken == a.used && eq(p.body.get_buffer(), a.body()), "same body through a buffer");
	vp_cover("done");
}
