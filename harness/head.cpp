// C12, C13, C15, C21: HTTP heads. The library's parsers against a line-oriented reference written here, on complete
// heads with arbitrary characters at every position.
#include "vp.h"
#include <crab/crab.hpp>
#include <vector>
using namespace crab;
using http::RequestHeader;
using http::ResponseHeader;

static bool eq(const std::string &a, const std::string &b) {
	if (a.size() != b.size())
		return false;
	uint8_t d = 0;
	for (size_t i = 0; i < a.size(); i++)
		d |= (uint8_t)(a[i] ^ b[i]);
	return d == 0;
}
static bool sp(char c) { return (c == ' ') | (c == '\t'); }
static bool ctl(char ch) {
	uint8_t c = (uint8_t)ch;
	return (c < 32) | (c == 127);
}
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static int hexv(char ch) {
	uint8_t c = (uint8_t)ch;
	int r = -1;
	r = (c >= '0') & (c <= '9') ? c - '0' : r;
	r = (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : r;
	r = (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : r;
	return r;
}
static char low(char ch) {
	uint8_t c = (uint8_t)ch;
	return (char)((c >= 'A') & (c <= 'Z') ? c + 32 : c);
}
static std::string lower(std::string s) {
	for (size_t i = 0; i < s.size(); i++)
		s[i] = low(s[i]);
	return s;
}
static std::string trimmed(const std::string &s) {
	size_t a = 0, b = s.size();
	while (a < b && sp(s[a]))
		a++;
	while (b > a && sp(s[b - 1]))
		b--;
	return s.substr(a, b - a);
}
// RFC 2616 token character (the set the library documents for methods and field names)
static bool tchar(char ch) {
	uint8_t c = (uint8_t)ch;
	bool special = (c == '(') | (c == ')') | (c == '<') | (c == '>') | (c == '@') | (c == ',') | (c == ';') | (c == ':') | (c == '\\') | (c == '"') | (c == '/') | (c == '[') | (c == ']') | (c == '?') | (c == '=') | (c == '{') | (c == '}') | (c == ' ') | (c == '\t');
	return (c < 128) & !ctl(ch) & !special;
}

// ---- reference ---------------------------------------------------------------------------------------------------
enum Verdict { NO, YES, UNSPECIFIED };
struct Ref {
	Verdict v = NO;
	size_t used = 0;
	RequestHeader rq;
	ResponseHeader rs;
};
struct Field {
	std::string name, value;
	bool tab = false;
};
struct Rd {
	const std::string &s;
	size_t i = 0;
	explicit Rd(const std::string &s) : s(s) {}
	bool more() const { return i < s.size(); }
	bool skip_sp() {
		size_t j = i;
		while (more() && sp(s[i]))
			i++;
		return i != j;
	}
	bool nl() {
		if (more() && s[i] == '\n') {
			i++;
			return true;
		}
		if (i + 1 < s.size() && s[i] == '\r' && s[i + 1] == '\n') {
			i += 2;
			return true;
		}
		return false;
	}
	bool version(int &major, int &minor) {
		static const char h[] = "HTTP/";
		for (int k = 0; k < 5; k++, i++)
			if (!more() || s[i] != h[k])
				return false;
		size_t j = i;
		major = 0;
		while (more() && digit(s[i])) {
			major = major * 10 + (s[i++] - '0');
			if (major > 1)
				return false;
		}
		if (i == j || !more() || s[i] != '.')
			return false;
		j = ++i;
		minor = 0;
		while (more() && digit(s[i])) {
			minor = minor * 10 + (s[i++] - '0');
			if (minor > 99)
				return false;
		}
		return i != j;
	}
	// fields up to and including the blank line
	bool fields(std::vector<Field> &out) {
		while (true) {
			if (nl())
				return true;
			Field f;
			while (more() && tchar(s[i]))
				f.name.push_back(low(s[i++]));
			if (f.name.empty())
				return false;
			skip_sp();
			if (!more() || s[i] != ':')
				return false;
			i++;
			skip_sp();
			while (true) {
				while (more() && s[i] != '\r' && s[i] != '\n') {
					f.tab |= s[i] == '\t';
					if (ctl(s[i]) & (s[i] != '\t'))
						return false;
					f.value.push_back(s[i++]);
				}
				if (!nl())
					return false;
				if (!more() || !sp(s[i]))
					break;
				if (f.value.empty())
					skip_sp();
				else
					f.value.push_back(s[i++]);
			}
			f.value = trimmed(f.value);
			out.push_back(f);
		}
	}
};
// fields shared by both kinds; 1: handled, 0: not a framing field, -1: reject, -2: unspecified
static int common_field(const Field &f, http::RequestResponseHeader &h, bool &saw_close, bool &saw_keep) {
	if (eq(f.name, "content-length")) {
		if (h.content_length)
			return -1;
		if (f.value.empty())
			return -1;
		uint64_t v = 0;
		for (size_t i = 0; i < f.value.size(); i++) {
			if (!digit(f.value[i]))
				return -1;
			uint64_t d = (uint64_t)(f.value[i] - '0');
			if (v > (UINT64_MAX - d) / 10)
				return -1;
			v = v * 10 + d;
		}
		if (f.value.size() > 1 && f.value[0] == '0')
			return -2;
		h.content_length = v;
		return 1;
	}
	bool te = eq(f.name, "transfer-encoding"), co = eq(f.name, "connection");
	if (te || co) {
		std::string list = lower(f.value) + ",";
		std::string item;
		for (size_t i = 0; i < list.size(); i++) {
			if (list[i] != ',') {
				item.push_back(list[i]);
				continue;
			}
			item = trimmed(item);
			if (item.empty()) {
			} else if (co) {
				if (eq(item, "close")) {
					saw_close = true;
					h.keep_alive = false;
				} else if (eq(item, "keep-alive")) {
					saw_keep = true;
					h.keep_alive = true;
				} else if (eq(item, "upgrade"))
					h.connection_upgrade = true;
				else
					return -1;
				if (saw_close && saw_keep)
					return -2;
			} else if (!eq(item, "identity")) {
				if (h.transfer_encoding_chunked)
					return -1;
				if (eq(item, "chunked"))
					h.transfer_encoding_chunked = true;
				else
					h.transfer_encodings.push_back(item);
			}
			item.clear();
		}
		return 1;
	}
	if (eq(f.name, "upgrade")) {
		if (!eq(lower(f.value), "websocket"))
			return -1;
		h.upgrade_websocket = true;
		return 1;
	}
	if (eq(f.name, "content-type")) {
		size_t i = 0;
		std::string mime;
		while (i < f.value.size() && f.value[i] != ';' && !sp(f.value[i]))
			mime.push_back(low(f.value[i++]));
		while (i < f.value.size() && sp(f.value[i]))
			i++;
		if (i < f.value.size() && f.value[i] == ';')
			i++;
		while (i < f.value.size() && sp(f.value[i]))
			i++;
		h.content_type_mime = mime;
		h.content_type_suffix = f.value.substr(i);
		return 1;
	}
	return 0;
}
template<class H, class F>
static Verdict all_fields(Rd &r, H &h, const F &special) {
	std::vector<Field> fs;
	if (!r.fields(fs))
		return NO;
	h.keep_alive = h.http_version_major == 1 && h.http_version_minor >= 1;
	bool unspec = false, close = false, keep = false;
	for (size_t i = 0; i < fs.size(); i++) {
		unspec |= fs[i].tab;
		int k = common_field(fs[i], h, close, keep);
		if (k == -1)
			return unspec ? UNSPECIFIED : NO;
		if (k == -2)
			return UNSPECIFIED;
		if (k == 0 && !special(fs[i], h))
			h.headers.push_back(http::Header{fs[i].name, fs[i].value});
	}
	if (!h.transfer_encodings.empty() && !h.transfer_encoding_chunked)
		return unspec ? UNSPECIFIED : NO;
	return unspec ? UNSPECIFIED : YES;
}
static Ref ref_request(const std::string &s) {
	Ref f;
	Rd r(s);
	RequestHeader &h = f.rq;
	while (r.nl()) {
	}
	while (r.more() && tchar(s[r.i]))
		h.method.push_back(s[r.i++]);
	if (h.method.empty() || !r.skip_sp())
		return f;
	size_t start = r.i;
	int part = 0;  // path, query, anchor
	while (r.more() && !sp(s[r.i])) {
		char c = s[r.i++];
		if (ctl(c))
			return f;
		if (r.i - 1 == start && ((c == '?') | (c == '#')))
			return f;
		if (part < 2 && c == '#')
			part = 2;
		else if (part == 0 && c == '?')
			part = 1;
		else if (part == 0 && c == '%') {
			if (r.i + 2 > s.size() || (hexv(s[r.i]) < 0) || (hexv(s[r.i + 1]) < 0))
				return f;
			h.path.push_back((char)(hexv(s[r.i]) * 16 + hexv(s[r.i + 1])));
			r.i += 2;
		} else if (part == 0)
			h.path.push_back(c);
		else if (part == 1)
			h.query_string.push_back(c);
	}
	if (r.i == start || !r.skip_sp() || !r.version(h.http_version_major, h.http_version_minor))
		return f;
	r.skip_sp();
	if (!r.nl())
		return f;
	f.v = all_fields(r, h, [](const Field &x, RequestHeader &q) {
		if (eq(x.name, "host"))
			q.host = x.value;
		else if (eq(x.name, "origin"))
			q.origin = x.value;
		else if (eq(x.name, "sec-websocket-key"))
			q.sec_websocket_key = x.value;
		else if (eq(x.name, "sec-websocket-version"))
			q.sec_websocket_version = x.value;
		else if (eq(x.name, "authorization")) {
			if (x.value.size() >= 6 && eq(lower(x.value.substr(0, 5)), "basic") && sp(x.value[5]))
				q.basic_authorization = trimmed(x.value.substr(5));
		} else
			return false;
		return true;
	});
	f.used = r.i;
	return f;
}
static Ref ref_response(const std::string &s) {
	Ref f;
	Rd r(s);
	ResponseHeader &h = f.rs;
	if (!r.version(h.http_version_major, h.http_version_minor) || !r.skip_sp())
		return f;
	for (int k = 0; k < 3; k++, r.i++) {
		if (!r.more() || !digit(s[r.i]))
			return f;
		h.status = h.status * 10 + (s[r.i] - '0');
	}
	bool tab = false;
	if (r.skip_sp()) {
		while (r.more() && s[r.i] != '\r' && s[r.i] != '\n') {
			tab |= s[r.i] == '\t';
			if (ctl(s[r.i]) & (s[r.i] != '\t'))
				return f;
			h.status_text.push_back(s[r.i++]);
		}
		h.status_text = trimmed(h.status_text);
	}
	if (!r.nl())
		return f;
	f.v = all_fields(r, h, [](const Field &x, ResponseHeader &q) {
		if (eq(x.name, "date"))
			q.date = x.value;
		else if (eq(x.name, "server"))
			q.server = x.value;
		else if (eq(x.name, "sec-websocket-accept"))
			q.sec_websocket_accept = x.value;
		else
			return false;
		return true;
	});
	if (tab)
		f.v = UNSPECIFIED;
	f.used = r.i;
	return f;
}

// ---- comparisons ---------------------------------------------------------------------------------------------------
static bool same_common(const http::RequestResponseHeader &a, const http::RequestResponseHeader &b) {
	if (a.headers.size() != b.headers.size() || a.transfer_encodings.size() != b.transfer_encodings.size())
		return false;
	bool ok = true;
	for (size_t i = 0; i < a.headers.size(); i++)
		ok = vp_and(ok, eq(a.headers[i].name, b.headers[i].name) && eq(a.headers[i].value, b.headers[i].value));
	for (size_t i = 0; i < a.transfer_encodings.size(); i++)
		ok = vp_and(ok, eq(a.transfer_encodings[i], b.transfer_encodings[i]));
	ok &= (bool)a.content_length == (bool)b.content_length;
	if (a.content_length && b.content_length)
		ok &= *a.content_length == *b.content_length;
	ok &= (a.http_version_major == b.http_version_major) & (a.http_version_minor == b.http_version_minor) & (a.keep_alive == b.keep_alive);
	ok &= (a.transfer_encoding_chunked == b.transfer_encoding_chunked) & (a.connection_upgrade == b.connection_upgrade) & (a.upgrade_websocket == b.upgrade_websocket);
	return ok && eq(a.content_type_mime, b.content_type_mime) && eq(a.content_type_suffix, b.content_type_suffix);
}
static bool same_head(const RequestHeader &a, const RequestHeader &b) {
	return same_common(a, b) && eq(a.method, b.method) && eq(a.path, b.path) && eq(a.query_string, b.query_string) && eq(a.basic_authorization, b.basic_authorization) && eq(a.host, b.host) && eq(a.origin, b.origin) && eq(a.sec_websocket_key, b.sec_websocket_key) && eq(a.sec_websocket_version, b.sec_websocket_version);
}
static bool same_head(const ResponseHeader &a, const ResponseHeader &b) {
	return same_common(a, b) && a.status == b.status && eq(a.status_text, b.status_text) && eq(a.sec_websocket_accept, b.sec_websocket_accept) && eq(a.date, b.date) && eq(a.server, b.server);
}
template<class P>
struct Run {
	P p;
	bool thrown = false;
	size_t used = 0;
	void feed(const std::string &s, size_t upto) {
		if (thrown)
			return;
		try {
			const char *b = s.data() + used, *e = s.data() + upto;
			used += (size_t)(p.parse(b, e) - b);
		} catch (const std::exception &) {
			thrown = true;
		}
	}
	bool good() const { return !thrown && p.is_good(); }
};

static const char *const REQ[] = {
    "GET /a%20b?x=%1#f HTTP/1.1\r\nHost: h\r\nConnection: close\r\nX: y z\r\n\r\nB",
    "\r\nPOST / HTTP/1.0\nContent-Length : 12\nA:b\n c\n\nZ",
    "PUT /x HTTP/1.1 \r\nTransfer-Encoding: gzip,\r\n\tchunked\r\nContent-Type: Text/X; q=1\r\nDate: d\r\n\r\n",
    "GET * HTTP/1.1\r\nUpgrade: WebSocket\r\nconnection: keep-alive, Upgrade\r\nsec-websocket-key: k=\r\nSec-WebSocket-Version: 13\r\nauthorization: Basic a b\r\norigin: o\r\n\r\n",
    "H / HTTP/1.1\r\ntransfer-encoding: identity\r\nx:\r\nconnection:\r\n close\r\n\r\n\r\n",
};
static const char *const RSP[] = {
    "HTTP/1.1 200 OK\r\nServer: s\r\nDate: d, e\r\nConnection: close\r\nX: y z\r\n\r\nB",
    "HTTP/1.0 404\nContent-Length : 12\nA:b\n c\n\nZ",
    "HTTP/1.1  503 a b \r\nTransfer-Encoding: gzip , chunked\r\nContent-Type: Text/X;q=1\r\nhost: h\r\n\r\n",
    "HTTP/1.1 101 S\r\nUpgrade: WebSocket\r\nconnection: keep-alive, Upgrade\r\nSec-WebSocket-Accept: k=\r\n\r\n",
    "HTTP/1.1 204 \r\ntransfer-encoding: identity\r\nx:\r\nconnection:\r\n close\r\n\r\n\r\n",
};
// one of the heads above with `del` characters at an arbitrary place replaced by `ins` arbitrary ones
static std::string mutated(const char *const *heads, size_t nheads, size_t &at, size_t &ins) {
	std::string s = heads[vp_choice(nheads, "head")];
	size_t max = (size_t)vp_param("w", 2);
	ins = vp_choice(max + 1, "ins");
	size_t del = vp_choice(max + 1, "del");
	at = vp_choice(s.size() + 1 - del, "at");
	std::string w(ins, 'x');
	if (ins)
		vp_symbolic(&w[0], ins, "w");
	return s.substr(0, at) + w + s.substr(at + del);
}
static size_t nth(const char *const *, size_t n) { return (size_t)vp_param("heads", (int64_t)n); }

// ---- C13 / C21 -------------------------------------------------------------------------------------------------------
extern "C" void h_request_head() {
	size_t at, ins;
	std::string s = mutated(REQ, nth(REQ, 5), at, ins);
	Run<http::RequestParser> a;
	a.feed(s, s.size());
	vp_assert(a.used <= s.size(), "reads inside the data");
	Ref r = ref_request(s);
	if (r.v == UNSPECIFIED)
		vp_kill();
	vp_assert(a.good() == (r.v == YES), "accepts exactly the well-formed heads");
	if (a.good()) {
		vp_assert(a.used == r.used, "consumes exactly the head, up to and including the blank line");
		vp_assert(same_head(a.p.req, r.rq), "request line and fields as spelled");
		vp_cover("accepted");
	} else
		vp_cover("not accepted");
}
extern "C" void h_response_head() {
	size_t at, ins;
	std::string s = mutated(RSP, nth(RSP, 5), at, ins);
	Run<http::ResponseParser> a;
	a.feed(s, s.size());
	vp_assert(a.used <= s.size(), "reads inside the data");
	Ref r = ref_response(s);
	if (r.v == UNSPECIFIED)
		vp_kill();
	vp_assert(a.good() == (r.v == YES), "accepts exactly the well-formed heads");
	if (a.good()) {
		vp_assert(a.used == r.used, "consumes exactly the head, up to and including the blank line");
		vp_assert(same_head(a.p.req, r.rs), "status line and fields as spelled");
		vp_cover("accepted");
	} else
		vp_cover("not accepted");
}
// the first characters of a head, all arbitrary
extern "C" void h_head_start() {
	bool response = vp_flag("response");
	size_t n = (size_t)vp_param("n", 4);
	std::string w(n, 'x');
	vp_symbolic(&w[0], n, "w");
	std::string s = w + (response ? "1.1 200 OK\r\na:b\r\n\r\n" : " HTTP/1.1\r\na:b\r\n\r\n");
	if (response) {
		Run<http::ResponseParser> a;
		a.feed(s, s.size());
		Ref r = ref_response(s);
		vp_assert(a.good() == (r.v == YES), "accepts exactly the well-formed heads");
		if (a.good()) {
			vp_assert(same_head(a.p.req, r.rs) && a.used == r.used, "status line as spelled");
			vp_cover("response");
		}
	} else {
		Run<http::RequestParser> a;
		a.feed(s, s.size());
		Ref r = ref_request(s);
		vp_assert(a.good() == (r.v == YES), "accepts exactly the well-formed heads");
		if (a.good()) {
			vp_assert(same_head(a.p.req, r.rq) && a.used == r.used, "request line as spelled");
			vp_cover("request");
		}
	}
}
// size limit: a head is refused exactly when it is longer than the limit, whichever byte crosses it
extern "C" void h_head_limit() {
	bool response = vp_flag("response");
	std::string s = response ? RSP[vp_choice(5, "head")] : REQ[vp_choice(5, "head")];
	size_t whole, limit = vp_choice(s.size() + 2, "limit");
	bool good;
	size_t used;
	if (response) {
		whole = ref_response(s).used;
		Run<http::ResponseParser> a;
		a.p.max_total_length = limit;
		a.feed(s, s.size());
		good = a.good();
		used = a.used;
		vp_assert(good || a.thrown, "a head over the limit is rejected");
	} else {
		whole = ref_request(s).used;
		Run<http::RequestParser> a;
		a.p.max_total_length = limit;
		a.feed(s, s.size());
		good = a.good();
		used = a.used;
		vp_assert(good || a.thrown, "a head over the limit is rejected");
	}
	vp_assert(good == (whole <= limit), "accepted exactly up to the limit");
	vp_assert(!good || used == whole, "consumes the head");
	// an endless line of arbitrary characters is cut off at the limit as well
	http::RequestParser q;
	q.max_total_length = 40;
	char c = (char)vp_sym<uint8_t>("c");
	std::string t = "GET /" + std::string(60, c);
	bool thrown = false;
	try {
		q.parse(t.data(), t.data() + t.size());
	} catch (const std::exception &) {
		thrown = true;
	}
	vp_assert(thrown, "nothing longer than the limit is accumulated");
	if (good) vp_cover("within");
	if (!good) vp_cover("over");
}

// ---- C12 -----------------------------------------------------------------------------------------------------------
template<class P>
static void split_check(const std::string &s, size_t at, size_t ins) {
	Run<P> a, b, c;
	a.feed(s, s.size());
	for (size_t i = 1; i <= s.size(); i++)  // one byte at a time
		b.feed(s, i);
	size_t lo = at > 0 ? at - 1 : 0, hi = at + ins + 1 < s.size() ? at + ins + 1 : s.size();
	size_t cut = lo + vp_choice(hi - lo + 1, "cut");
	c.feed(s, cut);
	c.feed(s, cut);  // an empty piece
	c.feed(s, s.size());
	vp_assert((a.thrown == b.thrown) & (a.thrown == c.thrown), "same verdict for every split");
	if (a.thrown)
		return;
	vp_assert((a.used == b.used) & (a.used == c.used) & (a.good() == b.good()) & (a.good() == c.good()), "same bytes consumed for every split");
	vp_assert(same_head(a.p.req, b.p.req) && same_head(a.p.req, c.p.req), "same header for every split");
}
extern "C" void h_request_split() {
	size_t at, ins;
	std::string s = mutated(REQ, nth(REQ, 5), at, ins);
	split_check<http::RequestParser>(s, at, ins);
	vp_cover("done");
}
extern "C" void h_response_split() {
	size_t at, ins;
	std::string s = mutated(RSP, nth(RSP, 5), at, ins);
	split_check<http::ResponseParser>(s, at, ins);
	vp_cover("done");
}
// every partition of an unchanged head in three pieces, through a circular buffer of arbitrary position
extern "C" void h_head_buffer() {
	bool response = vp_flag("response");
	size_t k = vp_choice(5, "head");
	std::string s = response ? RSP[k] : REQ[k];
	size_t cap = 1 + vp_choice((size_t)vp_param("cap", 6), "cap");
	Buffer buf(cap);
	size_t pre = vp_choice(cap, "pre");
	for (size_t i = 0; i < pre; i++) {
		buf.write(reinterpret_cast<const uint8_t *>("p"), 1);
		buf.did_read(1);
	}
	Run<http::RequestParser> rq;
	Run<http::ResponseParser> rs;
	if (response)
		rs.feed(s, s.size());
	else
		rq.feed(s, s.size());
	http::RequestParser pq;
	http::ResponseParser ps;
	size_t pos = 0, taken = 0;
	bool thrown = false;
	while (!thrown && !(response ? ps.is_good() : pq.is_good())) {
		size_t step = buf.write_count() + buf.write_count2();
		if (step > s.size() - pos)
			step = s.size() - pos;
		buf.write(reinterpret_cast<const uint8_t *>(s.data()) + pos, step);
		pos += step;
		size_t before = buf.size();
		if (before == 0)
			break;
		try {
			if (response)
				ps.parse(buf);
			else
				pq.parse(buf);
			vp_assert(buf.size() < before, "progress");
		} catch (const std::exception &) {
			thrown = true;
		}
		taken += before - buf.size();
	}
	vp_assert(thrown == (response ? rs.thrown : rq.thrown), "same verdict through a buffer");
	if (thrown)
		return;
	vp_assert(taken == (response ? rs.used : rq.used), "takes exactly the head out of the buffer");
	vp_assert(response ? same_head(ps.req, rs.p.req) : same_head(pq.req, rq.p.req), "same header through a buffer");
	vp_cover("done");
}

// ---- C21: framing fields in every letter case, with white space, repeated ------------------------------------------------
static std::string randcase(const char *t, const char *name) {
	std::string s = t;
	for (size_t i = 0; i < s.size(); i++)
		if (s[i] >= 'a' && s[i] <= 'z') {
			uint8_t up = vp_sym<uint8_t>(name);
			vp_assume(up < 2);
			s[i] = (char)((uint8_t)s[i] - 32 * up);
		}
	return s;
}
template<class P, class F>
static void fields_check(const char *start, const std::string &lines, const F &ref) {
	std::string s = std::string(start) + lines + "\r\n";
	Run<P> a;
	a.feed(s, s.size());
	Ref r = ref(s);
	if (r.v == UNSPECIFIED)
		vp_kill();
	vp_assert(a.good() == (r.v == YES), "framing fields are accepted exactly when they are consistent");
	vp_assert(a.good() || a.thrown, "inconsistent framing is rejected, not ignored");
}
static const char *const NAMES[] = {"content-length", "transfer-encoding", "connection", "upgrade", "host", "content-type", "sec-websocket-key", "origin", "authorization", "date", "server", "sec-websocket-accept", "sec-websocket-version"};
extern "C" void h_field_case() {
	bool response = vp_flag("response");
	size_t k = vp_choice(13, "name");
	static const char *const VALUES[] = {"7", "gzip, chunked", "close", "websocket", "h", "text/html", "k", "o", "basic 1", "d", "s", "a", "13"};
	bool spelled = k == 1 || k == 2 || k == 3 || k == 5 || (k == 8 && !response);  // the value too is compared without case
	std::string v = spelled ? randcase(VALUES[k], "uv") : VALUES[k];
	std::string line = randcase(NAMES[k], "un") + ":" + (vp_flag("space") ? " " : "") + v + (vp_flag("trail") ? " " : "") + "\r\n";
	std::string plain = std::string(NAMES[k]) + ": " + VALUES[k] + "\r\n";
	if (response) {
		Run<http::ResponseParser> a, b;
		std::string s = "HTTP/1.1 200 OK\r\n" + line + "\r\n", t = "HTTP/1.1 200 OK\r\n" + plain + "\r\n";
		a.feed(s, s.size());
		b.feed(t, t.size());
		vp_assert(a.good() && b.good() && same_head(a.p.req, b.p.req), "a field means the same in every letter case");
	} else {
		Run<http::RequestParser> a, b;
		std::string s = "GET / HTTP/1.1\r\n" + line + "\r\n", t = "GET / HTTP/1.1\r\n" + plain + "\r\n";
		a.feed(s, s.size());
		b.feed(t, t.size());
		vp_assert(a.good() && b.good() && same_head(a.p.req, b.p.req), "a field means the same in every letter case");
	}
	vp_cover("done");
}
static const char *const LINES[] = {"Content-Length: 5\r\n", "content-length: 0\r\n", "Content-Length: 18446744073709551615\r\n", "content-length: 18446744073709551616\r\n", "content-length: +5\r\n", "content-length: -5\r\n", "content-length: 5, 5\r\n", "content-length:\r\n", "content-length: 0x5\r\n", "content-length: 5a\r\n",
    "transfer-encoding: chunked\r\n", "Transfer-Encoding: Gzip\r\n", "transfer-encoding: chunked, gzip\r\n", "transfer-encoding: gzip,chunked\r\n", "transfer-encoding: identity\r\n", "transfer-encoding:\r\n chunked\r\n", "transfer-encoding: ,, chunked,\r\n", "transfer-encoding: chunkedx\r\n",
    "Connection: Close\r\n", "connection: keep-alive\r\n", "connection: Upgrade\r\n", "connection: keep-alive, upgrade\r\n", "connection: foo\r\n", "connection:\r\n", "connection: , close\r\n",
    "Upgrade: WebSocket\r\n", "upgrade: h2c\r\n", "x: content-length: 9\r\n", "x: a\r\n content-length: 9\r\n"};
extern "C" void h_framing() {
	bool response = vp_flag("response");
	size_t n = sizeof(LINES) / sizeof(LINES[0]);
	std::string l = LINES[vp_choice(n, "l1")];
	size_t j = vp_choice(n + 1, "l2");
	if (j < n)
		l += LINES[j];
	if (vp_param("three", 0)) {
		size_t m = vp_choice(n + 1, "l3");
		if (m < n)
			l += LINES[m];
	}
	bool old = vp_flag("old");
	if (response)
		fields_check<http::ResponseParser>(old ? "HTTP/1.0 200 OK\r\n" : "HTTP/1.1 200 OK\r\n", l, ref_response);
	else
		fields_check<http::RequestParser>(old ? "GET / HTTP/1.0\r\n" : "GET / HTTP/1.1\r\n", l, ref_request);
	std::string s = std::string(response ? (old ? "HTTP/1.0 200 OK\r\n" : "HTTP/1.1 200 OK\r\n") : (old ? "GET / HTTP/1.0\r\n" : "GET / HTTP/1.1\r\n")) + l + "\r\n";
	if (response) {
		Run<http::ResponseParser> a;
		a.feed(s, s.size());
		if (a.good())
			vp_assert(same_head(a.p.req, ref_response(s).rs), "framing fields are understood by the rules");
	} else {
		Run<http::RequestParser> a;
		a.feed(s, s.size());
		if (a.good())
			vp_assert(same_head(a.p.req, ref_request(s).rq), "framing fields are understood by the rules");
	}
	vp_cover("done");
}

// ---- C15: what the library writes, it reads back -----------------------------------------------------------------------
static std::string text_of(size_t max, const char *name, int kind) {
	// kind 0: any byte; 1: token; 2: field value (no control characters, no blanks at the ends); 3: encoded query
	size_t n = vp_choice(max + 1, name);
	std::string s(n, 'x');
	if (n)
		vp_symbolic(&s[0], n, name);
	for (size_t i = 0; i < n; i++) {
		if (kind == 1)
			vp_assume(tchar(s[i]));
		if (kind >= 2)
			vp_assume(!ctl(s[i]));
		if (kind == 2 && (i == 0 || i + 1 == n))
			vp_assume(s[i] != ' ');
		if (kind == 3)
			vp_assume((s[i] != ' ') & (s[i] != '#'));
	}
	return s;
}
// lower-case token made of `n` characters that is none of the fields with a meaning (all of those are longer)
static std::string field_name() {
	std::string s = text_of(1, "fname", 1) + "x";
	for (size_t i = 0; i < s.size(); i++)
		vp_assume(!((s[i] >= 'A') & (s[i] <= 'Z')));
	return s;
}
template<class H>
static void fill_common(H &h) {
	h.http_version_minor = vp_flag("minor") ? 1 : 0;
	h.keep_alive = vp_flag("keep");
	size_t framing = vp_choice(4, "framing");
	if (framing == 1) {
		static const uint64_t lens[] = {0, 5, 4294967296ull, UINT64_MAX};
		h.content_length = lens[vp_choice(4, "len")];
	}
	if (framing >= 2)
		h.transfer_encoding_chunked = true;
	if (framing == 3) {
		std::string t = text_of(1, "coding", 1) + "z";
		for (size_t i = 0; i < t.size(); i++)
			vp_assume(!((t[i] >= 'A') & (t[i] <= 'Z')));
		h.transfer_encodings.push_back(t);
	}
	size_t nf = vp_choice(2, "fields");
	for (size_t i = 0; i < nf; i++)
		h.headers.push_back(http::Header{field_name(), text_of((size_t)vp_param("v", 2), "fvalue", 2)});
}
extern "C" void h_request_roundtrip() {
	RequestHeader h;
	size_t focus = vp_choice(3, "focus");  // which part of the header is arbitrary
	h.method = "GET";
	h.path = "/p";
	if (focus == 0) {
		fill_common(h);
	} else if (focus == 1) {
		h.method = text_of(1, "method", 1) + "M";
		h.path = text_of(1, "path0", 0) + "/" + text_of((size_t)vp_param("v", 2), "path", 0);
		h.query_string = text_of(2, "query", 3);
	} else {
		size_t k = vp_choice(5, "which");
		std::string v = text_of((size_t)vp_param("v", 2), "value", 2);
		if (k == 0) h.host = v;
		if (k == 1) h.origin = v;
		if (k == 2) h.basic_authorization = v;
		if (k == 3) {
			h.content_type_mime = text_of(2, "mime", 1);
			for (size_t i = 0; i < h.content_type_mime.size(); i++)
				vp_assume(!((h.content_type_mime[i] >= 'A') & (h.content_type_mime[i] <= 'Z')));
			if (!h.content_type_mime.empty()) {
				h.content_type_suffix = v;
				vp_assume(v.empty() || v[0] != ';');
			}
		}
		if (k == 4) {
			h.connection_upgrade = h.upgrade_websocket = true;
			h.sec_websocket_key = v;
			h.sec_websocket_version = "13";
		}
	}
	std::string s = h.to_string();
	std::string t = s + "tail";
	Run<http::RequestParser> a;
	a.feed(t, t.size());
	vp_assert(a.good() && a.used == s.size(), "the library accepts its own request and takes exactly the head");
	vp_assert(same_head(a.p.req, h), "the request reads back unchanged");
	vp_cover("done");
}
extern "C" void h_response_roundtrip() {
	ResponseHeader h;
	size_t focus = vp_choice(3, "focus");
	h.status = 200;
	h.status_text = "OK";
	if (focus == 0) {
		fill_common(h);
	} else if (focus == 1) {
		static const int codes[] = {100, 101, 204, 304, 404, 599, 999};
		h.status = codes[vp_choice(7, "status")];
		h.status_text = text_of((size_t)vp_param("v", 2), "text", 2);
	} else {
		size_t k = vp_choice(4, "which");
		std::string v = text_of((size_t)vp_param("v", 2), "value", 2);
		if (k == 0) h.date = v;
		if (k == 1) h.server = v;
		if (k == 2) {
			h.content_type_mime = "text/plain";
			h.content_type_suffix = v;
			vp_assume(v.empty() || v[0] != ';');
		}
		if (k == 3) {
			h.status = 101;
			h.connection_upgrade = h.upgrade_websocket = true;
			h.sec_websocket_accept = v;
		}
	}
	std::string s = h.to_string();
	std::string t = s + "tail";
	Run<http::ResponseParser> a;
	a.feed(t, t.size());
	vp_assert(a.good() && a.used == s.size(), "the library accepts its own response and takes exactly the head");
	if (h.status_text.empty())
		h.status_text = a.p.req.status_text;  // a standard text is supplied
	vp_assert(same_head(a.p.req, h), "the response reads back unchanged");
	vp_cover("done");
}
// the messages made by the helper functions are what their arguments say, also when read back
extern "C" void h_simple() {
	size_t which = vp_choice(8, "which");
	if (which == 0) {
		size_t n = vp_choice(3, "path"), q = vp_choice(3, "query");
		std::string path, query, uri = "/";
		for (size_t i = 0; i < n; i++) {
			char c = vp_sym<char>("p");
			vp_assume((c != '?') & (c != '%'));
			path += c;
		}
		for (size_t i = 0; i < q; i++) {
			char c = vp_sym<char>("q");
			vp_assume(!(((uint8_t)c < 33) | (c == 127) | (c == '#')));
			query += c;
		}
		uri += path;
		if (q || vp_flag("mark"))
			uri += "?" + query;
		http::Request r("a:1", "PUT", uri);
		r.set_body("body");
		vp_assert(r.header.path == "/" + path && r.header.query_string == query && r.header.host == "a:1", "parts of the target");
		std::string t = r.header.to_string();
		Run<http::RequestParser> a;
		a.feed(t, t.size());
		vp_assert(a.good() && a.used == t.size(), "accepted");
		vp_assert(a.p.req.method == "PUT" && a.p.req.path == "/" + path && a.p.req.query_string == query && a.p.req.host == "a:1", "request as asked for");
		vp_assert(a.p.req.content_length && *a.p.req.content_length == 4 && r.body == "body", "length of the body");
		vp_assert(a.p.req.http_version_minor == 1 && a.p.req.keep_alive, "HTTP/1.1");
		vp_cover("request");
		return;
	}
	static const struct { int code; const char *text; } known[] = {{200, "OK"}, {400, "Bad request"}, {401, "Unauthorized"}, {404, "Not found"}, {422, "Unprocessable Entity"}, {500, "Internal Error"}, {299, "Unknown"}};
	size_t k = vp_choice(7, "status");
	int st = known[k].code;
	std::string standard = std::to_string(st) + " " + known[k].text, text = text_of(3, "text", 0), want, mime, suffix = "charset=utf-8";
	http::Response r;
	std::string given = text;
	switch (which) {
	case 1: r = http::Response::simple_text(st), want = standard, mime = "text/plain"; break;
	case 2: r = http::Response::simple_text(st, std::move(given)), want = text, mime = "text/plain"; break;
	case 3: r = http::Response::simple_html(st), want = "<html><body>" + standard + "</body></html>", mime = "text/html"; break;
	case 4: r = http::Response::simple_html(st, std::move(given)), want = "<html><body>" + text + "</body></html>", mime = "text/html"; break;
	case 5: r = http::Response::simple(st, "Image/PNG", std::move(given)), want = text, mime = "image/png", suffix = ""; break;
	case 6: r = http::Response::simple(st, "a/b;c=d; e", std::move(given)), want = text, mime = "a/b", suffix = "c=d; e"; break;
	default:
		r.header.status = st;
		r.header.set_content_type("x/y", "z=1");
		r.set_body(std::move(given));
		want = text, mime = "x/y", suffix = "z=1";
	}
	vp_assert(r.body == want, "the body");
	std::string t = r.header.to_string();
	Run<http::ResponseParser> a;
	a.feed(t, t.size());
	vp_assert(a.good() && a.used == t.size(), "accepted");
	const http::ResponseHeader &h = a.p.req;
	vp_assert(h.status == st && h.status_text == known[k].text, "the status");
	vp_assert(h.content_type_mime == mime && h.content_type_suffix == suffix, "the content type");
	vp_assert(h.content_length && *h.content_length == want.size() && !h.transfer_encoding_chunked, "the length");
	vp_assert(h.http_version_major == 1 && h.http_version_minor == 1 && h.keep_alive, "HTTP/1.1, persistent");
	bool cached = true;
	for (auto &f : h.headers)
		cached &= f.name != "cache-control";
	vp_assert(cached == (which == 7), "not to be cached");
	vp_cover("response");
}
