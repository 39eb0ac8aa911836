// C16 percent-encoding, C17 URI parsing, C20 query strings and cookies.
#include "vp.h"
#include <crab/crab.hpp>
#include <map>
#include <sstream>
#include <unordered_map>

static int hexv(char ch) {
	uint8_t c = (uint8_t)ch;
	int r = -1;
	r = (c >= '0') & (c <= '9') ? c - '0' : r;
	r = (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : r;
	r = (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : r;
	return r;
}
static bool unreserved(char ch) {
	uint8_t c = (uint8_t)ch;
	return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '-') | (c == '.') | (c == '_') | (c == '~');
}
static bool same(const std::string &a, const std::string &b) {
	if (a.size() != b.size())
		return false;
	uint8_t d = 0;
	for (size_t i = 0; i < a.size(); i++)
		d |= (uint8_t)(a[i] ^ b[i]);
	return d == 0;
}
static std::string symtext(size_t n, const char *name) {
	std::string s(n, 'x');
	if (n)
		vp_symbolic(&s[0], n, name);
	return s;
}
// lenient percent-decoding: an escape is % and two hex digits, everything else stands for itself
static std::string pdecode(const std::string &s, bool plus = false) {
	std::string r;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '%' && i + 2 < s.size() && ((hexv(s[i + 1]) >= 0) & (hexv(s[i + 2]) >= 0))) {
			r.push_back((char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])));
			i += 3;
		} else {
			r.push_back(plus && s[i] == '+' ? ' ' : s[i]);
			i++;
		}
	}
	return r;
}
// `n` free characters between every pair of the given contexts
static std::string windowed(const char *const *ctx, size_t nctx, size_t n) {
	std::string s = ctx[vp_choice(nctx, "ctx")];
	size_t at = s.find('|');
	return s.substr(0, at) + symtext(n, "w") + s.substr(at + 1);
}

// ---- C16 -------------------------------------------------------------------------------------------------------
extern "C" void h_url_encode() {
	size_t n = vp_choice((size_t)vp_param("n", 4), "n");
	bool path = vp_flag("path");
	std::string s = symtext(n, "s");
	std::string e = crab::http::url_encode(s, path);
	bool ok = true;
	size_t i = 0, chars = 0;
	while (i < e.size()) {
		if (e[i] == '%') {
			ok &= i + 2 < e.size();
			if (i + 2 < e.size())
				ok &= (hexv(e[i + 1]) >= 0) & (hexv(e[i + 2]) >= 0);
			i += 3;
		} else {
			ok &= unreserved(e[i]) | (path & (e[i] == '/'));
			i++;
		}
		chars++;
	}
	vp_assert(ok, "encoded text holds only unreserved characters, complete escapes and, in a path, separators");
	vp_assert(chars == n, "one character or escape per byte");
	bool seps = true;
	if (path & (e.size() >= 1) & (n >= 1))
		seps = (e[0] == '/') == (s[0] == '/');
	vp_assert(seps, "path separators stay separators");
	vp_assert(same(crab::http::url_decode(e), s), "decoding gives the original back");
	vp_cover("done");
}
extern "C" void h_url_decode() {
	size_t n = vp_choice((size_t)vp_param("n", 7), "n");
	std::string s = symtext(n, "s");
	std::string d = crab::http::url_decode(s);
	vp_assert(same(d, pdecode(s)), "escapes are decoded and everything else is kept");
	if (n >= 3 && d.size() + 2 == n) vp_cover("one escape");
	if (d.size() == n) vp_cover("nothing escaped");
}

// ---- C17 -------------------------------------------------------------------------------------------------------
struct Ref {
	bool ok;
	std::string scheme, user, host, port, path, query;
};
static Ref ref_uri(const std::string &s) {
	Ref r;
	r.ok = false;
	size_t i = 0;
	while (i < s.size() && s[i] != ':')
		r.scheme.push_back(s[i++]);
	if (i + 3 > s.size() || s[i + 1] != '/' || s[i + 2] != '/')
		return r;
	i += 3;
	size_t end = i;
	while (end < s.size() && s[end] != '/' && s[end] != '?')
		end++;
	std::string auth = s.substr(i, end - i);
	size_t ats = 0, at = 0;
	for (size_t k = 0; k < auth.size(); k++)
		if (auth[k] == '@') {
			ats++;
			at = k;
		}
	if (ats > 1)
		return r;
	if (ats) {
		r.user = pdecode(auth.substr(0, at));
		auth = auth.substr(at + 1);
	}
	size_t col = 0;
	while (col < auth.size() && auth[col] != ':')
		col++;
	r.host = auth.substr(0, col);
	if (col < auth.size())
		r.port = auth.substr(col + 1);
	size_t q = end;
	while (q < s.size() && s[q] != '?')
		q++;
	if (q < s.size())
		r.query = s.substr(q + 1);
	std::string raw = pdecode(s.substr(end, q - end));
	// remove dot segments
	std::vector<std::string> out;
	size_t p = raw.empty() ? 0 : 1;
	while (true) {
		std::string seg;
		while (p < raw.size() && raw[p] != '/')
			seg.push_back(raw[p++]);
		bool last = p >= raw.size();
		p++;
		bool dot = seg.size() == 1 && seg[0] == '.', dots = seg.size() == 2 && seg[0] == '.' && seg[1] == '.';
		if (dots && !out.empty())
			out.pop_back();
		if (!dot && !dots)
			out.push_back(seg);
		else if (last)
			out.push_back(std::string());
		if (last)
			break;
	}
	for (size_t k = 0; k < out.size(); k++)
		r.path += "/" + out[k];
	r.ok = true;
	return r;
}
static bool dotfree(const std::string &p) {
	for (size_t i = 0; i < p.size(); i++)
		if (p[i] == '/') {
			size_t j = i + 1;
			while (j < p.size() && p[j] != '/')
				j++;
			if ((j == i + 2 && p[i + 1] == '.') || (j == i + 3 && p[i + 1] == '.' && p[i + 2] == '.'))
				return false;
		}
	return true;
}
static void check_uri(const std::string &s) {
	Ref r = ref_uri(s);
	bool ok = true;
	crab::http::URI u;
	try {
		u = crab::http::parse_uri(s);
	} catch (const std::exception &) {
		ok = false;
	}
	vp_assert(ok == r.ok, "accepted exactly when scheme, :// and at most one user part are there");
	if (!ok)
		return;
	vp_assert(same(u.scheme, r.scheme), "scheme as spelled");
	vp_assert(same(u.user_info, r.user), "user information as spelled");
	vp_assert(same(u.host, r.host), "host as spelled");
	vp_assert(same(u.port, r.port), "port as spelled");
	vp_assert(same(u.query, r.query), "query as spelled");
	vp_assert(dotfree(u.path) && !u.path.empty() && u.path[0] == '/', "absolute path without dot segments");
	vp_assert(same(u.path, r.path), "path decoded and normalised");
	crab::http::URI v;
	bool again = true;
	try {
		v = crab::http::parse_uri(u.to_string());
	} catch (const std::exception &) {
		again = false;
	}
	vp_assert(again, "own text is accepted");
	vp_assert(same(v.scheme, u.scheme) && same(v.user_info, u.user_info) && same(v.host, u.host) && same(v.port, u.port) && same(v.path, u.path) && same(v.query, u.query), "serialising and parsing again gives the same components");
}
extern "C" void h_uri_any() {
	size_t n = vp_choice((size_t)vp_param("n", 5), "n");
	check_uri(symtext(n, "s"));
	vp_cover("done");
}
extern "C" void h_uri_authority() {
	size_t n = vp_choice((size_t)vp_param("n", 4), "n");
	static const char *ctx[] = {"s://|", "s://u:p|h/q", "s://a@b|", "s://h:80|/a?b", "s://|:@/?"};
	check_uri(windowed(ctx, 5, n));
	vp_cover("done");
}
extern "C" void h_uri_path() {
	size_t n = vp_choice((size_t)vp_param("n", 4), "n");
	static const char *ctx[] = {"s://h/|", "s://h/a/b/|/../c", "s://h/..|", "s://h/x%|2f..", "s://h/%2e|", "s://h/%2|%2E/y?z", "s://h/a/.%|e/b"};
	check_uri(windowed(ctx, 7, n));
	vp_cover("done");
}
// the request target made from a parsed URI spells the same path and query for the library's own request parser
extern "C" void h_uri_target() {
	size_t n = vp_choice((size_t)vp_param("n", 4), "n");
	static const char *ctx[] = {"s://h/|", "s://h/a%|0?q=1", "s://h/*|", "s://h/a?|"};
	std::string s = windowed(ctx, 4, n);
	crab::http::URI u;
	bool ok = true;
	try {
		u = crab::http::parse_uri(s);
	} catch (const std::exception &) {
		ok = false;
	}
	vp_assume(ok);
	// the query is documented to be already encoded by the caller
	for (size_t i = 0; i < u.query.size(); i++)
		vp_assume(((uint8_t)u.query[i] > 32) & ((uint8_t)u.query[i] != 127) & (u.query[i] != '#'));
	crab::http::RequestHeader h;
	h.method = "GET";
	h.path = u.path;
	h.query_string = u.query;
	crab::http::RequestHeader g;
	g.set_uri("/old?stale");
	g.set_uri(h.get_uri());
	vp_assert(same(g.path, u.path) && same(g.query_string, u.query), "request target spells the path and query");
	std::string t = h.to_string();
	crab::http::RequestParser p;
	size_t used = 0;
	try {
		used = (size_t)(p.parse(t.data(), t.data() + t.size()) - t.data());
	} catch (const std::exception &) {
	}
	vp_assert(p.is_good() && used == t.size(), "the request written for the URI is accepted");
	vp_assert(same(p.req.path, u.path) && same(p.req.query_string, u.query), "the request written for the URI has its path and query");
	vp_cover("done");
}

// ---- C20 -------------------------------------------------------------------------------------------------------
typedef std::vector<std::pair<std::string, std::string>> Pairs;
static void put(Pairs &m, const std::string &k, const std::string &v) {  // a later pair of the same key wins
	for (size_t i = 0; i < m.size(); i++)
		if (m[i].first == k) {
			m[i].second = v;
			return;
		}
	m.push_back(std::make_pair(k, v));
}
static void compare(const std::unordered_map<std::string, std::string> &got, const Pairs &want) {
	vp_assert(got.size() == want.size(), "as many pairs as the text spells");
	for (size_t i = 0; i < want.size(); i++) {
		auto it = got.find(want[i].first);
		vp_assert(it != got.end(), "every key is there");
		vp_assert(same(it->second, want[i].second), "every value is the one spelled");
	}
}
static Pairs ref_query(const std::string &s) {
	Pairs m;
	size_t i = 0;
	while (i <= s.size()) {
		std::string k, v;
		bool eq = false;
		while (i < s.size() && s[i] != '&') {
			if (!eq && s[i] == '=')
				eq = true;
			else
				(eq ? v : k).push_back(s[i]);
			i++;
		}
		i++;
		if (eq || !k.empty())
			put(m, pdecode(k, true), pdecode(v, true));
	}
	return m;
}
extern "C" void h_query_any() {
	size_t n = vp_choice((size_t)vp_param("n", 5), "n");
	std::string s = symtext(n, "s");
	compare(crab::http::parse_query_string(s), ref_query(s));
	vp_cover("done");
}
extern "C" void h_query_window() {
	size_t n = vp_choice((size_t)vp_param("n", 4), "n");
	static const char *ctx[] = {"a=%|&b=c", "%4|&a", "k=1&k%3|=2", "x=y|", "a%|b=c%&d"};
	std::string s = windowed(ctx, 5, n);
	compare(crab::http::parse_query_string(s), ref_query(s));
	vp_cover("done");
}
// pairs written the way the library offers (both parts percent-encoded) come back
extern "C" void h_query_build() {
	size_t pairs = 1 + vp_choice(2, "pairs");
	std::string text;
	Pairs m;
	for (size_t i = 0; i < pairs; i++) {
		std::string k = symtext(1 + (i == 0 ? vp_choice((size_t)vp_param("k", 2), "nk") : 0), "k"), v = symtext(vp_choice((size_t)vp_param("k", 2), "nv"), "v");
		put(m, k, v);
		text += (i ? "&" : "") + crab::http::url_encode(k) + "=" + crab::http::url_encode(v);
	}
	compare(crab::http::parse_query_string(text), m);
	if (m.size() == 2) vp_cover("two keys");
	vp_cover("done");
}
static bool blank(char c) { return c == ' ' || c == '\t'; }
static std::string trim(const std::string &s) {
	size_t a = 0, b = s.size();
	while (a < b && blank(s[a]))
		a++;
	while (b > a && blank(s[b - 1]))
		b--;
	return s.substr(a, b - a);
}
static Pairs ref_cookies(const std::string &s, Pairs m) {
	size_t i = 0;
	while (i <= s.size()) {
		std::string k, v;
		bool eq = false;
		while (i < s.size() && s[i] != ';') {
			if (!eq && s[i] == '=')
				eq = true;
			else
				(eq ? v : k).push_back(s[i]);
			i++;
		}
		i++;
		if (eq || !trim(k).empty())
			put(m, trim(k), trim(v));
	}
	return m;
}
extern "C" void h_cookie_any() {
	size_t n = vp_choice((size_t)vp_param("n", 5), "n");
	std::string s = symtext(n, "s");
	compare(crab::http::parse_cookie_string(s), ref_cookies(s, Pairs()));
	vp_cover("done");
}
extern "C" void h_cookie_window() {
	size_t n = vp_choice((size_t)vp_param("n", 4), "n");
	static const char *ctx[] = {"a=b|c=d", " k|=v ; x", "a = b=c |;", "q=\"1|\"; r=2"};
	std::string s = windowed(ctx, 4, n);
	compare(crab::http::parse_cookie_string(s), ref_cookies(s, Pairs()));
	vp_cover("done");
}
// parameters of a form: query first, then the body; cookies of several header lines
extern "C" void h_request_params() {
	size_t n = vp_choice((size_t)vp_param("n", 3), "n");
	crab::http::Request r;
	bool post = vp_flag("post"), form = vp_flag("form");
	r.header.method = post ? "POST" : "GET";
	r.header.set_content_type(form ? "Application/X-www-form-urlencoded; charset=utf-8" : "text/plain");
	r.header.query_string = "a=1&" + symtext(n, "q");
	r.body = symtext(n, "b") + "&z=%32";
	Pairs want = ref_query(r.header.query_string);
	if (post & form) {
		Pairs more = ref_query(r.body);
		for (size_t i = 0; i < more.size(); i++)
			put(want, more[i].first, more[i].second);
	}
	compare(r.parse_query_params(), want);
	crab::http::Request c;
	std::string l1 = "k=" + symtext(n, "c1"), l2 = symtext(n, "c2") + "=w";
	c.header.headers.push_back(crab::http::Header{"cookie", l1});
	c.header.headers.push_back(crab::http::Header{"not-cookie", "x=y"});
	c.header.headers.push_back(crab::http::Header{"cookie", l2});
	compare(c.parse_cookies(), ref_cookies(l2, ref_cookies(l1, Pairs())));
	vp_cover("done");
}
