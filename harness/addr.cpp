// C30: addresses. inet_pton and inet_ntop are modelled after glibc; replays use glibc.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <crab/crab.hpp>
#include "vp.h"
using namespace crab;
namespace {
bool same(const Address &a, const Address &b) {
	int n = a.impl_get_sockaddr_length();
	return n == b.impl_get_sockaddr_length() && memcmp(a.impl_get_sockaddr(), b.impl_get_sockaddr(), (size_t)n) == 0;
}
// an address prints to a text that gives the same address
void round_trip(const Address &a, uint16_t port) {
	vp_assert(a.get_port() == port, "the port is kept");
	std::string t = a.get_address();
	Address b, c;
	vp_assert(Address::parse(b, t, port), "the text of an address is an address");
	vp_assert(same(a, b), "and the same one");
	vp_assert(b.get_address() == t, "with the same text");
	vp_assert(b.is_multicast() == a.is_multicast() && b.is_local() == a.is_local() && b.get_ip4() == a.get_ip4(), "of the same sort");
}
std::string sym_text(const char *name, size_t n) {
	std::string s(n, ' ');
	vp_symbolic(&s[0], n, name);
	return s;
}
}  // namespace
extern "C" void h_address_text() {
	size_t n = vp_choice((size_t)vp_param("n", 6) + 1, "length");
	std::string t = sym_text("text", n);
	for (size_t i = 0; i < n; i++)
		vp_assume(t[i] != 0);
	if (vp_choice(2, "after"))
		t = (vp_flag("six") ? "2001:db8::" : "10.2.3.") + t;
	uint16_t port = vp_sym<uint16_t>("port");
	Address a("9.8.7.6", 54);
	bool ok = Address::parse(a, t, port);
	if (!ok) {
		vp_assert(a.get_address() == "9.8.7.6" && a.get_port() == 54, "nothing is changed");
		vp_cover("not an address");
		return;
	}
	for (char c : t)
		vp_assert(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) | (c == '.') | (c == ':'), "no other characters");
	round_trip(a, port);
	vp_cover("address");
}
extern "C" void h_address_quad() {
	// four numbers of one to three digits
	std::string t;
	bool good = true;
	uint32_t ip = 0;
	size_t wide = vp_choice(4, "wide");
	for (size_t i = 0; i < 4; i++) {
		size_t n = i == wide ? 1 + vp_choice(4, "digits") : 1;
		unsigned v = 0;
		for (size_t k = 0; k < n; k++) {
			uint8_t d = vp_sym<uint8_t>("digit");
			vp_assume(d < 10);
			t += (char)('0' + d);
			v = v * 10 + d;
			if (k == 0 && n > 1 && d == 0)
				good = false;
		}
		if (v > 255)
			good = false;
		ip = ip * 256 + v;
		if (i < 3)
			t += '.';
	}
	Address a;
	bool ok = Address::parse(a, t, 7);
	vp_assert(ok == good, "four numbers up to 255");
	if (!ok) {
		vp_cover("bad");
		return;
	}
	vp_assert(ntohl(a.get_ip4()) == ip, "in their order");
	vp_assert(a.get_address() == t, "printed as they were");
	round_trip(a, 7);
	vp_cover("good");
}
extern "C" void h_address_port() {
	size_t n = vp_choice((size_t)vp_param("n", 6) + 1, "length");
	std::string p = sym_text("port", n);
	bool six = vp_flag("six");
	std::string ip = six ? "2001:db8::1" : "10.2.3.4";
	bool digits = n > 0 && (n == 1 || p[0] != '0');  // zeros in front are not said to be allowed
	uint32_t v = 0;
	for (size_t i = 0; i < n; i++) {
		vp_assume(p[i] != ':');
		digits = digits & (p[i] >= '0') & (p[i] <= '9');
		v = v * 10 + (uint32_t)(uint8_t)(p[i] - '0');
	}
	Address a("9.8.7.6", 54);
	bool ok = false, threw = false;
	try {
		ok = Address::parse(a, ip + ":" + p);
	} catch (const std::exception &) {
		threw = true;
	}
	vp_assert(!threw, "it says whether the text is an address");
	bool thrown = false;
	try {
		Address b(ip + ":" + p);
		vp_assert(ok && same(a, b), "the constructor gives the same");
	} catch (const std::exception &) {
		thrown = true;
	}
	vp_assert(thrown == !ok, "or it throws");
	if (digits) {
		vp_assert(ok == (v <= 65535), "a port is a number up to 65535");
		if (ok) {
			vp_assert(a.get_port() == v && a.get_address() == ip, "address and port");
			std::string s = a.to_string();
			Address b;
			vp_assert(Address::parse(b, s) && same(a, b), "the text of address and port gives both again");
			vp_cover("port");
		}
	} else if (ok) {
		vp_assert(n > 0 && a.get_address() == ip, "there is a port");
		vp_cover("opt:spaces");
	} else
		vp_assert(a.get_address() == "9.8.7.6" && a.get_port() == 54, "nothing is changed");
	if (!ok) vp_cover("refused");
	Address b;
	vp_assert(!Address::parse(b, p), "an address is needed");
}
extern "C" void h_address_sorts() {
	uint16_t port = vp_sym<uint16_t>("port");
	Address a;
	vp_assert(a.get_port() == 0 && a.impl_get_sockaddr_length() == 0 && !a.is_multicast() && !a.is_local() && a.get_ip4() == 0, "no address yet");
	if (vp_flag("four")) {
		uint8_t b[4];
		vp_symbolic(b, 4, "ip");
		sockaddr_in *s = (sockaddr_in *)a.impl_get_sockaddr();
		s->sin_family = AF_INET;
		s->sin_port = htons(port);
		memcpy(&s->sin_addr, b, 4);
		vp_assert(a.impl_get_sockaddr_length() == (int)sizeof(sockaddr_in), "length");
		vp_assert(a.is_multicast() == ((b[0] >= 224) & (b[0] < 240)), "multicast is 224.0.0.0 to 239.255.255.255");
		vp_assert(a.is_local() == (b[0] == 127), "local is 127.*");
		uint32_t ip = a.get_ip4();
		vp_assert(memcmp(&ip, b, 4) == 0, "the number is the address in network order");
		round_trip(a, port);
		vp_cover("four");
	} else {
		uint8_t b[16] = {};
		size_t g = vp_choice(8, "groups");
		b[0] = (uint8_t[]){0, 0x20, 0xfe, 0xff}[vp_choice(4, "first")];
		b[2 * g] = vp_sym<uint8_t>("hi");
		b[2 * g + 1] = vp_sym<uint8_t>("lo");
		b[15] = (uint8_t)vp_choice(3, "last");
		sockaddr_in6 *s = (sockaddr_in6 *)a.impl_get_sockaddr();
		s->sin6_family = AF_INET6;
		s->sin6_port = htons(port);
		memcpy(&s->sin6_addr, b, 16);
		vp_assert(a.impl_get_sockaddr_length() == (int)sizeof(sockaddr_in6), "length");
		vp_assert(a.is_multicast() == (b[0] == 255), "multicast is ff00::/8");
		bool one = b[15] == 1;
		for (int i = 0; i < 15; i++)
			one = one & (b[i] == 0);
		vp_assert(a.is_local() == one, "local is ::1");
		vp_assert(a.get_ip4() == 0, "no number");
		round_trip(a, port);
		vp_cover("six");
	}
}
