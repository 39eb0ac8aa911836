// C31: name resolution in a second thread: one result per request, for its own requester.
#include "thr.hpp"
#include <atomic>
#include <crab/crab.hpp>
#include <memory>
using namespace crab;
extern "C" void vp_run_atexit(void);
namespace {
// what the system answers: the host name is one digit, the addresses carry it with the port and family
int lookups;
int only;  // 4 or 6: names have addresses of this family only
uint8_t salt[10][4];  // part of the address, of any value
struct Answer {
	addrinfo ai;
	sockaddr_storage sa;
};
int count_for(int host) { return host % 3; }  // 0: the name is unknown
}  // namespace
extern "C" int getaddrinfo(const char *host, const char *service, const addrinfo *hints, addrinfo **res) {
	vp_yield();
	vp_assert(host[0] >= '0' && host[0] <= '9' && host[1] == 0, "the name that was asked");
	int h = host[0] - '0', port = atoi(service);
	env::Quiet q;
	lookups++;
	if (!count_for(h) || (only == 4 && hints->ai_family == AF_INET6) || (only == 6 && hints->ai_family == AF_INET))
		return EAI_NONAME;
	*res = nullptr;
	for (int i = count_for(h); i-- > 0;) {
		Answer *a = new Answer();
		bool six = hints->ai_family == AF_INET6 || (hints->ai_family == AF_UNSPEC && i);
		a->ai.ai_family = six ? AF_INET6 : AF_INET;
		a->ai.ai_addr = (sockaddr *)&a->sa;
		if (six) {
			sockaddr_in6 *s = (sockaddr_in6 *)&a->sa;
			a->ai.ai_addrlen = sizeof(*s);
			s->sin6_family = AF_INET6;
			s->sin6_port = htons((uint16_t)port);
			s->sin6_addr.s6_addr[0] = (uint8_t)h;
			s->sin6_addr.s6_addr[1] = (uint8_t)i;
			memcpy(s->sin6_addr.s6_addr + 2, salt[h], 4);
		} else {
			sockaddr_in *s = (sockaddr_in *)&a->sa;
			a->ai.ai_addrlen = sizeof(*s);
			s->sin_family = AF_INET;
			s->sin_port = htons((uint16_t)port);
			memcpy(&s->sin_addr.s_addr, salt[h], 4);
			((uint8_t *)&s->sin_addr.s_addr)[3] = (uint8_t)i;
		}
		a->ai.ai_next = *res;
		*res = &a->ai;
	}
	vp_yield();
	return 0;
}
extern "C" void freeaddrinfo(addrinfo *a) noexcept {
	while (a) {
		addrinfo *n = a->ai_next;
		delete (Answer *)a;
		a = n;
	}
}
namespace {
enum { N = 2 };
struct Req {
	std::unique_ptr<DNSResolver> r;
	int host = -1, port = 0;  // asked and not answered, or -1
	bool v4 = true, v6 = false;
	int callbacks = 0;
};
Req reqs[N];
int next_host = 1, ops, pending_stop;
RunLoop *loop;
bool right(const std::vector<Address> &names, const Req &q) {
	if ((int)names.size() != (q.v4 | q.v6 ? count_for(q.host) : 0))
		return false;
	for (size_t i = 0; i < names.size(); i++) {
		const sockaddr *sa = names[i].impl_get_sockaddr();
		bool six = !q.v4 || (q.v6 && i);
		if (sa->sa_family != (six ? AF_INET6 : AF_INET) || names[i].get_port() != q.port)
			return false;
		if (six) {
			const sockaddr_in6 *s = (const sockaddr_in6 *)sa;
			if (s->sin6_addr.s6_addr[0] != q.host || s->sin6_addr.s6_addr[1] != i || memcmp(s->sin6_addr.s6_addr + 2, salt[q.host], 4))
				return false;
		} else if (memcmp(&((const sockaddr_in *)sa)->sin_addr.s_addr, salt[q.host], 3) || ((const uint8_t *)&((const sockaddr_in *)sa)->sin_addr.s_addr)[3] != i)
			return false;
	}
	return true;
}
int waiting() {
	int n = 0;
	for (auto &q : reqs)
		n += q.r && q.host >= 0;
	return n;
}
void op(int i);
void answered(int i, const std::vector<Address> &names) {
	Req &q = reqs[i];
	vp_assert(q.r && q.host >= 0, "one callback for a request that is not cancelled");
	vp_assert(!q.r->is_open(), "not resolving any more");
	vp_assert(right(names, q), "the result is for the name asked");
	Req was;
	was.host = q.host;
	was.port = q.port;
	was.v4 = q.v4;
	was.v6 = q.v6;
	q.host = -1;
	q.callbacks++;
	size_t n = names.size();
	if (ops > 0 && vp_flag("more"))
		op(-1);
	vp_assert(names.size() == n && right(names, was), "the result stays as it is during the callback");
	if (waiting() == 0 || (pending_stop && --pending_stop == 0))
		loop->cancel();
}
void op(int i) {
	ops--;
	if (i < 0)
		i = (int)vp_choice(N, "resolver");
	Req &q = reqs[i];
	size_t what = vp_choice(q.r ? 3 : 1, "op");
	if (!q.r)
		q.r.reset(new DNSResolver([i](const std::vector<Address> &names) { answered(i, names); }));
	if (what == 0) {
		q.host = next_host++;
		q.port = 1000 + q.host;
		size_t f = vp_choice((size_t)vp_param("families", 1), "families");
		q.v4 = f != 1;
		q.v6 = f == 1 || f == 2;
		if (f == 3)
			q.v4 = q.v6 = false;
		q.r->resolve(std::string(1, (char)('0' + q.host)), (uint16_t)q.port, q.v4, q.v6);
		vp_assert(q.r->is_open(), "resolving");
	} else if (what == 1) {
		q.r->cancel();
		q.host = -1;
		vp_assert(!q.r->is_open(), "cancelled");
	} else {
		q.r.reset();
		q.host = -1;
	}
}
void finish() {
	if (waiting())
		loop->run();
}
}  // namespace
// Programs of requests, cancellations and destructions in one loop, also from the callback.
extern "C" void h_resolve() {
	RunLoop l;
	auto slim = std::move(l.stats);
	loop = &l;
	ops = (int)vp_param("ops", 3);
	vp_symbolic(salt, sizeof(salt), "addresses");
	for (auto &q : reqs)
		q.r.reset();
	op(0);
	while (ops > 0) {
		size_t c = vp_choice(3, "next");
		if (c == 0)
			break;
		if (c == 1)
			op(-1);
		else {
			if (!waiting())
				vp_assume(false);
			pending_stop = 1;
			l.run();
		}
	}
	pending_stop = 0;
	finish();
	vp_assert(waiting() == 0, "every request is answered");
	for (auto &q : reqs)
		if (q.r)
			vp_assert(!q.r->is_open(), "nothing is being resolved");
	if (reqs[0].callbacks > 1) vp_cover("again");
	if (reqs[0].callbacks && reqs[1].callbacks) vp_cover("two resolvers");
	if (lookups > reqs[0].callbacks + reqs[1].callbacks) vp_cover("cancelled while it ran");
	if (!reqs[0].r && reqs[0].callbacks) vp_cover("destroyed after an answer");
	bool open = vp_flag("left open");
	if (open) {
		if (!reqs[0].r)
			reqs[0].r.reset(new DNSResolver([](const std::vector<Address> &) { vp_assert(false, "no callback outside of the loop"); }));
		reqs[0].r->resolve("9", 1, true, false);
	}
	reqs[0].r.reset();
	reqs[1].r.reset();
	vp_run_atexit();
	vp_cover("done");
}

namespace other {
int got[2], order;
void client(RunLoop *l, int k) {
	DNSResolver *again = nullptr;
	int rounds = (int)vp_param("rounds", 1), host = 1 + 4 * k;
	DNSResolver r([&](const std::vector<Address> &names) {
		Req q;
		q.host = host;
		q.port = 1000 + host;
		vp_assert(right(names, q), "every loop gets its own result");
		got[k]++;
		if (--rounds > 0) {
			host++;
			again->resolve(std::string(1, (char)('0' + host)), (uint16_t)(1000 + host), true, false);
			vp_assert(right(names, q), "the result stays as it is during the callback");
			return;
		}
		l->cancel();
	});
	again = &r;
	r.resolve(std::string(1, (char)('0' + host)), (uint16_t)(1000 + host), true, false);
	l->run();
	vp_assert(!r.is_open() && got[k] == vp_param("rounds", 1), "one callback per request");
}
void thread_fun(void *) {
	RunLoop l;
	auto slim = std::move(l.stats);
	client(&l, 1);
}
}  // namespace other
// Two loops in two threads share the worker.
extern "C" void h_resolve_loops() {
	RunLoop l;
	auto slim = std::move(l.stats);
	vp_symbolic(salt, sizeof(salt), "addresses");
	int th = vp_thread_create(other::thread_fun, nullptr);
	other::client(&l, 0);
	vp_thread_join(th);
	vp_run_atexit();
	vp_cover("done");
}

// A name looked up at once.
extern "C" void h_resolve_sync() {
	vp_symbolic(salt, sizeof(salt), "addresses");
	Req q;
	q.host = (int)vp_choice(4, "host");
	static const int PORTS[] = {0, 80, 65535};
	q.port = PORTS[vp_choice(3, "port")];
	only = vp_flag("one family") ? vp_flag("six") ? 6 : 4 : 0;
	std::string name(1, (char)('0' + q.host));
	if (vp_flag("single")) {
		bool known = true;
		Address a;
		try {
			a = DNSResolver::sync_resolve_single(name, (uint16_t)q.port);
		} catch (const std::exception &) {
			known = false;
		}
		vp_assert(known == (count_for(q.host) > 0), "an address or an error");
		if (known) {
			q.v4 = only != 6;
			q.v6 = !q.v4;
			std::vector<Address> v(1, a);
			int n = count_for(q.host);
			const sockaddr *sa = a.impl_get_sockaddr();
			vp_assert(sa->sa_family == (q.v4 ? AF_INET : AF_INET6) && a.get_port() == q.port, "of the preferred family, with the port");
			vp_assert(q.v6 ? ((const sockaddr_in6 *)sa)->sin6_addr.s6_addr[1] == 0 && !memcmp(((const sockaddr_in6 *)sa)->sin6_addr.s6_addr + 2, salt[q.host], 4)
			               : ((const uint8_t *)&((const sockaddr_in *)sa)->sin_addr.s_addr)[3] == 0 && !memcmp(&((const sockaddr_in *)sa)->sin_addr.s_addr, salt[q.host], 3),
			    "the first one");
			if (n == 2) vp_cover("one of two");
		} else
			vp_cover("unknown");
	} else {
		only = 0;
		q.v4 = vp_flag("v4");
		q.v6 = vp_flag("v6");
		vp_assert(right(DNSResolver::sync_resolve(name, (uint16_t)q.port, q.v4, q.v6), q), "all addresses of the families asked for, in order");
		if (q.v4 && q.v6) vp_cover("both");
	}
	vp_cover("done");
}
