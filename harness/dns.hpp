// Name resolution without a second thread: the worker runs its loop (which keeps nothing between rounds) whenever the
// harness lets it, until it would wait. What getaddrinfo gives is decided by the harness.
#pragma once
#include "env.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
namespace dnsenv {
static void *state = nullptr;
static void (*round)(void *) = nullptr;
static bool runnable = false;
static int lookups = 0;
static int (*names)(const std::string &host, int port) = nullptr;  // how many addresses, -1: fails
struct Stop {};
static inline void run() {
	if (!state || !runnable)
		return;
	runnable = false;
	try {
		round(state);
	} catch (const Stop &) {
	}
}
}  // namespace dnsenv
namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) {
	dnsenv::state = s.release();
	dnsenv::round = [](void *p) { ((_State *)p)->_M_run(); };
	dnsenv::runnable = true;
	_M_id = id((pthread_t)1);
}
void thread::join() { _M_id = id(); }
void condition_variable::wait(unique_lock<mutex> &) { throw dnsenv::Stop(); }
void condition_variable::notify_one() noexcept { dnsenv::runnable = true; }
void condition_variable::notify_all() noexcept { dnsenv::runnable = true; }
}  // namespace std
struct DnsAnswer {
	addrinfo ai;
	sockaddr_in sa;
};
extern "C" int getaddrinfo(const char *host, const char *service, const addrinfo *, addrinfo **res) {
	dnsenv::lookups++;
	int port = atoi(service), n = dnsenv::names ? dnsenv::names(host, port) : 1;
	if (n < 0)
		return EAI_NONAME;
	*res = nullptr;
	for (int i = n; i-- > 0;) {
		DnsAnswer *a = new DnsAnswer();
		a->ai.ai_family = AF_INET;
		a->ai.ai_addrlen = sizeof(sockaddr_in);
		a->ai.ai_addr = (sockaddr *)&a->sa;
		a->sa.sin_family = AF_INET;
		a->sa.sin_port = htons((uint16_t)port);
		a->sa.sin_addr.s_addr = htonl(0x0a010000u + (uint32_t)i);
		a->ai.ai_next = *res;
		*res = &a->ai;
	}
	return 0;
}
extern "C" void freeaddrinfo(addrinfo *a) noexcept {
	while (a) {
		addrinfo *n = a->ai_next;
		delete (DnsAnswer *)a;
		a = n;
	}
}
