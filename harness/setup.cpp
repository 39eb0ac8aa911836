// C40: sockets are set up as asked. C41: signals come to the loop.
#include "env.hpp"
#include <limits.h>
#include <netinet/tcp.h>
#include <crab/crab.hpp>
#include <memory>
using namespace crab;
namespace {
struct Opt {
	int level, name, value;
	size_t size;
	int when;  // how many of bind, connect and listen came before
	uint8_t data[16];
};
Opt opts[16];
int nopts, steps_done, family, type, proto, bound, connected, listening;
sockaddr_storage told;
socklen_t told_len;
void on_call(env::Call c, int, int a, int b, const void *p, size_t n) {
	switch (c) {
	case env::SOCKET:
		family = a;
		type = b;
		memcpy(&proto, p, sizeof(proto));
		nopts = steps_done = bound = connected = listening = 0;
		break;
	case env::OPTION: {
		vp_assert(nopts < 16 && n <= 16, "options");
		Opt &o = opts[nopts++];
		o.level = a;
		o.name = b;
		o.size = n;
		o.when = steps_done;
		memcpy(o.data, p, n);
		if (n >= sizeof(int))
			memcpy(&o.value, p, sizeof(int));
		break;
	}
	case env::BIND: bound++; break;
	case env::CONNECT: connected++; break;
	case env::LISTENING: listening++; break;
	}
	if (c == env::BIND || c == env::CONNECT) {
		vp_assert(n <= sizeof(told), "address");
		memcpy(&told, p, n);
		told_len = (socklen_t)n;
	}
	if (c != env::SOCKET && c != env::OPTION)
		steps_done++;
}
const Opt *option(int level, int name) {
	const Opt *r = nullptr;
	for (int i = 0; i < nopts; i++)
		if (opts[i].level == level && opts[i].name == name) {
			vp_assert(!r, "an option is set once");
			r = &opts[i];
		}
	return r;
}
int expected;  // options that are accounted for
void wants(int level, int name, bool wanted, int value, int before, const char *what) {
	const Opt *o = option(level, name);
	vp_assert((o != nullptr) == wanted, what);
	if (o) {
		expected++;
		vp_assert(o->size == sizeof(int) && o->value == value && o->when < before, what);
	}
}
bool same_address(const Address &a) {
	return told_len == a.impl_get_sockaddr_length() && !memcmp(&told, a.impl_get_sockaddr(), told_len);
}
// any size that fits an int, or some that do not (the text of whose refusal is not worth the solver's time)
size_t size_asked(const char *name) {
	static const size_t LARGE[] = {1ULL << 31, 1ULL << 32, (1ULL << 32) + 4096, ~0ULL};
	size_t k = vp_choice(5, "size");
	if (k < 4)
		return LARGE[k];
	size_t n = vp_sym<uint32_t>(name);
	vp_assume(n <= INT_MAX);
	return n;
}
}  // namespace
extern "C" void h_setup() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	env::if_index = [](const char *n) -> unsigned { return !strcmp(n, "eth0") ? 7 : 0; };
	env::on_call = on_call;
	env::connect_now = vp_flag("at once");
	size_t kind = vp_choice(4, "kind");  // TCP socket, acceptor, UDP receiver, UDP transmitter
	// an address of either family with any bytes; multicast or not is asked from the library's own predicate (C30)
	bool six = vp_flag("IPv6");
	uint16_t port = vp_sym<uint16_t>("port");
	Address a(six ? "1:2::3" : "10.0.0.1", port);
	bool multi = false;
	if (!six) {
		uint32_t ip = vp_sym<uint32_t>("ip");
		sockaddr_in *sa = (sockaddr_in *)a.impl_get_sockaddr();
		sa->sin_addr.s_addr = htonl(ip);
		multi = (ip >> 28) == 14;
		if (kind < 2)
			vp_assume(!multi);
	}
	bool delay = kind < 2 && vp_flag("delay");
	size_t snd = 0, rcv = 0;
	if (kind < 3 && vp_flag("send buffer"))
		snd = size_asked("sndbuf");
	if (kind < 3 && vp_flag("receive buffer"))
		rcv = size_asked("rcvbuf");
	bool fits = (snd <= INT_MAX) & (rcv <= INT_MAX);
	static const char *ADAPTERS[] = {"", "eth0", "10.1.2.3", "nowhere", "1::2"};
	size_t ad = 0;
	if (kind >= 2 && !six)
		ad = vp_choice(5, "adapter");
	std::string adapter = ADAPTERS[ad];
	bool thrown = false, ok = true;
	std::unique_ptr<TCPSocket> s;
	std::unique_ptr<TCPAcceptor> acc;
	std::unique_ptr<UDPReceiver> r;
	std::unique_ptr<UDPTransmitter> t;
	bool addr_reuse = kind == 1 && vp_flag("reuse address"), port_reuse = kind == 1 && vp_flag("reuse port");
	try {
		if (kind == 0) {
			TCPSocket::Settings st;
			st.tcp_delay = delay;
			st.sndbuf_size = snd;
			st.rcvbuf_size = rcv;
			s.reset(new TCPSocket(empty_handler));
			ok = s->connect(a, st);
			vp_assert(s->is_open() == ok, "open if connecting");
		} else if (kind == 1) {
			TCPAcceptor::Settings st;
			st.tcp_delay = delay;
			st.sndbuf_size = snd;
			st.rcvbuf_size = rcv;
			st.reuse_addr = addr_reuse;
			st.reuse_port = port_reuse;
			acc.reset(new TCPAcceptor(a, empty_handler, st));
		} else if (kind == 2) {
			UDPReceiver::Settings st;
			st.sndbuf_size = snd;
			st.rcvbuf_size = rcv;
			st.adapter = adapter;
			r.reset(new UDPReceiver(a, empty_handler, st));
		} else
			t.reset(new UDPTransmitter(a, empty_handler, adapter));
	} catch (const std::exception &) {
		thrown = true;
	}
	bool good_adapter = !multi || ad < 3;
	vp_assert((thrown | !ok) == (!fits | !good_adapter), "what cannot be set up is refused, everything else not");
	int open = env::open_count(kind == 1 ? env::LISTEN : kind == 0 ? env::TCP : env::UDP);
	if (thrown || !ok) {
		vp_assert(env::open_count(env::TCP) + env::open_count(env::LISTEN) + env::open_count(env::UDP) == 0, "nothing is left of it");
		for (int i = 0; i < nopts; i++)
			if (opts[i].level == SOL_SOCKET && (opts[i].name == SO_SNDBUF || opts[i].name == SO_RCVBUF))
				vp_assert((size_t)opts[i].value == (opts[i].name == SO_SNDBUF ? snd : rcv), "no other size than asked");
		if (!fits) vp_cover("too large");
		if (!good_adapter) vp_cover("no such adapter");
		return;
	}
	vp_assert(open == 1, "one socket");
	vp_assert(family == (six ? AF_INET6 : AF_INET) && type == (kind < 2 ? SOCK_STREAM : SOCK_DGRAM), "of the family of the address");
	vp_assert((bound == (kind == 1 || kind == 2)) & (connected == (kind == 0 || kind == 3)) & (listening == (kind == 1)), "bound or connected");
	vp_assert(same_address(a), "to the address");
	wants(SOL_SOCKET, SO_SNDBUF, kind < 3 && snd, (int)snd, 1, "the size of the send buffer as asked, before it matters");
	wants(SOL_SOCKET, SO_RCVBUF, kind < 3 && rcv, (int)rcv, 1, "the size of the receive buffer as asked, before it matters");
	wants(IPPROTO_TCP, TCP_NODELAY, kind < 2 && !delay, 1, 2, "no delay unless asked for");
	wants(SOL_SOCKET, SO_REUSEADDR, addr_reuse || (kind == 2 && multi), 1, 1, "the address is shared if asked for, or for multicast");
	wants(SOL_SOCKET, SO_REUSEPORT, port_reuse || (kind == 2 && multi), 1, 1, "the port is shared if asked for, or for multicast");
	wants(SOL_SOCKET, SO_BROADCAST, kind == 3 && multi, 1, 2, "broadcasting for multicast");
	const Opt *m = option(IPPROTO_IP, kind == 2 ? IP_ADD_MEMBERSHIP : IP_MULTICAST_IF);
	vp_assert((m != nullptr) == (multi && kind >= 2), "an adapter is chosen for multicast");
	if (m) {
		expected++;
		ip_mreqn q;
		vp_assert(m->size == sizeof(q), "its size");
		memcpy(&q, m->data, sizeof(q));
		vp_assert(kind == 3 || q.imr_multiaddr.s_addr == ((const sockaddr_in *)a.impl_get_sockaddr())->sin_addr.s_addr, "the group of the address");
		vp_assert(q.imr_ifindex == (ad == 1 ? 7 : 0) && q.imr_address.s_addr == (ad == 2 ? htonl(0x0a010203) : 0), "on the adapter asked for");
		vp_cover("multicast");
	}
	vp_assert(expected == nopts, "no other options");
	if (kind == 1) vp_cover("acceptor");
	if (kind == 0 && six) vp_cover("IPv6");
	vp_cover("done");
}

// ---------------------------------------------------------------- signals
namespace {
const int SIGNALS[] = {SIGINT, SIGTERM, SIGUSR1};
enum { NSIG_ = 3 };
struct Watched {
	std::unique_ptr<Signal> s;
	uint64_t set = 0;
	int fd = -1, raised = 0, calls = 0, due = 0;  // due: signals since the last call
} sigs[2];
int sig_steps, sig_raised;
void raise_signal(size_t k) {
	uint64_t bit = 1ULL << SIGNALS[k];
	for (auto &w : sigs)
		if (w.s && (w.set & bit)) {
			vp_assert((env::sig_blocked & bit) && (env::at(w.fd).sigs & bit), "the signal does not end the process");
			w.raised++;
			w.due++;
			sig_raised++;
			if (!(env::sig_pending & bit))  // one that is pending already is merged with it
				env::edge(w.fd, EPOLLIN);
			env::sig_pending |= bit;
			return;
		}
	vp_assert(!(env::sig_blocked & bit), "a signal nobody asked for does what it always does");
}
void on_signal(int i) {
	Watched &w = sigs[i];
	// the last of them may be taken with the ones before, so only the number is fixed
	vp_assert(w.s && w.calls < w.raised, "called for a signal");
	w.due = 0;
	w.calls++;
	vp_assert(!(env::sig_pending & w.set), "which is taken");
	if (sig_steps > 0) {
		sig_steps--;
		size_t c = vp_choice(2 + NSIG_ + 2, "in callback");
		if (c >= 2 && c < 2 + NSIG_)
			raise_signal(c - 2);
		if (c == 1)
			sigs[i].s.reset();
		if (c == 2 + NSIG_)
			sigs[1 - i].s.reset();
		if (c == 3 + NSIG_)
			RunLoop::current()->cancel();
	}
}
void sig_world(int timeout) {
	while (sig_steps > 0) {
		size_t c = vp_choice(NSIG_ + 1, "signal");
		if (c == NSIG_)
			break;
		sig_steps--;
		raise_signal(c);
	}
	if (!env::any_ready() && timeout != 0)
		RunLoop::current()->cancel();
}
}  // namespace
extern "C" void h_signals() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	sig_steps = (int)vp_param("steps", 3);
	uint64_t before = 0, used = 0;
	size_t split = vp_choice(4, "sets");
	static const std::vector<int> SETS[4][2] = {{{}, {SIGUSR1}}, {{SIGINT}, {SIGTERM, SIGUSR1}}, {{SIGUSR1, SIGTERM, SIGINT}, {}}, {{SIGUSR1}, {SIGTERM}}};
	for (int i = 0; i < 2; i++) {
		std::vector<int> set = SETS[split][i];
		if (split == 2 && i == 1)
			continue;
		sigs[i].s.reset(new Signal([i]() { on_signal(i); }, set));
		if (set.empty())
			set = {SIGINT, SIGTERM};
		for (int k : set)
			sigs[i].set |= 1ULL << k;
		sigs[i].fd = env::find(env::SIG, i);
		used |= sigs[i].set;
		vp_assert(env::at(sigs[i].fd).sigs == sigs[i].set, "the signals asked for, or the two that end programs");
	}
	vp_assert(env::sig_blocked == (before | used), "and no others are held back");
	env::on_wait = sig_world;
	loop.run();
	for (int k = 0; k < 4 && env::any_ready(); k++)
		loop.run();
	int calls = 0;
	for (auto &w : sigs) {
		vp_assert(!w.s || w.due == 0, "every signal is followed by a call");
		calls += w.calls;
		w.s.reset();
	}
	vp_assert(calls <= sig_raised, "not more calls than signals");
	vp_assert(env::sig_blocked == before && env::open_count(env::SIG) == 0, "everything is as it was");
	if (calls < sig_raised) vp_cover("merged");
	if (calls == 2) vp_cover("twice");
	vp_cover("done");
}
