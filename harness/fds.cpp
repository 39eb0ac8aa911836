// C35: programs of opening, closing and reopening with failing system calls; every descriptor is closed once.
#include "env.hpp"
#include <crab/crab.hpp>
#include <memory>
using namespace crab;
extern "C" ssize_t sendto(int fd, const void *, size_t n, int, const struct sockaddr *, socklen_t) {
	env::get(fd, "sendto on a closed descriptor");
	return (ssize_t)n;
}
extern "C" ssize_t recvfrom(int fd, void *, size_t, int, struct sockaddr *, socklen_t *) {
	env::get(fd, "recvfrom on a closed descriptor");
	return env::err(EAGAIN);
}
namespace {
struct World {
	std::unique_ptr<RunLoop> loop;
	std::unique_ptr<TCPSocket> socks[2];
	std::unique_ptr<TCPAcceptor> acceptor;
	std::unique_ptr<UDPReceiver> receiver;
	std::unique_ptr<UDPTransmitter> transmitter;
	std::unique_ptr<Signal> signal;
} w;
int rounds;
int open_all() {
	int n = 0;
	for (int i = 0; i < env::nfds; i++)
		n += env::fds[i].open;
	return n;
}
int kernel_sockets() { return env::open_count(env::TCP); }
void world(int timeout) {
	rounds++;
	if (env::any_ready() && rounds < 6)
		return;
	if (timeout <= 1000 && rounds < 6)
		env::now_ns += (int64_t)timeout * 1000000;
	else
		RunLoop::current()->cancel();
}
void on_socket(int i) {
	TCPSocket &s = *w.socks[i];
	if (!s.is_open())
		return;
	uint8_t b[4];
	while (s.read_some(b, 4))
		;
	s.write_some("ab", 2);
}
void run() {
	rounds = 0;
	w.loop->run();
}
void step() {
	size_t what = vp_choice((size_t)vp_param("kinds", 14), "operation");
	int before = open_all();
	switch (what) {
	case 0:
	case 1: {
		TCPSocket::Settings st;
		if (what == 0)
			st.sndbuf_size = st.rcvbuf_size = 1000;
		st.tcp_delay = what == 0;
		env::connect_err = what == 1 && vp_flag("unreachable") ? ENETUNREACH : EINPROGRESS;
		env::connect_now = what == 1 && vp_flag("at once");
		bool ok = w.socks[0]->connect(Address("1.2.3.4", 5), st);
		vp_assert(ok == w.socks[0]->is_open(), "open just when connect says so");
		if (ok && !env::connect_now)
			env::connects(env::num(env::nfds - 1));
		if (ok) vp_cover("opt:connected");
		break;
	}
	case 2: w.socks[0]->close(); break;
	case 3:
		w.socks[0]->close(true);
		w.socks[1]->close();
		break;
	case 4: w.socks[0].reset(new TCPSocket([]() { on_socket(0); })); break;
	case 5:
		vp_assume(!w.acceptor);
		try {
			TCPAcceptor::Settings st;
			st.reuse_addr = st.reuse_port = true;
			st.sndbuf_size = st.rcvbuf_size = 1000;
			w.acceptor.reset(new TCPAcceptor(Address("0.0.0.0", 5), empty_handler, st));
			vp_cover("acceptor");
		} catch (const std::exception &) {
			vp_assert(open_all() == before, "a failed constructor leaves nothing open");
			vp_cover("opt:constructor failed");
		}
		break;
	case 6:
		vp_assume(w.acceptor != nullptr);
		w.acceptor.reset();
		break;
	case 7: {  // connections arrive
		vp_assume(w.acceptor != nullptr);
		int l = -1;
		for (int i = 0; i < env::nfds; i++)
			if (env::fds[i].kind == env::LISTEN && env::fds[i].open)
				l = env::num(i);
		env::at(l).backlog += 2;
		env::edge(l, EPOLLIN);
		run();
		break;
	}
	case 8:
	case 9:
		vp_assume(w.acceptor != nullptr);
		vp_assume(w.acceptor->can_accept());
		w.socks[what - 8]->accept(*w.acceptor);
		vp_assert(w.socks[what - 8]->is_open(), "accepted");
		vp_cover("opt:accepted");
		break;
	case 10:
		for (int i = 0; i < env::nfds; i++)
			if (env::fds[i].open && env::fds[i].kind == env::TCP) {
				if (vp_flag("reset"))
					env::fails(env::num(i), env::some_error());
				else
					env::peer_closes(env::num(i));
			}
		run();
		break;
	case 11:
		vp_assume(!w.receiver);
		try {
			UDPReceiver::Settings st;
			st.sndbuf_size = st.rcvbuf_size = 1000;
			if (vp_flag("adapter"))
				st.adapter = vp_flag("wrong") ? "nowhere" : "127.0.0.1";
			w.receiver.reset(new UDPReceiver(Address(vp_flag("multicast") ? "224.0.0.1" : "127.0.0.1", 5), empty_handler, st));
		} catch (const std::exception &) {
			vp_assert(open_all() == before, "a failed constructor leaves nothing open");
		}
		break;
	case 12:
		vp_assume(!w.transmitter);
		try {
			w.transmitter.reset(new UDPTransmitter(Address(vp_flag("multicast") ? "224.0.0.1" : "127.0.0.1", 5), empty_handler, vp_flag("wrong") ? "nowhere" : ""));
		} catch (const std::exception &) {
			vp_assert(open_all() == before, "a failed constructor leaves nothing open");
		}
		break;
	case 13:
		vp_assume(!w.signal);
		try {
			w.signal.reset(new Signal(empty_handler));
		} catch (const std::exception &) {
			vp_assert(open_all() == before, "a failed constructor leaves nothing open");
		}
		break;
	case 14:  // another loop in the same thread
		try {
			RunLoop second;
			vp_assert(false, "one loop in a thread");
		} catch (const std::exception &) {
			vp_assert(open_all() == before && RunLoop::current() == w.loop.get(), "a failed constructor leaves nothing open");
		}
		break;
	case 15:
		w.receiver.reset();
		w.transmitter.reset();
		w.signal.reset();
		break;
	}
	int live = (int)w.socks[0]->is_open() + (int)w.socks[1]->is_open();
	vp_assert(kernel_sockets() <= live + (w.acceptor ? 1 : 0), "no connection is kept without an owner");
}
}  // namespace
extern "C" void h_descriptors() {
	env::faults = (int)vp_param("faults", 1);
	int ops = (int)vp_param("ops", 3);
	if (vp_param("zero", 0))
		env::zero_at = (int)vp_choice(5, "number 0");
	try {
		w.loop.reset(new RunLoop());
	} catch (const std::exception &) {
		vp_assert(open_all() == 0 && !RunLoop::current(), "a failed constructor leaves nothing open");
		vp_cover("opt:no loop");
		env::faults = 0;
		w.loop.reset(new RunLoop());
	}
	auto slim = std::move(w.loop->stats);
	env::on_wait = world;
	for (int i = 0; i < 2; i++)
		w.socks[i].reset(new TCPSocket([i]() { on_socket(i); }));
	for (int i = 0; i < ops; i++)
		step();
	vp_cover("programs");
	for (int i = 0; i < 2; i++)
		w.socks[i].reset();
	w.acceptor.reset();
	w.receiver.reset();
	w.transmitter.reset();
	w.signal.reset();
	vp_assert(open_all() == 2, "every descriptor is closed");
	w.loop.reset();
	vp_assert(open_all() == 0, "every descriptor is closed");
	vp_cover("done");
}
