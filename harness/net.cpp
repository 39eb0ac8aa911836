// C33: TCPSocket over edge-triggered readiness. C29: UDP. C34: TCPAcceptor. C35: descriptors.
#include "env.hpp"
#include <crab/crab.hpp>
using namespace crab;
namespace {
int steps, mid, sfd = -1, notified, closed_seen;
std::string SCRIPT(8, 0), OUT(8, 0);  // bytes of any value
size_t arrived, got_n;
bool ended;
std::string got;
TCPSocket *sk;
size_t sent, to_send, rd_size, wr_size;
bool waits_read, waits_write;  // the last attempt gave 0

void world(int) {
	while (true) {
		if (steps > 0 && env::at(sfd).open) {
			size_t c = vp_choice(5, "world");
			if (c != 4)
				steps--;
			env::Fd &f = env::at(sfd);
			if (c == 0 && f.connecting) {
				env::connects(sfd);
				return;
			} else if (c == 0) {
				if (f.connected && !f.eof && arrived < SCRIPT.size()) {
					size_t n = 1 + vp_choice(2, "bytes");
					if (n > SCRIPT.size() - arrived)
						n = SCRIPT.size() - arrived;
					env::arrive(sfd, SCRIPT.substr(arrived, n));
					arrived += n;
				}
			} else if (c == 1)
				env::frees(sfd, 1 + vp_choice(2, "space"));
			else if (c == 2 && f.connected && !f.eof)
				env::peer_closes(sfd);
			else if (c == 3 && !f.eof)
				env::fails(sfd, env::some_error());
			if (c != 4)
				continue;
		}
		if (!env::any_ready()) {
			if (steps > 0 && env::at(sfd).open)
				vp_assume(false);  // waiting without an event: same as taking a step
			ended = true;
			RunLoop::current()->cancel();
		}
		return;
	}
}
void meanwhile(int fd) {  // something happens just before a call
	if (fd != sfd || mid == 0 || !env::at(fd).connected || !vp_flag("meanwhile"))
		return;
	mid--;
	env::Fd &f = env::at(fd);
	switch (vp_choice(3, "mid")) {
	case 0:
		if (!f.eof && arrived < SCRIPT.size())
			env::arrive(fd, SCRIPT.substr(arrived++, 1));
		break;
	case 1:
		env::frees(fd, 1);
		break;
	default:
		if (!f.eof)
			env::peer_closes(fd);
	}
}
void do_io() {
	if (!sk->is_open()) {
		closed_seen++;
		return;
	}
	uint8_t b[4];
	while (sk->is_open()) {
		size_t n;
		if (rd_size < 4)
			n = sk->read_some(b, rd_size);
		else
			n = sk->read_some(b, 1, b + 1, 2);
		vp_assert(n <= (rd_size < 4 ? rd_size : 3), "no more than asked for");
		got.append((const char *)b, n);
		waits_read = n == 0;
		if (n == 0)
			break;
	}
	while (sk->is_open() && sent < to_send) {
		size_t n;
		uint8_t w[3];
		for (size_t i = 0; i < 3; i++)
			w[i] = (uint8_t)OUT[(sent + i) % 8];
		size_t want = wr_size < to_send - sent ? wr_size : to_send - sent;
		n = sk->write_some(w, want);
		vp_assert(n <= want, "no more than offered");
		sent += n;
		waits_write = n == 0;
		if (n == 0)
			break;
	}
}
void final_checks(bool connected_ok) {
	env::Fd &f = env::at(sfd);
	vp_assert(got == SCRIPT.substr(0, got.size()) && got.size() == f.in_pos, "the bytes that came, in order");
	vp_assert(f.out.size() == sent, "as many bytes sent as reported");
	for (size_t i = 0; i < sent; i++)
		vp_assert(f.out[i] == OUT[i % 8], "bytes sent in order");
	if (!f.open) {
		vp_assert(closed_seen == 1 && !sk->is_open(), "the end of the connection is reported once");
		vp_cover("closed");
	} else {
		vp_assert(closed_seen == 0 && sk->is_open(), "an open connection is not reported as closed");
		vp_assert(env::unread(sfd) == 0, "no data left unnoticed");
		vp_assert(!f.eof && !f.err, "an ended connection is noticed");
		if (connected_ok)
			vp_assert(sent == to_send || f.space == 0, "no space left unnoticed");
		vp_cover("open");
	}
}
}  // namespace
extern "C" void h_socket() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	vp_symbolic(&SCRIPT[0], 8, "data");
	vp_symbolic(&OUT[0], 8, "sent");
	steps = (int)vp_param("steps", 3);
	to_send = 3;
	rd_size = 1 + vp_choice(4, "rd");
	wr_size = 1 + vp_choice(2, "wr");
	env::space0 = vp_choice(2, "space0");
	env::connect_now = vp_flag("now");
	{
		TCPSocket s([]() {
			notified++;
			do_io();
		});
		sk = &s;
		vp_assert(!s.is_open(), "closed at first");
		bool ok = s.connect(Address("127.0.0.1", 80));
		vp_assert(ok && s.is_open() && notified == 0, "connecting, no callback inside connect");
		sfd = env::find(env::TCP);
		env::on_wait = world;
		env::on_io = meanwhile;
		mid = (int)vp_param("mid", 1);
		env::interrupts = (int)vp_param("interrupts", 0);
		loop.run();
		bool con = env::at(sfd).connected;
		final_checks(con);
		vp_cover("end");
		if (sent == to_send) vp_cover("all sent");
		if (got.size() >= 2) vp_cover("received");
	}
	vp_assert(!env::at(sfd).open, "closed at destruction");
}

// gathering write and scattering read
extern "C" void h_socket_vector() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	env::connect_now = true;
	env::space0 = vp_choice(7, "space");
	TCPSocket s(empty_handler);
	vp_assert(s.connect(Address("127.0.0.1", 80)), "connect");
	sfd = env::find(env::TCP);
	env::on_wait = [](int) {
		if (!env::any_ready())
			RunLoop::current()->cancel();
	};
	loop.run();
	std::deque<Buffer> d;
	std::string all;
	bool many = vp_flag("many");
	size_t n = many ? 18 : vp_choice(4, "n");
	for (size_t i = 0; i < n; i++) {
		d.emplace_back(2);
		size_t pre = many ? i % 2 : vp_choice(2, "pre"), k = many ? 1 + (i % 3 != 0) : vp_choice(3, "k");
		if (pre) {
			d.back().write(uint8_cast("p"), 1);
			d.back().did_read(1);
		}
		uint8_t b[2];
		vp_symbolic(b, 2, "b");
		d.back().write(b, k);
		all.append((const char *)b, k);
	}
	if (many)
		env::at(sfd).space = 100;
	int bad = 0;
	if (vp_flag("fails")) {
		env::at(sfd).err = env::some_error();
		bad = 1;
	}
	size_t sp = env::at(sfd).space;
	size_t rc = s.write_some(d);
	const std::string &out = env::at(sfd).out;
	vp_assert(rc == out.size() && rc <= all.size(), "count of bytes sent");
	bool same = true;
	for (size_t i = 0; i < rc; i++)
		same &= out[i] == all[i];
	vp_assert(same, "the bytes of the buffers in order");
	if (!bad && all.size())
		vp_assert(rc > 0 || sp == 0, "something is sent when there is space");
	if (!bad && rc == 0 && all.size())
		vp_assert(!s.can_write(), "not writable when there is no space");
	if (bad && n)
		vp_assert(s.is_open() && !env::at(sfd).open, "closed by an error, to be reported");
	vp_cover("done");
}

// ---------------------------------------------------------------- acceptor
namespace {
TCPAcceptor *acc;
int acc_steps, acc_errs, acc_calls, given;
bool acc_waits, acc_now;
std::list<TCPSocket> kept;
void acc_io(int fd) {
	if (env::at(fd).kind != env::LISTEN || acc_errs == 0)
		return;
	static const int ERR[] = {0, ECONNABORTED, EINTR, EMFILE, ENETDOWN};
	int e = ERR[vp_choice(5, "accept error")];
	if (!e)
		return;
	acc_errs--;
	if (e == ECONNABORTED && env::at(fd).backlog)
		env::at(fd).backlog--;  // this connection is gone
	env::at(fd).err = e;
}
int64_t acc_wake = -1;
void acc_world(int timeout) {
	int lfd = env::find(env::LISTEN);
	while (acc_steps > 0) {
		size_t c = vp_choice(3, "world");
		if (c == 0)
			break;
		acc_steps--;
		env::at(lfd).backlog += (int)c;
		env::edge(lfd, EPOLLIN);
	}
	if (!env::any_ready()) {
		if (acc_steps > 0)
			vp_assume(false);
		if (timeout >= 1 && timeout <= 2000) {  // a retry is planned
			env::now_ns += (int64_t)timeout * 1000000;
			return;
		}
		RunLoop::current()->cancel();
	}
}
bool acc_greedy, acc_paused;
int acc_given_ok;
void on_accept() {
	acc_calls++;
	vp_assert(acc_calls < 100, "accepting does not spin");
	while (acc->can_accept()) {
		vp_assert(acc->can_accept(), "stays acceptable");
		if (!acc_greedy && !acc_paused) {  // takes it later
			acc_paused = true;
			return;
		}
		acc_paused = false;
		kept.emplace_back(empty_handler);
		Address a;
		kept.back().accept(*acc, &a);
		int fd = env::find(env::TCP, given++);
		vp_assert(fd >= 0 && kept.back().is_open() && env::at(fd).nonblock, "a new connection, not blocking");
		if (env::at(fd).open)
			vp_assert(a.get_port() == 1000 + fd && a.get_address() == "10.0.0." + std::to_string(fd), "with its peer's address");
		if (env::at(fd).open) {
			Address l = kept.back().local_address(), r = kept.back().remote_address();
			vp_assert(r.get_port() == a.get_port() && r.get_address() == a.get_address() && l.get_port() == 2000 + fd && l.get_address() == "10.1.0." + std::to_string(fd), "the socket knows both addresses");
		}
	}
	acc_waits = true;
}
}  // namespace
extern "C" void h_acceptor() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	acc_steps = (int)vp_param("steps", 3);
	acc_errs = (int)vp_param("errs", 2);
	acc_greedy = vp_flag("greedy");
	TCPAcceptor a(Address("0.0.0.0", 80), on_accept);
	acc = &a;
	env::on_wait = acc_world;
	env::on_io = acc_io;
	loop.run();
	int lfd = env::find(env::LISTEN);
	vp_assert(env::at(lfd).open, "keeps listening");
	if (acc_paused) {  // the application comes back for a connection it left, and goes on
		acc_greedy = true;
		on_accept();
		loop.run();
	}
	vp_assert(given == env::open_count(env::TCP), "each connection was handed over or closed");
	vp_assert(env::at(lfd).backlog == 0, "no connection left waiting");
	for (auto &s : kept)
		s.close();
	vp_assert(env::open_count(env::TCP) == 0, "each connection belongs to one socket");
	kept.clear();
	if (given >= 2) vp_cover("two");
	if (acc_errs == 0 && given) vp_cover("errors passed");
	vp_cover("done");
}

// ---------------------------------------------------------------- UDP
namespace {
struct Dgram {
	std::string data;
	uint16_t port;
};
std::deque<Dgram> udp_in;
std::vector<Dgram> udp_out;
int udp_err, udp_space, udp_recv_err;
int udp_notified;
}  // namespace
extern "C" ssize_t sendto(int fd, const void *p, size_t n, int flags, const struct sockaddr *sa, socklen_t) {
	env::Fd *f = env::get(fd, "sendto on a closed descriptor");
	vp_assert(f->nonblock && (flags & MSG_NOSIGNAL), "blocking sendto");
	if (udp_err) {
		int e = udp_err;
		udp_err = 0;
		return env::err(e);
	}
	if (udp_space == 0) {
		f->nospace = true;
		return env::err(EAGAIN);
	}
	udp_space--;
	udp_out.push_back({std::string((const char *)p, n), sa ? ntohs(((const sockaddr_in *)sa)->sin_port) : (uint16_t)0});
	return (ssize_t)n;
}
extern "C" ssize_t recvfrom(int fd, void *p, size_t n, int, struct sockaddr *sa, socklen_t *len) {
	env::Fd *f = env::get(fd, "recvfrom on a closed descriptor");
	vp_assert(f->nonblock, "blocking recvfrom");
	vp_assert(*len >= sizeof(sockaddr_in6) && n > 0, "room for data and address");
	if (udp_recv_err) {
		int e = udp_recv_err;
		udp_recv_err = 0;
		return env::err(e);
	}
	if (udp_in.empty())
		return env::err(EAGAIN);
	Dgram d = udp_in.front();
	udp_in.pop_front();
	size_t k = d.data.size() < n ? d.data.size() : n;
	memcpy(p, d.data.data(), k);
	sockaddr_in *in = (sockaddr_in *)sa;
	in->sin_family = AF_INET;
	in->sin_port = htons(d.port);
	in->sin_addr.s_addr = htonl(0x0a000001);
	return (ssize_t)k;
}
namespace {
UDPReceiver *ur;
UDPTransmitter *ut;
int udp_steps;
bool udp_rd_wait, udp_wr_wait;
size_t udp_cap;
bool udp_batch;
UDPReceiver::DatagramBuffer *udp_buffers;
std::vector<Dgram> udp_sent_in;
size_t udp_read_n;
int udp_to_send, udp_sent;
bool udp_write(const std::string &s, uint16_t port) {
	if (ur)
		return ur->write_datagram(uint8_cast(s.data()), s.size(), Address("10.0.0.1", port));
	return ut->write_datagram(uint8_cast(s.data()), s.size());
}
char udp_data[8];  // of any value
std::string udp_payload(int i) { return std::string(udp_data + i % 6, (size_t)(i % 3)); }
void udp_handler() {
	udp_notified++;
	uint8_t small[3];
	while (true) {
		Address from;
		optional<size_t> r;
		const uint8_t *b = small;
		if (udp_batch) {
			size_t left = udp_sent_in.size() - udp_read_n;
			vp_assert(ur->read_datagrams(udp_buffers, 0) == 0 && left == udp_sent_in.size() - udp_read_n, "nothing is read into no buffer");
			size_t n = ur->read_datagrams(udp_buffers, 1);
			vp_assert(n <= 1, "not more than there is room for");
			if (n) {
				r = udp_buffers[0].count;
				from = udp_buffers[0].peer_addr;
				b = udp_buffers[0].data;
			}
		} else
			r = ur ? ur->read_datagram(small, udp_cap, &from) : ut->read_datagram(small, udp_cap, &from);
		udp_rd_wait = !r;
		if (!r)
			break;
		vp_assert(udp_read_n < udp_sent_in.size(), "no datagram out of nothing");
		const Dgram &d = udp_sent_in[udp_read_n++];
		size_t want = udp_batch || d.data.size() < udp_cap ? d.data.size() : udp_cap;
		bool same = *r == want;
		for (size_t i = 0; i < want && same; i++)
			same &= b[i] == (uint8_t)d.data[i];
		vp_assert(same, "the bytes of the datagram");
		vp_assert(from.get_port() == d.port && from.get_address() == "10.0.0.1", "its sender");
	}
	while (udp_sent < udp_to_send) {
		size_t before = udp_out.size();
		bool was_err = udp_err != 0, could = ur ? ur->can_write() : ut->can_write();
		bool ok = udp_write(udp_payload(udp_sent), (uint16_t)(500 + udp_sent));
		udp_wr_wait = !ok;
		vp_assert(could | !ok, "what is said not to be writable is not");
		if (!ok) {
			vp_assert(!(ur ? ur->can_write() : ut->can_write()), "refused, so not writable");
			vp_assert(udp_out.size() == before, "not sent when refused");
			break;
		}
		if (was_err)
			vp_assert(udp_out.size() == before, "lost by an error");
		else {
			vp_assert(udp_out.size() == before + 1 && udp_out.back().data == udp_payload(udp_sent), "sent whole");
			vp_assert(udp_out.back().port == (ur ? 500 + udp_sent : 0), "to its receiver");
		}
		udp_sent++;
	}
}
void udp_world(int) {
	int fd = env::find(env::UDP);
	while (udp_steps > 0) {
		size_t c = vp_choice(5, "world");
		if (c == 4)
			break;
		udp_steps--;
		if (c == 0) {
			size_t n = vp_choice(4, "size");
			Dgram d = {std::string(n, 0), (uint16_t)(700 + udp_sent_in.size())};
			if (n)
				vp_symbolic(&d.data[0], n, "dgram");
			udp_in.push_back(d);
			udp_sent_in.push_back(d);
			env::edge(fd, EPOLLIN);
		} else if (c == 1) {
			udp_space++;
			if (env::at(fd).nospace) {
				env::at(fd).nospace = false;
				env::edge(fd, EPOLLOUT);
			}
		} else if (c == 2) {  // an ICMP error: reported by the next send
			udp_err = ECONNREFUSED;
			env::edge(fd, EPOLLERR);
		} else {  // reported by the next receive, the data stays
			udp_recv_err = EHOSTUNREACH;
			env::edge(fd, EPOLLERR);
		}
	}
	if (!env::any_ready()) {
		if (udp_steps > 0)
			vp_assume(false);
		RunLoop::current()->cancel();
	}
}
}  // namespace
extern "C" void h_udp() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	vp_symbolic(udp_data, sizeof(udp_data), "data");
	udp_steps = (int)vp_param("steps", 3);
	udp_to_send = 3;
	udp_space = (int)vp_choice(2, "space");
	udp_cap = vp_choice(4, "cap");
	bool receiver = vp_flag("receiver");
	if (receiver && udp_cap == 3 && vp_flag("batch")) {
		udp_batch = true;
		udp_buffers = new UDPReceiver::DatagramBuffer[1];
	}
	std::unique_ptr<UDPReceiver> r;
	std::unique_ptr<UDPTransmitter> t;
	if (receiver) {
		r.reset(new UDPReceiver(Address("0.0.0.0", 77), udp_handler));
		ur = r.get();
	} else {
		t.reset(new UDPTransmitter(Address("10.0.0.1", 77), udp_handler));
		ut = t.get();
	}
	if (receiver)
		vp_assert(!udp_write("x", 1) && udp_out.empty(), "not writable before it is known to be");
	env::on_wait = udp_world;
	loop.run();
	vp_assert(udp_sent == udp_to_send || udp_space == 0, "a refused send is followed by a notification when there is space");
	vp_assert(udp_read_n == udp_sent_in.size(), "no datagram left unnoticed");
	if (t) {
		int ttl = (int)vp_sym<uint8_t>("ttl");
		t->set_multicast_ttl(ttl);
		vp_assert(env::opt_level == IPPROTO_IP && env::opt_name == IP_MULTICAST_TTL && env::opt_value == ttl, "the time to live is passed on");
	}
	if (udp_read_n == 2) vp_cover("received two");
	if (udp_sent == 3) vp_cover("sent all");
	if (udp_batch && udp_read_n) vp_cover("batch");
	delete[] udp_buffers;
	vp_cover("done");
}
