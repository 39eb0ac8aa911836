// C24: several objects have something to report at once; a callback cancels, closes, destroys or re-arms any of them.
#include "dns.hpp"
#include <crab/crab.hpp>
#include <memory>
using namespace crab;
extern "C" ssize_t sendto(int fd, const void *, size_t n, int, const struct sockaddr *, socklen_t) {
	env::get(fd, "sendto on a closed descriptor");
	return (ssize_t)n;
}
extern "C" ssize_t recvfrom(int fd, void *p, size_t n, int, struct sockaddr *, socklen_t *) {
	env::Fd *f = env::get(fd, "recvfrom on a closed descriptor");
	if (f->in.empty())
		return env::err(EAGAIN);
	*(char *)p = f->in[0];
	f->in.clear();
	return n ? 1 : 0;
}
namespace {
enum { TIMER, WATCHER, IDLE, SOCKET, SOCKET_END, ACCEPTOR, RECEIVER, TRANSMITTER, SIGNAL, RESOLVER, BUFFERED, CONNECTION, KINDS };
struct Obj {
	size_t kind = 0;
	bool alive = false, armed = false;  // exists; may call back
	int handler = 0;                    // the one set last
	int calls = 0, fd = -1, due = 0;    // due: the callback has to come
	std::unique_ptr<Timer> timer;
	std::unique_ptr<Watcher> watcher;
	std::unique_ptr<Idle> idle;
	std::unique_ptr<TCPSocket> socket;
	std::unique_ptr<TCPAcceptor> acceptor;
	std::unique_ptr<UDPReceiver> receiver;
	std::unique_ptr<UDPTransmitter> transmitter;
	std::unique_ptr<Signal> signal;
	std::unique_ptr<DNSResolver> resolver;
	std::unique_ptr<BufferedTCPSocket> buffered;
	std::unique_ptr<http::ClientConnection> connection;
};
Obj objs[4];
int n, actions, rounds, total;
Obj *running;
bool again;

void act();
void called(Obj *o, int handler) {
	vp_assert(handler == o->handler, "a replaced handler does not run");
	vp_assert(o->alive, "a destroyed object does not call back");
	vp_assert(o->armed, "a cancelled object does not call back");
	vp_assert(!running, "callbacks do not nest");
	running = o;
	o->calls++;
	o->due = 0;
	total++;
	if (o->kind == SOCKET_END || o->kind == SOCKET) {
		uint8_t b[4];
		if (o->socket->is_open()) {
			vp_assert(env::at(o->fd).connected, "no event of an earlier connection");
			while (o->socket->read_some(b, 4))
				;
		} else
			o->armed = false;
	}
	if (o->kind == RECEIVER) {
		uint8_t b[4];
		while (o->receiver->read_datagram(b, 4).has_value())
			;
	}
	if (o->kind == TIMER)
		o->armed = false;
	if (o->kind == IDLE && o->calls > 2) {
		o->idle->set_active(false);
		o->armed = false;
	}
	if (o->kind == RESOLVER)
		o->armed = false;
	act();
	running = nullptr;
}
void arm(Obj &o) {
	Obj *p = &o;
	o.armed = true;
	o.due = 1;
	switch (o.kind) {
	case TIMER: o.timer->once(0.0); break;
	case WATCHER: o.watcher->call(); break;
	case IDLE: o.idle->set_active(true); break;
	case SOCKET:
	case SOCKET_END:
		vp_assert(o.socket->connect(Address("1.2.3.4", 5)), "connects");
		o.fd = env::num(env::nfds - 1);
		break;
	case BUFFERED:
		vp_assert(o.buffered->connect(Address("1.2.3.4", 5)), "connects");
		o.fd = env::num(env::nfds - 1);
		break;
	case CONNECTION:
		vp_assert(o.connection->connect(Address("1.2.3.4", 5)), "connects");
		o.fd = env::num(env::nfds - 1);
		break;
	case RESOLVER: o.resolver->resolve("a", 5, true, false); break;
	default: vp_assert(false, "not armed"); (void)p;
	}
}
void create(Obj &o, size_t kind) {
	Obj *p = &o;
	o.kind = kind;
	o.alive = true;
	auto h = [p]() { called(p, 0); };
	switch (kind) {
	case TIMER: o.timer.reset(new Timer(h)); break;
	case WATCHER: o.watcher.reset(new Watcher(h)); break;
	case IDLE: o.idle.reset(new Idle(h)); break;
	case SOCKET:
	case SOCKET_END: o.socket.reset(new TCPSocket(h)); break;
	case ACCEPTOR:
		o.acceptor.reset(new TCPAcceptor(Address("0.0.0.0", 5), h));
		o.fd = env::num(env::nfds - 1);
		break;
	case RECEIVER:
		o.receiver.reset(new UDPReceiver(Address("0.0.0.0", 5), h));
		o.fd = env::num(env::nfds - 1);
		break;
	case TRANSMITTER:
		o.transmitter.reset(new UDPTransmitter(Address("1.2.3.4", 5), h));
		o.fd = env::num(env::nfds - 1);
		break;
	case SIGNAL:
		o.signal.reset(new Signal(h));
		o.fd = env::num(env::nfds - 1);
		break;
	case RESOLVER: o.resolver.reset(new DNSResolver([p](const std::vector<Address> &names) {
			vp_assert(names.size() == 1, "the addresses");
			called(p, 0);
		}));
		break;
	case BUFFERED: o.buffered.reset(new BufferedTCPSocket(h)); break;
	case CONNECTION: o.connection.reset(new http::ClientConnection(h)); break;
	}
	if (kind == ACCEPTOR || kind == RECEIVER || kind == TRANSMITTER || kind == SIGNAL)
		o.armed = true;
	else
		arm(o);
}
// the kernel has something for each of them
void events(bool all) {
	for (int i = 0; i < n; i++) {
		Obj &o = objs[i];
		if (o.fd < 0 || !env::at(o.fd).open)
			continue;
		env::Fd &f = env::at(o.fd);
		switch (o.kind) {
		case SOCKET:
		case SOCKET_END:
		case BUFFERED:
		case CONNECTION:
			if (f.connecting)
				env::connects(o.fd);
			else if (!all || f.eof)
				break;
			env::arrive(o.fd, "x");
			if (o.kind == SOCKET_END)
				env::peer_closes(o.fd);
			o.due = o.kind != CONNECTION;
			break;
		case ACCEPTOR:
			if (all) {
				f.backlog++;
				env::edge(o.fd, EPOLLIN);
				o.due = 1;
			}
			break;
		case RECEIVER:
			if (all) {
				env::arrive(o.fd, "x");
				o.due = 1;
			}
			break;
		case TRANSMITTER:
			if (all) {
				env::edge(o.fd, EPOLLOUT);
				o.due = 1;
			}
			break;
		case SIGNAL:
			if (all) {
				f.counter = 1;
				env::edge(o.fd, EPOLLIN);
				o.due = 1;
			}
			break;
		}
	}
}
void cancel(Obj &o, bool with_event) {
	switch (o.kind) {
	case TIMER: o.timer->cancel(); break;
	case WATCHER: o.watcher->cancel(); break;
	case IDLE: o.idle->set_active(false); break;
	case SOCKET:
	case SOCKET_END: o.socket->close(with_event && o.socket->is_open()); break;
	case RESOLVER: o.resolver->cancel(); break;
	case BUFFERED: o.buffered->close(with_event && o.buffered->is_open()); break;
	case CONNECTION: o.connection->close(); break;
	}
}
void destroy(Obj &o) {
	o.alive = o.armed = false;
	o.due = 0;
	o.timer.reset();
	o.watcher.reset();
	o.idle.reset();
	o.socket.reset();
	o.acceptor.reset();
	o.receiver.reset();
	o.transmitter.reset();
	o.signal.reset();
	o.resolver.reset();
	o.buffered.reset();
	o.connection.reset();
	if (o.fd >= 0)
		vp_assert(!env::at(o.fd).open, "the descriptor is closed");
}
void replace(Obj &o) {
	Obj *p = &o;
	int k = o.handler;
	auto h = [p, k]() { called(p, k); };
	switch (o.kind) {
	case TIMER: o.timer->set_handler(h); break;
	case WATCHER: o.watcher->set_handler(h); break;
	case IDLE: o.idle->set_handler(h); break;
	case SOCKET:
	case SOCKET_END: o.socket->set_handler(h); break;
	case ACCEPTOR: o.acceptor->set_handler(h); break;
	case RECEIVER: o.receiver->set_handler(h); break;
	case TRANSMITTER: o.transmitter->set_handler(h); break;
	case SIGNAL: o.signal->set_handler(h); break;
	case BUFFERED: o.buffered->set_handler(h); break;
	case CONNECTION: o.connection->set_handler(h); break;
	}
}
bool can_cancel(const Obj &o) { return o.kind < ACCEPTOR || o.kind > SIGNAL; }
void act() {
	if (actions == 0)
		return;
	actions--;
	size_t what = vp_choice(vp_param("replace", 0) ? 7 : 6, "action");
	if (what == 0)
		return;
	Obj &o = objs[vp_choice((size_t)n, "target")];
	vp_assume(o.alive);
	vp_assume(what == 1 || what == 6 || can_cancel(o));
	switch (what) {
	case 1:
		destroy(o);
		vp_cover("destroyed");
		break;
	case 2:
		cancel(o, false);
		o.armed = false;
		o.due = 0;
		vp_cover("cancelled");
		break;
	case 3:  // anew
		vp_assume(o.kind != SIGNAL);
		cancel(o, false);
		o.due = 0;
		arm(o);
		vp_cover("armed again");
		break;
	case 4: {  // close, telling
		vp_assume(o.kind == SOCKET || o.kind == SOCKET_END || o.kind == BUFFERED);
		bool open = o.kind == BUFFERED ? o.buffered->is_open() : o.socket->is_open();
		bool was = o.kind == BUFFERED ? o.buffered->is_open() : o.socket->is_open();
		cancel(o, true);
		if (open) {
			o.due = 1;
			vp_assert(was && (o.kind == BUFFERED ? o.buffered->is_open() : o.socket->is_open()), "open until told");
		}
		break;
	}
	case 5:  // once more, whether or not it has something to report already
		vp_assume(o.kind == TIMER || o.kind == WATCHER || o.kind == IDLE || o.kind == RESOLVER);
		arm(o);
		vp_cover("more");
		break;
	case 6:  // another handler, as long as the one there is not running
		vp_assume(&o != running && o.kind != RESOLVER);
		o.handler++;
		replace(o);
		vp_cover("opt:replaced");
		break;
	}
	if (actions > 0 && vp_flag("another"))
		act();
}
void world(int timeout) {
	if (dnsenv::runnable && dnsenv::state)
		dnsenv::run();
	rounds++;
	if (rounds <= 2) {
		events(rounds == 1 || again);
		return;
	}
	events(false);  // connections made since
	if (env::any_ready() || timeout == 0)
		return;
	if (timeout < 1000000) {
		env::now_ns += (int64_t)timeout * 1000000;
		return;
	}
	RunLoop::current()->cancel();
}
}  // namespace
extern "C" void h_cancel() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	n = (int)vp_param("objects", 2);
	actions = (int)vp_param("actions", 2);
	if (vp_param("loop", 0) == 0) {
		for (int i = 0; i < n; i++)
			create(objs[i], vp_choice(KINDS, "kind"));
	} else
		for (int i = 0; i < n; i++) {
			static const size_t FEW[] = {TIMER, WATCHER, SOCKET, SOCKET_END, RESOLVER};
			create(objs[i], FEW[vp_choice(5, "kind")]);
		}
	env::reverse_events = vp_flag("reverse");
	again = vp_flag("more events");
	env::on_wait = world;
	loop.run();
	for (int i = 0; i < n; i++) {
		Obj &o = objs[i];
		vp_assert(!o.due, "what was not cancelled calls back");
		if (o.calls > 0) vp_cover("called");
	}
	for (int i = 0; i < n; i++)
		destroy(objs[i]);
	vp_cover("done");
}
