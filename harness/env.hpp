// The operating system as the library sees it: sockets, epoll, eventfd, clock. Definitions here take the place of
// libc's both in the symbolic and in the native build. What the kernel does is decided by the harness (env::on_wait,
// env::on_io) with symbolic choices. Edge-triggered epoll: an event is reported once after each change.
#pragma once
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <net/if.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <chrono>
#include <string>
#include "vp.h"

namespace env {
enum Kind { NONE, TCP, LISTEN, EPOLL, EVENT, UDP, SIG };
struct Fd {
	Kind kind = NONE;
	bool open = false, nonblock = false, reg = false;
	void *ptr = nullptr;
	uint32_t mask = 0, ready = 0;
	// stream sockets
	bool connecting = false, connected = false, shut_wr = false, eof = false, nospace = false, dead = false;
	int err = 0;  // reported by the next call on the socket
	std::string in, out;
	size_t in_pos = 0, space = 0;
	uint16_t port = 0;
	// listening sockets: connections waiting
	int backlog = 0;
	uint64_t counter = 0;  // eventfd
	uint64_t sigs = 0;     // signalfd
	int reads = 0, writes = 0;
	sockaddr_storage addr;
};
enum { BASE = 100, MAXFD = 48 };
static Fd fds[MAXFD];
static int nfds = 0;
static int zero_at = -1;          // the one of them which has number 0 (a process may run without stdin)
static inline int num(int i) { return i == zero_at ? 0 : BASE + i; }
static inline int index(int fd) { return fd == 0 && zero_at >= 0 ? zero_at : fd - BASE; }
static inline bool foreign(int fd) { return fd >= 0 && fd < BASE && !(fd == 0 && zero_at >= 0); }
static int faults = 0;            // how many system calls may still fail
static int64_t now_ns = 1000000000000LL, sys_ns = 1500000000000000000LL;
static int64_t last_timeout = -2;  // of the last epoll_wait, ms
static int waits = 0;
static size_t space0 = 1 << 20;    // send space of new sockets
static void (*on_wait)(int timeout_ms) = nullptr;  // the environment may do anything here
static void (*on_io)(int fd) = nullptr;            // before each read or write
static int opt_level, opt_name, opt_value;         // the last option of type int that was set
enum Call { SOCKET, OPTION, BIND, CONNECT, LISTENING };
static void (*on_call)(Call c, int fd, int a, int b, const void *p, size_t n) = nullptr;  // how sockets are set up
static unsigned (*if_index)(const char *) = nullptr;
static uint64_t sig_blocked = 0, sig_pending = 0;  // bits of signals
static int interrupts = 0;                         // how many waits a signal may end
static void (*on_interrupt)() = nullptr;
static bool reverse_events = false;
static int event_rot = 0;
static bool connect_now = false;
static int connect_err = EINPROGRESS;

static bool all_bits = true;  // with whatever is new, the kernel reports all that is possible now

static inline bool fault(const char *name) {
	if (faults <= 0 || !vp_flag(name))
		return false;
	faults--;
	return true;
}
static inline Fd *get(int fd, const char *what) {
	int i = index(fd);
	vp_assert(i >= 0 && i < nfds && num(i) == fd && fds[i].open, what);
	return &fds[i];
}
static inline Fd &at(int fd) { return fds[index(fd)]; }
static inline int make(Kind k) {
	vp_assert(nfds < MAXFD, "model limit: descriptors");
	fds[nfds].kind = k;
	fds[nfds].open = true;
	fds[nfds].space = space0;
	return num(nfds++);
}
static inline void edge(int fd, uint32_t ev) { at(fd).ready |= ev; }
// what a connection can fail with, any of it
static inline int some_error() {
	static const int E[] = {ECONNRESET, EPIPE, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNREFUSED, ENETDOWN, ECONNABORTED};
	int e = vp_sym<int>("errno");
	bool one = false;
	for (int x : E)
		one |= e == x;
	vp_assume(one);
	return e;
}
// events of the outside world
static inline void arrive(int fd, const std::string &s) {
	at(fd).in += s;
	edge(fd, EPOLLIN);
}
static inline void peer_closes(int fd) {
	at(fd).eof = true;
	edge(fd, EPOLLIN | EPOLLRDHUP);
}
static inline void fails(int fd, int err) {
	at(fd).err = err;
	at(fd).eof = at(fd).dead = true;
	at(fd).connecting = false;
	edge(fd, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}
static inline void frees(int fd, size_t n) {
	Fd &f = at(fd);
	f.space += n;
	if (f.nospace && !f.connecting) {
		f.nospace = false;
		edge(fd, EPOLLOUT);
	}
}
static inline void connects(int fd) {
	at(fd).connecting = false;
	at(fd).connected = true;
	at(fd).nospace = !at(fd).space;
	edge(fd, EPOLLOUT);
}
static inline size_t unread(int fd) { return at(fd).in.size() - at(fd).in_pos; }
static inline bool any_ready() {
	for (int i = 0; i < nfds; i++)
		if (fds[i].open && fds[i].reg && (fds[i].ready & (fds[i].mask | EPOLLERR | EPOLLHUP)))
			return true;
	return false;
}
static inline uint32_t now_ready(const Fd &f) {
	uint32_t r = 0;
	if (f.kind == TCP) {
		if (f.in.size() > f.in_pos || f.eof || f.err)
			r |= EPOLLIN;
		if (f.connected && f.space)
			r |= EPOLLOUT;
		if (f.eof)
			r |= EPOLLRDHUP;
	}
	if (f.kind == LISTEN && f.backlog)
		r |= EPOLLIN;
	return r;
}
static inline int open_count(Kind k) {
	int n = 0;
	for (int i = 0; i < nfds; i++)
		n += fds[i].open && fds[i].kind == k;
	return n;
}
static inline int find(Kind k, int nth = 0) {
	for (int i = 0; i < nfds; i++)
		if (fds[i].kind == k && nth-- == 0)
			return num(i);
	return -1;
}
static inline int err(int e) {
	errno = e;
	return -1;
}
}  // namespace env

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(env::now_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(env::sys_ns))); }
}}}

extern "C" {
int socket(int family, int type, int proto) {
	if (env::fault("socket"))
		return env::err(EMFILE);
	int fd = env::make((type & 0xf) == SOCK_DGRAM ? env::UDP : env::TCP);
	env::at(fd).nonblock = (type & SOCK_NONBLOCK) != 0;
	if (env::on_call)
		env::on_call(env::SOCKET, fd, family, type & 0xf, &proto, sizeof(proto));
	return fd;
}
int close(int fd) {
	if (env::foreign(fd))
		return (int)syscall(SYS_close, fd);
	env::Fd *f = env::get(fd, "descriptor closed which is not open");
	f->open = f->reg = false;
	f->ready = 0;
	return 0;
}
int setsockopt(int fd, int level, int option, const void *v, socklen_t n) {
	env::get(fd, "setsockopt on a closed descriptor");
	if (n == sizeof(int)) {
		env::opt_level = level;
		env::opt_name = option;
		memcpy(&env::opt_value, v, sizeof(int));
	}
	if (env::on_call)
		env::on_call(env::OPTION, fd, level, option, v, n);
	return env::fault("setsockopt") ? env::err(EINVAL) : 0;
}
int getsockopt(int fd, int, int, void *, socklen_t *) {
	env::get(fd, "getsockopt on a closed descriptor");
	return 0;
}
int fcntl(int fd, int cmd, ...) {
	env::Fd *f = env::get(fd, "fcntl on a closed descriptor");
	if (env::fault("fcntl"))
		return env::err(EINVAL);
	if (cmd == F_SETFL)
		f->nonblock = true;
	return 0;
}
int bind(int fd, const struct sockaddr *sa, socklen_t n) noexcept {
	env::get(fd, "bind on a closed descriptor");
	if (env::on_call)
		env::on_call(env::BIND, fd, 0, 0, sa, n);
	return env::fault("bind") ? env::err(EADDRINUSE) : 0;
}
int listen(int fd, int) noexcept {
	env::get(fd, "listen on a closed descriptor")->kind = env::LISTEN;
	if (env::on_call)
		env::on_call(env::LISTENING, fd, 0, 0, nullptr, 0);
	return env::fault("listen") ? env::err(EADDRINUSE) : 0;
}
int connect(int fd, const struct sockaddr *sa, socklen_t n) {
	env::Fd *f = env::get(fd, "connect on a closed descriptor");
	if (env::on_call)
		env::on_call(env::CONNECT, fd, 0, 0, sa, n);
	f->port = ntohs(((const sockaddr_in *)sa)->sin_port);
	if (env::fault("connect"))
		return env::err(ENETUNREACH);
	if (f->kind == env::UDP) {
		f->connected = true;
		return 0;
	}
	vp_assert(f->nonblock, "blocking connect");
	if (env::connect_now) {
		f->connected = true;
		return 0;
	}
	f->connecting = true;
	return env::err(env::connect_err);
}
int accept4(int fd, struct sockaddr *sa, socklen_t *, int flags) {
	env::Fd *f = env::get(fd, "accept on a closed descriptor");
	if (env::fault("accept4"))
		return env::err(EMFILE);
	if (env::on_io)
		env::on_io(fd);
	if (f->err) {
		int e = f->err;
		f->err = 0;
		return env::err(e);
	}
	vp_assert(f->nonblock, "blocking accept");
	if (f->backlog == 0)
		return env::err(EAGAIN);
	f->backlog--;
	int n = env::make(env::TCP);
	env::at(n).connected = true;
	env::at(n).nonblock = (flags & SOCK_NONBLOCK) != 0;
	struct sockaddr_in *in = (struct sockaddr_in *)sa;
	in->sin_family = AF_INET;
	in->sin_port = htons((uint16_t)(1000 + n));
	in->sin_addr.s_addr = htonl(0x0a000000u + (uint32_t)n);
	return n;
}
static ssize_t env_read(int fd, const struct iovec *v, size_t nv) {
	env::Fd *f = env::get(fd, "read from a closed descriptor");
	if (env::on_io)
		env::on_io(fd);
	vp_assert(f->nonblock, "blocking read");
	f->reads++;
	if (f->err) {
		int e = f->err;
		f->err = 0;
		return env::err(e);
	}
	size_t av = f->in.size() - f->in_pos, n = 0;
	if (av == 0)
		return f->eof ? 0 : env::err(EAGAIN);
	for (size_t i = 0; i < nv && av; i++) {
		size_t k = v[i].iov_len < av ? v[i].iov_len : av;
		memcpy(v[i].iov_base, f->in.data() + f->in_pos, k);
		f->in_pos += k;
		av -= k;
		n += k;
	}
	return (ssize_t)n;
}
static ssize_t env_write(int fd, const struct iovec *v, size_t nv) {
	env::Fd *f = env::get(fd, "write to a closed descriptor");
	if (env::on_io)
		env::on_io(fd);
	vp_assert(f->nonblock, "blocking write");
	vp_assert(!f->shut_wr, "write after shutdown");
	f->writes++;
	if (f->err) {
		int e = f->err;
		f->err = 0;
		return env::err(e);
	}
	size_t want = 0, n = 0;
	for (size_t i = 0; i < nv; i++)
		want += v[i].iov_len;
	if (f->dead)
		return env::err(EPIPE);
	if (!f->connected || (f->space == 0 && want)) {
		f->nospace = true;
		return env::err(EAGAIN);
	}
	for (size_t i = 0; i < nv && f->space; i++) {
		size_t k = v[i].iov_len < f->space ? v[i].iov_len : f->space;
		f->out.append((const char *)v[i].iov_base, k);
		f->space -= k;
		n += k;
	}
	if (n < want)
		f->nospace = true;
	return (ssize_t)n;
}
ssize_t recv(int fd, void *p, size_t n, int) {
	struct iovec v = {p, n};
	return env_read(fd, &v, 1);
}
ssize_t send(int fd, const void *p, size_t n, int flags) {
	vp_assert(flags & MSG_NOSIGNAL, "send that can raise SIGPIPE");
	struct iovec v = {(void *)p, n};
	return env_write(fd, &v, 1);
}
ssize_t recvmsg(int fd, struct msghdr *m, int) { return env_read(fd, m->msg_iov, m->msg_iovlen); }
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
	vp_assert(flags & MSG_NOSIGNAL, "send that can raise SIGPIPE");
	vp_assert(m->msg_iovlen <= 1024, "too many pieces");
	return env_write(fd, m->msg_iov, m->msg_iovlen);
}
int shutdown(int fd, int) noexcept {
	env::get(fd, "shutdown on a closed descriptor")->shut_wr = true;
	return 0;
}
static int addr_of(int fd, struct sockaddr *sa, socklen_t *len, bool peer) {
	if (fd < 0)
		return env::err(EBADF);
	env::get(fd, "address of a closed descriptor");
	vp_assert(*len >= sizeof(sockaddr_in6), "room for the address");
	sockaddr_in *in = (sockaddr_in *)sa;
	in->sin_family = AF_INET;
	in->sin_port = htons((uint16_t)((peer ? 1000 : 2000) + fd));
	in->sin_addr.s_addr = htonl((peer ? 0x0a000000u : 0x0a010000u) + (unsigned)fd);
	*len = sizeof(*in);
	return 0;
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *len) noexcept { return addr_of(fd, sa, len, false); }
int getpeername(int fd, struct sockaddr *sa, socklen_t *len) noexcept { return addr_of(fd, sa, len, true); }
int epoll_create1(int) noexcept { return env::fault("epoll_create1") ? env::err(EMFILE) : env::make(env::EPOLL); }
int eventfd(unsigned v, int flags) noexcept {
	if (env::fault("eventfd"))
		return env::err(EMFILE);
	int fd = env::make(env::EVENT);
	env::at(fd).counter = v;
	env::at(fd).nonblock = (flags & EFD_NONBLOCK) != 0;
	return fd;
}
int eventfd_read(int fd, eventfd_t *v) {
	env::Fd *f = env::get(fd, "eventfd_read on a closed descriptor");
	vp_assert(f->nonblock, "blocking eventfd");
	if (f->counter == 0)
		return env::err(EAGAIN);
	*v = f->counter;
	f->counter = 0;
	return 0;
}
int eventfd_write(int fd, eventfd_t v) {
	env::Fd *f = env::get(fd, "eventfd_write on a closed descriptor");
	f->counter += v;
	env::edge(fd, EPOLLIN);
	return 0;
}
int epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) noexcept {
	env::get(efd, "epoll_ctl on a closed descriptor");
	env::Fd *f = env::get(fd, "epoll_ctl for a closed descriptor");
	vp_assert(op == EPOLL_CTL_ADD && !f->reg, "registered once");
	if (env::fault("epoll_ctl"))
		return env::err(ENOSPC);
	f->reg = true;
	f->mask = ev->events;
	f->ptr = ev->data.ptr;
	// what is possible already is reported
	if (f->kind == env::TCP) {
		if (env::unread(fd) || f->eof || f->err)
			f->ready |= EPOLLIN;
		if (f->connected && f->space)
			f->ready |= EPOLLOUT;
		if (!f->connected && !f->connecting)
			f->ready |= EPOLLOUT | EPOLLHUP;
		f->nospace = !f->space;  // polling a full socket asks for the event
	}
	if (f->kind == env::LISTEN && f->backlog)
		f->ready |= EPOLLIN;
	if (f->kind == env::UDP)
		f->ready |= EPOLLOUT | (f->in.size() ? (uint32_t)EPOLLIN : 0u);
	return 0;
}
int epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
	env::get(efd, "epoll_wait on a closed descriptor");
	env::waits++;
	env::last_timeout = timeout;
	if (env::on_wait)
		env::on_wait(timeout);
	if (env::interrupts > 0 && vp_flag("interrupted")) {
		env::interrupts--;
		if (env::on_interrupt)
			env::on_interrupt();
		vp_cover("opt:interrupted");
		return env::err(EINTR);
	}
	int n = 0;
	for (int k = 0; k < env::nfds && n < max; k++) {
		int i = env::reverse_events ? env::nfds - 1 - k : (k + env::event_rot) % env::nfds;
		env::Fd &f = env::fds[i];
		uint32_t r = f.ready & (f.mask | EPOLLERR | EPOLLHUP);
		if (!f.open || !f.reg || !r)
			continue;
		f.ready = 0;
		if (env::all_bits)
			r |= env::now_ready(f) & f.mask;
		if (f.kind == env::TCP && !f.space)
			f.nospace = true;
		evs[n].events = r;
		evs[n].data.ptr = f.ptr;
		n++;
	}
	return n;
}
ssize_t read(int fd, void *p, size_t n) {
	uint64_t pending = env::get(fd, "read from a closed descriptor")->sigs & env::sig_pending;
	for (int s = 1; s < 64; s++)
		if (pending >> s & 1) {
			env::sig_pending &= ~(1ULL << s);
			signalfd_siginfo *i = (signalfd_siginfo *)p;
			vp_assert(n >= sizeof(*i) && env::at(fd).nonblock, "room for a signal, not blocking");
			i->ssi_signo = (uint32_t)s;
			return sizeof(*i);
		}
	if (env::at(fd).counter == 0)
		return env::err(EAGAIN);
	env::at(fd).counter--;
	return (ssize_t)n;
}
int signalfd(int fd, const sigset_t *set, int) noexcept {
	if (env::fault("signalfd"))
		return env::err(EMFILE);
	vp_assert(fd == -1, "a new descriptor");
	fd = env::make(env::SIG);
	memcpy(&env::at(fd).sigs, set, sizeof(uint64_t));
	return fd;
}
int sigemptyset(sigset_t *s) noexcept {
	memset(s, 0, sizeof(*s));
	return 0;
}
int sigaddset(sigset_t *set, int s) noexcept {
	uint64_t m;
	memcpy(&m, set, sizeof(m));
	m |= 1ULL << s;
	memcpy(set, &m, sizeof(m));
	return 0;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *) noexcept {
	uint64_t m;
	memcpy(&m, set, sizeof(m));
	env::sig_blocked = how == SIG_BLOCK ? env::sig_blocked | m : how == SIG_UNBLOCK ? env::sig_blocked & ~m : m;
	return 0;
}
unsigned if_nametoindex(const char *name) noexcept { return env::if_index ? env::if_index(name) : 0; }
struct tm *gmtime_r(const time_t *, struct tm *t) noexcept { return t; }
size_t strftime(char *b, size_t, const char *, const struct tm *) noexcept {
	memcpy(b, "Wed, 16 Oct 2019 16:08:22 GMT", 30);
	return 29;
}
}
