// The operating system for harnesses with several threads: one event queue per loop, with its wake-up counter.
// A loop waits until its counter is written; a harness may allow some waits to end without it (other events, EINTR).
// Writing the counter happens before the wait it ends, as for the kernel objects; other accesses here are not the program's.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <net/if.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <chrono>
#include <string>
#include "vp.h"

namespace env {
enum { BASE = 100, MAXFD = 16 };
struct Fd {
	int open = 0, event = 0;   // event: a counter, else an event queue
	int edge = 0, counter = 0;
	int owner = 0;             // the queue the counter is registered in
	void *ptr = nullptr;
};
static Fd fds[MAXFD];
static int nfds = 0;
static int spurious = 0;  // how many waits may end by themselves
static int wakes = 0;     // counters written
struct Quiet {
	Quiet() { vp_race_off(); }
	~Quiet() { vp_race_on(); }
};
static inline int make(int event) {
	vp_assert(nfds < MAXFD, "model limit: descriptors");
	fds[nfds].open = 1;
	fds[nfds].event = event;
	return BASE + nfds++;
}
static inline Fd *get(int fd, const char *what) {
	vp_assert(fd >= BASE && fd < BASE + nfds && fds[fd - BASE].open, what);
	return &fds[fd - BASE];
}
static inline int open_count() {
	Quiet q;
	int n = 0;
	for (int i = 0; i < nfds; i++)
		n += fds[i].open;
	return n;
}
}  // namespace env
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000000LL)); }
}}}
extern "C" {
int epoll_create1(int) noexcept {
	env::Quiet q;
	return env::make(0);
}
int eventfd(unsigned, int) noexcept {
	env::Quiet q;
	return env::make(1);
}
int eventfd_write(int fd, eventfd_t v) {
	vp_yield();
	env::Quiet q;
	env::Fd *f = env::get(fd, "a loop is woken up that is gone");
	vp_assert(f->event && v == 1, "counter");
	f->counter++;
	f->edge = 1;
	env::wakes++;
	vp_hb_release(f);
	return 0;
}
int eventfd_read(int fd, eventfd_t *v) {
	vp_yield();
	env::Quiet q;
	env::Fd *f = env::get(fd, "eventfd_read on a closed descriptor");
	vp_hb_acquire(f);
	if (!f->counter) {
		errno = EAGAIN;
		return -1;
	}
	*v = (eventfd_t)f->counter;
	f->counter = 0;
	return 0;
}
int epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) noexcept {
	env::Quiet q;
	env::get(efd, "epoll_ctl on a closed descriptor");
	env::Fd *f = env::get(fd, "epoll_ctl for a closed descriptor");
	vp_assert(op == EPOLL_CTL_ADD && !f->owner && f->event, "registered once");
	vp_assert((ev->events & EPOLLET) && (ev->events & EPOLLIN), "reported once per change");
	f->owner = efd;
	f->ptr = ev->data.ptr;
	if (f->counter)
		f->edge = 1;
	return 0;
}
int epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
	vp_yield();
	vp_race_off();
	env::get(efd, "epoll_wait on a closed descriptor");
	env::Fd *f = nullptr;
	for (int i = 0; i < env::nfds; i++)
		if (env::fds[i].open && env::fds[i].event && env::fds[i].owner == efd)
			f = &env::fds[i];
	vp_assert(f && max > 0 && timeout >= -1, "a loop can be woken up");
	if (!f->edge || !f->counter) {
		f->edge = 0;  // nothing to report (any more)
		if (env::spurious > 0 && vp_flag("wait ends by itself")) {
			env::spurious--;
			vp_race_on();
			return 0;
		}
		if (timeout)
			vp_wait_nonzero(&f->edge);  // only the loop itself takes from the counter
	}
	int n = 0;
	if (f->edge) {
		f->edge = 0;
		vp_hb_acquire(f);
		evs[n].events = EPOLLIN;
		evs[n].data.ptr = f->ptr;
		n++;
	}
	vp_race_on();
	return n;
}
int close(int fd) {
	env::Quiet q;
	env::get(fd, "descriptor closed which is not open")->open = 0;
	return 0;
}
ssize_t read(int fd, void *, size_t) {
	vp_assert(false, "read");
	return -1;
}
}
