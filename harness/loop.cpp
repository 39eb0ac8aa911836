// C36: idle handlers, events and timers in one loop; stopping it.
#include "env.hpp"
#include <crab/crab.hpp>
#include <list>
#include <memory>
using namespace crab;
namespace {
enum { MAXIDLE = 4 };
std::unique_ptr<Idle> idles[MAXIDLE];
std::unique_ptr<TCPAcceptor> acceptor;
std::unique_ptr<Timer> timer;
std::unique_ptr<Watcher> watcher;
std::list<int> order;  // active idles, the next to run in front
int n, actions, waits, max_waits, idle_runs, since_poll, lfd, wfd;
bool event_due, watch_due, timer_set, stopped, last_poll_events, in_callback;
bool stopped_outside, turns_unknown, interrupted;
int watch_calls, watch_runs;
int64_t deadline;
bool active(int i) {
	for (int k : order)
		if (k == i)
			return true;
	return false;
}
void activate(int i) {
	idles[i]->set_active(true);
	if (active(i))
		turns_unknown = true;  // whether it moves to the end of the queue is not said
	order.remove(i);
	order.push_back(i);
}
void stop() {
	RunLoop::current()->cancel();
	stopped = true;
}
void act() {
	if (actions == 0)
		return;
	actions--;
	size_t what = vp_choice(8, "action");
	switch (what) {
	case 0: break;
	case 1: stop(); break;
	case 2:
	case 3: {
		int i = (int)vp_choice((size_t)n, "idle");
		vp_assume(idles[i] != nullptr);
		if (what == 2)
			activate(i);
		else {
			idles[i]->set_active(false);
			order.remove(i);
		}
		vp_assert(idles[i]->is_active() == active(i), "active as set");
		break;
	}
	case 4: {
		int i = (int)vp_choice((size_t)n, "idle");
		vp_assume(idles[i] != nullptr);
		idles[i].reset();
		order.remove(i);
		break;
	}
	case 5:
		timer->once_at(RunLoop::current()->now() + std::chrono::milliseconds(1));
		timer_set = true;
		deadline = std::chrono::duration_cast<std::chrono::nanoseconds>(RunLoop::current()->now().time_since_epoch()).count() + 1000000;
		break;
	case 6:
		timer->once(0);
		timer_set = true;
		deadline = std::chrono::duration_cast<std::chrono::nanoseconds>(RunLoop::current()->now().time_since_epoch()).count();
		break;
	case 7:
		watcher->call();
		watch_calls++;
		watch_due = true;
		break;
	}
}
bool timer_due() { return timer_set && deadline <= std::chrono::duration_cast<std::chrono::nanoseconds>(RunLoop::current()->now().time_since_epoch()).count(); }
void enter() {
	vp_assert(!in_callback, "callbacks do not nest");
	in_callback = true;
	vp_assert(!stopped, "no callback after stopping the loop");
}
void called_idle(int i) {
	enter();
	vp_assert(active(i), "only active idle handlers run");
	vp_assert(order.front() == i || turns_unknown, "idle handlers take turns");
	order.remove(i);
	order.push_back(i);
	vp_assert(since_poll == 0, "the kernel is asked between idle handlers");
	since_poll++;
	vp_assert(interrupted || (!last_poll_events && !event_due), "events go before idle handlers");
	vp_assert(!timer_due(), "due timers go before idle handlers");
	idle_runs++;
	act();
	in_callback = false;
}
void called_event() {
	enter();
	vp_assert(event_due, "an event");
	event_due = false;
	while (acceptor->can_accept()) {
		TCPSocket s(empty_handler);
		s.accept(*acceptor);
	}
	act();
	in_callback = false;
}
void called_timer() {
	enter();
	vp_assert(timer_set && timer_due(), "the timer is due");
	timer_set = false;
	act();
	in_callback = false;
}
void called_watcher() {
	enter();
	vp_assert(watch_runs++ < watch_calls, "the watcher was called");
	watch_due = false;
	act();
	in_callback = false;
}
void world(int timeout) {
	vp_assert(!stopped, "the loop ends when it is stopped");
	vp_assert(!timer_due() && (!event_due || interrupted), "nothing is left to do");
	interrupted = false;
	bool idle = !order.empty();
	vp_assert((timeout == 0) == idle, "it waits just when there is no idle work");
	since_poll = 0;
	waits++;
	if (waits > max_waits) {
		RunLoop::current()->cancel();  // by another thread
		stopped_outside = true;
		return;
	}
	switch (vp_choice(timeout == 0 ? 3 : 4, "what happens")) {
	case 0: env::now_ns += 1000000; break;
	case 1:
		env::at(lfd).backlog++;
		env::edge(lfd, EPOLLIN);
		event_due = true;
		break;
	case 2: break;
	case 3: env::now_ns += (int64_t)timeout * 1000000; break;
	}
	last_poll_events = env::any_ready();
}
}  // namespace
extern "C" void h_loop() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	n = (int)vp_param("idles", 2);
	actions = (int)vp_param("actions", 2);
	max_waits = (int)vp_param("waits", 4);
	acceptor.reset(new TCPAcceptor(Address("0.0.0.0", 1), called_event));
	lfd = env::find(env::LISTEN);
	timer.reset(new Timer(called_timer));
	watcher.reset(new Watcher(called_watcher));
	for (int i = 0; i < n; i++) {
		idles[i].reset(new Idle([i]() { called_idle(i); }));
		order.push_back(i);
		vp_assert(idles[i]->is_active(), "active at first");
	}
	for (int i = 0; i < n; i++)
		if (!vp_flag("active")) {
			idles[i]->set_active(false);
			order.remove(i);
		}
	int before = actions;
	actions = 1;
	act();
	actions = before;
	env::on_wait = world;
	env::interrupts = (int)vp_param("interrupts", 0);
	env::on_interrupt = []() { interrupted = true; };
	bool early = stopped;
	loop.run();
	vp_assert(stopped || stopped_outside, "it runs until stopped");
	vp_assert(stopped || !watch_due || stopped_outside, "the watcher was served");
	if (early) {
		vp_assert(waits == 0 && idle_runs == 0, "stopped before it started");
		vp_cover("stopped early");
	} else if (stopped)
		vp_cover("stopped");
	if (idle_runs > 1) vp_cover("idle");
	for (int i = 0; i < n; i++)
		idles[i].reset();
	watcher.reset();
	timer.reset();
	acceptor.reset();
	vp_cover("done");
}
