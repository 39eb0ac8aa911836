// C28: a loop is never left sleeping after a watcher was called; cancel and destruction are safe. C37: loops in threads.
#include "thr.hpp"
#include <atomic>
#include <crab/crab.hpp>
#include <memory>
using namespace crab;
namespace {
// calls of one watcher by the other threads
struct Calls {
	std::atomic<int> started{0}, finished{0};
	int runs = 0;   // of the handler
	int seen = 0;   // started calls, when the handler ran last
	int data = 0;   // written under the mutex before the call
};
struct Counted {  // the counters are the harness's own: they order nothing
	static int get(std::atomic<int> &a) { return a.load(std::memory_order_relaxed); }
};
int plain(std::atomic<int> &a) {
	env::Quiet q;
	return *(int *)&a;
}
void add(std::atomic<int> &a) {
	env::Quiet q;
	++*(int *)&a;
}
}  // namespace

namespace calls {
RunLoop *loop;
Watcher *ws[2];
Calls c[2];
int total, per, first[3];
void caller(void *p) {
	size_t t = (size_t)p;
	for (int i = 0; i < per; i++) {
		int k = (first[t] >> i) & 1;
		add(c[k].started);
		ws[k]->call();
		add(c[k].finished);
	}
}
void handler(int k) {
	int s = plain(c[k].started);
	vp_assert(s > 0 && (c[k].seen < s || c[k].runs < s), "a handler runs because of a call");
	c[k].runs++;
	c[k].seen = s;
	vp_assert(c[k].runs <= s, "no more often than it was called");
	if (c[0].seen + c[1].seen == total)
		loop->cancel();
}
}  // namespace calls
// Every call is followed by a run of the handler in the loop of the watcher.
extern "C" void h_watcher_calls() {
	using namespace calls;
	RunLoop l;
	auto slim = std::move(l.stats);
	loop = &l;
	env::spurious = (int)vp_param("spurious", 1);
	int nth = (int)vp_param("threads", 2);
	per = (int)vp_param("per", 2);
	total = nth * per;
	Watcher w0([]() { handler(0); }), w1([]() { handler(1); });
	ws[0] = &w0;
	ws[1] = &w1;
	for (int t = 0; t < nth; t++)
		first[t] = (int)vp_choice((size_t)1 << per, "which");
	int th[3];
	for (int t = 0; t < nth; t++)
		th[t] = vp_thread_create(caller, (void *)(size_t)t);
	l.run();  // a lost wake-up leaves it waiting for ever
	vp_assert(c[0].seen + c[1].seen == total, "every call was followed by the handler");
	if (c[0].runs + c[1].runs < total) vp_cover("coalesced");
	if (c[0].runs && c[1].runs) vp_cover("both");
	for (int t = 0; t < nth; t++)
		vp_thread_join(th[t]);
	vp_cover("done");
}

namespace stops {
RunLoop *loop;
Watcher *w, *end;
Calls c;
int before, after, at_cancel_started;
bool cancelled, ended, destroyed, again;
int payload, got;
void caller(void *) {
	for (int i = 0; i < before + after; i++) {
		add(c.started);
		w->call();
		add(c.finished);
	}
	end->call();
}
void handler() {
	vp_assert(!destroyed, "a watcher that is gone");
	int s = plain(c.started);
	if (cancelled)
		vp_assert(s > at_cancel_started, "no callback after cancel, until called again");
	c.runs++;
	c.seen = s;
}
void stop() {
	w->cancel();
	cancelled = true;
	// a call which is under way belongs to the later ones
	at_cancel_started = plain(c.finished);
}
}  // namespace stops
// cancel in the loop while the other thread calls.
extern "C" void h_watcher_cancel() {
	using namespace stops;
	RunLoop l;
	auto slim = std::move(l.stats);
	loop = &l;
	env::spurious = (int)vp_param("spurious", 1);
	before = 1;
	after = (int)vp_param("calls", 2) - 1;
	Watcher ww(handler), we([]() {
		        ended = true;
		        loop->cancel();
	        });
	w = &ww;
	end = &we;
	std::unique_ptr<Idle> idle;
	int at = (int)vp_choice(3, "when");  // 0: at once, 1: idle handler, 2: second idle round
	if (at) {
		idle.reset(new Idle([&]() {
			if (--at == 0)
				stop();
			if (at <= 0)
				idle->set_active(false);
		}));
	}
	int th = vp_thread_create(caller, nullptr);
	if (!at)
		stop();
	l.run();
	vp_assert(ended, "the other watcher is called as well");
	int total = before + after;
	vp_assert(plain(c.finished) == total, "all calls were made");
	if (!cancelled)
		vp_assert(c.seen == total, "every call was followed by the handler");
	else if (at_cancel_started + 1 < total)
		vp_assert(c.seen == total, "calls after cancel are followed by the handler");
	if (cancelled && at_cancel_started == total) {
		vp_cover("cancelled after all calls");
	}
	if (cancelled && at_cancel_started == 0 && c.runs) vp_cover("cancelled first, called");
	if (cancelled && c.runs == 0) vp_cover("no callback");
	idle.reset();
	w->cancel();
	vp_thread_join(th);
	vp_cover("done");
}

namespace gone {
RunLoop *loop;
std::unique_ptr<Watcher> w;
Watcher *raw, *end;
Calls c;
bool ended, own;
int data, read_back;
std::atomic<int> over{0};
void caller(void *) {
	data = 7;
	raw->call();
	over = 1;
	if (!own)
		end->call();
}
void noise(void *) { end->call(); }
}  // namespace gone
// The handler destroys its watcher, or the owner does so when it knows that the calls are over.
extern "C" void h_watcher_destroy() {
	using namespace gone;
	RunLoop l;
	auto slim = std::move(l.stats);
	loop = &l;
	env::spurious = (int)vp_param("spurious", 2);
	own = vp_flag("in its own handler");
	bool inside = own;
	w.reset(new Watcher([inside]() {
		c.runs++;
		read_back = data;
		if (!inside)
			return;
		auto lp = loop;
		w.reset();
		lp->cancel();
	}));
	raw = w.get();
	Watcher we([inside]() {
		if (inside)
			return;  // the loop was woken up by somebody else
		ended = true;
		w.reset();
		loop->cancel();
	});
	end = &we;
	int th = vp_thread_create(caller, nullptr), th2 = own ? vp_thread_create(noise, nullptr) : -1;
	bool idle_end = !own && vp_flag("destroyed by an idle handler");
	std::unique_ptr<Idle> idle;
	if (idle_end)
		idle.reset(new Idle([&]() {
			vp_wait_nonzero((const int *)&over);
			if (over.load()) {
				w.reset();
				idle->set_active(false);
			}
		}));
	l.run();
	vp_assert(c.runs <= 1, "one callback for one call");
	if (own)
		vp_assert(c.runs == 1 && read_back == 7, "what was written before the call is seen");
	if (own) vp_cover("own");
	if (!own && c.runs) vp_cover("called before");
	if (own)
		vp_thread_join(th2);
	if (!own && !c.runs) vp_cover("destroyed before the callback");
	vp_thread_join(th);
	vp_cover("done");
}

namespace threads {
int mode;
bool ran[2], stopped[2];
std::atomic<int> cancels{0};
Thread *thr;
void fun(int k) {
	auto slim = std::move(RunLoop::current()->stats);
	ran[k] = true;
	Watcher w([]() {});
	if (mode == 1)
		w.call();
	if (mode == 2)
		return;  // ends by itself
	RunLoop::current()->run();
	if (mode != 3)
		stopped[k] = true;
}
void canceller(void *) { thr->cancel(); }
}  // namespace threads
// Threads with loops are created, cancelled from one or two threads and joined.
extern "C" void h_thread() {
	using namespace threads;
	RunLoop l;
	auto slim = std::move(l.stats);
	env::spurious = (int)vp_param("spurious", 1);
	mode = (int)vp_choice(4, "mode");
	int n = (int)vp_param("loops", 1);
	int other = (int)vp_choice(2, "second canceller");
	bool explicit_cancel = vp_flag("cancel first");
	{
		Thread t([]() { fun(0); });
		std::unique_ptr<Thread> t2;
		if (n > 1)
			t2.reset(new Thread([]() { fun(1); }));
		thr = &t;
		int th = -1;
		if (other)
			th = vp_thread_create(canceller, nullptr);
		if (explicit_cancel) {
			t.cancel();
			if (t2)
				t2->cancel();
		}
		if (mode == 3)
			l.cancel();
		if (other)
			vp_thread_join(th);
	}
	for (int k = 0; k < n; k++)
		vp_assert(ran[k] && (mode == 2 || mode == 3 || stopped[k]), "it ran, and was stopped before it was joined");
	vp_assert(env::open_count() == 2, "its loop is closed");
	l.cancel();
	l.run();
	vp_cover("done");
	if (other) vp_cover("cancelled twice");
}
