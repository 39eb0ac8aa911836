// C23: timers. The clock moves only when the loop sleeps (by what the loop asked for, later, or not at all).
#include "env.hpp"
#include <crab/crab.hpp>
#include <limits>
using namespace crab;
namespace {
typedef std::chrono::steady_clock::time_point TP;
typedef std::chrono::steady_clock::duration Dur;
enum { N = 3 };
struct T {
	std::unique_ptr<Timer> t;
	bool set = false;      // what the application asked for
	int64_t dl = 0;        // deadline, ns
	bool moved = false;    // moved to a later moment while pending
	int fired = 0;
};
T tms[N];
int n, sleeps, inner;
bool check_timeout;
int64_t base_ns() { return RunLoop::current()->now().time_since_epoch().count(); }
void set_timer(int i, int64_t delay) {  // in ns
	int64_t now = base_ns();
	int64_t dl = delay <= 0 ? now : (delay >= INT64_MAX - now ? INT64_MAX : now + delay);
	size_t how = vp_choice(2, "how");
	if (how == 0)
		tms[i].t->once(Dur(delay));
	else
		tms[i].t->once_at(TP(Dur(dl)));
	tms[i].moved = tms[i].set && (tms[i].moved || dl > tms[i].dl);
	tms[i].set = true;
	tms[i].dl = dl;
	vp_assert(tms[i].t->is_set(), "set");
}
int64_t span(const char *name) {  // 0 .. 68 s, of any size, with differences of single nanoseconds
	uint16_t hi = vp_sym<uint16_t>(name);
	uint8_t lo = vp_sym<uint8_t>("ns");
	return (int64_t)hi << 20 | lo;
}
int64_t some_delay() { return span("delay") - 3; }
void op() {
	size_t c = vp_choice(4, "op"), i = vp_choice((size_t)n, "timer");
	if (!tms[i].t)
		return;
	switch (c) {
	case 0: set_timer((int)i, some_delay()); break;
	case 1:
		tms[i].t->cancel();
		tms[i].set = false;
		vp_assert(!tms[i].t->is_set(), "not set after cancelling");
		break;
	case 2:
		tms[i].t.reset();
		tms[i].set = false;
		break;
	default:;
	}
}
void fire(int i) {
	int64_t now = env::now_ns;
	vp_assert(tms[i].set, "fires only when set");
	vp_assert(tms[i].dl <= now, "never early");
	tms[i].set = false;
	tms[i].fired++;
	vp_assert(!tms[i].t->is_set(), "not set when it fires");
	bool first = true;  // timers due and never postponed fire in the order of deadlines
	for (int k = 0; k < n; k++)
		first &= !(tms[k].set & !tms[k].moved & (tms[k].dl < tms[i].dl)) | tms[i].moved;
	vp_assert(first, "in the order of deadlines");
	for (int k = 0; k < n; k++)
		if (tms[k].t)
			vp_assert(tms[k].t->is_set() == tms[k].set, "the others keep their state");
	if (inner > 0) {
		inner--;
		op();
	}
}
void wait(int timeout) {
	int64_t now = env::now_ns;
	bool none_due = true;
	for (int k = 0; k < n; k++)
		none_due &= !(tms[k].set & (tms[k].dl <= now));
	vp_assert(none_due, "no sleep while a timer is due");
	if (check_timeout) {
		// a sleep of whole milliseconds ends at most one millisecond after the nearest deadline
		bool not_late = (timeout >= 1) & (timeout <= RunLoop::MAX_SLEEP_MS);
		for (int k = 0; k < n; k++)
			not_late &= !tms[k].set | (tms[k].dl - now > (int64_t)RunLoop::MAX_SLEEP_MS * 1000000) | ((int64_t)timeout * 1000000 - 1000000 <= tms[k].dl - now);
		vp_assert(not_late, "no sleep past the nearest deadline and no spinning");
	}
	bool any = false;
	for (int k = 0; k < n; k++)
		any |= tms[k].set;
	if (!any || sleeps-- <= 0) {
		RunLoop::current()->cancel();
		return;
	}
	env::now_ns += span("slept");  // woken early, in time or late
}
}  // namespace
extern "C" void h_timers() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	n = (int)vp_param("timers", 2);
	inner = (int)vp_param("inner", 1);
	sleeps = (int)vp_param("sleeps", 2);
	check_timeout = vp_param("timeout", 0) != 0;
	env::interrupts = (int)vp_param("interrupts", 0);
	env::on_wait = wait;
	for (int i = 0; i < n; i++) {
		tms[i].t.reset(new Timer([i]() { fire(i); }));
		vp_assert(!tms[i].t->is_set(), "not set at first");
	}
	for (int i = 0; i < n; i++)
		set_timer(i, some_delay());
	for (int k = (int)vp_param("ops", 1); k > 0; k--)
		op();
	loop.run();
	int f = 0;
	for (int i = 0; i < n; i++)
		f += tms[i].fired;
	if (f >= n) vp_cover("all fired");
	if (inner == 0) vp_cover("operation within a callback");
	vp_cover("done");
}

// the shape of the deadline: seconds as a floating point number, extreme durations, the longest sleep
extern "C" void h_timer_values() {
	env::now_ns = 1000000007LL;
	RunLoop loop;
	auto slim = std::move(loop.stats);
	static int64_t dl, max_to;
	static bool fired, exact;
	static int waits;
	Timer t([]() {
		fired = true;
		vp_assert(env::now_ns >= dl, "never early");
		RunLoop::current()->cancel();
	});
	int64_t now = loop.now().time_since_epoch().count();
	vp_assert(now == env::now_ns, "time of the loop");
	static const double D[] = {0, -1, 1e-9, 0.0005, 0.001, 0.0015, 1.0, 1.5, 1799.9, 1800, 1800.1, 1e6, 9e9, 9.3e9, 1e18, 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min()};
	if (vp_flag("double")) {
		double d = D[vp_choice(sizeof(D) / sizeof(D[0]), "d")];
		t.once(d);
		exact = true;
		if (d <= 0)
			dl = now;
		else if (d * 1e9 >= (double)(INT64_MAX - now))
			dl = INT64_MAX;
		else
			dl = now + (int64_t)(d * 1e9);
	} else {
		static const int64_t MSS[] = {0, 1, 2, 999, 65535, 1799998, 1799999, 1800000, 1800001, 2147483647, 2147483648LL, 4294967295LL};
		size_t k = vp_choice(sizeof(MSS) / sizeof(MSS[0]) + 1, "ms");
		int64_t d;
		if (k < sizeof(MSS) / sizeof(MSS[0])) {
			uint32_t r = vp_sym<uint32_t>("ns");
			vp_assume(r < 1000000);
			d = MSS[k] * 1000000 + r;
			exact = true;
		} else {  // about any power of two
			d = ((int64_t)1 << vp_choice(63, "bits")) - 1;
			d = vp_flag("negative") ? -d - 1 - vp_sym<uint8_t>("few") % 2 : (d < INT64_MAX / 2 ? d + vp_sym<uint8_t>("few") : d);
			d = vp_flag("end") ? INT64_MAX - now - 2 + vp_sym<uint8_t>("few") % 4 : d;
		}
		t.once(Dur(d));
		dl = d <= 0 ? now : (d >= INT64_MAX - now ? INT64_MAX : now + d);
	}
	env::on_wait = [](int timeout) {
		int64_t left = dl - env::now_ns;
		vp_assert(left > 0, "no sleep while due");
		const int64_t MS = 1000000, MAX = (int64_t)RunLoop::MAX_SLEEP_MS;
		vp_assert(timeout >= 1 && timeout <= MAX, "between 1 ms and half an hour");
		if (!exact)
			;
		else if (left < MAX * MS)
			vp_assert((timeout - 1) * MS <= left && timeout * MS > left, "until the deadline");
		else
			vp_assert(timeout == MAX, "as long as possible");
		vp_cover("sleeps");
		if (++waits == 2) {
			RunLoop::current()->cancel();
			return;
		}
		if (left < MAX * MS && left < INT64_MAX - env::now_ns - MS)
			env::now_ns += (int64_t)timeout * MS;
	};
	loop.run();
	if (fired) vp_cover("fired");
}
