// C22: BufferedTCPSocket sends what was written, in order, once, under any partial writes.
#include "env.hpp"
#include <crab/crab.hpp>
using namespace crab;
namespace {
BufferedTCPSocket *bs;
int sfd, steps, ops, closed_seen;
bool shutdown_asked, want_drained, stop_world, dead;
std::string want;
char data[23];  // of any value
char next_byte(size_t i) { return data[i % 23]; }
std::string piece(size_t n) {
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++)
		s[i] = next_byte(want.size() + i);
	return s;
}
bool prefix_ok() {
	const std::string &o = env::at(sfd).out;
	if (o.size() > want.size())
		return false;
	bool same = true;
	for (size_t i = 0; i < o.size(); i++)
		same &= o[i] == next_byte(i);
	return same;
}
void check() {
	env::Fd &f = env::at(sfd);
	vp_assert(f.out.size() <= want.size(), "nothing sent that was not written");
	if (f.open && bs->is_open())
		vp_assert(bs->get_total_buffer_size() == want.size() - f.out.size(), "what is not sent is buffered, and counted");
	if (f.shut_wr)
		vp_assert(shutdown_asked && f.out.size() == want.size(), "shut down only when asked and all was sent");
	if (!bs->is_open())
		vp_assert(bs->get_total_buffer_size() == 0, "nothing buffered for a closed socket");
}
const size_t SIZES[] = {1, 2, 0, 1023, 1024, 3000};
void op() {
	env::Fd &f = env::at(sfd);
	size_t kind = vp_choice(6, "op");
	ops--;
	bool open = bs->is_open() && f.open;
	if (kind == 5) {
		bs->write_shutdown();
		shutdown_asked |= bs->is_open();
		check();
		return;
	}
	size_t n = SIZES[vp_choice((size_t)vp_param("sizes", 3), "size")];
	std::string s = piece(n);
	bool counts = open && !shutdown_asked;
	if (kind == 4) {
		bool empty = bs->get_total_buffer_size() == 0;
		size_t before = f.out.size();
		size_t w = bs->write_some(s.data(), n);
		vp_assert(w <= n && w == f.out.size() - before, "as many as reported");
		if (!empty || shutdown_asked)
			vp_assert(w == 0, "nothing overtakes buffered data");
		want += s.substr(0, w);
	} else {
		size_t before = f.out.size();
		if (counts)
			want += s;
		if (kind == 0)
			bs->write(s.data(), n);
		else if (kind == 1)
			bs->write(std::string(s));
		else if (kind == 2)
			bs->buffer(s.data(), n);
		else
			bs->buffer(std::string(s));
		if (kind >= 2)
			vp_assert(f.out.size() == before, "buffering sends nothing");
		else if (counts && f.open && f.connected && bs->can_write())
			vp_assert(f.out.size() == want.size() || f.space == 0, "sent as far as there is space");
	}
	if (bs->is_open() && env::at(sfd).open && bs->get_total_buffer_size())
		want_drained = true;
	check();
}
void handler() {
	check();
	if (!bs->is_open()) {
		closed_seen++;
		return;
	}
	if (bs->get_total_buffer_size() == 0)
		want_drained = false;
	uint8_t b[4];
	while (size_t got = bs->read_some(b, 4))
		vp_assert(got <= 4 && !shutdown_asked, "nothing is delivered after shutdown was asked");
	if (ops > 0 && bs->is_open() && vp_flag("more"))
		op();
}
void world(int timeout) {
	env::Fd &f = env::at(sfd);
	while (steps > 0 && f.open) {
		size_t c = vp_choice(5, "world");
		if (c == 4)
			break;
		steps--;
		if (c == 0 && f.connecting)
			env::connects(sfd);
		else if (c == 0)
			env::frees(sfd, 1);
		else if (c == 1)
			env::frees(sfd, 1025);
		else if (c == 2 && !f.eof) {
			if (f.connecting)
				env::fails(sfd, env::some_error());
			else if (vp_flag("reset"))
				env::fails(sfd, env::some_error());
			else
				env::peer_closes(sfd);
		} else if (c == 3 && f.connected && !f.eof)
			env::arrive(sfd, "xy");
	}
	if (env::any_ready())
		return;
	if (steps > 0 && f.open)
		vp_assume(false);
	if (timeout > 0 && timeout < 60000) {  // the shutdown timer
		env::now_ns += (int64_t)timeout * 1000000;
		return;
	}
	RunLoop::current()->cancel();
}
}  // namespace
// Several writes while nothing can be sent: the chunks are merged and kept apart in every way, and sent in order.
extern "C" void h_merging() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	vp_symbolic(data, sizeof(data), "data");
	static const size_t N[] = {2, 1024, 0, 1023, 3000};
	env::space0 = vp_flag("full") ? 0 : 1;
	env::connect_now = true;
	env::on_wait = [](int) {
		if (!env::any_ready())
			RunLoop::current()->cancel();
	};
	BufferedTCPSocket s([]() {});
	bs = &s;
	vp_assert(s.connect(Address("127.0.0.1", 80)), "connecting");
	sfd = env::find(env::TCP);
	loop.run();
	std::string p = piece(3);
	want += p;
	s.write(p.data(), p.size());
	check();
	int count = (int)vp_param("ops", 5);
	size_t sizes = (size_t)vp_param("sizes", 2);
	size_t kinds = (size_t)vp_param("kinds", 2);
	for (int i = 0; i < count; ++i) {
		size_t c = vp_choice(kinds * sizes, "op");
		size_t n = N[c % sizes], kind = c / sizes;
		p = piece(n);
		want += p;
		if (kind == 0)
			s.buffer(std::move(p));
		else if (kind == 1)
			s.buffer(p.data(), n);
		else if (kind == 2)
			s.write(std::move(p));
		else
			s.write(p.data(), n);
		check();
	}
	if (vp_flag("in two")) {
		env::frees(sfd, 2000);
		loop.run();
		check();
		p = piece(5);
		want += p;
		s.write(std::move(p));
	}
	env::frees(sfd, 100000);
	loop.run();
	check();
	vp_assert(env::at(sfd).out.size() == want.size() && prefix_ok(), "all the bytes written, in order");
	vp_cover("sent");
}
extern "C" void h_buffered() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	vp_symbolic(data, sizeof(data), "data");
	steps = (int)vp_param("steps", 3);
	ops = (int)vp_param("ops", 3);
	env::space0 = vp_choice(3, "space0");
	env::connect_now = vp_flag("now");
	env::on_wait = world;
	BufferedTCPSocket s(handler);
	bs = &s;
	vp_assert(!s.is_open() && s.get_total_buffer_size() == 0, "closed at first");
	s.write("lost", 4);
	vp_assert(s.connect(Address("127.0.0.1", 80)), "connecting");
	sfd = env::find(env::TCP);
	while (ops > 0 && vp_flag("now op"))
		op();
	int64_t t0 = env::now_ns;
	loop.run();
	vp_assert(prefix_ok(), "the bytes written, in order");
	env::Fd &f = env::at(sfd);
	if (f.open) {
		vp_assert(closed_seen == 0 && s.is_open(), "open");
		vp_assert(!f.err, "a failed connection is noticed");
		if (!shutdown_asked)  // after it, the end is noticed once everything is sent
			vp_assert(!f.eof, "an ended connection is noticed");
		vp_assert(f.space == 0 || !f.connected || s.get_total_buffer_size() == 0 || want.size() > f.out.size() , "sizes");
		vp_assert(!shutdown_asked || f.out.size() < want.size(), "shut down and closed when all was sent");
		if (f.connected && f.space)
			vp_assert(f.nospace == false, "space is noticed");
		vp_cover("opt:stays open");
	} else {
		vp_assert(closed_seen == 1, "the end is reported once");
		if (f.shut_wr) {
			vp_assert(f.out.size() == want.size(), "all was sent before the end");
			vp_cover("shut down");
		}
		vp_assert(s.get_total_buffer_size() == 0, "nothing left");
	}
	if (f.out.size() == want.size() && f.out.size() > 1) vp_cover("all sent");
	bool was_asked = shutdown_asked;
	// used again
	env::on_wait = [](int) {
		if (!env::any_ready())
			RunLoop::current()->cancel();
	};
	env::space0 = 10;
	env::connect_now = true;
	s.close();
	vp_assert(!s.is_open() && s.get_total_buffer_size() == 0 && env::open_count(env::TCP) == 0, "closed");
	ops = 0;
	s.set_handler([]() {});
	vp_assert(s.connect(Address("127.0.0.1", 80)), "connecting again");
	loop.run();
	s.write("again", 5);
	vp_assert(env::at(env::find(env::TCP, 1)).out == "again" && s.get_total_buffer_size() == 0, "nothing of the past is sent");
	env::now_ns = t0 + 100000000000LL;
	loop.run();
	vp_assert(s.is_open() && !env::at(env::find(env::TCP, 1)).shut_wr, "no shutdown of the past is done");
	if (was_asked) vp_cover("after shutdown");
	vp_cover("done");
}
