// C42: the statistics of the run loop.
#include "env.hpp"
#include <crab/crab.hpp>
#include <sstream>
using namespace crab;
namespace {
int udp_result;       // of the next call: bytes, or -errno
size_t udp_asked;
size_t waits, ready;  // calls of epoll_wait and what they gave
ssize_t udp_call(size_t n) {
	udp_asked = n;
	if (udp_result < 0)
		return env::err(-udp_result);
	return (ssize_t)std::min((size_t)udp_result, n);
}
}  // namespace
extern "C" ssize_t sendto(int, const void *, size_t n, int, const struct sockaddr *, socklen_t) {
	if (udp_result >= 0)
		udp_result = 1 << 20;  // datagrams are sent whole
	return udp_call(n);
}
extern "C" ssize_t recvfrom(int, void *p, size_t n, int, struct sockaddr *, socklen_t *) {
	ssize_t r = udp_call(n);
	if (r > 0)
		memset(p, 'd', (size_t)r);
	return r;
}
extern "C" void h_stats() {
	RunLoop loop;
	vp_assert(loop.stats.get_records().empty() && !loop.stats.RECV_count && !loop.stats.EPOLL_count, "nothing to begin with");
	loop.stats = PerformanceStats();
	env::connect_now = true;
	TCPSocket s([]() {});
	UDPTransmitter t(Address("10.0.0.2", 5), []() {});
	vp_assert(s.connect(Address("10.0.0.1", 80)), "connects");
	int sfd = env::find(env::TCP);
	env::on_wait = [](int) { RunLoop::current()->cancel(); };
	loop.run();  // everything is ready now
	size_t rc = loop.stats.RECV_count, rs = 0, sc = loop.stats.SEND_count, ss = 0, urc = 0, urs = 0, usc = 0, uss = 0;
	vp_assert(!rc && !sc && !loop.stats.RECV_size && !loop.stats.SEND_size, "nothing was moved");
	uint8_t b[16] = {};
	std::string in;
	for (int i = (int)vp_param("steps", 3); i > 0; i--) {
		size_t n = vp_concretize(vp_sym<uint8_t>("n") & 3), records = loop.stats.get_records().size(), moved = 0;
		size_t op = vp_choice(6, "operation");
		bool could = false;
		int k = (int)vp_concretize(vp_sym<uint8_t>("result") & 3);
		switch (op) {
		case 0:
		case 1:
			vp_assume(n > 0);
			if (k && !env::at(sfd).eof)
				env::arrive(sfd, std::string((size_t)k, 'a'));
			loop.run();
			moved = op == 0 ? s.read_some(b, n) : s.read_some(b, n, b + 8, 1);
			could = loop.stats.RECV_count != rc;
			vp_assert(could || !moved, "what is moved is counted");
			rc += could;
			rs += moved;
			break;
		case 2:
		case 3:
			vp_assume(n > 0);
			env::at(sfd).space = (size_t)k;
			if (op == 2)
				moved = s.write_some(b, n);
			else {
				std::deque<Buffer> q;
				for (size_t j = 0; j < 2; j++) {
					q.emplace_back(4);
					q.back().write("abcd", j ? 1 : n);
				}
				moved = s.write_some(q);
			}
			could = loop.stats.SEND_count != sc;
			vp_assert(could || !moved, "what is moved is counted");
			sc += could;
			ss += moved;
			break;
		case 4: {
			static const int R[] = {0, 2, 5, -EAGAIN};
			udp_result = R[k];
			auto r = t.read_datagram(b, n + 1);
			moved = r ? *r : 0;
			could = loop.stats.UDP_RECV_count != urc;
			vp_assert(could || !r, "what is moved is counted");
			urc += could;
			urs += moved;
			break;
		}
		default: {
			static const int R[] = {0, 0, -EAGAIN, -ECONNREFUSED};
			udp_result = R[k];
			bool ok = t.write_datagram(b, n);
			moved = ok && udp_result >= 0 ? n : 0;
			could = loop.stats.UDP_SEND_count != usc;
			vp_assert(could || !ok, "what is moved is counted");
			usc += could;
			uss += moved;
		}
		}
		vp_assert((loop.stats.RECV_count == rc) & (loop.stats.RECV_size == rs) & (loop.stats.SEND_count == sc) & (loop.stats.SEND_size == ss), "calls and bytes of TCP");
		vp_assert((loop.stats.UDP_RECV_count == urc) & (loop.stats.UDP_RECV_size == urs) & (loop.stats.UDP_SEND_count == usc) & (loop.stats.UDP_SEND_size == uss), "calls and bytes of UDP");
		const auto &rec = loop.stats.get_records();
		vp_assert(rec.size() >= records, "records are kept");
		if (could) {
			vp_assert(rec.size() >= records + 2, "a record before the call and one after");
			vp_assert(rec.back().tm == steady_clock::now() && rec.back().event_type && rec[rec.size() - 2].event_type, "with the time");
			vp_assert(rec.back().fd == rec[rec.size() - 2].fd && (moved == 0 ? rec.back().count <= 0 : rec.back().count == (int)moved), "and what it moved");
		}
		if (moved) vp_cover("moved");
		if (could && !moved) vp_cover("nothing moved");
		env::now_ns += 1000;
	}
	vp_cover("done");
}
// Records of the user: printed with their times, and cleared; not more than the limit.
extern "C" void h_stats_print() {
	PerformanceStats st;
	size_t n = 1 + vp_choice(2, "records");
	int64_t at[2];
	int count[2];
	static const int FRACTIONS[] = {100, 1000, 1700000, 3921500};
	for (size_t i = 0; i < n; i++) {
		env::now_ns = (int64_t)vp_choice(3, "seconds") * 7000000000LL + (int64_t)vp_sym<uint8_t>("fraction") * FRACTIONS[vp_choice(4, "scale")];
		at[i] = env::now_ns;
		count[i] = vp_sym<int8_t>("count");
		st.push_record("event", 3, count[i]);
	}
	std::ostringstream os;
	st.print_records(os);
	std::string out = os.str();
	size_t pos = 0;
	for (size_t i = 0; i < n; i++) {
		size_t e = out.find('\n', pos);
		vp_assert(e != std::string::npos && out[pos] == '*' && out[pos + 1] == ' ', "a line each");
		std::string l = out.substr(pos + 2, e - pos - 2);
		pos = e + 1;
		size_t dot = l.find('.'), sp = l.find(' ');
		vp_assert(dot != std::string::npos && sp != std::string::npos && sp == dot + 7, "seconds with six decimals");
		int64_t v = 0;
		for (size_t j = 0; j < sp; j++)
			if (j != dot)
				v = v * 10 + (l[j] - '0');
		vp_assert(v == at[i] / 1000, "the time");
		vp_assert(l.compare(sp, 7, " event ") == 0, "the event");
		int c = 0;
		bool neg = l[sp + 7] == '-';
		for (size_t j = sp + 7 + neg; j < l.size(); j++)
			c = c * 10 + (l[j] - '0');
		vp_assert((neg ? -c : c) == count[i], "and its number");
	}
	vp_assert(out.substr(pos) == "---- total records " + std::to_string(n) + "\n", "and the total");
	vp_assert(st.get_records().empty(), "printed records are gone");
	vp_cover("done");
}
extern "C" void h_stats_limit() {
	PerformanceStats st;
	const PerformanceRecord *data = nullptr;
	size_t more = vp_choice(3, "more");
	for (size_t i = 0; i < PerformanceStats::MAX_PERFORMANCE_RECORDS - 1 + more; i++) {
		st.push_record("event", 1, (int)i);
		if (i == 0)
			data = st.get_records().data();
	}
	vp_assert(st.get_records().data() == data, "recording never allocates");
	size_t n = st.get_records().size();
	vp_assert(n == PerformanceStats::MAX_PERFORMANCE_RECORDS - (more == 0), "up to the limit");
	vp_assert(st.get_records()[n - 1].count == (int)n - 1 && st.get_records()[0].count == 0, "the first are kept");
	st.clear_records();
	st.push_record("event", 1, 5);
	vp_assert(st.get_records().size() == 1 && st.get_records()[0].count == 5, "and then anew");
	vp_cover("done");
}
