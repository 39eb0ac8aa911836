// C25: the HTTP server. One connection (h_server), several (h_server_many).
#include "env.hpp"
#include <crab/crab.hpp>
using namespace crab;
namespace {
struct Req {
	const char *text;
	const char *method, *path, *body;
	bool good, close;
};
const Req REQS[] = {
    {"GET /a HTTP/1.1\r\n\r\n", "GET", "/a", "", true, false},
    {"POST /b HTTP/1.1\r\nContent-Length: 2\r\n\r\nxy", "POST", "/b", "xy", true, false},
    {"GET /c HTTP/1.1\r\nConnection: close\r\n\r\n", "GET", "/c", "", true, true},
    {"GET /d HTTP/1.1\r\nContent-Length: 2x\r\n\r\n", "", "", "", false, false},
    {"PUT /e HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\n0\r\n\r\n0\r\n\r\n", "PUT", "/e", "0\r\n", true, false},
    {"GET /f HTTP/1.0\r\n\r\n", "GET", "/f", "", true, true},
    {"GET /g HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "GET", "/g", "", true, false},
    {"G@T /h HTTP/1.1\r\n\r\n", "", "", "", false, false},
    {"HEAD /i HTTP/1.1\r\n\r\n", "HEAD", "/i", "", true, false},
};
http::Server *srv;
int lfd, cfd = -1, nreq, seq[4];
size_t cuts;
bool anywhere;
std::string stream;
size_t delivered;
std::string texts[4], bodies[4], resp_bytes;
// what the application did
int handled, pending = -1, answered, dropped, bad_at, close_at;
std::string want_status[8], want_body[8];
http::Client *postponed;
Timer *later;
int frees_left;
bool may_close;

void reply(http::Client *who, int k) {
	http::Response r;
	r.header.status = 200;
	r.set_body(std::string(want_body[k]));
	answered++;
	who->write(std::move(r));
}
size_t chunk_at;
void chunk_on(http::Client *who, int k) {
	while (who->is_open() && chunk_at <= want_body[k].size() && who->can_write()) {
		if (chunk_at == want_body[k].size()) {
			chunk_at++;
			who->write_last_chunk();
			return;
		}
		who->write(want_body[k].data() + chunk_at++, 1);
	}
}
void on_request(http::Client *who, http::Request &&r) {
	int k = handled++;
	vp_assert(k < nreq && pending < 0, "a request at a time, each once");
	const Req &q = REQS[seq[k]];
	vp_assert(q.good && k < bad_at && k <= close_at, "nothing is handled after malformed input or a closing request");
	vp_assert(r.header.method == q.method && r.header.path == q.path && r.body == bodies[k], "the request as it was sent, in order");
	want_status[k] = "200";
	want_body[k] = std::string(1 + (size_t)k * 2, resp_bytes[(size_t)k]);
	switch (vp_choice((size_t)vp_param("behaviours", 3), "behaviour")) {
	case 0: reply(who, k); break;
	case 1:
		pending = k;
		postponed = who;
		who->postpone_response([]() {
			vp_assert(pending >= 0, "told of the disconnection once");
			pending = -1;
			postponed = nullptr;
			dropped++;
			later->cancel();
		});
		later->once(0.001);
		break;
	case 2:
		want_status[k] = "422";
		want_body[k] = "oops";
		answered++;
		throw std::runtime_error("oops");
	case 3: {  // streamed with known length
		http::ResponseHeader h;
		h.status = 200;
		h.content_length = want_body[k].size();
		answered++;
		who->start_write_stream(h, [who, k]() {
			if (who->is_open() && who->get_body_position() < want_body[k].size())
				who->write(want_body[k].data() + who->get_body_position(), 1);
		});
		if (who->get_body_position() < want_body[k].size()) {
			std::string rest = want_body[k].substr((size_t)who->get_body_position());
			who->write(rest.data(), rest.size());
		}
		break;
	}
	case 4:
		want_status[k] = "401";
		want_body[k] = "";
		answered++;
		throw http::ErrorAuthorization("realm");
	case 5:
		reply(who, k);
		throw std::runtime_error("late");
	case 6:
		reply(who, k);
		throw http::ErrorAuthorization("late");
	case 8:
		want_status[k] = "422";
		want_body[k] = "Attempt to upgrade non-upgradable connection";
		answered++;
		who->web_socket_upgrade([](http::WebMessage &&) { vp_assert(false, "no session was asked for"); });
		break;
	case 9:
		want_status[k] = "422";
		want_body[k] = "changed my mind";
		answered++;
		who->postpone_response([]() { vp_assert(false, "it was answered"); });
		throw std::runtime_error("changed my mind");
	case 7: {  // in chunks, at once or streamed
		answered++;
		if (r.header.http_version_minor == 0 && close_at > k)  // knows no chunks, so the end of the connection is that of the body
			close_at = k;
		if (!vp_flag("streamed")) {
			http::Response res;
			res.header.status = 200;
			res.header.transfer_encoding_chunked = true;
			if (vp_flag("length too"))  // chunks take its place
				res.set_body(std::string(want_body[k]));
			else
				res.body = want_body[k];
			who->write(std::move(res));
			break;
		}
		http::ResponseHeader h;
		h.status = 200;
		h.transfer_encoding_chunked = true;
		chunk_at = 0;
		who->start_write_stream(h, [who, k]() { chunk_on(who, k); });
		chunk_on(who, k);
		break;
	}
	}
}
size_t boundary(size_t i) {
	size_t n = 0;
	for (size_t k = 0; k <= i && k < (size_t)nreq; k++)
		n += texts[k].size();
	return n;
}
void deliver() {
	size_t n = stream.size() - delivered;
	if (cuts > 0) {
		cuts--;
		size_t b = 0;
		for (size_t i = 0; i < (size_t)nreq; i++)
			if (boundary(i) > delivered) {
				b = boundary(i) - delivered;
				break;
			}
		size_t c[] = {n, 1, b, b - 1, b + 1, b > 3 ? b - 3 : b};
		if (anywhere)
			n = 1 + vp_choice(n, "cut");
		else
			n = std::min(n, std::max<size_t>(1, c[vp_choice(6, "cut")]));
	}
	env::arrive(cfd, stream.substr(delivered, n));
	delivered += n;
}
void world(int timeout) {
#ifdef TRACE
	if (cfd >= 0) fprintf(stderr, "wait %d del %zu/%zu space %zu nospace %d ready %x out %zu handled %d\n", timeout, delivered, stream.size(), env::at(cfd).space, env::at(cfd).nospace, env::at(cfd).ready, env::at(cfd).out.size(), handled);
#endif
	cfd = env::find(env::TCP);
	if (cfd < 0) {
		if (env::at(lfd).backlog == 0) {
			env::at(lfd).backlog = 1;
			env::edge(lfd, EPOLLIN);
		} else
			vp_assert(env::any_ready(), "a waiting connection is noticed");
		return;
	}
	env::Fd &f = env::at(cfd);
	if (f.open && delivered < stream.size() && !(timeout < 1000 && vp_flag("timer first")))
		deliver();
	if (f.open && may_close && !f.eof && vp_flag("peer closes")) {
		may_close = false;
		if (vp_flag("reset"))
			env::fails(cfd, env::some_error());
		else
			env::peer_closes(cfd);
	}
	if (env::any_ready())
		return;
	if (f.open && f.space == 0) {  // the peer reads
		env::frees(cfd, frees_left-- > 0 ? 1 + vp_choice(2, "frees") * 60 : 1 << 20);
		if (env::any_ready())
			return;
	}
	if (timeout < 60000 && f.open && timeout > 0) {
		env::now_ns += (int64_t)timeout * 1000000;
		return;
	}
	RunLoop::current()->cancel();
}
// takes one response off the text; independent of the library's parser
bool take(const std::string &o, size_t &pos, std::string &status, std::string &body, bool &close, bool head) {
	size_t e = o.find("\r\n\r\n", pos);
	if (e == std::string::npos)
		return false;
	std::string h = o.substr(pos, e - pos);
	if (h.compare(0, 7, "HTTP/1.") != 0)
		return false;
	status = h.substr(9, 3);
	for (auto &c : h)
		if (c >= 'A' && c <= 'Z')
			c = (char)(c + 32);
	size_t n = 0, cl = h.find("content-length: ");
	bool v10 = h.compare(0, 8, "http/1.0") == 0;
	close = h.find("connection: close") != std::string::npos || (v10 && h.find("connection: keep-alive") == std::string::npos);
	body.clear();
	if (head) {  // never has a body, whatever its fields say
		pos = e + 4;
		return true;
	}
	if (h.find("transfer-encoding: chunked") != std::string::npos) {
		vp_assert(!v10, "no chunks for those who do not know them");
		size_t at = e + 4;
		for (;;) {
			size_t len = 0;
			if (at + 5 > o.size() || o[at] < '0' || o[at] > '9' || o[at + 1] != '\r' || o[at + 2] != '\n')
				return false;
			len = (size_t)(o[at] - '0');
			at += 3;
			if (at + len + 2 > o.size() || o[at + len] != '\r' || o[at + len + 1] != '\n')
				return false;
			body += o.substr(at, len);
			at += len + 2;
			if (len == 0) {
				vp_assert(cl == std::string::npos, "one framing");
				pos = at;
				return true;
			}
		}
	}
	if (cl == std::string::npos) {
		if (!v10 || !close)
			return false;
		body = o.substr(e + 4);
		pos = o.size();
		return true;
	}
	for (size_t i = cl + 16; i < h.size() && h[i] >= '0' && h[i] <= '9'; i++)
		n = n * 10 + (size_t)(h[i] - '0');
	if (o.size() < e + 4 + n)
		return false;
	body = o.substr(e + 4, n);
	pos = e + 4 + n;
	return true;
}
}  // namespace
// A client that sends a request which fills the buffer of the connection exactly (or nearly), and goes away.
namespace {
int full_requests;
size_t full_behaviour;
}
extern "C" void h_server_full() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	size_t total = 8192 * (1 + vp_choice(2, "buffers")) - 1 + vp_choice(3, "total");
	std::string head = "POST /b HTTP/1.1\r\nContent-Length: " + std::to_string(total) + "\r\n\r\n";
	size_t body = total - head.size();
	head = "POST /b HTTP/1.1\r\nContent-Length: " + std::to_string(body) + "\r\n\r\n";
	std::string all = head + std::string(body, 'x');
	if (vp_flag("and another"))
		all += "GET /x HTTP/1.1\r\n\r\n";
	size_t shutdown = vp_choice(3, "stays, closes, resets");
	full_behaviour = vp_choice(3, "behaviour");
	http::Server s(Address("0.0.0.0", 80));
	std::vector<http::Client *> waiting;
	bool told = false;
	s.r_handler = [&](http::Client *who, http::Request &&r) {
		full_requests++;
		if (full_requests == 1)
			vp_assert(r.body.size() == body, "the whole body");
		if (full_behaviour == 0 || full_requests == 2)
			who->write(http::Response::simple_text(200, "hello"));
		else if (full_behaviour == 1)
			throw std::runtime_error("oops");
		else
			who->postpone_response([&]() { told = true; });
	};
	lfd = env::find(env::LISTEN);
	stream = all;
	static size_t how;
	how = shutdown;
	env::on_wait = [](int timeout) {
		cfd = env::find(env::TCP);
		if (cfd < 0) {
			if (env::at(lfd).backlog)
				return;
			env::at(lfd).backlog = 1;
			env::edge(lfd, EPOLLIN);
			return;
		}
		if (!delivered) {
			delivered = 1;
			env::arrive(cfd, stream);
			if (how == 1)
				env::peer_closes(cfd);
			if (how == 2) {
				env::at(cfd).eof = true;
				env::edge(cfd, EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP);
			}
			return;
		}
		if (!env::any_ready() && timeout > 0)
			RunLoop::current()->cancel();
	};
	loop.run();
	env::Fd &f = env::at(cfd);
	if (shutdown == 0) {
		bool second = all.size() > total && full_behaviour != 2;
		vp_assert(f.open && full_requests == 1 + (int)second, "the requests are handled");
		vp_assert(full_behaviour == 2 || f.out.find(full_behaviour == 0 ? "hello" : "oops") != std::string::npos, "and answered");
		vp_cover("served");
	} else {
		// the end of the stream is not looked at while further requests wait behind the one being handled
		vp_assert(!f.open || (full_behaviour == 2 && all.size() > total), "gone");
		vp_assert(told == (!f.open && full_behaviour == 2 && full_requests == 1), "told of the disconnection");
		if (full_requests) vp_cover("handled while closing");
		vp_cover("gone");
	}
}
extern "C" void h_server() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	nreq = (int)vp_param("requests", 2);
	cuts = (size_t)vp_param("cuts", 2);
	may_close = vp_param("peer_closes", 0) != 0;
	size_t kinds = (size_t)vp_param("kinds", 5);
	bad_at = close_at = nreq;
	for (int i = 0; i < nreq; i++) {
		seq[i] = (int)vp_choice(kinds, "request");
		if (vp_param("heads", 0) && seq[i] >= 1 && seq[i] <= 2)
			seq[i] = seq[i] == 2 ? 8 : 6;
		texts[i] = REQS[seq[i]].text;
		bodies[i] = REQS[seq[i]].body;
		for (size_t b = 0; b < bodies[i].size(); b++) {
			if (seq[i] == 4)
				texts[i][texts[i].size() - 10 + b] = bodies[i][b] = (char)vp_sym<uint8_t>("body");
			else
				texts[i][texts[i].size() - bodies[i].size() + b] = bodies[i][b] = (char)vp_sym<uint8_t>("body");
		}
		stream += texts[i];
		if (!REQS[seq[i]].good && bad_at == nreq)
			bad_at = i;
		if (REQS[seq[i]].good && REQS[seq[i]].close && close_at == nreq && bad_at == nreq)
			close_at = i;
	}
	for (int i = 0; i < nreq; i++)
		resp_bytes += (char)vp_sym<uint8_t>("response");
	anywhere = vp_param("anywhere", 0) != 0;
	frees_left = 1;
	if (vp_param("slow", 0))
		env::space0 = vp_choice(2, "space0") * 30;
	http::Server s(Address("0.0.0.0", 80));
	srv = &s;
	s.r_handler = on_request;
	Timer l([]() {
		if (pending >= 0) {
			int k = pending;
			pending = -1;
			reply(postponed, k);
		}
	});
	later = &l;
	lfd = env::find(env::LISTEN);
	bool gone = may_close;
	env::on_wait = world;
	loop.run();
	gone = gone && !may_close;
	int expect = std::min(std::min(nreq, bad_at), close_at + 1);  // requests to be served
	vp_assert(handled == answered + dropped && pending < 0, "each request handled is answered or reported as dropped");
	env::Fd &f = env::at(cfd);
	size_t pos = 0;
	std::string st, body;
	int got = 0;
	bool close = false;
	while (take(f.out, pos, st, body, close, got < nreq && seq[got] == 8)) {
		vp_assert(got < answered, "no response nobody gave");
		vp_assert(st == want_status[got] && body == (seq[got] == 8 ? "" : want_body[got]), "the responses in order, complete");
		bool last = got == close_at;
		vp_assert(close == last, "the response tells whether the connection stays");
		got++;
	}
	if (!gone) {
		vp_assert(handled == expect, "every request is handled, however it arrives");
		vp_assert(got == expect && pos == f.out.size(), "every response is sent");
		if (bad_at < nreq || close_at < nreq)
			vp_assert((f.shut_wr | (env::space0 == 0)) & !f.open, "closed after malformed input or a closing request");
		else
			vp_assert(f.open && !f.shut_wr, "the connection stays");
		if (expect == nreq && nreq > 1) vp_cover("all served");
		if (expect < nreq) vp_cover("closed early");
	} else {
		vp_assert(!f.open, "a disconnected client is let go");
		vp_cover("opt:disconnected");
		if (dropped) vp_cover("opt:dropped");
	}
	vp_assert(env::open_count(env::TCP) == (f.open ? 1 : 0), "no other connection");
	vp_cover("done");
}
// Several connections: none is mixed up with another, the limit is kept, whoever waits is let in later.
namespace {
enum { PEERS = 3 };
struct Peer {
	int fd = -1;
	bool asked = false, gone = false, served = false, postponed = false, told = false, answered = false;
	http::Client *who = nullptr;
} peers[PEERS];
int arrived, limit, events_left, peak;
size_t many_behaviours;
int peer_of(int fd) {
	for (int i = 0; i < PEERS; i++)
		if (peers[i].fd == fd)
			return i;
	return -1;
}
void many_world(int timeout) {
	for (int i = 0; i < arrived; i++)
		if (peers[i].fd < 0)
			peers[i].fd = env::find(env::TCP, i);
	peak = std::max(peak, env::open_count(env::TCP));
	vp_assert(env::open_count(env::TCP) <= limit + 1, "never more than the limit, and the one to be served next");
	if (!env::any_ready() && timeout != 0) {
		if (events_left-- <= 0) {
			int open = 0, waiting = env::at(lfd).backlog;
			for (int i = 0; i < arrived; i++)
				open += peers[i].fd >= 0 && env::at(peers[i].fd).open;
			vp_assert(waiting == 0 || open == limit + 1, "whoever can be is let in");
			return RunLoop::current()->cancel();
		}
		switch (vp_choice(4, "event")) {
		case 0:
			vp_assume(arrived < PEERS);
			arrived++;
			env::at(lfd).backlog++;
			env::edge(lfd, EPOLLIN);
			break;
		case 1: {
			size_t i = vp_choice(PEERS, "asks");
			vp_assume(peers[i].fd >= 0 && !peers[i].asked && !peers[i].gone);
			peers[i].asked = true;
			env::arrive(peers[i].fd, "POST / HTTP/1.1\r\nContent-Length: 1\r\n\r\n" + std::string(1, (char)('0' + i)));
			break;
		}
		case 2: {
			size_t i = vp_choice(PEERS, "leaves");
			vp_assume(peers[i].fd >= 0 && !peers[i].gone);
			peers[i].gone = true;
			env::peer_closes(peers[i].fd);
			break;
		}
		case 3: {  // the application answers
			size_t i = vp_choice(PEERS, "answers");
			vp_assume(peers[i].who && peers[i].postponed && !peers[i].told);
			peers[i].postponed = false;
			peers[i].answered = true;
			static size_t which;
			which = i;
			peers[i].who->write(http::Response::simple_text(200, std::string(3, (char)('a' + i))));
			break;
		}
		}
	}
}
}  // namespace
extern "C" void h_server_many() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	limit = (int)vp_param("limit", 2);
	events_left = (int)vp_param("events", 5);
	many_behaviours = (size_t)vp_param("behaviours", 3);
	http::Server::Settings st;
	st.max_connections = (size_t)limit;
	env::reverse_events = vp_flag("reverse");
	http::Server s(Address("0.0.0.0", 80), st);
	lfd = env::find(env::LISTEN);
	s.r_handler = [](http::Client *who, http::Request &&r) {
		vp_assert(r.body.size() == 1, "body");
		size_t i = (size_t)(r.body[0] - '0');
		vp_assert(i < PEERS && peers[i].asked && !peers[i].who, "once");
		vp_assert(who->get_peer_address().get_port() == 1000 + peers[i].fd, "the address of the peer");
		peers[i].who = who;
		for (size_t k = 0; k < PEERS; k++)
			vp_assert(k == i || peers[k].who != who || peers[k].gone, "another client");
		switch (vp_choice(many_behaviours, "behaviour")) {
		case 0:
			peers[i].answered = true;
			who->write(http::Response::simple_text(200, std::string(3, (char)('a' + i))));
			break;
		case 1:
			peers[i].postponed = true;
			who->postpone_response([i]() {
				vp_assert(peers[i].postponed && peers[i].gone && !peers[i].told, "told once that the client left");
				peers[i].told = true;
			});
			break;
		case 2: peers[i].answered = true; throw std::runtime_error(std::string(3, (char)('a' + i)));
		}
	};
	env::on_wait = many_world;
	loop.run();
	int held = -1;  // accepted by the acceptor, but there is no room
	if (env::open_count(env::TCP) == limit + 1)
		for (int i = 0; i < PEERS; i++)
			if (peers[i].fd >= 0 && env::at(peers[i].fd).open)
				held = i;
	for (int i = 0; i < PEERS; i++) {
		Peer &p = peers[i];
		if (p.fd < 0)
			continue;
		if (i == held) {
			vp_assert(!p.who && env::at(p.fd).open && env::at(p.fd).reads == 0, "not served over the limit");
			vp_cover("held");
			continue;
		}
		env::Fd &f = env::at(p.fd);
		vp_assert(f.open == !p.gone, "those who left are let go, the others not");
		vp_assert(!p.asked || p.who || p.gone, "those who asked are heard");
		vp_assert((f.out.find(std::string(3, (char)('a' + i))) != std::string::npos) == (p.answered && f.space < env::space0), "the answer goes to who asked");
		vp_assert(!(p.answered && !p.gone) || f.out.size(), "answers are sent");
		vp_assert(p.told == (p.postponed && p.gone), "the application is told of those who left");
		for (int k = 0; k < PEERS; k++)
			if (k != i)
				vp_assert(f.out.find(std::string(3, (char)('a' + k))) == std::string::npos, "and to nobody else");
		if (p.gone & !p.told & p.answered) vp_cover("left");
		if (p.told) vp_cover("told");
	}
	if (arrived > limit) {
		if (peers[limit].fd >= 0 && limit != held) vp_cover("let in later");
		vp_cover("over the limit");
	}
	vp_cover("done");
}
