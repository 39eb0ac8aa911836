// C32: the HTTP client. A server answers each request as scripted; connections fail or close anywhere.
#include "dns.hpp"
#include <crab/crab.hpp>
#include <memory>
using namespace crab;
namespace {
enum { MAXREQ = 3 };
struct Req {
	std::string host, answer, body;
	int status = 200, port = 80;
	size_t kind = 0, len = 0;  // length of the answer itself
	bool post = false, head = false, user = false, good = true, keep = true, extra = false;
	// what happened
	int outcomes = 0, conn = -1;
	bool sent = false, error = false, cancelled = false, answered = false, refused = false;
} reqs[MAXREQ];
std::unique_ptr<http::ClientRequestSimple> client;
Timer *later;
Watcher *canceller;
int nreq, cur = -1, cut_req = -1, waits, cancel_at = -1, cancel_how, frees_left = 2;
size_t cut = 0, after_cut = 0, behaviour;  // after_cut: 0 goes on, 1 closes, 2 resets
size_t rejects = 0;                        // how the first connection goes: 0 well, 1 refused, 2 not found, 3 no network
struct Conn {
	size_t pos = 0, part = 0;  // of the output understood
	int answering = -1;
	bool ended = false, seen = false;
} conns[env::MAXFD];
bool may_reuse_closing;

void make(Req &r, size_t kind) {
	r.kind = kind;
	std::string b;
	for (int i = 0; i < 2; i++)
		b += (char)vp_sym<uint8_t>("byte");
	const char *ok = "HTTP/1.1 200 OK\r\n";
	switch (kind) {
	case 0: r.answer = std::string(ok) + "Content-Length: 2\r\n\r\n" + b; r.body = b; break;
	case 1:
		r.answer = std::string(ok) + "Transfer-Encoding: chunked\r\n\r\n1\r\n" + b.substr(0, 1) + "\r\n2\r\n" + b + "\r\n0\r\n\r\n";
		r.body = b.substr(0, 1) + b;
		break;
	case 2:
		r.answer = "HTTP/1.1 404 Not Found\r\nConnection: close\r\nContent-Length: 2\r\n\r\n" + b;
		r.body = b;
		r.status = 404;
		r.keep = false;
		break;
	case 3:
		r.answer = std::string(ok) + "Content-Length: 2\r\n\r\n" + b + "HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nforged";
		r.len = r.answer.size() - 44;
		r.extra = true;
		r.body = b;
		break;
	case 4: r.answer = "HTTP/1.1 2x0 OK\r\nContent-Length: 0\r\n\r\n"; r.good = false; break;
	case 5: r.answer = std::string(ok) + "Content-Length: 0\r\n\r\n"; break;
	case 6:
		r.answer = "HTTP/1.0 200 OK\r\nContent-Length: 2\r\n\r\n" + b;
		r.body = b;
		r.keep = false;
		break;
	case 7: r.answer = std::string(ok) + "Transfer-Encoding: chunked\r\n\r\n1\r\nab\r\n0\r\n\r\n"; r.good = false; break;
	case 8: r.answer = std::string(ok) + "Content-Length: 2\r\nContent-Length: 2\r\n\r\nab"; r.good = false; break;
	case 9: r.answer = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: abc\r\n\r\n"; r.good = false; break;
	case 10: r.answer = "HTTP/1.1 204 No Content\r\nContent-Length: 7\r\n\r\n"; r.status = 204; break;
	case 12: r.answer = "HTTP/1.1 304 Not Modified\r\nContent-Length: 7\r\n\r\n"; r.status = 304; break;
	case 13: r.answer = std::string(ok) + "Content-Length: 7\r\n\r\n"; r.head = true; break;
	case 14: r.answer = "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 102 Processing\r\nContent-Length: 0\r\n\r\n" + std::string(ok) + "Content-Length: 2\r\n\r\n" + b; r.body = b; break;
	case 15: r.answer = std::string(ok) + "Transfer-Encoding: chunked\r\n\r\n"; r.head = true; break;
	case 11: r.answer = "HTTP/1.0 200 OK\r\nConnection: Keep-Alive\r\nContent-Length: 2\r\n\r\n" + b; r.body = b; break;
	case 16: {  // a length of any one byte, and 3 bytes after it
		uint8_t d = vp_sym<uint8_t>("digit");
		r.good = false;
		size_t n = 3;
		if ((d >= '0') & (d <= '3')) {
			d = (uint8_t)vp_concretize(d);
			r.good = true;
			n = (size_t)(d - '0');
			r.body = "abc";
			r.body.resize(n);
		}
		r.answer = "HTTP/1.1 200 OK\r\nContent-Length: " + std::string(1, (char)d) + "\r\n\r\nabc";
		r.len = r.answer.size() - (r.good ? 3 - n : 0);
		r.extra = n != 3;
		r.keep = r.good;
		break;
	}
	}
	if (!r.len)
		r.len = r.answer.size();
}
void send_next() {
	if (cur + 1 >= nreq)
		return;
	Req &r = reqs[++cur];
	r.sent = true;
	http::Request q;
	std::string to = "http://" + std::string(r.user ? "me:pw@" : "") + r.host + (r.port != 80 ? ":" + std::to_string(r.port) : "") + "/" + std::to_string(cur);
	if (r.post) {
		q.header.method = "POST";
		q.set_body("pq");
		client->send(to + "?", std::move(q));
	} else if (r.head) {
		q.header.method = "HEAD";
		client->send(to, std::move(q));
	} else
		client->get(to);
	vp_assert(client->is_open(), "a request is under way");
}
void after() {
	vp_assert(!client->is_open(), "no request is under way");
	switch (behaviour) {
	case 0: send_next(); break;
	case 1: later->once(0.001); break;
	case 2: later->once(11); break;
	case 3: client.reset(); break;
	}
}
void on_response(http::Response &&a) {
	vp_assert(cur >= 0, "a request was sent");
	Req &r = reqs[cur];
	vp_assert(!r.cancelled, "nothing after cancelling");
	r.outcomes++;
	vp_assert(r.outcomes == 1, "one outcome");
	vp_assert(r.good, "a malformed answer is not delivered");
	vp_assert(r.answered, "the answer is complete");
	vp_assert(a.header.status == r.status && a.body == r.body, "the answer is what the server sent");
	after();
}
void on_error(std::string &&) {
	Req &r = reqs[cur];
	vp_assert(!r.cancelled, "nothing after cancelling");
	r.error = true;
	r.outcomes++;
	vp_assert(r.outcomes == 1, "one outcome");
	after();
}
void on_cancel() {
	if (!client || cur < 0)
		return;
	Req &r = reqs[cur];
	if (r.outcomes == 0)
		r.cancelled = true;
	if (cancel_how == 0)
		client->cancel();
	if (cancel_how == 1)
		client.reset();
	if (cancel_how == 2) {
		client->cancel();
		vp_assert(!client->is_open(), "cancelled");
		if (r.cancelled)
			send_next();
	}
	vp_cover("opt:cancelled");
}
int names(const std::string &host, int port) {
	Req &r = reqs[cur];
	if (r.cancelled)
		return 1;
	vp_assert(host == r.host && port == r.port, "the name of the request is looked up");
	if (cur == 0 && rejects == 2) {
		r.refused = true;
		return vp_flag("empty") ? 0 : -1;
	}
	return 2;
}
// whole requests the client has written
bool complete(const std::string &o, size_t pos, int &which, size_t &end) {
	size_t e = o.find("\r\n\r\n", pos);
	if (e == std::string::npos)
		return false;
	bool post = o.compare(pos, 4, "POST") == 0, head = o.compare(pos, 4, "HEAD") == 0;
	size_t p = pos + (post || head ? 6 : 5);
	which = o[p] - '0';
	end = e + 4 + (post ? 2 : 0);
	if (o.size() < end)
		return false;
	vp_assert(which >= 0 && which < nreq, "a request");
	Req &r = reqs[which];
	vp_assert(o.compare(pos, p - pos, r.head ? "HEAD /" : r.post ? "POST /" : "GET /") == 0, "the request line is right");
	vp_assert(o.find("host: " + r.host + "\r\n", pos) < e, "with the host");
	vp_assert((o.find("authorization: basic bWU6cHc=\r\n", pos) < e) == r.user && (o.find("uthorization:", pos) < e) == r.user, "with the user's name, when given");
	if (post)
		vp_assert(o.find("content-length: 2\r\n", pos) < e && o.compare(e + 4, 2, "pq") == 0, "with its body");
	return true;
}
void world(int timeout) {
	if (timeout == 0)
		return;
	waits++;
	if (waits == cancel_at)
		canceller->call();
	if (dnsenv::runnable && dnsenv::state) {
		dnsenv::run();
		if (env::any_ready())
			return;
	}
	for (int i = 0; i < env::nfds; i++) {
		int fd = env::num(i);
		env::Fd &f = env::at(fd);
		Conn &c = conns[i];
		if (f.kind != env::TCP || !f.open)
			continue;
		if (f.connecting) {
			if (!c.seen && cur == 0 && rejects == 1) {
				reqs[0].refused = true;
				env::fails(fd, env::some_error());
			} else
				env::connects(fd);
			c.seen = true;
			return;
		}
		if (c.answering >= 0 && !c.ended) {  // the second part
			Req &r = reqs[c.answering];
			if (c.answering == cut_req && c.part == 1) {
				c.part = 2;
				if (after_cut == 1)
					env::peer_closes(fd);
				if (after_cut == 2)
					env::fails(fd, env::some_error());
				if (after_cut) {
					c.ended = true;
					return;
				}
				if (cut < r.answer.size()) {
					r.answered = true;
					env::arrive(fd, r.answer.substr(cut));
					return;
				}
			}
			if (c.part == 2 && !r.keep) {
				c.ended = true;
				env::peer_closes(fd);
				return;
			}
			c.answering = -1;
		}
		int which;
		size_t end;
		if (!c.ended && complete(f.out, c.pos, which, end)) {
			Req &r = reqs[which];
			vp_assert(r.conn < 0, "a request is sent once");
			r.conn = fd;
			vp_assert(f.port == r.port, "to the port asked for");
			c.pos = end;
			c.answering = which;
			c.part = 2;
			size_t n = r.answer.size();
			if (which == cut_req) {
				n = cut;
				c.part = 1;
			}
			if (n >= r.len)
				r.answered = true;
			if (n)
				env::arrive(fd, r.answer.substr(0, n));
			return;
		}
		if (f.space == 0 && f.nospace) {
			env::frees(fd, frees_left-- > 0 ? (size_t[]){1, 60}[vp_choice(2, "frees")] : 1 << 20);
			if (env::any_ready())
				return;
		}
	}
	if (env::any_ready())
		return;
	if (timeout < 1000000) {
		env::now_ns += (int64_t)timeout * 1000000;
		return;
	}
	RunLoop::current()->cancel();
}
}  // namespace
extern "C" void h_client() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	dnsenv::names = names;
	nreq = (int)vp_param("requests", 2);
	for (int i = 0; i < nreq; i++) {
		make(reqs[i], vp_choice((size_t)vp_param("kinds", 12), "kind"));
		reqs[i].host = "a";
		if (vp_param("hosts", 0)) {
			if (i == 0)
				reqs[0].user = true;
			else
				switch (vp_choice(3, "where")) {
				case 1: reqs[i].host = "b"; break;
				case 2: reqs[i].port = 81; break;
				}
		}
		reqs[i].post = vp_param("posts", 0) && !reqs[i].head && vp_flag("post");
	}
	behaviour = vp_choice((size_t)vp_param("behaviours", 3), "behaviour");
	rejects = vp_choice((size_t)vp_param("rejects", 1), "connection");
	if (rejects == 3)
		env::faults = 1;
	if (vp_param("slow", 0))
		env::space0 = vp_choice(2, "space") * 30;
	if (vp_param("cuts", 1)) {
		cut_req = (int)vp_choice((size_t)nreq, "which");
		Req &r = reqs[cut_req];
		cut = vp_choice((r.extra ? r.len : r.answer.size() + 1), "cut");
		after_cut = vp_param("peer_closes", 0) ? 1 + vp_choice(2, "then") : 0;
	}
	if (vp_param("cancels", 0)) {
		cancel_at = 1 + (int)vp_choice(8, "cancel at");
		cancel_how = (int)vp_choice(3, "how");
		env::reverse_events = vp_flag("reverse");
	}
	client.reset(new http::ClientRequestSimple(on_response, on_error));
	Timer t([]() {
		if (client && !client->is_open())
			send_next();
	});
	later = &t;
	Watcher w(on_cancel);
	canceller = &w;
	env::on_wait = world;
	send_next();
	loop.run();
	bool quit = false;
	for (int i = 0; i < nreq; i++) {
		Req &r = reqs[i];
		if (r.cancelled) {
			vp_assert(r.outcomes == 0, "nothing after cancelling");
			quit = cancel_how != 2;
			continue;
		}
		if (!r.sent) {
			vp_assert(quit || cancel_at >= 0 || behaviour == 3, "the application goes on");
			continue;
		}
		vp_assert(r.outcomes == 1, "one outcome");
		bool fails = r.refused || !r.good || !r.answered;
		if (r.conn >= 0 && r.answered && r.good && !r.error)
			vp_cover("answered");
		// a connection may be closed by the server when the next request goes out
		int prev = i - 1;
		bool lost = prev >= 0 && ((prev == cut_req && after_cut && behaviour == 0) || reqs[prev].extra);
		vp_assert(r.error || !fails, "a failure is told");
		if (rejects != 3)
			vp_assert(!r.error || fails || lost, "an answer that arrived is delivered");
		if (r.error) vp_cover("opt:error");
		if (prev >= 0 && r.conn >= 0 && r.conn == reqs[prev].conn) {
			vp_assert(reqs[prev].keep && reqs[prev].good && reqs[prev].answered && !reqs[prev].cancelled && reqs[prev].host == r.host && reqs[prev].port == r.port, "only a connection in order is used again");
			vp_assert(behaviour != 2, "an idle connection is not kept");
			vp_cover("opt:connection used again");
		}
	}
	int open = env::open_count(env::TCP);
	vp_assert(open == 0, "in the end no connection is kept");
	vp_cover("done");
}
// Where a request goes is what its URI says, or it is not sent at all.
namespace {
struct Target {
	const char *uri, *host;
	int port;
	const char *line;
	const char *host_field;
};
const Target TARGETS[] = {
    {"http://a/x", "a", 80, "GET /x HTTP/1.1\r\n", "host: a\r\n"},
    {"http://a", "a", 80, "GET / HTTP/1.1\r\n", "host: a\r\n"},
    {"http://a:8080/x?y=z", "a", 8080, "GET /x?y=z HTTP/1.1\r\n", "host: a\r\n"},
    {"http://u@a:1/x?", "a", 1, "GET /x HTTP/1.1\r\n", "host: a\r\n"},
    {"http://a:65535/", "a", 65535, "GET / HTTP/1.1\r\n", "host: a\r\n"},
    {"http://a:65536/", nullptr, 0, nullptr, nullptr},
    {"ftp://a/x", nullptr, 0, nullptr, nullptr},
    {"ftp://a:80/x", nullptr, 0, nullptr, nullptr},
    {"a/x", nullptr, 0, nullptr, nullptr},
    {"http://a:8x/", nullptr, 0, nullptr, nullptr},
    {"https://a/x", nullptr, 0, nullptr, nullptr},  // built without TLS
};
enum { NTARGETS = sizeof(TARGETS) / sizeof(TARGETS[0]) };
int target, target_lookups, target_answers;
size_t target_sent;
}  // namespace
extern "C" void h_client_targets() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	dnsenv::names = [](const std::string &host, int port) {
		const Target &t = TARGETS[target];
		vp_assert(t.host && host == t.host && port == t.port, "the host and port of the URI are looked up");
		target_lookups++;
		return 1;
	};
	env::on_wait = [](int timeout) {
		if (timeout == 0)
			return;
		if (dnsenv::runnable && dnsenv::state) {
			dnsenv::run();
			if (env::any_ready())
				return;
		}
		for (int i = 0; i < env::nfds; i++) {
			int fd = env::num(i);
			env::Fd &f = env::at(fd);
			if (f.kind != env::TCP || !f.open)
				continue;
			if (f.connecting)
				return env::connects(fd);
			size_t n = conns[i].pos, e = f.out.find("\r\n\r\n", n);
			if (e == std::string::npos)
				continue;
			const Target &t = TARGETS[target];
			vp_assert(t.host && f.port == t.port && f.out.compare(n, strlen(t.line), t.line) == 0, "the request is for the path and query, to the port");
			vp_assert(f.out.find(t.host_field, n) < e, "with the host");
			vp_assert(e + 4 == f.out.size(), "only that");
			conns[i].pos = f.out.size();
			target_sent++;
			return env::arrive(fd, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
		}
		RunLoop::current()->cancel();
	};
	http::ClientRequestSimple c;
	if (vp_flag("handlers later"))
		c.set_handlers([](http::Response &&) { target_answers++; }, [](std::string &&) { vp_assert(false, "no error"); });
	else
		c.set_handlers([](http::Response &&r) { target_answers += r.header.status == 200; }, nullptr);
	int rounds = (int)vp_param("rounds", 2), good = 0;
	for (int i = 0; i < rounds; i++) {
		target = (int)vp_choice(NTARGETS, "target");
		const Target &t = TARGETS[target];
		bool thrown = false;
		try {
			c.get(t.uri);
		} catch (const std::exception &) {
			thrown = true;
		}
		vp_assert(thrown == !t.host && c.is_open() == !thrown, "what cannot be sent is refused at once");
		good += !thrown;
		loop.run();
		vp_assert(!c.is_open() && target_answers == good && (int)target_sent == good, "one answer for each request sent");
	}
	if (good == rounds) vp_cover("all sent");
	if (good == 0) vp_cover("none sent");
	if (target_lookups < good) vp_cover("connection used again");
	vp_cover("done");
}
