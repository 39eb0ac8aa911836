// C26: web socket sessions, server side (http::Server) and client side (http::ClientConnection).
#include "env.hpp"
#include <crab/crab.hpp>
using namespace crab;
using http::WebMessage;
using http::WebMessageOpcode;
namespace {
struct Ev {  // what a session should deliver or send
	int op;
	std::string body;
	int code;
};
struct Script {
	std::string bytes;            // as sent by the peer
	std::vector<size_t> ends;     // where each frame ends
	std::vector<Ev> events;       // what should be delivered
	std::vector<std::string> pongs;
	bool bad = false, bad_text = false, closed = false, after = false;
};
bool text_ok(const std::string &s) {  // for texts of up to 4 bytes; independent of the library
	size_t i = 0;
	bool good = true;
	uint8_t b[8] = {};
	for (size_t k = 0; k < s.size(); k++)
		b[k] = (uint8_t)s[k];
	while (i < s.size()) {
		size_t left = s.size() - i;
		uint8_t *p = b + i;
		if (p[0] < 0x80)
			i++;
		else if (((p[0] >= 0xc2) & (p[0] <= 0xdf)) && left >= 2) {
			good &= (p[1] & 0xc0) == 0x80;
			i += 2;
		} else if (((p[0] & 0xf0) == 0xe0) && left >= 3) {
			good &= ((p[1] & 0xc0) == 0x80) & ((p[2] & 0xc0) == 0x80) & !((p[0] == 0xe0) & (p[1] < 0xa0)) & !((p[0] == 0xed) & (p[1] >= 0xa0));
			i += 3;
		} else if (((p[0] >= 0xf0) & (p[0] <= 0xf4)) && left >= 4) {
			good &= ((p[1] & 0xc0) == 0x80) & ((p[2] & 0xc0) == 0x80) & ((p[3] & 0xc0) == 0x80) & !((p[0] == 0xf0) & (p[1] < 0x90)) & !((p[0] == 0xf4) & (p[1] >= 0x90));
			i += 4;
		} else
			return false;
	}
	return good;
}
std::string frame(bool fin, int op, const std::string &body, bool mask, uint32_t key) {
	std::string r;
	r += (char)((fin ? 0x80 : 0) | op);
	vp_assert(body.size() <= 125, "script");
	r += (char)((mask ? 0x80 : 0) | (int)body.size());
	uint8_t k[4] = {(uint8_t)(key >> 24), (uint8_t)(key >> 16), (uint8_t)(key >> 8), (uint8_t)key};
	if (mask)
		r.append((const char *)k, 4);
	for (size_t i = 0; i < body.size(); i++)
		r += (char)(body[i] ^ (mask ? (char)k[i % 4] : 0));
	return r;
}
std::string bytes(size_t n) {
	std::string s(n, ' ');
	for (size_t i = 0; i < n; i++)
		s[i] = (char)vp_sym<uint8_t>("payload");
	return s;
}
std::string partial;
int partial_op;
Script sc;
void add_frame(size_t kind, bool mask) {
	static const size_t MIXED[] = {5, 6, 2, 3, 9, 1};
	if (vp_param("mixed", 0))
		kind = MIXED[kind];
	uint32_t key = mask ? vp_sym<uint32_t>("mask") : 0;
	bool fin = true;
	int op = 1;
	std::string body;
	switch (kind) {
	case 0: body = bytes(1); break;
	case 1: op = 2; body = bytes(3); break;
	case 2: op = 0; body = bytes(1); break;
	case 3: op = 9; body = bytes(2); break;
	case 4: op = 8; body = bytes(2) + "r"; break;
	case 5: fin = false; body = bytes(1); break;
	case 6: op = 0; fin = false; body = bytes(1); break;
	case 7: op = 2; fin = false; break;
	case 8: op = 8; break;
	case 9: op = 10; body = "p"; break;
	case 10: op = 3; break;
	case 11: op = 9; fin = false; break;
	}
	sc.bytes += frame(fin, op, body, mask, key);
	sc.ends.push_back(sc.bytes.size());
	sc.after |= sc.closed;  // the library looks at frames after a close; nothing is claimed about the answers
	if (sc.bad || sc.bad_text || sc.closed)
		return;
	if (op == 3 || (op >= 8 && !fin) || (op == 0 && !partial_op) || ((op == 1 || op == 2) && partial_op)) {
		sc.bad = true;
		return;
	}
	if (op == 9)
		sc.pongs.push_back(body);
	if (op == 8) {
		Ev e{8, "", WebMessage::CLOSE_STATUS_NO_CODE};
		if (body.size() >= 2) {
			e.code = (uint8_t)body[0] * 256 + (uint8_t)body[1];
			e.body = body.substr(2);
		}
		sc.events.push_back(e);
		sc.closed = true;
	}
	if (op <= 2) {
		if (op)
			partial_op = op, partial.clear();
		partial += body;
		if (fin) {
			if (partial_op == 1 && !text_ok(partial))
				sc.bad_text = true;
			else
				sc.events.push_back({partial_op, partial, 0});
			partial_op = 0;
		}
	}
}
// takes one frame off what the library sent
bool take(const std::string &o, size_t &pos, bool mask, bool &fin, int &op, std::string &body) {
	if (o.size() < pos + 2)
		return false;
	uint8_t a = (uint8_t)o[pos], b = (uint8_t)o[pos + 1];
	vp_assert((b >= 0x80) == mask && (a & 0x70) == 0, "frames are masked by clients and only by them");
	size_t n = b & 0x7f, h = 2;
	if (n == 126) {
		n = (size_t)(uint8_t)o[pos + 2] * 256 + (uint8_t)o[pos + 3];
		h = 4;
	}
	uint8_t k[4] = {};
	if (mask) {
		for (size_t i = 0; i < 4; i++)
			k[i] = (uint8_t)o[pos + h + i];
		h += 4;
	}
	if (o.size() < pos + h + n)
		return false;
	fin = a >= 0x80;
	op = a & 15;
	body.clear();
	for (size_t i = 0; i < n; i++)
		body += (char)(o[pos + h + i] ^ (char)k[i % 4]);
	pos += h + n;
	return true;
}
std::string stream;
size_t delivered, cuts, first_part;
int fd = -1, lfd = -1, frees_left = 1;
bool peer_ends, peer_ended;
std::vector<Ev> got;
std::vector<Ev> sent;  // what the application sent, in order
int ended;             // how many times the application was told of the end
int close_sent;
size_t throws_at = 99, closes_at = 99, streams_at = 99;
size_t first_limit;    // nothing after it before the client has the handshake
bool handshake_done;

void deliver(int f) {
	size_t n = stream.size() - delivered;
	if (cuts > 0) {
		cuts--;
		size_t next = sc.ends[0];
		size_t base = stream.size() - sc.bytes.size();
		for (size_t e : sc.ends)
			if (base + e > delivered) {
				next = base + e;
				break;
			}
		size_t b = next - delivered;
		size_t c[] = {n, b, 1, b > 1 ? b - 1 : b, b + 1};
		n = std::min(n, std::max<size_t>(1, c[vp_choice(5, "cut")]));
	}
	env::arrive(f, stream.substr(delivered, n));
	delivered += n;
}
void world(int timeout) {
#ifdef TRACE
	if (fd >= 0) fprintf(stderr, "wait %d del %zu/%zu space %zu ready %x out %zu got %zu ended %d sent %zu open %d shut %d\n", timeout, delivered, stream.size(), env::at(fd).space, env::at(fd).ready, env::at(fd).out.size(), got.size(), ended, sent.size(), env::at(fd).open, env::at(fd).shut_wr);
#endif
	if (lfd >= 0) {
		fd = env::find(env::TCP);
		if (fd < 0) {
			if (!env::at(lfd).backlog) {
				env::at(lfd).backlog = 1;
				env::edge(lfd, EPOLLIN);
			}
			return;
		}
	} else if (env::at(fd).open && env::at(fd).connecting)
		return env::connects(fd);
	env::Fd &f = env::at(fd);
	if (timeout == 0)
		return;
	if (f.open && delivered < stream.size() && (handshake_done || lfd >= 0))
		deliver(fd);
	if (env::any_ready())
		return;
	if (f.open && f.space == 0) {
		env::frees(fd, frees_left-- > 0 ? 1 + vp_choice(2, "frees") * 60 : 1 << 20);
		if (env::any_ready())
			return;
	}
	if (f.open && timeout < 16000) {  // a timer, not that of the pings
		env::now_ns += (int64_t)timeout * 1000000;
		return;
	}
	if (f.open && peer_ends && !peer_ended) {
		peer_ended = true;
		env::peer_closes(fd);
		return;
	}
	RunLoop::current()->cancel();
}
void compare(const std::vector<Ev> &a, bool whole, const char *what) {
	vp_assert(a.size() <= sc.events.size() && (!whole || a.size() == sc.events.size()), what);
	bool same = true;
	for (size_t i = 0; i < a.size(); i++) {
		vp_assert(a[i].body.size() == sc.events[i].body.size(), what);
		same &= a[i].op == sc.events[i].op;
		for (size_t k = 0; k < a[i].body.size(); k++)
			same &= a[i].body[k] == sc.events[i].body[k];
		same &= (a[i].op != 8) | (a[i].code == sc.events[i].code);
	}
	vp_assert(same, what);
}
// what was sent after the handshake: the application's messages in order, pongs in order, closed by at most one close
void check_out(const std::string &o, size_t pos, bool mask, bool whole) {
	size_t ns = 0, np = 0;
	bool fin, closed = false, streaming = false, wrong_told = false;
	int op, close_code = 0;
	std::string body, part;
	while (take(o, pos, mask, fin, op, body)) {
		vp_assert(!closed, "nothing is sent after a close frame");
		if (op == 10) {
			vp_assert(fin && np < sc.pongs.size() && body.size() == sc.pongs[np].size(), "a pong for each ping");
			bool same = true;
			for (size_t i = 0; i < body.size(); i++)
				same &= body[i] == sc.pongs[np][i];
			vp_assert(same, "the pong has what the ping had");
			np++;
			continue;
		}
		if (op == 9) {
			vp_assert(fin && body.empty(), "keep alive");
			continue;
		}
		if (op == 8) {
			closed = true;
			vp_assert(fin, "close");
			if (sc.bad_text && body.size() == 2 && (uint8_t)body[0] * 256 + (uint8_t)body[1] == 1007) {
				wrong_told = true;  // the next message is looked at before the application has this one
				continue;
			}
			vp_assert(ns < sent.size() && sent[ns].op == 8, "the application closed");
			vp_assert(body.size() >= 2 ? ((uint8_t)body[0] * 256 + (uint8_t)body[1] == std::max(1000, sent[ns].code)) : sent[ns].code == WebMessage::CLOSE_STATUS_NO_CODE, "the code");
			if (sent[ns].code != WebMessage::CLOSE_STATUS_ERROR)
				vp_assert(body.size() >= 2 ? body.substr(2) == sent[ns].body : sent[ns].body.empty(), "the reason");
			ns++;
			continue;
		}
		vp_assert((op == 0) == streaming, "fragments follow each other");
		if (op)
			vp_assert(ns < sent.size() && sent[ns].op == op, "messages of the application, in order");
		part += body;
		streaming = !fin;
		if (fin) {
			vp_assert(part == sent[ns].body, "messages as they were given");
			part.clear();
			ns++;
		}
	}
	if (whole) {
		vp_assert(pos == o.size() && !streaming, "whole frames");
		vp_assert(np == sc.pongs.size() || close_sent || sc.bad_text, "every ping is answered");
		vp_assert(ns == sent.size() || wrong_told, "everything is sent");
		vp_assert(!sc.bad_text || closed, "a text in a wrong encoding ends the session");
	}
	if (np) vp_cover("opt:pong");
}
http::Client *client;
Timer *later;
void on_server_message(WebMessage &&m) {
	vp_assert(ended == 0, "nothing is delivered after the end");
	if (m.is_close()) {
		ended++;
		if (!(sc.closed && got.size() + 1 == sc.events.size() && (env::at(fd).open || (m.close_code == sc.events.back().code && m.body == sc.events.back().body)))) {  // end of the session by other means
			if (m.body.empty() && !env::at(fd).open)
				vp_assert(m.close_code == (close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT), "told whether the application had closed");
			return;
		}
		vp_assert(env::at(fd).open || peer_ended || close_sent, "told of the end when it ends");
	}
	got.push_back({(int)m.opcode, m.body, m.close_code});
	size_t n = got.size() - 1;
	if (n == throws_at && !close_sent) {
		sent.push_back({8, "", WebMessage::CLOSE_STATUS_ERROR});
		close_sent++;
		throw std::runtime_error("oops");
	}
	if (m.is_close()) {
		if (closes_at == 77 || close_sent)
			return;
		close_sent++;
		sent.push_back({8, "", WebMessage::CLOSE_STATUS_NORMAL});
		client->write(WebMessage(WebMessageOpcode::CLOSE, {}, WebMessage::CLOSE_STATUS_NORMAL));
		return;
	}
	if (n == closes_at) {
		close_sent++;
		sent.push_back({8, "bye", 3000});
		client->write(WebMessage(WebMessageOpcode::CLOSE, "bye", 3000));
		return;
	}
	if (close_sent)
		return;
	if (n == streams_at) {
		sent.push_back({1, "abcd", 0});
		streams_at = 98;
		client->start_write_stream(WebMessageOpcode::TEXT, []() {});
		client->write("ab", 2);
		later->once(0.001);
		return;
	}
	sent.push_back({(int)m.opcode, m.body, 0});
	client->write(std::move(m));
}
}  // namespace
extern "C" void h_ws_server() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	size_t n = (size_t)vp_param("frames", 3), kinds = (size_t)vp_param("kinds", 8), uses = (size_t)vp_param("uses", 3);
	cuts = (size_t)vp_param("cuts", 1);
	for (size_t i = 0; i < n; i++)
		add_frame(vp_choice(kinds, "frame"), vp_param("masked", 1) != 0);
	switch (vp_choice(uses, "application")) {
	case 1: throws_at = vp_choice(2, "throws at"); break;
	case 2: closes_at = vp_choice(2, "closes at"); break;
	case 3: streams_at = vp_choice(2, "streams at"); break;
	case 4: closes_at = 77; break;  // does not answer a close
	}
	peer_ends = vp_flag("peer ends");
	if (vp_param("slow", 0))
		env::space0 = vp_choice(2, "space") * 140;
	http::Server s(Address("0.0.0.0", 80));
	lfd = env::find(env::LISTEN);
	std::string head = "GET /ws HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
	stream = head + sc.bytes;
	first_part = head.size();
	delivered = 0;
	Timer t([]() {
		if (env::at(fd).open && !close_sent && !ended) {
			client->write("cd", 2);
			client->write_last_chunk();
		}
	});
	later = &t;
	s.r_handler = [](http::Client *who, http::Request &&r) {
		vp_assert(!client && r.header.is_websocket_upgrade(), "one request");
		client = who;
		who->web_socket_upgrade(on_server_message);
	};
	env::on_wait = world;
	loop.run();
	env::Fd &f = env::at(fd);
	bool thrown = throws_at < got.size();
	bool cut_short = close_sent && !(got.size() == sc.events.size());
	compare(got, !cut_short && !sc.bad_text && !sc.bad, "messages are delivered in order, complete");
	if ((sc.bad || sc.bad_text) && !close_sent)
		vp_assert(got.size() == sc.events.size(), "messages before the wrong one are delivered");
	size_t pos = f.out.find("\r\n\r\n");
	vp_assert(pos != std::string::npos && f.out.compare(0, 12, "HTTP/1.1 101") == 0, "the handshake is answered");
	vp_assert(f.out.find("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") < pos, "with the key of RFC 6455");
	bool ends = sc.bad || sc.bad_text || close_sent || (sc.closed && peer_ends) || peer_ended;
	bool streamed = streams_at == 98;
	if (!sc.after)
		check_out(f.out, pos + 4, false, !sc.bad && !(streamed && (ends || sc.closed)));
	if (ends) {
		vp_assert(!f.open, "the connection ends");
		vp_assert(ended == 1, "the application is told once");
		if (sc.bad) vp_cover("bad");
		if (sc.bad_text) vp_cover("bad text");
		if (thrown) vp_cover("opt:thrown");
	} else {
		vp_assert((f.open || sc.after) && ended == (int)sc.closed, "the session goes on");
		vp_cover("goes on");
	}
	if (streamed && got.size() == n) vp_cover("opt:streamed");
	vp_cover("done");
}
// The client: handshake (right or wrong), then the same frames; the connection may be used again.
namespace {
http::ClientConnection *conn;
size_t answer_kind, session, client_uses;
bool answered, upgraded_wrong;
std::string answer_tail;
int told_closed;
void on_client() {
	if (!conn->is_open()) {
		told_closed++;
		return;
	}
	WebMessage m;
	while (conn->read_next(m)) {
		if (m.is_close() && ended)
			continue;
		got.push_back({(int)m.opcode, m.body, m.close_code});
		if (m.is_close()) {
			ended++;
			if (client_uses == 1 || close_sent)
				continue;
			close_sent++;
			sent.push_back({8, "", WebMessage::CLOSE_STATUS_NO_CODE});
			conn->write(WebMessage(WebMessageOpcode::CLOSE));
			continue;
		}
		if (client_uses == 2 && !close_sent) {
			close_sent++;
			sent.push_back({8, "x", 4000});
			conn->write(WebMessage(WebMessageOpcode::CLOSE, "x", 4000));
			continue;
		}
		if (client_uses == 3) {
			conn->close();
			told_closed++;
			return;
		}
		if (!close_sent) {
			sent.push_back({(int)m.opcode, m.body, 0});
			conn->write(std::move(m));
		}
	}
}
void answer() {
	env::Fd &f = env::at(fd);
	size_t e = f.out.find("\r\n\r\n");
	if (answered || e == std::string::npos)
		return;
	answered = true;
	size_t k = f.out.find("sec-websocket-key: ");
	vp_assert(f.out.compare(0, 13, "GET /ws HTTP/") == 0 && k < e, "the handshake asks for the path, with a key");
	vp_assert(f.out.find("upgrade: websocket\r\n") < e && f.out.find("sec-websocket-version: 13\r\n") < e && f.out.find("connection: ") < e && f.out.find("pgrade\r\n") < e, "and for the upgrade");
	std::string key = f.out.substr(k + 19, f.out.find("\r\n", k) - k - 19);
	vp_assert(key.size() == 24 && key.substr(22) == "==", "16 bytes in base64");
	std::string accept = http::ResponseHeader::generate_sec_websocket_accept(key);
	if (answer_kind == 1)
		accept[3] = (char)(accept[3] ^ 1);
	std::string h = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept + "\r\n";
	if (answer_kind == 2)
		h = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n";
	if (answer_kind == 3)
		h += "Content-Length: 1\r\n";
	if (answer_kind == 4)
		h = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n";
	upgraded_wrong = answer_kind != 0;
	h += "\r\n";
	first_part = h.size();
	stream = h + sc.bytes;
	handshake_done = true;
}
void client_world(int timeout) {
	if (!env::at(fd).connecting)
		answer();
	world(timeout);
}
void reset() {
	sc = Script();
	partial.clear();
	partial_op = 0;
	got.clear();
	sent.clear();
	ended = close_sent = told_closed = 0;
	delivered = 0;
	stream.clear();
	answered = handshake_done = peer_ended = peer_ends = upgraded_wrong = false;
	fd = -1;
}
}  // namespace
extern "C" void h_ws_client() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	http::ClientConnection c(on_client);
	conn = &c;
	size_t sessions = (size_t)vp_param("sessions", 1), n = (size_t)vp_param("frames", 2), kinds = (size_t)vp_param("kinds", 12);
	for (session = 0; session < sessions; session++) {
		reset();
		cuts = (size_t)vp_param("cuts", 1);
		for (size_t i = 0; i < n; i++)
			add_frame(vp_choice(kinds, "frame"), false);
		answer_kind = vp_choice((size_t)vp_param("answers", 5), "answer");
		client_uses = vp_choice((size_t)vp_param("uses", 4), "application");
		peer_ends = vp_flag("peer ends");
		vp_assert(c.connect(Address("127.0.0.1", 80)), "connecting");
		fd = env::find(env::TCP, (int)session);
		http::RequestHeader rh;
		rh.path = "/ws";
		c.web_socket_upgrade(rh);
		env::on_wait = client_world;
		loop.run();
		env::Fd &f = env::at(fd);
		size_t pos = f.out.find("\r\n\r\n");
		vp_assert(pos != std::string::npos && answered, "asked");
		if (upgraded_wrong) {
			vp_assert(got.empty() && !f.open && told_closed == 1 && pos + 4 == f.out.size(), "no session without a right answer");
			vp_cover("opt:refused");
		} else if (client_uses == 3 && got.size() && got[0].op != 8) {
			vp_assert(!f.open && got.size() == 1 && !c.is_open(), "closed at once");
			vp_cover("opt:closed");
		} else {
			bool cut_short = close_sent && got.size() != sc.events.size();
			if (!sc.after) {
				compare(got, !cut_short && !sc.bad && !sc.bad_text, "messages are delivered in order, complete");
				check_out(f.out, pos + 4, true, !sc.bad);
				if ((sc.bad || sc.bad_text) && !close_sent)
					vp_assert(got.size() == sc.events.size(), "messages before the wrong one are delivered");
			}
			if (sc.bad || sc.bad_text || close_sent || peer_ended) {
				vp_assert(!f.open && told_closed == 1 && !c.is_open(), "the end is told once");
				if (sc.bad) vp_cover("bad");
			} else if (!sc.after) {
				vp_assert(f.open && told_closed == 0, "the session goes on");
				vp_cover("goes on");
			}
		}
		if (session) vp_cover("opt:again");
	}
	vp_cover("done");
}
// Messages of all sizes of length field and around the buffers, through server and client.
extern "C" void h_ws_sizes() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	static const size_t SIZES[] = {0, 125, 126, 127, 1023, 1024, 8191, 8192, 8193, 20000, 65535, 65536};
	size_t n = SIZES[vp_choice((size_t)vp_param("sizes", 12), "size")];
	static std::string want, out_want;
	want = std::string(n, 'a');
	if (n) {
		want[0] = (char)vp_sym<uint8_t>("first");
		want[n - 1] = (char)vp_sym<uint8_t>("last");
		want[n / 2] = (char)vp_sym<uint8_t>("middle");
	}
	uint32_t key = 0x12345678;
	bool server = vp_flag("server");
	std::string f;
	f += (char)0x82;
	char m = server ? (char)0x80 : 0;
	if (n < 126)
		f += (char)((size_t)(uint8_t)m + n);
	else if (n < 65536) {
		f += (char)((uint8_t)m + 126);
		f += (char)(n >> 8);
		f += (char)n;
	} else {
		f += (char)((uint8_t)m + 127);
		for (int i = 7; i >= 0; i--)
			f += (char)((uint64_t)n >> (8 * i));
	}
	uint8_t k[4] = {0x12, 0x34, 0x56, 0x78};
	if (server)
		f.append((const char *)k, 4);
	else
		k[0] = k[1] = k[2] = k[3] = 0;
	size_t at = f.size();
	f += want;
	for (size_t i = 0; i < n; i++)
		f[at + i] = (char)(f[at + i] ^ (char)k[i % 4]);
	sc.bytes = f;
	sc.ends.push_back(f.size());
	sc.events.push_back({2, want, 0});
	cuts = (size_t)vp_param("cuts", 2);
	env::space0 = vp_flag("slow") ? 200 : 1 << 20;
	env::on_wait = [](int t) {
		if (lfd < 0 && !env::at(fd).connecting)
			answer();
		world(t);
	};
	if (server) {
		stream = "GET /ws HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n" + f;
		http::Server s(Address("0.0.0.0", 80));
		lfd = env::find(env::LISTEN);
		s.r_handler = [](http::Client *who, http::Request &&) {
			client = who;
			who->web_socket_upgrade(on_server_message);
		};
		loop.run();
	} else {
		http::ClientConnection c(on_client);
		conn = &c;
		vp_assert(c.connect(Address("127.0.0.1", 80)), "connecting");
		fd = env::find(env::TCP);
		http::RequestHeader rh;
		rh.path = "/ws";
		c.web_socket_upgrade(rh);
		loop.run();
	}
	compare(got, true, "the message is delivered");
	const std::string &o = env::at(fd).out;
	size_t pos = o.find("\r\n\r\n") + 4, h = n < 126 ? 2 : n < 65536 ? 4 : 10;
	vp_assert(o.size() == pos + h + (server ? 0 : 4) + n && (uint8_t)o[pos] == 0x82, "and sent back");
	vp_assert((uint8_t)o[pos + 1] == (server ? 0 : 0x80) + (n < 126 ? n : n < 65536 ? 126 : 127), "with the length in the shortest form");
	size_t len = 0;
	for (size_t i = 2; i < h; i++)
		len = len * 256 + (uint8_t)o[pos + i];
	vp_assert(n < 126 || len == n, "length");
	bool same = true;
	for (size_t i = 0; i < n; i++) {
		char x = server ? 0 : o[pos + h + i % 4];
		same &= (char)(o[pos + h + (server ? 0 : 4) + i] ^ x) == want[i];
	}
	vp_assert(same, "the same message");
	if (n > 65535) vp_cover("long");
	vp_cover("done");
}
// Control frames: what the application closes or pings with, however long; what a peer closes with; keeping alive.
namespace {
size_t act, silences;
std::string control_body, control_told;
int control_code, control_told_code, told;
bool stuck;
void control_message(int op, const std::string &body, int code) {
	if (op == 8) {
		told++;
		control_told = body;
		control_told_code = code;
		return;
	}
	if (act == 4 && stuck) {
		env::at(fd).space = 0;
		client->write(WebMessage(WebMessageOpcode::BINARY, "0123456789"));
	}
	if (act == 3 || act == 4)
		return;
	WebMessageOpcode o = act == 0 ? WebMessageOpcode::CLOSE : act == 1 ? WebMessageOpcode::PING : WebMessageOpcode::PONG;
	WebMessage m(o, control_body, (uint16_t)control_code);
	if (lfd >= 0)
		client->write(std::move(m));
	else
		conn->write(std::move(m));
}
}  // namespace
extern "C" void h_ws_control() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	bool server = vp_flag("server");
	act = vp_choice(server ? 5 : 4, "act");
	if (act == 4)
		stuck = vp_flag("stuck");
	std::string script = frame(true, 2, "g", server, 0x01020304), whole, reason;
	size_t longest = 0;
	control_code = WebMessage::CLOSE_STATUS_NO_CODE;
	if (act == 0) {
		size_t pad = 118 + vp_choice(8, "pad"), width = 1 + vp_choice(4, "width");
		if (pad == 125)
			pad = 0;
		static const char *CHARS[] = {"z", "\xc2\x80", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
		control_body = std::string(pad, 'a') + CHARS[width - 1] + (vp_flag("tail") ? std::string(3, 'b') : std::string());
		if (pad)
			control_body[0] = (char)(0x20 + (vp_sym<uint8_t>("letter") & 0x3f));
		control_code = vp_sym<uint16_t>("code");
		vp_assume((control_code >= 1000) & (control_code < 5000) & (control_code != WebMessage::CLOSE_STATUS_NO_CODE));
		longest = control_body.size() <= 123 ? control_body.size() : pad + width <= 123 ? 123 : std::min<size_t>(pad, 123);
	} else if (act <= 2) {
		static const size_t SIZES[] = {0, 1, 124, 125, 126, 300};
		control_body = bytes(SIZES[vp_choice(6, "size")]);
		longest = std::min<size_t>(control_body.size(), 125);
	} else if (act == 3) {
		reason = bytes(vp_choice(5, "reason"));
		whole = bytes(2);
		script += frame(true, 8, whole + reason, server, 0x01020304);
	}
	env::on_wait = [](int t) {
		if (lfd >= 0) {
			fd = env::find(env::TCP);
			if (fd < 0) {
				if (!env::at(lfd).backlog) {
					env::at(lfd).backlog = 1;
					env::edge(lfd, EPOLLIN);
				}
				return;
			}
		} else if (env::at(fd).connecting)
			return env::connects(fd);
		else
			answer();
		if (t == 0)
			return;
		if (delivered < stream.size()) {
			env::arrive(fd, stream.substr(delivered));
			delivered = stream.size();
			return;
		}
		if (env::at(fd).open && act == 4 && silences < 2) {
			vp_assert(t <= 45001, "the loop wakes up to keep the connection alive");
			silences++;
			if (silences == 2 && stuck)
				env::frees(fd, 1 << 20);
			env::now_ns += (int64_t)t * 1000000;
			return;
		}
		if (env::at(fd).open && t < 44000) {
			env::now_ns += (int64_t)t * 1000000;
			return;
		}
		RunLoop::current()->cancel();
	};
	sc.bytes = script;
	sc.ends.push_back(script.size());
	http::Server *s = nullptr;
	http::ClientConnection *c = nullptr;
	if (server) {
		stream = "GET /ws HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n" + script;
		s = new http::Server(Address("0.0.0.0", 80));
		lfd = env::find(env::LISTEN);
		s->r_handler = [](http::Client *who, http::Request &&) {
			client = who;
			who->web_socket_upgrade([](WebMessage &&m) { control_message((int)m.opcode, m.body, m.close_code); });
		};
	} else {
		c = conn = new http::ClientConnection([]() {
			WebMessage m;
			while (conn->is_open() && conn->read_next(m))
				control_message((int)m.opcode, m.body, m.close_code);
		});
		vp_assert(c->connect(Address("127.0.0.1", 80)), "connecting");
		fd = env::find(env::TCP);
		http::RequestHeader rh;
		rh.path = "/ws";
		c->web_socket_upgrade(rh);
	}
	loop.run();
	const std::string &o = env::at(fd).out;
	size_t pos = o.find("\r\n\r\n") + 4;
	bool fin;
	int op;
	std::string body;
	if (act <= 2) {
		vp_assert((uint8_t)o[pos + 1] % 128 <= 125, "control frames are short");
		vp_assert(take(o, pos, !server, fin, op, body) && fin && op == (act == 0 ? 8 : act == 1 ? 9 : 10), "the control frame is sent, in one piece");
		if (act == 0) {
			vp_assert(body.size() >= 2 && (uint8_t)body[0] * 256 + (uint8_t)body[1] == control_code, "closed with the code");
			body = body.substr(2);
			if (longest == control_body.size()) vp_cover("whole");
			if (longest < control_body.size() && longest < 123) vp_cover("cut before a character");
			vp_assert(!env::at(fd).open || env::at(fd).shut_wr, "closed");
		}
		vp_assert(body.size() == longest, "as much of it as fits, in whole characters");
		bool same = true;
		for (size_t i = 0; i < body.size(); i++)
			same &= body[i] == control_body[i];
		vp_assert(same, "what the application gave");
	} else if (act == 3) {
		vp_assert(told == 1 && control_told_code == (uint8_t)whole[0] * 256 + (uint8_t)whole[1], "the application is told the code");
		bool good = text_ok(reason);
		vp_assert(control_told.size() == (good ? reason.size() : 0), "and the reason if it is text");
		bool same = true;
		for (size_t i = 0; i < control_told.size(); i++)
			same &= control_told[i] == reason[i];
		vp_assert(same, "the same reason");
		if (!good) vp_cover("not text");
		if (good && reason.size() > 2) vp_cover("text");
	} else {
		vp_assert(silences == 2, "silence");
		if (stuck)
			vp_assert(take(o, pos, false, fin, op, body) && op == 2 && body == "0123456789", "what could not be sent is sent later");
		for (size_t i = stuck; i < silences; i++)
			vp_assert(take(o, pos, false, fin, op, body) && fin && op == 9 && body.empty(), "a ping for each silence in which nothing was waiting to be sent");
		vp_assert(env::at(fd).open && told == 0, "the session goes on");
		vp_cover("kept alive");
	}
	vp_assert(pos == o.size(), "nothing else is sent");
	vp_cover("done");
	delete c;
	delete s;
}
