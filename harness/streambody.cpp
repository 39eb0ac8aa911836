// C27: bodies sent in pieces: known length, chunked, web socket message; pushed or pulled.
#include "env.hpp"
#include <crab/crab.hpp>
using namespace crab;
using http::WebMessage;
using http::WebMessageOpcode;
namespace {
struct Op {
	size_t size;
	bool str, buffer_only, pause;
};
http::Client *client;
Timer *later;
int lfd = -1, fd = -1, nops, next_op, requests, frees_left = 2, closed_told;
Op ops[6];
std::string given, planned, answer2;
size_t mode;  // 0 known length, 1 chunked, 2 web socket
size_t length;
bool over, refused, finished, may_close, peer_gone, keep;
std::string stream;
bool delivered, pull, big_piece;
size_t piece;
char flags;

void finish() {
	finished = true;
	if (mode != 0)
		client->write_last_chunk();
}
void push() {
	while (next_op < nops) {
		Op &o = ops[next_op++];
		std::string part = planned.substr(given.size(), o.size);
		BufferOptions bo = o.buffer_only ? BUFFER_ONLY : WRITE;
		uint64_t before = client->get_body_position();
		vp_assert(before == given.size(), "the position is what was written");
		bool too_much = mode == 0 && given.size() + part.size() > length;
		try {
			if (o.str)
				client->write(std::string(part), bo);
			else
				client->write(part.data(), part.size(), bo);
			vp_assert(!too_much, "more than announced is refused");
			given += part;
		} catch (const std::logic_error &) {
			vp_assert(too_much || (mode == 0 && given.size() == length), "nothing else is refused");
			refused = true;
			planned = given + planned.substr(given.size() + o.size);
		}
		vp_assert(client->get_body_position() == given.size(), "the position is what was written");
		if (mode == 0 && given.size() == length && !over)
			break;
		if (o.pause) {
			later->once(0.001);
			return;
		}
	}
	if (mode == 0 && given.size() < length) {  // what is left
		std::string rest(length - given.size(), 'z');
		given += rest;
		client->write(std::move(rest));
	}
	finish();
}
void world(int timeout) {
	fd = env::find(env::TCP);
	if (fd < 0) {
		if (!env::at(lfd).backlog) {
			env::at(lfd).backlog = 1;
			env::edge(lfd, EPOLLIN);
		}
		return;
	}
	env::Fd &f = env::at(fd);
	if (timeout == 0)
		return;
	if (!delivered) {
		delivered = true;
		env::arrive(fd, stream);
		return;
	}
	if (env::any_ready())
		return;
	if (f.open && may_close && !peer_gone && vp_flag("peer goes")) {
		peer_gone = true;
		if (vp_flag("reset"))
			env::fails(fd, env::some_error());
		else
			env::peer_closes(fd);
		return;
	}
	if (f.open && f.space == 0) {
		env::frees(fd, frees_left-- > 0 ? (size_t[]){1, 7, 150}[vp_choice(3, "frees")] : 1 << 20);
		if (env::any_ready())
			return;
	}
	if (f.open && timeout < 16000) {
		env::now_ns += (int64_t)timeout * 1000000;
		return;
	}
	RunLoop::current()->cancel();
}
// the body as received; complete: whether its end was seen
std::string body_of(const std::string &o, size_t &pos, bool &complete) {
	std::string b;
	complete = false;
	if (mode == 0) {
		size_t n = std::min(length, o.size() - pos);
		b = o.substr(pos, n);
		pos += n;
		complete = n == length;
	} else if (mode == 1) {
		while (pos < o.size()) {
			size_t e = o.find("\r\n", pos), n = 0;
			if (e == std::string::npos)
				break;
			vp_assert(e > pos && e - pos < 8, "a chunk size");
			for (size_t i = pos; i < e; i++) {
				char c = o[i];
				vp_assert((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), "a chunk size");
				n = n * 16 + (size_t)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
			}
			if (o.size() < e + 4 + n) {
				b += o.substr(e + 2, n);
				pos = o.size();
				break;
			}
			vp_assert(o.compare(e + 2 + n, 2, "\r\n") == 0, "a chunk ends");
			b += o.substr(e + 2, n);
			pos = e + 4 + n;
			if (n == 0) {
				complete = true;
				break;
			}
		}
	} else {
		bool first = true;
		while (pos + 2 <= o.size()) {
			uint8_t a = (uint8_t)o[pos];
			size_t n = (uint8_t)o[pos + 1], h = 2;
			if (n == 126 && pos + 4 <= o.size()) {
				n = (size_t)(uint8_t)o[pos + 2] * 256 + (uint8_t)o[pos + 3];
				h = 4;
			}
			if (n == 127 && pos + 10 <= o.size()) {
				n = 0;
				for (size_t i = 2; i < 10; i++)
					n = n * 256 + (uint8_t)o[pos + i];
				h = 10;
			}
			if ((a & 15) == 10) {
				pos += h + n;
				continue;
			}
			vp_assert((a & 0x7f) == (first ? 2 : 0), "fragments of one message");
			first = false;
			if (o.size() < pos + h + n) {
				b += o.substr(pos + h);
				pos = o.size();
				break;
			}
			b += o.substr(pos + h, n);
			pos += h + n;
			if (a & 0x80) {
				complete = true;
				break;
			}
		}
	}
	return b;
}
void begin() {
	if (mode == 2) {
		client->start_write_stream(WebMessageOpcode::BINARY, []() {
			if (!client->is_open())
				closed_told++;
		});
	} else {
		http::ResponseHeader h;
		h.status = 200;
		if (mode == 0)
			h.content_length = length;
		else
			h.transfer_encoding_chunked = true;
		client->start_write_stream(h, []() {
			if (!client->is_open())
				closed_told++;
		});
	}
}
void begin_pull() {
	struct Captures {  // too big to be kept within std::function
		http::Client *who;
		size_t len, piece;
		std::string *src;
		char *flags;
	} c{client, length, piece, &planned, &flags};
	auto h = [c]() {
		if (!c.who->is_open()) {
			closed_told++;
			return;
		}
		while (c.who->can_write() && c.who->get_body_position() != c.len) {
			size_t n = std::min(c.piece, c.len - (size_t)c.who->get_body_position());
			c.who->write(c.src->data() + c.who->get_body_position(), n);
		}
		if (c.who->get_body_position() == c.len && *c.flags == 0) {
			*c.flags = 1;
			given = *c.src;
			if (mode != 0)
				c.who->write_last_chunk();
			finished = true;
			vp_assert(c.who == client && c.piece == piece, "the handler lives while it runs");
		}
	};
	if (mode == 2)
		return client->start_write_stream(WebMessageOpcode::BINARY, h);
	if (mode == 0 && length == 0)
		finished = true;
	http::ResponseHeader rh;
	rh.status = 200;
	if (mode == 0)
		rh.content_length = length;
	else
		rh.transfer_encoding_chunked = true;
	client->start_write_stream(rh, h);
}
void run(RunLoop &loop) {
	keep = mode == 2 || !vp_flag("connection close");
	may_close = vp_param("peer_closes", 0) != 0;
	static const size_t SPACES[] = {1 << 20, 0, 100, 160};
	env::space0 = SPACES[vp_choice((size_t)vp_param("spaces", 3), "space")];
	http::Server s(Address("0.0.0.0", 80));
	lfd = env::find(env::LISTEN);
	s.r_handler = [](http::Client *who, http::Request &&r) {
		requests++;
		if (r.header.path == "/two") {
			vp_assert(finished || over, "the next request is handled after the body was sent");
			who->write(http::Response::simple_text(200, "second answer"));
			return;
		}
		client = who;
		if (mode == 2)
			who->web_socket_upgrade([](WebMessage &&m) {
				if (m.is_close())
					return;
				vp_assert(finished, "the next message is read after this one was sent");
				requests++;
				client->write(WebMessage(WebMessageOpcode::TEXT, "second answer"));
			});
		if (pull) {
			begin_pull();
			return;
		}
		begin();
		push();
	};
	Timer t([]() {
		if (env::at(fd).open && !closed_told)
			push();
	});
	later = &t;
	if (mode == 2) {
		stream = "GET /ws HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
		stream += "\x81\x81";
		stream += std::string(4, '\0') + "x";
	} else
		stream = std::string("GET /one HTTP/1.1\r\n") + (keep ? "" : "Connection: close\r\n") + "\r\nGET /two HTTP/1.1\r\n\r\n";
	env::on_wait = world;
	loop.run();
	env::Fd &f = env::at(fd);
	size_t pos = f.out.find("\r\n\r\n");
	bool complete = false;
	std::string b;
	if (pos != std::string::npos) {
		vp_assert(mode != 0 || f.out.find("content-length: " + std::to_string(length) + "\r\n") < pos, "the length is announced");
		vp_assert(mode != 1 || f.out.find("chunked") < pos, "chunks are announced");
		pos += 4;
		b = body_of(f.out, pos, complete);
	}
	vp_assert(b.size() <= given.size() + (peer_gone ? planned.size() : 0), "no more than was given");
	if (!peer_gone) {
		vp_assert(finished && complete && b == given, "the body arrives as it was given, with its end");
		vp_assert(refused == over, "more than announced is refused");
		if (keep) {
			vp_assert(requests == 2 && f.out.find("second answer", pos) != std::string::npos, "then the connection goes on");
			vp_assert(mode == 2 || f.out.compare(pos, 9, "HTTP/1.1 ") == 0, "right behind the body");
			vp_assert(f.open, "and stays");
		} else
			vp_assert(requests == 1 && pos == f.out.size() && !f.open, "then the connection is closed as announced");
		vp_cover("sent");
		if (frees_left < 2) vp_cover("opt:in pieces");
		if (over) vp_cover("opt:refused");
	} else {
		vp_assert(!f.open && closed_told <= 1, "gone");
		vp_assert(finished || closed_told == 1 || (mode == 0 && given.size() == length), "the application is told");
		vp_cover("opt:gone");
	}
	vp_cover("done");
}
}  // namespace
extern "C" void h_stream_push() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	mode = vp_choice(3, "mode");
	nops = (int)vp_param("ops", 2);
	size_t total = 0;
	static const size_t SIZES[] = {1, 3, 0, 130};
	for (int i = 0; i < nops; i++) {
		ops[i].size = SIZES[vp_choice((size_t)vp_param("sizes", 3), "size")];
		ops[i].str = vp_flag("string");
		ops[i].buffer_only = vp_flag("buffer");
		ops[i].pause = vp_flag("pause");
		total += ops[i].size;
	}
	for (size_t i = 0; i < total; i++)
		planned += (char)(i < 6 ? vp_sym<uint8_t>("byte") : 'b');
	// the length announced: what is written, one more (filled up at the end), or less (the rest is refused)
	length = total;
	if (mode == 0) {
		size_t k = vp_choice(3, "length");
		if (k == 1)
			length = total + 1;
		if (k == 2) {
			vp_assume(ops[nops - 1].size > 0);
			length = total - 1;
			for (int i = 0; i < nops; i++)
				vp_assume(!ops[i].buffer_only);
			over = true;
		}
		for (int i = nops - 1; i >= 0 && k == 0; i--)
			if (ops[i].size || i == 0) {
				vp_assume(!ops[i].buffer_only);  // nobody sends what is left in the buffer
				break;
			}
		vp_assume(length > 0);
	}
	run(loop);
}
extern "C" void h_stream_pull() {
	RunLoop loop;
	auto slim = std::move(loop.stats);
	loop.rnd = Random(1);
	pull = true;
	mode = vp_choice(3, "mode");
	static const size_t LENS[] = {0, 1, 5, 200, 70000};
	static const size_t PIECES[] = {1, 2, 100, 65536};
	length = LENS[vp_choice(5, "length")];
	piece = PIECES[vp_choice(4, "piece")];
	vp_assume(length <= piece * 200);
	for (size_t i = 0; i < length; i++)
		planned += (char)(i < 3 ? vp_sym<uint8_t>("byte") : 'a' + (int)(i % 23));
	run(loop);
}
