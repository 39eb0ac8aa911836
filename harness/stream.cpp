// C09: stream transfers conserve bytes, order and counts.
#include "vp.h"
#include <crab/crab.hpp>
#include <memory>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;

// a sink that takes at most `chunk` bytes at a time and `left` altogether
struct SlowSink : crab::OStream {
	Bytes got;
	size_t left = 0, chunk = 1;
	size_t write_some(const uint8_t *val, size_t count) override {
		size_t n = std::min(std::min(count, left), chunk);
		got.insert(got.end(), val, val + n);
		left -= n;
		return n;
	}
	using crab::OStream::write_some;
};
struct Source {
	Bytes bytes;
	std::string str;
	std::unique_ptr<crab::IFiniteStream> s;
};
static std::unique_ptr<crab::IFiniteStream> make(std::vector<std::unique_ptr<Source>> &keep, Bytes &content, size_t maxn, int depth) {
	size_t kind = vp_choice(depth ? 7 : 6, "kind");
	if (kind == 6) {
		auto a = make(keep, content, maxn, depth - 1);
		auto b = make(keep, content, maxn, depth - 1);
		return std::unique_ptr<crab::IFiniteStream>(new crab::CombinedIStream(std::move(a), std::move(b)));
	}
	size_t n = vp_choice(maxn + 1, "n");
	std::unique_ptr<Source> src(new Source);
	for (size_t i = 0; i < n; i++) {
		uint8_t v = vp_sym<uint8_t>("c");
		src->bytes.push_back(v);
		src->str += (char)v;
		content.push_back(v);
	}
	std::unique_ptr<crab::IFiniteStream> r;
	switch (kind) {
	case 0: r.reset(new crab::IMemoryStream(src->bytes.data(), n)); break;
	case 1: r.reset(new crab::IVectorStream(&src->bytes)); break;
	case 2: r.reset(new crab::IStringStream(&src->str)); break;
	case 3: {
		std::unique_ptr<crab::VectorStream> v(new crab::VectorStream());
		v->write(src->bytes.data(), n);
		if (vp_flag("moved"))
			v.reset(new crab::VectorStream(std::move(*v)));
		r = std::move(v);
		break;
	}
	case 4: {
		std::unique_ptr<crab::StringStream> v(new crab::StringStream());
		v->write(src->bytes.data(), n);
		if (vp_flag("moved")) {
			std::unique_ptr<crab::StringStream> w(new crab::StringStream());
			*w = std::move(*v);
			v = std::move(w);
		}
		r = std::move(v);
		break;
	}
	default: {  // circular buffer whose content wraps around
		std::unique_ptr<crab::Buffer> v(new crab::Buffer(n + 1));
		size_t skip = vp_choice(n + 1, "skip");
		uint8_t z[16] = {};
		v->write(z, skip + (n ? 1 : 0) - (n ? 1 : 0));
		v->write(src->bytes.data(), std::min<size_t>(1, n));
		v->did_read(skip);
		v->write(src->bytes.data() + std::min<size_t>(1, n), n - std::min<size_t>(1, n));
		r = std::move(v);
	}
	}
	keep.push_back(std::move(src));
	return r;
}
static void expect_prefix(const Bytes &content, size_t &pos, const uint8_t *got, size_t n) {
	vp_assert(pos + n <= content.size(), "never more bytes than the source holds");
	bool same = true;
	for (size_t i = 0; i < n && pos + i < content.size(); i++)
		same &= got[i] == content[pos + i];
	vp_assert(same, "bytes arrive in order, nothing lost or repeated");
	pos += n;
}
static void transfer(crab::IFiniteStream &in, const Bytes &content, size_t &pos, size_t maxn) {
	size_t remain = content.size() - pos;
	switch (vp_choice(3, "op")) {
	case 0: {
		size_t n = vp_choice(maxn + 2, "count");
		uint8_t t[16];
		size_t got = in.read_some(t, n);
		vp_assert(got <= n && (got != 0 || n == 0 || remain == 0), "read_some gives something while there is something");
		expect_prefix(content, pos, t, got);
		break;
	}
	case 1: {
		size_t n = vp_choice(maxn + 2, "count");
		uint8_t t[16];
		bool threw = false;
		try {
			in.read(t, n);
		} catch (const std::runtime_error &) {
			threw = true;
		}
		vp_assert(threw == (n > remain), "read throws exactly when the source is too short");
		expect_prefix(content, pos, t, std::min(n, remain));
		break;
	}
	default: {
		size_t lim = vp_choice(maxn + 2, "max"), cap = vp_choice(maxn + 2, "cap"), kind = vp_choice(5, "sink");
		bool nolimit = lim == maxn + 1;
		if (nolimit) lim = 100;
		SlowSink slow;
		Bytes v, mem(cap);
		std::string st;
		crab::OMemoryStream om(mem.data(), cap);
		crab::OVectorStream ov(&v);
		crab::OStringStream os(&st);
		crab::Buffer buf(cap);
		crab::OStream *out;
		slow.left = cap;
		if (kind == 0) {
			slow.chunk = 1 + vp_choice(2, "chunk");
			out = &slow;
		} else if (kind == 1)
			out = &om;
		else if (kind == 2) {
			out = &ov;
			cap = 100;
		} else if (kind == 3) {
			out = &os;
			cap = 100;
		} else
			out = &buf;
		size_t moved = nolimit ? in.write_to(*out) : in.write_to(*out, lim);
		size_t want = std::min(std::min(lim, remain), cap);
		Bytes got;
		if (kind == 0)
			got = slow.got;
		else if (kind == 1)
			got.assign(mem.begin(), mem.begin() + std::min(want, cap));
		else if (kind == 2)
			got = v;
		else if (kind == 3)
			got.assign(st.begin(), st.end());
		else {
			got.resize(buf.size());
			buf.peek(got.data(), got.size());
		}
		vp_assert(got.size() == want, "a transfer stops only at the limit, the end of the source or a full sink");
		vp_assert(moved == got.size(), "the reported count is what was moved");
		expect_prefix(content, pos, got.data(), got.size());
	}
	}
	vp_assert(in.size() == content.size() - pos, "the source advances by exactly what was moved");
	vp_assert(in.empty() == (content.size() == pos), "empty agrees");
}
extern "C" void h_transfer() {
	std::vector<std::unique_ptr<Source>> keep;
	Bytes content;
	size_t maxn = (size_t)vp_param("n", 3);
	auto in = make(keep, content, maxn, 0);
	size_t pos = 0;
	vp_assert(in->size() == content.size(), "size");
	for (int i = 0; i < (int)vp_param("ops", 2); i++)
		transfer(*in, content, pos, maxn);
	vp_cover("done");
}
extern "C" void h_combined() {
	std::vector<std::unique_ptr<Source>> keep;
	Bytes content;
	size_t maxn = (size_t)vp_param("n", 1);
	auto in = make(keep, content, maxn, (int)vp_param("depth", 1));
	size_t pos = 0;
	vp_assert(in->size() == content.size(), "size");
	for (int i = 0; i < (int)vp_param("ops", 2); i++)
		transfer(*in, content, pos, maxn + 1);
	vp_cover("done");
}
// exact writes
extern "C" void h_exact_write() {
	size_t cap = vp_choice(4, "cap"), n = vp_choice(6, "n");
	uint8_t t[8];
	vp_symbolic(t, 8, "t");
	bool threw = false;
	Bytes mem(cap), got;
	SlowSink slow;
	slow.left = cap;
	slow.chunk = 1 + vp_choice(2, "chunk");
	crab::OMemoryStream om(mem.data(), cap);
	bool m = vp_flag("memory");
	crab::OStream &out = m ? (crab::OStream &)om : (crab::OStream &)slow;
	try {
		if (n == 1 && vp_flag("byte"))
			out.write_byte(t[0]);
		else
			out.write(t, n);
	} catch (const std::runtime_error &) {
		threw = true;
	}
	vp_assert(threw == (n > cap), "write throws exactly when the sink is too small");
	if (m)
		got.assign(mem.begin(), mem.begin() + std::min(n, cap));
	else
		got = slow.got;
	vp_assert(got.size() == std::min(n, cap), "everything that fits is written");
	bool same = true;
	for (size_t i = 0; i < got.size(); i++)
		same &= got[i] == t[i];
	vp_assert(same, "in order");
	vp_cover("done");
}
// the in-memory streams keep what they hold, and where they are, when they are moved
template<typename S, typename C>
static void moved_case() {
	size_t n = vp_choice((size_t)vp_param("n", 3) + 1, "n"), r = vp_choice(n + 1, "read"), more = vp_choice(3, "more");
	uint8_t t[8], b[8] = {};
	vp_symbolic(t, 8, "t");
	auto a = std::unique_ptr<S>(new S(C(t, t + n)));
	vp_assert(a->read_some(b, r) == r, "read");
	bool assign = vp_flag("assigned"), fresh = vp_flag("to an empty one");
	S target = fresh ? S() : S(C(3, 'x'));
	if (!fresh)
		vp_assert(target.read_some(b, 2) == 2, "read");
	std::unique_ptr<S> made;
	if (assign)
		target = std::move(*a);
	else
		made.reset(new S(std::move(*a)));
	a.reset();  // nothing may refer to it
	S &s = assign ? target : *made;
	vp_assert(s.size() == n - r && s.get_buffer().size() == n, "holds the same, at the same position");
	s.write((const char *)t + n, more);
	vp_assert(s.size() == n - r + more, "goes on");
	bool same = true;
	switch (vp_choice(3, "how")) {
	case 0:
		s.read(b, n - r + more);
		vp_assert(s.empty() && s.read_some(b + n - r + more, 1) == 0, "all is read");
		for (size_t i = 0; i < n - r + more; i++)
			same &= b[i] == t[r + i];
		break;
	case 1: {
		S o;
		vp_assert(s.write_to(o, 2) == std::min<size_t>(2, n - r + more), "as many as asked");
		s.write_to(o);
		vp_assert(s.empty() && o.size() == n - r + more, "all is moved on");
		o.read(b, n - r + more);
		for (size_t i = 0; i < n - r + more; i++)
			same &= b[i] == t[r + i];
		break;
	}
	default: {
		C c = s.clear();
		vp_assert(c.size() == n + more && s.empty() && s.get_buffer().empty(), "clear gives all that was written");
		for (size_t i = 0; i < n + more; i++)
			same &= (uint8_t)c[i] == t[i];
		s.write(t, 2);
		vp_assert(s.size() == 2, "and it starts again");
		s.read((char *)b, 2);
		same &= (b[0] == t[0]) & (b[1] == t[1]);
	}
	}
	vp_assert(same, "the same bytes in the same order");
}
extern "C" void h_moved() {
	if (vp_flag("vector"))
		moved_case<crab::VectorStream, crab::bdata>();
	else
		moved_case<crab::StringStream, std::string>();
	vp_cover("done");
}
