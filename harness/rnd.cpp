// C38: Random. C39: stand-ins for std::optional / std::string_view and small utilities.
#include "vp.h"
#include <crab/crab.hpp>
#include <string>
#include <vector>

// PCG32 (XSH RR 64/32) as published, seeded as Random(seed) documents: increment from the seed, two steps
struct Pcg {
	uint64_t state, inc;
	explicit Pcg(uint64_t seed) : state(0), inc(seed * 2 + 1) {
		next();
		next();
	}
	uint32_t next() {
		const uint64_t old = state;
		state = old * 6364136223846793005ULL + inc;
		const uint32_t x = (uint32_t)(((old >> 18) ^ old) >> 27);
		const unsigned rot = (unsigned)(old >> 59);
		return rot == 0 ? x : (x >> rot) | (x << (32 - rot));
	}
};
static crab::Random any_random() { return vp_flag("seeded") ? crab::Random(vp_sym<uint64_t>("seed")) : crab::Random(); }

extern "C" void h_rnd_double() {
	crab::Random r;
	const double d = r.double_value();
	vp_assert((d >= 0) & (d < 1), "double_value is in [0..1)");
	vp_cover("value");
}
// the value changes in 2^-53 steps or finer and uses all of the range: both halves and both extremes are reachable
extern "C" void h_rnd_double_range() {
	crab::Random r;
	const double d = r.double_value();
	if (d < 1e-6)
		vp_cover("near zero");
	if (d > 1 - 1e-6)
		vp_cover("near one");
}
extern "C" void h_rnd_sequence() {
	const uint64_t seed = vp_sym<uint64_t>("seed");
	crab::Random r(seed), again(seed);
	Pcg p(seed);
	for (int i = 0; i < 3; i++) {
		const uint32_t v = r();
		vp_assert(v == p.next(), "outputs are those of PCG32");
		vp_assert(v == again(), "the same seed gives the same sequence");
	}
	static_assert(crab::Random::min() == 0 && crab::Random::max() == 0xffffffffu, "range of the adapter");
	vp_cover("sequence");
}
// bytes(): exactly size bytes, little-endian words of the sequence, a word per started four bytes
extern "C" void h_rnd_bytes() {
	crab::Random r = any_random();
	crab::Random ref(r);
	const size_t n = vp_choice(vp_param("n", 2), "n");
	const size_t off = vp_choice(4, "alignment");
	uint8_t *buf = new uint8_t[off + n + 1];
	memset(buf, 0xa5, off + n + 1);
	const unsigned how = vp_choice(3, "how");
	if (how == 0)
		r.bytes(buf + off, n);
	else if (how == 1)
		r.bytes((char *)(buf + off), n);
	else {
		const crab::bdata d = r.data(n);
		vp_assert(d.size() == n, "data() has the size asked");
		for (size_t i = 0; i < n; i++)
			buf[off + i] = d[i];
	}
	for (size_t i = 0; i < off; i++)
		vp_assert(buf[i] == 0xa5, "bytes before the buffer are not touched");
	vp_assert(buf[off + n] == 0xa5, "bytes after the buffer are not touched");
	uint32_t w = 0;
	for (size_t i = 0; i < n; i++) {
		if (i % 4 == 0)
			w = ref();
		vp_assert(buf[off + i] == (uint8_t)(w >> (8 * (i % 4))), "bytes are the generator's words");
	}
	vp_assert(r() == ref(), "a word is used per started four bytes");
	delete[] buf;
	if (n % 4 == 0)
		vp_cover("whole words");
	else
		vp_cover("partial word");
}
extern "C" void h_rnd_pod() {
	crab::Random r = any_random();
	crab::Random ref(r);
	const uint64_t v = r.pod<uint64_t>();
	const uint64_t lo = ref(), hi = ref();
	vp_assert(v == (lo | hi << 32), "pod() is made of the next words");
	const uint16_t s = r.pod<uint16_t>();
	vp_assert(s == (uint16_t)ref(), "pod() of two bytes");
	vp_cover("pod");
}
// printable_string: size asked, only letters and digits, every one of the 62 equally likely: the words used are
// those not below 2^32 mod 62 and each of the remaining (an exact multiple of 62) selects by its remainder
extern "C" void h_rnd_printable() {
	static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
	crab::Random r;
	crab::Random ref(r);
	const size_t n = vp_choice(vp_param("n", 2), "n");
	unsigned again = 0;
	uint32_t w[4] = {};
	for (size_t i = 0; i < n;) {
		w[i] = ref();
		if (w[i] >= (uint32_t)(0x100000000ULL % 62))
			i++;
		else {
			vp_assume((int64_t)++again <= vp_param("again", 2));
			vp_cover("word not used");
		}
	}
	const std::string s = r.printable_string(n);
	vp_assert(s.size() == n, "printable_string has the size asked");
	for (size_t i = 0; i < n; i++)
		vp_assert(s[i] == alphabet[w[i] % 62], "characters are letters and digits, one for each remainder");
	vp_assert(r() == ref(), "words below the threshold are the only ones left out");
	if (n != 0)
		vp_cover("characters");
}
// ---- C39
template<typename T>
static void rol_case() {
	const unsigned B = sizeof(T) * 8;
	const T v = vp_sym<T>("value");
	const size_t sh = vp_sym<uint8_t>("shift");
	const T r = crab::rol<T>(v, sh);
	const size_t bit = vp_sym<uint8_t>("bit");
	vp_assume(bit < B);
	vp_assert(((r >> ((bit + sh) % B)) & 1) == ((v >> bit) & 1), "every bit moves up by shift, modulo the width");
}
extern "C" void h_rol() {
	switch (vp_choice(4, "width")) {
	case 0: rol_case<uint8_t>(); break;
	case 1: rol_case<uint16_t>(); break;
	case 2: rol_case<uint32_t>(); break;
	default: rol_case<uint64_t>(); break;
	}
	vp_cover("rotated");
}
extern "C" void h_view() {
	const size_t n = vp_choice(vp_param("n", 2), "n");
	char *lit = new char[n + 1];
	std::string model;
	for (size_t i = 0; i < n; i++) {
		lit[i] = vp_sym<char>("c");
		vp_assume(lit[i] != 0);
		model += lit[i];
	}
	lit[n] = 0;
	crab::string_view v{lit};
	vp_assert(v.size() == n, "view of a literal has its length");
	for (int64_t k = 0; k < vp_param("ops", 2); k++) {
		const size_t a = vp_choice(n + 2, "a");
		switch (vp_choice(3, "op")) {
		case 0: {
			const size_t b = vp_flag("to the end") ? std::string::npos : vp_choice(n + 1, "count");
			bool thrown = false;
			crab::string_view s;
			try {
				s = v.substr(a, b);
			} catch (const std::out_of_range &) { thrown = true; }
			vp_assert(thrown == (a > model.size()), "substr throws exactly when the position is outside");
			if (thrown)
				return vp_cover("position outside");
			v = s;
			model = model.substr(a, b);
			vp_cover("substr");
			break;
		}
		case 1:
			if (a > model.size())
				return;
			v.remove_prefix(a);
			model.erase(0, a);
			vp_cover("remove_prefix");
			break;
		default:
			if (a > model.size())
				return;
			v.remove_suffix(a);
			model.erase(model.size() - a);
			vp_cover("remove_suffix");
		}
		vp_assert(v.size() == model.size(), "view has the length of the part");
		for (size_t i = 0; i < model.size(); i++)
			vp_assert(v.data()[i] == model[i], "view shows the part");
	}
	// equality with every string
	std::string other;
	const size_t m = vp_choice(n + 2, "m");
	for (size_t i = 0; i < m; i++)
		other += vp_sym<char>("o");
	bool eq = m == model.size();
	for (size_t i = 0; eq & (i < m); i++)
		eq &= other[i] == model[i];
	vp_assert((v == other) == eq, "view == string");
	vp_assert((other == v) == eq, "string == view");
	vp_assert((v != other) == !eq, "view != string");
	vp_assert((other != v) == !eq, "string != view");
	delete[] lit;
}
struct Counted {
	int v = 0;
	Counted() = default;
	explicit Counted(int a) : v(a) {}
	Counted(int a, int b) : v(a + b) {}
};
extern "C" void h_optional() {
	crab::optional<Counted> o[2];
	bool has[2] = {false, false};
	int val[2] = {0, 0};
	for (int64_t k = 0; k < vp_param("ops", 2); k++) {
		const unsigned i = vp_choice(2, "which");
		const int x = vp_sym<uint16_t>("x");
		switch (vp_choice(7, "op")) {
		case 0:
			o[i] = Counted(x);
			has[i] = true, val[i] = x;
			break;
		case 1: {
			const Counted c(x);
			o[i] = c;
			has[i] = true, val[i] = x;
			break;
		}
		case 2:
			vp_assert(o[i].emplace(x, 5).v == x + 5, "emplace returns the new value");
			has[i] = true, val[i] = x + 5;
			break;
		case 3: o[i].reset(), has[i] = false; break;
		case 4: o[i] = o[1 - i], has[i] = has[1 - i], val[i] = val[1 - i]; break;
		case 5: {
			crab::optional<Counted> t(o[i]);
			o[1 - i] = std::move(t);
			has[1 - i] = has[i], val[1 - i] = val[i];
			break;
		}
		default:
			if (has[i]) {
				o[i]->v += 1, val[i] += 1;
				o[i].value().v += 1, val[i] += 1;
				(*o[i]).v += 1, val[i] += 1;
			}
		}
		for (unsigned j = 0; j < 2; j++) {
			const crab::optional<Counted> &c = o[j];
			vp_assert((bool(c) == has[j]) & (c.has_value() == has[j]), "has a value exactly when one was put");
			bool thrown = false;
			int got = 0;
			try {
				got = c.value().v;
			} catch (const std::exception &) { thrown = true; }
			vp_assert(thrown == !has[j], "value() of an empty one throws");
			if (has[j])
				vp_assert((got == val[j]) & ((*c).v == val[j]) & (c->v == val[j]), "holds the value put last");
		}
	}
	vp_cover("operations");
}
// scope_exit runs its action exactly once, on every way out
extern "C" void h_scope_exit() {
	int runs = 0;
	const unsigned how = vp_choice(3, "how");
	try {
		crab::scope_exit guard([&] { runs++; });
		vp_assert(runs == 0, "not before the end of the scope");
		if (how == 0)
			throw std::runtime_error("x");
		if (how == 1)
			goto out;
	} catch (const std::runtime_error &) { vp_cover("left by exception"); }
out:
	vp_assert(runs == 1, "the action runs once");
	vp_cover("left");
}
extern "C" void h_memzero() {
	const size_t n = vp_choice(vp_param("n", 2), "n"), a = vp_choice(n + 1, "a"), len = vp_choice(n - a + 1, "len");
	uint8_t *b = new uint8_t[n ? n : 1], *c = new uint8_t[n ? n : 1];
	for (size_t i = 0; i < n; i++)
		b[i] = c[i] = vp_sym<uint8_t>("b");
	crab::memzero(b + a, len);
	for (size_t i = 0; i < n; i++)
		vp_assert(b[i] == (i >= a && i < a + len ? 0 : c[i]), "exactly the bytes given are cleared");
	delete[] b;
	delete[] c;
	vp_cover("cleared");
}

extern "C" void h_append() {
	crab::bdata a(vp_choice(4, "n")), b(vp_choice(4, "m"));
	for (auto &x : a)
		x = vp_sym<uint8_t>("a");
	for (auto &x : b)
		x = vp_sym<uint8_t>("b");
	crab::bdata r(a);
	crab::append(r, b);
	vp_assert(r.size() == a.size() + b.size(), "the sizes add up");
	bool same = true;
	for (size_t i = 0; i < r.size(); i++)
		same &= r[i] == (i < a.size() ? a[i] : b[i - a.size()]);
	vp_assert(same, "one behind the other");
	vp_cover("done");
}
