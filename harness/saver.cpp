// C07 fixed-buffer decimal formatter (needs C++14 to instantiate).
#include "vp.h"
#include <crab/crab.hpp>
#include <crab/integer_cast.hpp>
#include <type_traits>
static bool dg(uint8_t c) { return (c >= '0') & (c <= '9'); }
// IntegerSaver: compared with digits built from the text side
template<class T>
static void saver_case(T v) {
	crab::IntegerSaver<T> s(v);
	const uint8_t *p = (const uint8_t *)s.data();
	size_t n = s.size();
	typedef typename std::make_unsigned<T>::type U;
	size_t i = 0;
	bool neg = v < 0;
	vp_assert(n >= 1 && n <= 20, "length");
	vp_assert((p[0] == '-') == neg, "sign");
	if (neg) i = 1;
	vp_assert(n > i, "has digits");
	U acc = 0;
	bool ok = true, over = false;
	for (size_t k = i; k < n; k++) {
		ok &= dg(p[k]);
		acc = (U)(acc * 10 + (U)(p[k] - '0'));
	}
	(void)over;
	vp_assert(ok, "only digits");
	vp_assert(n == i + 1 || p[i] != '0', "no leading zero");
	if (neg) acc = (U)(0 - acc);
	vp_assert(acc == (U)v, "the spelling denotes the value");
}
extern "C" void h_saver_small() {
	switch (vp_choice(4, "type")) {
	case 0: saver_case(vp_sym<int8_t>("v")); break;
	case 1: saver_case(vp_sym<uint8_t>("v")); break;
	case 2: saver_case(vp_sym<int16_t>("v")); break;
	default: saver_case(vp_sym<uint16_t>("v")); break;
	}
	vp_cover("done");
}
// wide types: around every power of ten and both limits, 8 (thorough 16) free low bits
template<class T>
static void saver_wide() {
	uint64_t base = 0;
	size_t k = vp_choice(std::numeric_limits<T>::digits10 + 3, "pow");
	if (k == (size_t)std::numeric_limits<T>::digits10 + 1)
		base = (uint64_t)std::numeric_limits<T>::max();
	else if (k == (size_t)std::numeric_limits<T>::digits10 + 2)
		base = (uint64_t)std::numeric_limits<T>::min();
	else {
		base = 1;
		for (size_t i = 0; i < k; i++)
			base *= 10;
	}
	uint64_t off;
	if (vp_param("wide", 0))
		off = vp_sym<uint16_t>("off");
	else
		off = vp_sym<uint8_t>("off");
	T v = (T)(base + off - 100);
	if (vp_flag("neg"))
		v = (T)(0 - (typename std::make_unsigned<T>::type)v);
	saver_case<T>(v);
}
extern "C" void h_saver_wide() {
	switch (vp_choice(4, "type")) {
	case 0: saver_wide<int32_t>(); break;
	case 1: saver_wide<uint32_t>(); break;
	case 2: saver_wide<int64_t>(); break;
	default: saver_wide<uint64_t>(); break;
	}
	vp_cover("done");
}
