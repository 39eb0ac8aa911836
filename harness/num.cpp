// C06 text to integer, C07 checked conversions and arithmetic.
#include "vp.h"
#include <crab/crab.hpp>
#include <crab/integer_cast.hpp>
#include <type_traits>

// ---- C06 -------------------------------------------------------------------------------------------------------
static bool sp(uint8_t c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool dg(uint8_t c) { return (c >= '0') & (c <= '9'); }

// does the decimal digit string d[0..n) (no leading zero) stay within the limit given as a digit string?
static bool digits_fit(const uint8_t *d, size_t n, const std::string &lim) {
	if (n != lim.size())
		return n < lim.size();
	bool lt = false, eq = true;
	for (size_t i = 0; i < n; i++) {
		lt |= eq & (d[i] < (uint8_t)lim[i]);
		eq &= d[i] == (uint8_t)lim[i];
	}
	return lt | eq;
}
template<class T>
static void text_case(const char *maxs, const char *mins, size_t maxlen, bool framed) {
	// framed: long numbers around the limits: sign, a fixed background of digits, a window of arbitrary digits
	std::string s;
	if (framed) {
		size_t sign = vp_choice(std::is_signed<T>::value ? 3 : 2, "sign");
		s = sign == 0 ? "" : sign == 1 ? "+" : "-";
		const std::string lim(sign == 2 ? mins : maxs);
		const size_t len = std::min(lim.size(), (size_t)(std::numeric_limits<T>::digits10 + 1));
		const size_t digits = len - 1 + vp_choice(3, "digits");  // one less than the limit has, as many, one more
		size_t fill = vp_choice(3, "fill");
		std::string body;
		for (size_t i = 0; i < digits; i++)
			body += fill == 0 ? '9' : fill == 1 ? (i ? '0' : '1') : i < lim.size() ? lim[i] : '0';
		size_t win = std::min<size_t>(vp_param("win", 3), digits), at = vp_choice(digits - win + 1, "at");
		vp_symbolic(&body[at], win, "d");
		bool ok = true;
		for (size_t i = 0; i < win; i++)
			ok &= dg((uint8_t)body[at + i]);
		vp_assume(ok);
		s += body;
	} else {
		s.resize(vp_choice(maxlen + 1, "n"), '0');
		vp_symbolic(&s[0], s.size(), "s");
	}
	const size_t n = s.size();
	const uint8_t *p = (const uint8_t *)s.data();
	T got = 0;
	bool threw = false;
	try {
		got = crab::integer_cast<T>(s.data(), n);
	} catch (const std::out_of_range &) {
		threw = true;
	}
	// specification: Ws* (+|-)? (0 | [1-9][0-9]*) Ws*
	size_t i = 0, e = n;
	while (i < e && sp(p[i])) i++;
	bool neg = false, valid = i < e;
	if (valid && (p[i] == '-' || p[i] == '+')) {
		neg = p[i] == '-';
		i++;
	}
	if (neg && std::is_unsigned<T>::value)
		valid = false;
	size_t db = i;
	while (valid && i < e && dg(p[i])) i++;
	size_t de = i;
	valid = valid && de > db && !(de - db > 1 && p[db] == '0');
	while (valid && i < e && sp(p[i])) i++;
	valid = valid && i == e;
	if (!valid) {
		vp_assert(threw, "text that is not a number is rejected");
		vp_cover("opt:malformed");
		return;
	}
	bool fit = digits_fit(p + db, de - db, neg ? mins : maxs);
	vp_assert(threw == !fit, "rejected exactly when the value does not fit");
	if (threw) {
		vp_cover("opt:overflow");
		return;
	}
	typedef typename std::make_unsigned<T>::type U;
	U v = 0;
	for (size_t k = db; k < de; k++)
		v = (U)(v * 10 + (U)(p[k] - '0'));
	if (neg)
		v = (U)(0 - v);
	vp_assert((U)got == v, "the value the text spells");
	vp_cover("opt:value");
	if (n <= 4)
		vp_assert(crab::integer_cast<T>(s) == got && crab::integer_cast<T>(s.c_str()) == got, "all overloads agree");
}
#define TEXT(NAME, T, MX, MN)                                                                         \
	extern "C" void h_text_##NAME() { text_case<T>(MX, MN, (size_t)vp_param("n", 5), false); }            \
	extern "C" void h_digits_##NAME() { text_case<T>(MX, MN, 0, true); }
TEXT(i8, int8_t, "127", "128")
TEXT(u8, uint8_t, "255", "0")
TEXT(i16, int16_t, "32767", "32768")
TEXT(u16, uint16_t, "65535", "0")
TEXT(i32, int32_t, "2147483647", "2147483648")
TEXT(u32, uint32_t, "4294967295", "0")
TEXT(i64, int64_t, "9223372036854775807", "9223372036854775808")
TEXT(u64, uint64_t, "18446744073709551615", "0")

// ---- C07 -------------------------------------------------------------------------------------------------------
template<class T, class S>
static bool representable(S v) {
	const bool ts = std::is_signed<T>::value, ss = std::is_signed<S>::value;
	if (ss && v < 0)
		return ts && (int64_t)v >= (int64_t)std::numeric_limits<T>::min();
	return (uint64_t)v <= (uint64_t)std::numeric_limits<T>::max();
}
template<class T, class S>
static void cast_case() {
	S v = vp_sym<S>("v");
	bool fit = representable<T, S>(v);
	T got = 0;
	bool threw = false;
	try {
		got = crab::integer_cast<T>(v);
	} catch (const std::out_of_range &) {
		threw = true;
	}
	vp_assert(threw == !fit, "throws exactly when the value is not representable");
	if (!threw) {
		vp_assert((uint64_t)(int64_t)got == (uint64_t)(int64_t)v && (got < 0) == (v < 0), "same value");
	}
}
template<class T>
static void cast_to() {
	switch (vp_choice(8, "source")) {
	case 0: return cast_case<T, int8_t>();
	case 1: return cast_case<T, uint8_t>();
	case 2: return cast_case<T, int16_t>();
	case 3: return cast_case<T, uint16_t>();
	case 4: return cast_case<T, int32_t>();
	case 5: return cast_case<T, uint32_t>();
	case 6: return cast_case<T, int64_t>();
	default: return cast_case<T, uint64_t>();
	}
}
extern "C" void h_cast() {
	switch (vp_choice(8, "target")) {
	case 0: cast_to<int8_t>(); break;
	case 1: cast_to<uint8_t>(); break;
	case 2: cast_to<int16_t>(); break;
	case 3: cast_to<uint16_t>(); break;
	case 4: cast_to<int32_t>(); break;
	case 5: cast_to<uint32_t>(); break;
	case 6: cast_to<int64_t>(); break;
	default: cast_to<uint64_t>(); break;
	}
	vp_cover("done");
}
// floating point source: truncation towards zero when the truncated value fits, otherwise an exception (also for NaN)
template<class T, class F>
static void fcast_case() {
	F v = vp_sym<F>("v");
	T got = 0;
	bool threw = false;
	try {
		got = crab::integer_cast<T>(v);
	} catch (const std::out_of_range &) {
		threw = true;
	}
	// 2^(digits) and the least value are exactly representable in F
	const F top = (F)(std::numeric_limits<T>::max() / 2 + 1) * 2, low = (F)std::numeric_limits<T>::min();
	bool fits = (v < top) & (v >= low);
	bool whole_fits = fits & (v <= (F)std::numeric_limits<T>::max());
	if (!threw) {
		vp_assert(fits, "accepted only when the value is in range");
		if (fits)
			vp_assert(got == static_cast<T>(v), "truncates towards zero");
	} else
		vp_assert(!whole_fits, "a value in range is not refused");
}
template<class F>
static void fcast_from() {
	switch (vp_choice(8, "target")) {
	case 0: return fcast_case<int8_t, F>();
	case 1: return fcast_case<uint8_t, F>();
	case 2: return fcast_case<int16_t, F>();
	case 3: return fcast_case<uint16_t, F>();
	case 4: return fcast_case<int32_t, F>();
	case 5: return fcast_case<uint32_t, F>();
	case 6: return fcast_case<int64_t, F>();
	default: return fcast_case<uint64_t, F>();
	}
}
extern "C" void h_fcast() {
	if (vp_flag("dbl"))
		fcast_from<double>();
	else
		fcast_from<float>();
	vp_cover("done");
}
template<class T>
static void arith_case() {
	T a = vp_sym<T>("a"), b = vp_sym<T>("b");
	T sum, dif;
	bool fs = !__builtin_add_overflow(a, b, &sum), fd = !__builtin_sub_overflow(a, b, &dif);
	bool t = false;
	T r = 0;
	if (vp_flag("sub")) {
		auto o = crab::safe_sub_opt<T>(a, b);
		vp_assert(o.has_value() == fd, "safe_sub_opt has a value exactly when the difference fits");
		if (o.has_value())
			vp_assert(*o == dif, "safe_sub_opt value");
		try {
			r = crab::safe_sub<T>(a, b);
		} catch (const std::out_of_range &) {
			t = true;
		}
		vp_assert(t == !fd, "safe_sub throws exactly when the difference does not fit");
		if (!t)
			vp_assert(r == dif, "safe_sub value");
	} else {
		auto o = crab::safe_add_opt<T>(a, b);
		vp_assert(o.has_value() == fs, "safe_add_opt has a value exactly when the sum fits");
		if (o.has_value())
			vp_assert(*o == sum, "safe_add_opt value");
		try {
			r = crab::safe_add<T>(a, b);
		} catch (const std::out_of_range &) {
			t = true;
		}
		vp_assert(t == !fs, "safe_add throws exactly when the sum does not fit");
		if (!t)
			vp_assert(r == sum, "safe_add value");
	}
	typedef typename std::make_unsigned<T>::type U;
	U m = crab::safe_abs<T>(a);
	vp_assert(a < 0 ? (U)(m + (U)a) == 0 : m == (U)a, "absolute value is exact");
	vp_assert(m <= (U)((U)std::numeric_limits<T>::max() + (std::is_signed<T>::value ? 1 : 0)), "absolute value range");
}
extern "C" void h_arith() {
	switch (vp_choice(8, "type")) {
	case 0: arith_case<int8_t>(); break;
	case 1: arith_case<uint8_t>(); break;
	case 2: arith_case<int16_t>(); break;
	case 3: arith_case<uint16_t>(); break;
	case 4: arith_case<int32_t>(); break;
	case 5: arith_case<uint32_t>(); break;
	case 6: arith_case<int64_t>(); break;
	default: arith_case<uint64_t>(); break;
	}
	vp_cover("done");
}
