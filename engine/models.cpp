// Bitcode stand-ins for the out-of-line parts of libstdc++/libc that crablib links against.
// They follow the documented semantics; nothing in here is crablib code.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <functional>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <random>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <sstream>
#include <iostream>
#include <system_error>
#include "../harness/vp.h"

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
// a nested exception is only ever carried along, never looked into
namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept {}
void exception_ptr::_M_release() noexcept {}
}
exception_ptr current_exception() noexcept { return exception_ptr(); }
nested_exception::~nested_exception() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static char *vp_dup(const char *s, size_t n) {
	char *p = (char *)malloc(n + 1);
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
__cow_string::__cow_string() { _M_p = vp_dup("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = vp_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = vp_dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = vp_dup(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
	if (this != &o) {
		free((void *)_M_p);
		_M_p = vp_dup(o._M_p, strlen(o._M_p));
	}
	return *this;
}
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = vp_dup(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept {
	_M_msg = o._M_msg;
	return *this;
}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept {
	_M_msg = o._M_msg;
	return *this;
}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept {
	_M_msg = o._M_msg;
	return *this;
}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept {
	_M_msg = o._M_msg;
	return *this;
}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define VP_EXC(T, B) \
	T::T(const string &s) : B(s) {} \
	T::T(const char *s) : B(s) {} \
	T::~T() noexcept {}
VP_EXC(domain_error, logic_error)
VP_EXC(invalid_argument, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

const nothrow_t nothrow{};

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
	_M_next = p;
	_M_prev = p->_M_prev;
	p->_M_prev->_M_next = this;
	p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
	_List_node_base *n = _M_next, *p = _M_prev;
	p->_M_next = n;
	n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
	if (this != last) {
		last->_M_prev->_M_next = this;
		first->_M_prev->_M_next = last;
		_M_prev->_M_next = first;
		_List_node_base *t = _M_prev;
		_M_prev = last->_M_prev;
		last->_M_prev = first->_M_prev;
		first->_M_prev = t;
	}
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
	if (x._M_next != &x) {
		if (y._M_next != &y) {
			_List_node_base *t = x._M_next; x._M_next = y._M_next; y._M_next = t;
			t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
			x._M_next->_M_prev = x._M_prev->_M_next = &x;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
		} else {
			y._M_next = x._M_next;
			y._M_prev = x._M_prev;
			y._M_next->_M_prev = y._M_prev->_M_next = &y;
			x._M_next = x._M_prev = &x;
		}
	} else if (y._M_next != &y) {
		x._M_next = y._M_next;
		x._M_prev = y._M_prev;
		x._M_next->_M_prev = x._M_prev->_M_next = &x;
		y._M_next = y._M_prev = &y;
	}
}
void _List_node_base::_M_reverse() noexcept {
	_List_node_base *t = this;
	do {
		_List_node_base *n = t->_M_next;
		t->_M_next = t->_M_prev;
		t->_M_prev = n;
		t = n;
	} while (t != this);
}
// unordered containers: bucket counts only affect iteration order, which nobody may rely on
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
	size_t b = 13;
	while (b < n) b = b * 2 + 1;
	_M_next_resize = b;
	return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
	if (n_elt + n_ins > _M_next_resize || n_bkt == 1) {
		size_t want = n_elt + n_ins;
		if (want < n_bkt * 2) want = n_bkt * 2;
		if (n_elt + n_ins < n_bkt) {
			_M_next_resize = n_bkt;
			return {false, 0};
		}
		return {true, _M_next_bkt(want)};
	}
	return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void *, size_t n, size_t) { return n; }

// an unbalanced binary search tree keeps every observable property of std::map/std::set
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
	if (x->_M_right) {
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
	} else {
		_Rb_tree_node_base *y = x->_M_parent;
		while (x == y->_M_right) {
			x = y;
			y = y->_M_parent;
		}
		if (x->_M_right != y) x = y;
	}
	return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
	if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header
	if (x->_M_left) {
		_Rb_tree_node_base *y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		return y;
	}
	_Rb_tree_node_base *y = x->_M_parent;
	while (x == y->_M_left) {
		x = y;
		y = y->_M_parent;
	}
	return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
	x->_M_parent = p;
	x->_M_left = nullptr;
	x->_M_right = nullptr;
	x->_M_color = _S_black;
	if (left) {
		p->_M_left = x;
		if (p == &h) {
			h._M_parent = x;
			h._M_right = x;
		} else if (p == h._M_left)
			h._M_left = x;
	} else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
	auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
		if (h._M_parent == o) h._M_parent = n;
		else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
		else o->_M_parent->_M_right = n;
		if (n) n->_M_parent = o->_M_parent;
	};
	if (!z->_M_left) replace(z, z->_M_right);
	else if (!z->_M_right) replace(z, z->_M_left);
	else {
		_Rb_tree_node_base *y = z->_M_right;
		while (y->_M_left) y = y->_M_left;
		if (y->_M_parent != z) {
			replace(y, y->_M_right);
			y->_M_right = z->_M_right;
			y->_M_right->_M_parent = y;
		}
		replace(z, y);
		y->_M_left = z->_M_left;
		y->_M_left->_M_parent = y;
	}
	if (h._M_parent) {
		_Rb_tree_node_base *m = h._M_parent;
		while (m->_M_left) m = m->_M_left;
		h._M_left = m;
		m = h._M_parent;
		while (m->_M_right) m = m->_M_right;
		h._M_right = m;
	} else
		h._M_left = h._M_right = &h;
	return z;
}

// ---------------------------------------------------------------- threads
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(_M_cond.native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(_M_cond.native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(_M_cond.native_handle()); }
static void vp_tramp(void *p) {
	thread::_State *s = (thread::_State *)p;
	s->_M_run();
	delete s;
}
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
	int t = vp_thread_create(vp_tramp, s.release());
	_M_id = id((pthread_t)(t + 1));
}
void thread::join() {
	vp_thread_join((int)_M_id._M_thread - 1);
	_M_id = id();
}
void thread::detach() { _M_id = id(); }

// ---------------------------------------------------------------- random_device: any value
void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return vp_sym<unsigned>("random_device"); }

// ---------------------------------------------------------------- iostreams
ostream cout, cerr, clog;
struct VpInit {
	VpInit() { cout.vp_null = cerr.vp_null = clog.vp_null = true; }
} vp_init;
template class basic_string<char>;
}  // namespace std

// ---------------------------------------------------------------- libc
extern "C" {
static struct {
	void (*f)(void *);
	void *p;
} vp_exits[64];
// exact for results in the normal range: multiplication by a power of two
double ldexp(double x, int e) noexcept {
	while (e < -1000 || e > 1000) {
		const int s = e < 0 ? -1000 : 1000;
		x = ldexp(x, s);
		e -= s;
	}
	union {
		unsigned long long u;
		double d;
	} p;
	p.u = (unsigned long long)(1023 + e) << 52;
	return x * p.d;
}
static int vp_nexits;
int __cxa_atexit(void (*f)(void *), void *p, void *) {
	vp_race_off();
	if (vp_nexits < 64) {
		vp_exits[vp_nexits].f = f;
		vp_exits[vp_nexits++].p = p;
	}
	vp_race_on();
	return 0;
}
// what the program's end does to static objects
void vp_run_atexit(void) {
	while (vp_nexits > 0) {
		vp_nexits--;
		vp_exits[vp_nexits].f(vp_exits[vp_nexits].p);
	}
}
int vsnprintf(char *b, size_t n, const char *, va_list) {
	if (n > 1) {
		b[0] = '0';
		b[1] = 0;
	}
	return 1;
}
static bool vp_in(int c, int a, int b) { return (c >= a) & (c <= b); }
int isdigit(int c) { return vp_in(c, '0', '9'); }
int isspace(int c) { return (c == ' ') | vp_in(c, 9, 13); }
int isalpha(int c) { return vp_in(c, 'a', 'z') | vp_in(c, 'A', 'Z'); }
int isalnum(int c) { return vp_in(c, 'a', 'z') | vp_in(c, 'A', 'Z') | vp_in(c, '0', '9'); }
int isupper(int c) { return vp_in(c, 'A', 'Z'); }
int islower(int c) { return vp_in(c, 'a', 'z'); }
int isxdigit(int c) { return vp_in(c, 'a', 'f') | vp_in(c, 'A', 'F') | vp_in(c, '0', '9'); }
int iscntrl(int c) { return vp_in(c, 0, 31) | (c == 127); }
int isprint(int c) { return vp_in(c, 32, 126); }
int tolower(int c) { return vp_in(c, 'A', 'Z') ? c + 32 : c; }
int toupper(int c) { return vp_in(c, 'a', 'z') ? c - 32 : c; }
int strcmp(const char *a, const char *b) {
	while (*a && *a == *b)
		a++, b++;
	return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
	for (; n; n--, a++, b++) {
		if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
		if (!*a) break;
	}
	return 0;
}
char *vp_strchr(const char *s, int c) __asm__("strchr");
char *vp_strchr(const char *s, int c) {
	for (;; s++) {
		if (*s == (char)c) return (char *)s;
		if (!*s) return nullptr;
	}
}
static unsigned long long vp_strto(const char *s, char **end, int base, bool &neg, bool &any) {
	while (isspace(*s)) s++;
	neg = *s == '-';
	if (*s == '-' || *s == '+') s++;
	if ((base == 16 || base == 0) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit(s[2])) { s += 2; base = 16; }
	if (base == 0) base = *s == '0' ? 8 : 10;
	unsigned long long v = 0;
	any = false;
	bool over = false;
	for (;; s++) {
		int d = isdigit(*s) ? *s - '0' : isalpha(*s) ? tolower(*s) - 'a' + 10 : 99;
		if (d >= base) break;
		any = true;
		unsigned long long n;
		if (__builtin_mul_overflow(v, (unsigned long long)base, &n) || __builtin_add_overflow(n, (unsigned long long)d, &n)) over = true;
		v = n;
	}
	if (over) { v = ~0ULL; errno = ERANGE; }
	if (end) *end = (char *)s;
	return v;
}
unsigned long long strtoull(const char *s, char **end, int base) {
	bool neg, any;
	unsigned long long v = vp_strto(s, end, base, neg, any);
	if (!any && end) *end = (char *)s;
	return neg ? 0 - v : v;
}
unsigned long strtoul(const char *s, char **end, int base) { return strtoull(s, end, base); }
long long strtoll(const char *s, char **end, int base) {
	bool neg, any;
	unsigned long long v = vp_strto(s, end, base, neg, any);
	if (!any && end) *end = (char *)s;
	unsigned long long lim = neg ? 1ULL << 63 : ~0ULL >> 1;
	if (v > lim) { v = lim; errno = ERANGE; }
	return neg ? (long long)(0 - v) : (long long)v;
}
long strtol(const char *s, char **end, int base) { return strtoll(s, end, base); }
// inet_pton and inet_ntop as in glibc
extern "C" const unsigned char in6addr_loopback[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
static int vp_pton4(const char *s, const char *e, unsigned char *out) {
	unsigned char tmp[4] = {};
	int octets = 0;
	bool saw = false;
	unsigned char *tp = tmp;
	while (s < e) {
		unsigned c = (unsigned char)*s++;
		if ((c >= '0') & (c <= '9')) {
			unsigned v = *tp * 10u + (c - '0');
			if (saw && *tp == 0) return 0;
			if (v > 255) return 0;
			*tp = (unsigned char)v;
			if (!saw) {
				if (++octets > 4) return 0;
				saw = true;
			}
		} else if (c == '.' && saw) {
			if (octets == 4) return 0;
			*++tp = 0;
			saw = false;
		} else
			return 0;
	}
	if (octets < 4) return 0;
	memcpy(out, tmp, 4);
	return 1;
}
static int vp_hex(unsigned c) {
	if ((c >= '0') & (c <= '9')) return (int)(c - '0');
	if ((c >= 'a') & (c <= 'f')) return (int)(c - 'a' + 10);
	if ((c >= 'A') & (c <= 'F')) return (int)(c - 'A' + 10);
	return -1;
}
static int vp_pton6(const char *s, const char *e, unsigned char *out) {
	unsigned char tmp[16] = {}, *tp = tmp, *endp = tmp + 16, *colonp = nullptr;
	if (s == e) return 0;
	if (*s == ':') {
		++s;
		if (s == e || *s != ':') return 0;
	}
	const char *cur = s;
	unsigned digits = 0, val = 0;
	while (s < e) {
		unsigned ch = (unsigned char)*s++;
		int d = vp_hex(ch);
		if (d >= 0) {
			if (digits == 4) return 0;
			val = val << 4 | (unsigned)d;
			if (val > 0xffff) return 0;
			++digits;
			continue;
		}
		if (ch == ':') {
			cur = s;
			if (digits == 0) {
				if (colonp) return 0;
				colonp = tp;
				continue;
			} else if (s == e)
				return 0;
			if (tp + 2 > endp) return 0;
			*tp++ = (unsigned char)(val >> 8);
			*tp++ = (unsigned char)val;
			digits = 0;
			val = 0;
			continue;
		}
		if (ch == '.' && tp + 4 <= endp && vp_pton4(cur, e, tp) > 0) {
			tp += 4;
			digits = 0;
			break;
		}
		return 0;
	}
	if (digits > 0) {
		if (tp + 2 > endp) return 0;
		*tp++ = (unsigned char)(val >> 8);
		*tp++ = (unsigned char)val;
	}
	if (colonp) {
		if (tp == endp) return 0;
		size_t n = (size_t)(tp - colonp);
		memmove(endp - n, colonp, n);
		memset(colonp, 0, (size_t)(endp - n - colonp));
		tp = endp;
	}
	if (tp != endp) return 0;
	memcpy(out, tmp, 16);
	return 1;
}
int inet_pton(int af, const char *src, void *dst) noexcept {
	size_t n = strlen(src);
	return af == 2 ? vp_pton4(src, src + n, (unsigned char *)dst) : vp_pton6(src, src + n, (unsigned char *)dst);
}
static char *vp_dec(char *p, unsigned v) {
	if (v >= 100) *p++ = (char)('0' + v / 100);
	if (v >= 10) *p++ = (char)('0' + v / 10 % 10);
	*p++ = (char)('0' + v % 10);
	return p;
}
static char *vp_ntop4(const unsigned char *a, char *p) {
	for (int i = 0; i < 4; i++) {
		if (i) *p++ = '.';
		p = vp_dec(p, a[i]);
	}
	return p;
}
const char *inet_ntop(int af, const void *src, char *dst, unsigned size) noexcept {
	const unsigned char *a = (const unsigned char *)src;
	char tmp[64], *p = tmp;
	if (af == 2)
		p = vp_ntop4(a, p);
	else {
		unsigned w[8];
		int bb = -1, bl = 0, cb = -1, cl = 0;
		for (int i = 0; i < 8; i++) w[i] = (unsigned)a[2 * i] << 8 | a[2 * i + 1];
		for (int i = 0; i < 8; i++) {
			if (w[i] == 0) {
				if (cb < 0) { cb = i; cl = 1; } else cl++;
			} else if (cb >= 0) {
				if (bb < 0 || cl > bl) { bb = cb; bl = cl; }
				cb = -1;
			}
		}
		if (cb >= 0 && (bb < 0 || cl > bl)) { bb = cb; bl = cl; }
		if (bb >= 0 && bl < 2) bb = -1;
		for (int i = 0; i < 8; i++) {
			if (bb >= 0 && i >= bb && i < bb + bl) {
				if (i == bb) *p++ = ':';
				continue;
			}
			if (i) *p++ = ':';
			if (i == 6 && bb == 0 && (bl == 6 || (bl == 5 && w[5] == 0xffff))) {
				p = vp_ntop4(a + 12, p);
				break;
			}
			bool on = false;
			for (int k = 12; k >= 0; k -= 4) {
				unsigned d = w[i] >> k & 15;
				if (d || on || k == 0) {
					*p++ = "0123456789abcdef"[d];
					on = true;
				}
			}
		}
		if (bb >= 0 && bb + bl == 8) *p++ = ':';
	}
	*p++ = 0;
	if ((size_t)(p - tmp) > size) return nullptr;
	memcpy(dst, tmp, (size_t)(p - tmp));
	return dst;
}
char *strerror(int) {
	static char e[] = "error";
	return e;
}
}
