// Harness interface. In the symbolic build these are interpreted by the engine; natively they are defined in native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_symbolic(void *p, size_t n, const char *name);
void vp_assume(bool c);
void vp_assert_(bool c, const char *msg);
void vp_cover(const char *name);
void vp_observe(uint64_t v);
uint64_t vp_concretize(uint64_t v);
int64_t vp_param(const char *name, int64_t def);
int vp_is_engine(void);
void vp_kill(void);
uint64_t vp_live_heap(void);
void vp_print(const char *m, uint64_t v);
bool vp_and(bool a, bool b);
int vp_thread_create(void (*f)(void *), void *arg);
void vp_thread_join(int t);
int vp_thread_id(void);
void vp_yield(void);
void vp_wait_nonzero(const int *p);
void vp_race_off(void);
void vp_race_on(void);
void vp_hb_release(const void *p);
void vp_hb_acquire(const void *p);
}
#define vp_assert(c, m) vp_assert_((c), m)
template<class T>
inline T vp_sym(const char *name) {
	T t;
	vp_symbolic(&t, sizeof(T), name);
	return t;
}
// nondeterministic choice in [0, n), one path per value
inline size_t vp_choice(size_t n, const char *name) {
	uint8_t b;
	vp_symbolic(&b, 1, name);
	vp_assume(b < n);
	return (size_t)vp_concretize(b);
}
inline bool vp_flag(const char *name) { return vp_choice(2, name) != 0; }
