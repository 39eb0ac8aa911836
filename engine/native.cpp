// Native side of the harness interface: replays solver values against the real build.
#include "../harness/vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <exception>

static std::vector<std::pair<std::string, std::vector<unsigned char>>> inputs;
static size_t pos = 0;
static std::string obs;
static std::map<std::string, long long> params;
static long live = 0;
static bool counting = false;

extern "C" void __sanitizer_malloc_hook(const volatile void *p, size_t) {
	if (counting && p) live++;
}
extern "C" void __sanitizer_free_hook(const volatile void *p) {
	if (counting && p) live--;
}
static void out(const char *s) {
	size_t n = strlen(s);
	while (n) {
		long r = syscall(SYS_write, 1, s, n);
		if (r <= 0) break;
		s += r;
		n -= (size_t)r;
	}
}
static void die(int code, const std::string &m) {
	counting = false;
	out((m + "\n").c_str());
	syscall(SYS_exit_group, code);
}
extern "C" {
void vp_symbolic(void *p, size_t n, const char *name) {
	if (!n) return;
	if (pos >= inputs.size()) die(78, std::string("NATIVE: input sequence exhausted at ") + name);
	auto &in = inputs[pos];
	if (in.first != name || in.second.size() != n) die(78, std::string("NATIVE: input sequence mismatch, wants ") + name + " has " + in.first);
	memcpy(p, in.second.data(), n);
	pos++;
}
void vp_assume(bool c) {
	if (!c) die(77, "NATIVE: assumption not satisfied");
}
void vp_assert_(bool c, const char *msg) {
	if (!c) die(66, std::string("NATIVE: ASSERTION FAILED: ") + msg);
}
void vp_cover(const char *) {}
void vp_observe(uint64_t v) {
	char b[32];
	snprintf(b, sizeof b, "%llx,", (unsigned long long)v);
	obs += b;
}
uint64_t vp_concretize(uint64_t v) { return v; }
int64_t vp_param(const char *name, int64_t def) {
	auto it = params.find(name);
	return it == params.end() ? def : it->second;
}
int vp_is_engine(void) { return 0; }
void vp_kill(void) { die(79, "NATIVE: path ended"); }
uint64_t vp_live_heap(void) { return (uint64_t)live; }
void vp_print(const char *m, uint64_t v) {
	if (getenv("VP_TRACE")) fprintf(stderr, "[trace] %s %llu\n", m, (unsigned long long)v);
}
bool vp_and(bool a, bool b) { return a && b; }
__attribute__((weak)) int vp_thread_create(void (*)(void *), void *) { die(80, "NATIVE: threads are not replayed"); return 0; }
__attribute__((weak)) void vp_thread_join(int) {}
__attribute__((weak)) int vp_thread_id(void) { return 0; }
__attribute__((weak)) void vp_yield(void) {}
__attribute__((weak)) void vp_wait_nonzero(const int *) {}
void vp_run_atexit() {}
void vp_race_off() {}
void vp_race_on() {}
void vp_hb_release(const void *) {}
void vp_hb_acquire(const void *) {}
}
// random_device is an input
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return vp_sym<unsigned>("random_device"); }

static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void parseInputs(const std::string &s) {
	inputs.clear();
	pos = 0;
	size_t i = 0;
	while (i < s.size()) {
		size_t e = s.find('=', i), c = s.find(',', e);
		if (c == std::string::npos) c = s.size();
		std::vector<unsigned char> v;
		for (size_t k = e + 1; k + 1 < c; k += 2) v.push_back((unsigned char)(hexv(s[k]) * 16 + hexv(s[k + 1])));
		inputs.push_back({s.substr(i, e - i), v});
		i = c + 1;
	}
}
static void onAlarm(int) { die(67, "NATIVE: HANG (time limit)"); }
int main(int argc, char **argv) {
	std::string entry, file;
	int limit = 20;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--entry") entry = argv[++i];
		else if (a == "--limit") limit = atoi(argv[++i]);
		else if (a == "--param") {
			std::string p = argv[++i];
			auto q = p.find('=');
			params[p.substr(0, q)] = strtoll(p.c_str() + q + 1, nullptr, 0);
		} else
			file = a;
	}
	void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
	if (!fn) {
		fprintf(stderr, "no entry %s\n", entry.c_str());
		return 2;
	}
	std::set_terminate([]() { die(68, "NATIVE: std::terminate"); });
	// each line: inputs|sched \t expected observations (or nothing)
	FILE *f = fopen(file.c_str(), "r");
	if (!f) return 2;
	std::vector<std::pair<std::string, std::string>> lines;
	std::string cur;
	int ch;
	while ((ch = fgetc(f)) != EOF) {
		if (ch == '\n') {
			auto t = cur.find('\t');
			lines.push_back({cur.substr(0, t), t == std::string::npos ? "-" : cur.substr(t + 1)});
			cur.clear();
		} else
			cur += (char)ch;
	}
	fclose(f);
	for (size_t i = 0; i < lines.size(); i++) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			dup2(1, 2);
			auto bar = lines[i].first.find('|');
			parseInputs(lines[i].first.substr(0, bar));
			signal(SIGALRM, onAlarm);
			alarm((unsigned)limit);
			counting = true;
			fn();
			counting = false;
			std::string res;
			if (lines[i].second != "-" && lines[i].second != obs) res = "NATIVE: OBSERVATIONS DIFFER expected " + lines[i].second + " got " + obs;
			else if (pos != inputs.size()) res = "NATIVE: inputs left over";
			if (!res.empty()) die(70, res);
			syscall(SYS_exit_group, 0);
		}
		int st;
		waitpid(p, &st, 0);
		printf("RESULT %zu %d\n", i, WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
	}
	fflush(stdout);
	syscall(SYS_exit_group, 0);
}
