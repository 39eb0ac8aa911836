#include <memory>
// Symbolic executor: state, memory, compile from LLVM IR.
#pragma once
#include "ir.hpp"
#include "solver.hpp"
#include <functional>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>

enum Kind : u8 { K_NONE, K_GLOBAL, K_CONST, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_FUNC, K_FREED, K_DEADSTACK, K_EXC };
static const int OBJ_SHIFT = 28;
static const u64 OFF_MASK = (1ULL << OBJ_SHIFT) - 1;

struct Obj {
	u32 rc = 1;
	u32 size = 0;
	Kind kind = K_NONE;
	u32 info = 0;
	u8 *d = nullptr;
	Expr **s = nullptr;
	u32 nsym = 0;  // upper bound on symbolic bytes present
	~Obj() {
		free(d);
		free(s);
	}
	Obj() {}
	Obj(const Obj &o) : rc(1), size(o.size), kind(o.kind), info(o.info) {
		d = (u8 *)malloc(size ? size : 1);
		if (size) memcpy(d, o.d, size);
		if (o.s) {
			s = (Expr **)malloc(sizeof(Expr *) * (size ? size : 1));
			memcpy(s, o.s, sizeof(Expr *) * size);
		}
	}
};
struct Page {
	u32 rc = 1;
	Obj *o[64] = {};
	Page() {}
	Page(const Page &p) : rc(1) {
		for (int i = 0; i < 64; i++) {
			o[i] = p.o[i];
			if (o[i]) o[i]->rc++;
		}
	}
	~Page() {
		for (int i = 0; i < 64; i++)
			if (o[i] && --o[i]->rc == 0) delete o[i];
	}
};

struct Frame {
	Fn *fn;
	u32 pc;
	std::vector<V> regs;
	std::vector<u32> allocas;
	u64 onReturnFree = 0;   // exception object freed after its destructor ran
	bool engineCall = false;  // pushed by the engine: ignore the return value, do not advance via invoke edges
};
enum TStatus : u8 { T_RUN, T_MUTEX, T_COND, T_JOIN, T_PRED, T_DONE };
struct Thread {
	std::vector<Frame> st;
	TStatus status = T_RUN;
	u64 waitAddr = 0, waitAddr2 = 0, waitMask = ~0ull;
	int noRace = 0;
	int joinTid = -1;
	u8 condPhase = 0;
	bool notified = false;
	u64 excPtr = 0;
	int excSel = 0;
	std::vector<u64> caught;
	std::map<const llvm::GlobalVariable *, u64> tls;
	std::vector<u32> vc;  // vector clock
};
struct ExcInfo {
	u64 addr, tinfo, dtor;
	int handlers = 0;
	i64 adj = 0;
};
struct Input {
	std::string name;
	u32 first, n;
};
struct Obs {
	V v;
	u16 w;
};
struct Shadow {  // race detector: last write / last reads of the bytes [from, to) of an object
	u32 from = 0, to = 0;
	int wt = -1;
	u32 wc = 0;
	std::vector<std::pair<int, u32>> reads;
};
typedef std::vector<Shadow> ObjShadow;  // disjoint, in order
struct State {
	std::vector<Page *> pages;
	u32 nextId = 1;
	std::vector<Thread> th;
	int cur = 0;
	PathCond pc;
	u32 nextSym = 0;
	std::vector<Input> inputs;
	std::vector<Obs> obs;
	std::vector<ExcInfo> excs;
	std::vector<u8> sched;  // scheduling decisions (thread chosen)
	std::map<u64, int> mutexOwner;
	std::map<u64, std::vector<u32>> syncVC;  // release clocks of mutexes / atomics / conds
	std::map<u32, std::shared_ptr<ObjShadow>> shadow;
	int preempt = 0;
	int spurious = 0;
	bool needSched = false;
	u64 steps = 0;
	u32 forks = 0;
	u32 liveHeap = 0;
	u64 errnoAddr = 0;
	std::vector<u16> covers;
	State() {}
	State(const State &o) = default;
	~State() {
		for (auto p : pages)
			if (p && --p->rc == 0) delete p;
	}
	State *clone() const {
		State *n = new State(*this);
		for (auto p : n->pages)
			if (p) p->rc++;
		return n;
	}
};

struct Violation {
	std::string kind, msg, where, inputs, sched;
};
