// Hash-consed bit-vector expressions with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <memory>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef int64_t i64;

enum class Op : u8 {
	Const, Sym, Table,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
	FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno, FToSI, FToUI, SIToF, UIToF, FExt, FTrunc, FSqrt
};

struct SymSet {  // interned, sorted
	std::vector<u32> v;
};

struct Expr {
	Op op;
	uint16_t w;
	u32 id;
	u32 depth;
	u128 val;  // Const: value. Sym: symbol id. Extract: low bit. Table: table id.
	Expr *k[3];
	const SymSet *syms;
	u64 umin, umax;  // only meaningful for w<=64
	mutable u128 memo;
	mutable u64 memoEpoch;
	mutable void *z3;
};

struct ConstTable {
	u32 w;
	std::vector<u64> e;  // size is power of two 2^idxw (padded)
	u32 idxw;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i64 sext64(u128 v, unsigned w) {
	u64 x = (u64)v;
	if (w >= 64) return (i64)x;
	return (i64)(x << (64 - w)) >> (64 - w);
}
inline __int128 sext128(u128 v, unsigned w) {
	if (w >= 128) return (__int128)v;
	return (__int128)(v << (128 - w)) >> (128 - w);
}

struct Ctx {
	struct KeyHash {
		size_t operator()(const Expr *e) const {
			u64 h = (u64)e->op * 0x9E3779B97F4A7C15ULL ^ ((u64)e->w << 32);
			auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; };
			mix((u64)e->val);
			mix((u64)(e->val >> 64));
			for (int i = 0; i < 3; i++) mix(e->k[i] ? e->k[i]->id : 0);
			return h;
		}
	};
	struct KeyEq {
		bool operator()(const Expr *a, const Expr *b) const {
			return a->op == b->op && a->w == b->w && a->val == b->val && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
		}
	};
	// open-addressing table
	std::vector<Expr *> tab;
	size_t cnt = 0;
	u32 nextId = 1;
	std::vector<std::unique_ptr<ConstTable>> tables;
	std::map<std::pair<u32, std::vector<u64>>, u32> tableIndex;
	SymSet emptySet;
	std::map<std::vector<u32>, std::unique_ptr<SymSet>> sets;
	struct PH {
		size_t operator()(const std::pair<const SymSet *, const SymSet *> &p) const {
			return (size_t)((u64)(uintptr_t)p.first * 0x9E3779B97F4A7C15ULL ^ (u64)(uintptr_t)p.second);
		}
	};
	std::unordered_map<std::pair<const SymSet *, const SymSet *>, const SymSet *, PH> unionMemo;
	// chunk allocator
	std::vector<Expr *> chunks;
	size_t chunkPos = 4096;
	u64 epoch = 1;

	Ctx() { tab.assign(1 << 16, nullptr); }

	const SymSet *internSet(std::vector<u32> v) {
		if (v.empty()) return &emptySet;
		auto &p = sets[v];
		if (!p) {
			p.reset(new SymSet());
			p->v = std::move(v);
		}
		return p.get();
	}
	const SymSet *uni(const SymSet *a, const SymSet *b) {
		if (a == b || b->v.empty()) return a;
		if (a->v.empty()) return b;
		if (a > b) std::swap(a, b);
		auto key = std::make_pair(a, b);
		auto it = unionMemo.find(key);
		if (it != unionMemo.end()) return it->second;
		std::vector<u32> r;
		std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
		auto s = internSet(std::move(r));
		unionMemo[key] = s;
		return s;
	}

	Expr *mk(Op op, unsigned w, u128 val, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
		Expr tmp;
		tmp.op = op;
		tmp.w = w;
		tmp.val = val;
		tmp.k[0] = a;
		tmp.k[1] = b;
		tmp.k[2] = c;
		size_t m = tab.size() - 1, h = KeyHash()(&tmp) & m;
		while (tab[h]) {
			if (KeyEq()(tab[h], &tmp)) return tab[h];
			h = (h + 1) & m;
		}
		if (chunkPos >= 4096) {
			chunks.push_back((Expr *)aligned_alloc(16, sizeof(Expr) * 4096));
			chunkPos = 0;
		}
		Expr *e = chunks.back() + chunkPos++;
		*e = tmp;
		e->id = nextId++;
		e->memoEpoch = 0;
		e->memo = 0;
		e->z3 = nullptr;
		e->depth = 0;
		e->syms = &emptySet;
		for (int i = 0; i < 3; i++)
			if (e->k[i]) {
				e->syms = uni(e->syms, e->k[i]->syms);
				e->depth = std::max(e->depth, e->k[i]->depth + 1);
			}
		if (op == Op::Sym) e->syms = internSet({(u32)val});
		computeRange(e);
		tab[h] = e;
		if (++cnt * 2 > tab.size()) grow();
		return e;
	}
	void grow() {
		std::vector<Expr *> old;
		old.swap(tab);
		tab.assign(old.size() * 2, nullptr);
		size_t m = tab.size() - 1;
		for (auto e : old)
			if (e) {
				size_t h = KeyHash()(e) & m;
				while (tab[h]) h = (h + 1) & m;
				tab[h] = e;
			}
	}
	void computeRange(Expr *e) {
		if (e->w > 64) {
			e->umin = 0;
			e->umax = ~0ULL;
			return;
		}
		u64 full = (u64)maskw(e->w);
		e->umin = 0;
		e->umax = full;
		auto A = e->k[0], B = e->k[1], C = e->k[2];
		switch (e->op) {
		case Op::Const: e->umin = e->umax = (u64)e->val; break;
		case Op::ZExt: e->umin = A->umin; e->umax = A->umax; break;
		case Op::And: e->umax = std::min(A->umax, B->umax); break;
		case Op::Or: {
			e->umin = std::max(A->umin, B->umin);
			u64 m = A->umax | B->umax;
			u64 x = 1;
			while (x && x - 1 < m) x <<= 1;
			e->umax = std::min<u64>(full, x ? x - 1 : ~0ULL);
			break;
		}
		case Op::Xor: {
			u64 m = A->umax | B->umax;
			u64 x = 1;
			while (x && x - 1 < m) x <<= 1;
			e->umax = std::min<u64>(full, x ? x - 1 : ~0ULL);
			break;
		}
		case Op::Add: {
			u128 mx = (u128)A->umax + B->umax;
			if (mx <= full) {
				e->umin = A->umin + B->umin;
				e->umax = (u64)mx;
			} else if (B->op == Op::Const && (u128)A->umin + B->umin > full) {  // always wraps
				e->umin = (A->umin + B->umin) & full;
				e->umax = (A->umax + B->umax) & full;
			}
			break;
		}
		case Op::Mul: {
			u128 mx = (u128)A->umax * B->umax;
			if (mx <= full) {
				e->umin = A->umin * B->umin;
				e->umax = (u64)mx;
			}
			break;
		}
		case Op::UDiv:
			if (B->umin > 0) {
				e->umax = A->umax / B->umin;
				e->umin = A->umin / B->umax;
			}
			break;
		case Op::URem:
			if (B->umin > 0) e->umax = std::min(A->umax, B->umax - 1);
			break;
		case Op::Ite:
			e->umin = std::min(B->umin, C->umin);
			e->umax = std::max(B->umax, C->umax);
			break;
		case Op::Concat:
			e->umin = (A->umin << B->w) | B->umin;
			e->umax = (A->umax << B->w) | B->umax;
			break;
		case Op::Extract:
			if (e->val == 0 && A->w <= 64 && A->umax <= full) {
				e->umin = A->umin;
				e->umax = A->umax;
			} else if (A->w <= 64 && (u64)e->val + e->w == A->w) {
				e->umin = A->umin >> (u64)e->val;
				e->umax = A->umax >> (u64)e->val;
			}
			break;
		case Op::LShr:
			e->umax = A->umax;
			break;
		case Op::Table: {
			auto &t = *tables[(size_t)e->val];
			u64 mn = ~0ULL, mx = 0;
			for (auto x : t.e) {
				mn = std::min(mn, x);
				mx = std::max(mx, x);
			}
			e->umin = mn;
			e->umax = mx;
			break;
		}
		default: break;
		}
	}

	Expr *cst(u128 v, unsigned w) { return mk(Op::Const, w, v & maskw(w)); }
	Expr *tru() { return cst(1, 1); }
	Expr *fls() { return cst(0, 1); }
	Expr *boolc(bool b) { return cst(b, 1); }
	static bool isC(const Expr *e) { return e->op == Op::Const; }
	static bool isC(const Expr *e, u128 v) { return e->op == Op::Const && e->val == v; }

	static u128 evalOp(Op op, unsigned w, u128 a, u128 b, unsigned aw) {
		u128 m = maskw(w);
		switch (op) {
		case Op::Add: return (a + b) & m;
		case Op::Sub: return (a - b) & m;
		case Op::Mul: return (a * b) & m;
		case Op::UDiv: return b == 0 ? m : (a / b) & m;
		case Op::URem: return b == 0 ? a : (a % b) & m;
		case Op::SDiv: {
			__int128 x = sext128(a, w), y = sext128(b, w);
			if (y == 0) return x < 0 ? 1 : m;
			if (y == -1) return (u128)(-(u128)x) & m;
			return (u128)(x / y) & m;
		}
		case Op::SRem: {
			__int128 x = sext128(a, w), y = sext128(b, w);
			if (y == 0) return a;
			if (y == -1) return 0;
			return (u128)(x % y) & m;
		}
		case Op::And: return a & b;
		case Op::Or: return a | b;
		case Op::Xor: return a ^ b;
		case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
		case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
		case Op::AShr: {
			__int128 x = sext128(a, w);
			unsigned s = b >= w ? w - 1 : (unsigned)b;
			return (u128)(x >> s) & m;
		}
		case Op::Eq: return a == b;
		case Op::Ult: return a < b;
		case Op::Ule: return a <= b;
		case Op::Slt: return sext128(a, aw) < sext128(b, aw);
		case Op::Sle: return sext128(a, aw) <= sext128(b, aw);
		case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: {
			if (w == 64) {
				double x, y, r;
				u64 t = (u64)a; memcpy(&x, &t, 8);
				t = (u64)b; memcpy(&y, &t, 8);
				r = op == Op::FAdd ? x + y : op == Op::FSub ? x - y : op == Op::FMul ? x * y : x / y;
				memcpy(&t, &r, 8);
				return t;
			}
			float x, y, r;
			u32 t = (u32)a; memcpy(&x, &t, 4);
			t = (u32)b; memcpy(&y, &t, 4);
			r = op == Op::FAdd ? x + y : op == Op::FSub ? x - y : op == Op::FMul ? x * y : x / y;
			memcpy(&t, &r, 4);
			return t;
		}
		case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: {
			double x, y;
			if (aw == 64) {
				u64 t = (u64)a; memcpy(&x, &t, 8);
				t = (u64)b; memcpy(&y, &t, 8);
			} else {
				float f;
				u32 t = (u32)a; memcpy(&f, &t, 4); x = f;
				t = (u32)b; memcpy(&f, &t, 4); y = f;
			}
			switch (op) {
			case Op::FOeq: return x == y;
			case Op::FOlt: return x < y;
			case Op::FOle: return x <= y;
			default: return std::isnan(x) || std::isnan(y);
			}
		}
		default: break;
		}
		assert(0 && "evalOp");
		return 0;
	}
	static double toD(u128 a, unsigned aw) {
		if (aw == 64) {
			double x; u64 t = (u64)a; memcpy(&x, &t, 8);
			return x;
		}
		float f; u32 t = (u32)a; memcpy(&f, &t, 4);
		return f;
	}
	static u128 fromD(double d, unsigned w) {
		if (w == 64) {
			u64 t; memcpy(&t, &d, 8);
			return t;
		}
		float f = (float)d;
		u32 t; memcpy(&t, &f, 4);
		return t;
	}
	static u128 evalUnary(Op op, unsigned w, u128 lo, u128 a, unsigned aw) {
		switch (op) {
		case Op::Extract: return (a >> (unsigned)lo) & maskw(w);
		case Op::ZExt: return a;
		case Op::SExt: return (u128)sext128(a, aw) & maskw(w);
		case Op::FToSI: {
			double d = toD(a, aw);
			__int128 lim = (__int128)1 << (w - 1);
			if (!(d > -(double)lim - 1 && d < (double)lim)) return (u128)1 << (w - 1);
			return (u128)(__int128)d & maskw(w);
		}
		case Op::FToUI: {
			double d = toD(a, aw);
			if (!(d > -1.0 && d < std::ldexp(1.0, (int)w))) return maskw(w);
			return (u128)(__int128)d & maskw(w);
		}
		case Op::SIToF: {
			__int128 x = sext128(a, aw);
			if (w == 32) { float f = (float)(i64)x; u32 t; memcpy(&t, &f, 4); return t; }
			return fromD((double)(i64)x, w);
		}
		case Op::UIToF:
			if (w == 32) { float f = (float)(u64)a; u32 t; memcpy(&t, &f, 4); return t; }
			return fromD((double)(u64)a, w);
		case Op::FExt: return fromD(toD(a, aw), w);
		case Op::FTrunc: return fromD(toD(a, aw), w);
		case Op::FSqrt: return fromD(std::sqrt(toD(a, aw)), w);
		default: break;
		}
		assert(0 && "evalUnary");
		return 0;
	}

	// ---- evaluation under an assignment (symbol id -> byte) ----
	u128 eval(const Expr *e, const std::vector<u8> &asg) {
		epoch++;
		return ev(e, asg);
	}
	u128 ev(const Expr *e, const std::vector<u8> &asg) {
		if (e->op == Op::Const) return e->val;
		if (e->memoEpoch == epoch) return e->memo;
		u128 r;
		switch (e->op) {
		case Op::Sym: r = (size_t)e->val < asg.size() ? asg[(size_t)e->val] : 0; break;
		case Op::Table: r = tables[(size_t)e->val]->e[(size_t)ev(e->k[0], asg)]; break;
		case Op::Ite: r = ev(e->k[0], asg) ? ev(e->k[1], asg) : ev(e->k[2], asg); break;
		case Op::Concat: {
			u128 a = ev(e->k[0], asg), b = ev(e->k[1], asg);
			r = ((a << e->k[1]->w) | b) & maskw(e->w);
			break;
		}
		case Op::Extract: case Op::ZExt: case Op::SExt: case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc: case Op::FSqrt:
			r = evalUnary(e->op, e->w, e->val, ev(e->k[0], asg), e->k[0]->w);
			break;
		default: {
			u128 a = ev(e->k[0], asg), b = ev(e->k[1], asg);
			r = evalOp(e->op, e->w, a, b, e->k[0]->w);
		}
		}
		e->memo = r;
		e->memoEpoch = epoch;
		return r;
	}

	// ---- builders ----
	Expr *sym(u32 id) { return mk(Op::Sym, 8, id); }
	Expr *lnot(Expr *a) { return bin(Op::Xor, a, cst(maskw(a->w), a->w)); }

	Expr *zext(Expr *a, unsigned w) {
		if (a->w == w) return a;
		assert(w > a->w);
		if (isC(a)) return cst(a->val, w);
		if (a->op == Op::ZExt) return zext(a->k[0], w);
		if (a->op == Op::Concat && isC(a->k[0], 0)) return zext(a->k[1], w);
		if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
		if (a->op == Op::Table && w <= 64) return tableMap(a, [&](u64 v) { return v; }, w);
		return mk(Op::ZExt, w, 0, a);
	}
	Expr *sext(Expr *a, unsigned w) {
		if (a->w == w) return a;
		if (isC(a)) return cst((u128)sext128(a->val, a->w), w);
		if (a->op == Op::ZExt) return zext(a->k[0], w);
		if (a->op == Op::SExt) return sext(a->k[0], w);
		if (a->w <= 64 && a->umax < (1ULL << (a->w - 1))) return zext(a, w);
		if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
		if (a->op == Op::Table && w <= 64) {
			unsigned aw = a->w;
			return tableMap(a, [&](u64 v) { return (u64)((u128)sext128(v, aw) & maskw(w)); }, w);
		}
		return mk(Op::SExt, w, 0, a);
	}
	template<class F>
	Expr *tableMap(Expr *t, F f, unsigned w) {
		auto &T = *tables[(size_t)t->val];
		std::vector<u64> e(T.e.size());
		for (size_t i = 0; i < e.size(); i++) e[i] = f(T.e[i]);
		return table(e, w, t->k[0]);
	}
	// idx has width idxw, entries.size() == 2^idxw
	Expr *table(const std::vector<u64> &e, unsigned w, Expr *idx) {
		if (isC(idx)) return cst(e[(size_t)idx->val], w);
		bool same = true;
		for (auto x : e)
			if (x != e[0]) { same = false; break; }
		if (same) return cst(e[0], w);
		bool ident = true;
		for (size_t i = 0; i < e.size(); i++)
			if (e[i] != i) { ident = false; break; }
		if (ident) return w >= idx->w ? zext(idx, w) : extract(idx, 0, w);
		if (idx->op == Op::Table) {
			auto &T = *tables[(size_t)idx->val];
			std::vector<u64> n(T.e.size());
			for (size_t i = 0; i < n.size(); i++) n[i] = e[(size_t)T.e[i]];
			return table(n, w, idx->k[0]);
		}
		if (w == 1 && e.size() == 2) return e[0] ? lnot(idx) : idx;
		auto key = std::make_pair((u32)w, e);
		auto it = tableIndex.find(key);
		u32 id;
		if (it == tableIndex.end()) {
			id = (u32)tables.size();
			auto t = std::unique_ptr<ConstTable>(new ConstTable());
			t->w = w;
			t->e = e;
			t->idxw = idx->w;
			tables.push_back(std::move(t));
			tableIndex[key] = id;
		} else
			id = it->second;
		return mk(Op::Table, w, id, idx);
	}
	std::unordered_map<u64, Expr *> extractMemo;
	Expr *extract(Expr *a, unsigned lo, unsigned w) {
		if (lo == 0 && w == a->w) return a;
		assert(lo + w <= a->w);
		if (a->depth < 4 || a->op == Op::Extract) return extract1(a, lo, w);
		u64 key = (u64)a->id << 16 | lo << 8 | w;
		auto it = extractMemo.find(key);
		if (it != extractMemo.end()) return it->second;
		Expr *r = extract1(a, lo, w);
		extractMemo[key] = r;
		return r;
	}
	Expr *extract1(Expr *a, unsigned lo, unsigned w) {
		switch (a->op) {
		case Op::Const: return cst(a->val >> lo, w);
		case Op::Extract: return extract(a->k[0], lo + (unsigned)a->val, w);
		case Op::ZExt: {
			unsigned iw = a->k[0]->w;
			if (lo >= iw) return cst(0, w);
			if (lo + w <= iw) return extract(a->k[0], lo, w);
			return zext(extract(a->k[0], lo, iw - lo), w);
		}
		case Op::SExt: {
			unsigned iw = a->k[0]->w;
			if (lo + w <= iw) return extract(a->k[0], lo, w);
			if (lo < iw) return sext(extract(a->k[0], lo, iw - lo), w);
			return sext(extract(a->k[0], iw - 1, 1), w);
		}
		case Op::Concat: {
			unsigned bw = a->k[1]->w;
			if (lo + w <= bw) return extract(a->k[1], lo, w);
			if (lo >= bw) return extract(a->k[0], lo - bw, w);
			return concat(extract(a->k[0], 0, lo + w - bw), extract(a->k[1], lo, bw - lo));
		}
		case Op::And: case Op::Or: case Op::Xor:
			if (a->depth > 24 && !isC(a->k[1])) break;
			return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
		case Op::Ite:
			if (isC(a->k[1]) || isC(a->k[2]) || a->depth < 12) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
			break;
		case Op::Table:
			return tableMap(a, [&](u64 v) { return (v >> lo) & (u64)maskw(w); }, w);
		case Op::Add: case Op::Sub: case Op::Mul:
			if (lo == 0 && w <= 32 && a->depth <= 24) return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
			break;
		default: break;
		}
		if (a->w <= 64 && lo < 64 && (a->umax >> lo) == 0) return cst(0, w);
		return mk(Op::Extract, w, lo, a);
	}
	Expr *concat(Expr *hi, Expr *lo) {
		unsigned w = hi->w + lo->w;
		if (isC(hi) && isC(lo)) return cst((hi->val << lo->w) | lo->val, w);
		if (isC(hi, 0)) return zext(lo, w);
		// zext as high part
		if (hi->op == Op::ZExt) return zext(concat(hi->k[0], lo), w);
		if (hi->op == Op::Concat && false) return nullptr;
		// adjacent extracts
		Expr *b = lo, *rest = nullptr;
		if (lo->op == Op::Concat) {
			b = lo->k[0];
			rest = lo->k[1];
		}
		auto parts = [&](Expr *e, Expr *&base, unsigned &l) {
			if (e->op == Op::Extract) {
				base = e->k[0];
				l = (unsigned)e->val;
			} else {
				base = e;
				l = 0;
			}
		};
		Expr *hb, *lb;
		unsigned hl, ll;
		parts(hi, hb, hl);
		parts(b, lb, ll);
		if (hi->op == Op::Extract && hb == lb && hl == ll + b->w && (b->op == Op::Extract)) {
			Expr *m = extract(hb, ll, hi->w + b->w);
			return rest ? concat(m, rest) : m;
		}
		if (isC(hi) && isC(b) && rest) return concat(cst((hi->val << b->w) | b->val, hi->w + b->w), rest);
		// sign extension pieces: concat(sext-bit..., x) not handled
		// keep right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
		if (hi->op == Op::Concat) return concat(hi->k[0], concat(hi->k[1], lo));
		// Ite lifting with the same condition
		if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
			return ite(hi->k[0], concat(hi->k[1], lo->k[1]), concat(hi->k[2], lo->k[2]));
		if (hi->op == Op::Ite && b->op == Op::Ite && rest && hi->k[0] == b->k[0])
			return concat(ite(hi->k[0], concat(hi->k[1], b->k[1]), concat(hi->k[2], b->k[2])), rest);
		if (hi->op == Op::Table && b->op == Op::Table && hi->k[0] == b->k[0] && hi->w + b->w <= 64) {
			auto &T = *tables[(size_t)hi->val];
			auto &B = *tables[(size_t)b->val];
			std::vector<u64> n(T.e.size());
			for (size_t i = 0; i < n.size(); i++) n[i] = (T.e[i] << b->w) | B.e[i];
			Expr *m = table(n, hi->w + b->w, hi->k[0]);
			return rest ? concat(m, rest) : m;
		}
		// bitwise ops computed bytewise on wide values: concat(op(x1,y1), op(x0,y0))
		if ((hi->op == Op::Xor || hi->op == Op::And || hi->op == Op::Or) && b->op == hi->op) {
			Expr *x1 = hi->k[0], *y1 = hi->k[1], *x0 = b->k[0], *y0 = b->k[1];
			auto adj = [&](Expr *h, Expr *l) {
				if (isC(h) && isC(l)) return true;
				return h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && (unsigned)h->val == (unsigned)l->val + l->w;
			};
			if (adj(x1, x0) && adj(y1, y0)) {
				Expr *m = bin(hi->op, concat(x1, x0), concat(y1, y0));
				return rest ? concat(m, rest) : m;
			}
			if (adj(x1, y0) && adj(y1, x0)) {
				Expr *m = bin(hi->op, concat(x1, y0), concat(y1, x0));
				return rest ? concat(m, rest) : m;
			}
		}
		return mk(Op::Concat, w, 0, hi, lo);
	}
	Expr *ite(Expr *c, Expr *a, Expr *b) {
		if (isC(c)) return c->val ? a : b;
		if (a == b) return a;
		if (c->op == Op::Xor && isC(c->k[1], 1)) return ite(c->k[0], b, a);
		if (a->w == 1) {
			if (isC(a, 1) && isC(b, 0)) return c;
			if (isC(a, 0) && isC(b, 1)) return lnot(c);
			if (isC(a, 1)) return bin(Op::Or, c, b);
			if (isC(a, 0)) return bin(Op::And, lnot(c), b);
			if (isC(b, 0)) return bin(Op::And, c, a);
			if (isC(b, 1)) return bin(Op::Or, lnot(c), a);
		}
		if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
		if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
		if (a == b) return a;
		if (b->op == Op::Ite && b->k[1] == a) return ite(bin(Op::Or, c, b->k[0]), a, b->k[2]);
		if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return zext(ite(c, a->k[0], b->k[0]), a->w);
		if (a->op == Op::ZExt && isC(b) && b->val <= maskw(a->k[0]->w)) return zext(ite(c, a->k[0], cst(b->val, a->k[0]->w)), a->w);
		if (b->op == Op::ZExt && isC(a) && a->val <= maskw(b->k[0]->w)) return zext(ite(c, cst(a->val, b->k[0]->w), b->k[0]), a->w);
		return mk(Op::Ite, a->w, 0, c, a, b);
	}
	static bool commut(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq; }
	static bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle; }
	static bool isFCmp(Op op) { return op == Op::FOeq || op == Op::FOlt || op == Op::FOle || op == Op::FUno; }

	// does x occupy only bits below n (w<=128) ?
	static unsigned topBit(Expr *e) {  // number of significant low bits
		if (e->op == Op::ZExt) return e->k[0]->w;
		if (e->op == Op::Const) {
			unsigned n = 0;
			u128 v = e->val;
			while (v) { n++; v >>= 1; }
			return n;
		}
		if (e->w <= 64) {
			unsigned n = 0;
			u64 v = e->umax;
			while (v) { n++; v >>= 1; }
			return n;
		}
		return e->w;
	}
	static unsigned lowZeros(Expr *e) {
		if (e->op == Op::Concat) {
			if (isC(e->k[1], 0)) return e->k[1]->w + 0;
			if (e->k[1]->op == Op::Const) {
				unsigned n = 0;
				u128 v = e->k[1]->val;
				while (!(v & 1)) { n++; v >>= 1; }
				return n;
			}
			return lowZeros(e->k[1]);
		}
		if (e->op == Op::ZExt) return lowZeros(e->k[0]);
		if (e->op == Op::Const) {
			if (e->val == 0) return e->w;
			unsigned n = 0;
			u128 v = e->val;
			while (!(v & 1)) { n++; v >>= 1; }
			return n;
		}
		return 0;
	}

	Expr *bin(Op op, Expr *a, Expr *b) {
		if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %u %u\n", (int)op, a->w, b->w); abort(); }
		unsigned w = isCmp(op) || isFCmp(op) ? 1 : a->w;
		unsigned aw = a->w;
		if (isC(a) && isC(b)) return cst(evalOp(op, w, a->val, b->val, aw), w);
		if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
		u128 m = maskw(aw);
		// lift over ite-of-constants / tables
		if (isC(b)) {
			if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
				return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
			if (a->op == Op::Table && w <= 64) {
				u128 bv = b->val;
				return tableMap(a, [&](u64 v) { return (u64)evalOp(op, w, v, bv, aw); }, w);
			}
		} else if (isC(a)) {
			if (b->op == Op::Ite && isC(b->k[1]) && isC(b->k[2]))
				return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
			if (b->op == Op::Table && w <= 64) {
				u128 av = a->val;
				return tableMap(b, [&](u64 v) { return (u64)evalOp(op, w, av, v, aw); }, w);
			}
		}
		if (a->op == Op::Table && b->op == Op::Table && a->k[0] == b->k[0] && w <= 64) {
			auto &A = *tables[(size_t)a->val];
			auto &B = *tables[(size_t)b->val];
			std::vector<u64> n(A.e.size());
			for (size_t i = 0; i < n.size(); i++) n[i] = (u64)evalOp(op, w, A.e[i], B.e[i], aw);
			return table(n, w, a->k[0]);
		}
		switch (op) {
		case Op::Add:
			if (isC(b, 0)) return a;
			if (isC(b) && a->op == Op::Add && isC(a->k[1])) return bin(Op::Add, a->k[0], cst(a->k[1]->val + b->val, w));
			if (isC(b) && a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
			if (a->op == Op::Add && isC(a->k[1]) && !isC(b)) return bin(Op::Add, bin(Op::Add, a->k[0], b), a->k[1]);
			if (b->op == Op::Add && isC(b->k[1])) return bin(Op::Add, bin(Op::Add, a, b->k[0]), b->k[1]);
			if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
			if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
			if (topBit(a) <= lowZeros(b) || topBit(b) <= lowZeros(a)) return bin(Op::Or, a, b);
			if (w == 1) return bin(Op::Xor, a, b);
			{
				// narrow: zext(x)+c with no overflow stays as is
			}
			break;
		case Op::Sub:
			if (a == b) return cst(0, w);
			if (isC(b)) return bin(Op::Add, a, cst(-b->val, w));
			if (a->op == Op::Add && a->k[0] == b) return a->k[1];
			if (a->op == Op::Add && a->k[1] == b) return a->k[0];
			if (a->op == Op::Add && isC(a->k[1])) return bin(Op::Add, bin(Op::Sub, a->k[0], b), a->k[1]);
			if (b->op == Op::Add && isC(b->k[1])) return bin(Op::Add, bin(Op::Sub, a, b->k[0]), cst(-b->k[1]->val, w));
			if (b->op == Op::Sub && b->k[0] == a) return b->k[1];
			if (w == 1) return bin(Op::Xor, a, b);
			break;
		case Op::Mul:
			if (isC(b, 0)) return b;
			if (isC(b, 1)) return a;
			if (isC(b)) {
				u128 v = b->val;
				if ((v & (v - 1)) == 0) {
					unsigned s = 0;
					while (!(v & 1)) { s++; v >>= 1; }
					return bin(Op::Shl, a, cst(s, w));
				}
				if (a->op == Op::Mul && isC(a->k[1])) return bin(Op::Mul, a->k[0], cst(a->k[1]->val * b->val, w));
				if (a->op == Op::Add && isC(a->k[1])) return bin(Op::Add, bin(Op::Mul, a->k[0], b), cst(a->k[1]->val * b->val, w));
			}
			break;
		case Op::UDiv:
			if (isC(b, 1)) return a;
			if (isC(b) && b->val && !(b->val & (b->val - 1))) {
				unsigned s = 0;
				u128 v = b->val;
				while (!(v & 1)) { s++; v >>= 1; }
				return bin(Op::LShr, a, cst(s, w));
			}
			if (isC(b) && a->op == Op::ZExt && b->val <= maskw(a->k[0]->w)) return zext(bin(Op::UDiv, a->k[0], cst(b->val, a->k[0]->w)), w);
			if (w <= 64 && isC(b) && b->val && a->umax < (u64)b->val) return cst(0, w);
			break;
		case Op::URem:
			if (isC(b, 1)) return cst(0, w);
			if (isC(b) && b->val && !(b->val & (b->val - 1))) return bin(Op::And, a, cst(b->val - 1, w));
			if (isC(b) && a->op == Op::ZExt && b->val <= maskw(a->k[0]->w)) return zext(bin(Op::URem, a->k[0], cst(b->val, a->k[0]->w)), w);
			if (w <= 64 && isC(b) && b->val && a->umax < (u64)b->val) return a;
			break;
		case Op::SDiv:
			if (isC(b, 1)) return a;
			if (w <= 64 && a->umax < (1ULL << (w - 1)) && b->umax < (1ULL << (w - 1))) return bin(Op::UDiv, a, b);
			break;
		case Op::SRem:
			if (w <= 64 && a->umax < (1ULL << (w - 1)) && b->umax < (1ULL << (w - 1))) return bin(Op::URem, a, b);
			break;
		case Op::And:
			if (isC(b, 0)) return b;
			if (isC(b, m)) return a;
			if (a == b) return a;
			if (isC(b) && a->op == Op::And && isC(a->k[1])) return bin(Op::And, a->k[0], cst(a->k[1]->val & b->val, w));
			if (isC(b) && w > 1) {
				// contiguous low mask -> zext(extract)
				u128 v = b->val;
				if (((v + 1) & v) == 0) {
					unsigned n = 0;
					while (v) { n++; v >>= 1; }
					return zext(extract(a, 0, n), w);
				}
				// split on structure
				if (a->op == Op::ZExt) {
					unsigned iw = a->k[0]->w;
					return zext(bin(Op::And, a->k[0], cst(b->val, iw)), w);
				}
				if (a->op == Op::Concat) {
					unsigned lw = a->k[1]->w;
					return concat(bin(Op::And, a->k[0], cst(b->val >> lw, a->k[0]->w)), bin(Op::And, a->k[1], cst(b->val, lw)));
				}
				// contiguous mask with low zeros
				unsigned z = 0;
				v = b->val;
				while (!(v & 1)) { z++; v >>= 1; }
				if (z && (((v + 1) & v) == 0)) {
					unsigned n = 0;
					u128 t = v;
					while (t) { n++; t >>= 1; }
					Expr *mid = concat(extract(a, z, n), cst(0, z));
					return zext(mid, w);
				}
			}
			if (a->op == Op::Xor && isC(a->k[1], m) && a->k[0] == b) return cst(0, w);
			if (b->op == Op::Xor && isC(b->k[1], m) && b->k[0] == a) return cst(0, w);
			if (w == 1) {
				if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
				if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
			}
			if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return zext(bin(op, a->k[0], b->k[0]), w);
			break;
		case Op::Or:
			if (isC(b, 0)) return a;
			if (isC(b, m)) return b;
			if (a == b) return a;
			if (isC(b) && a->op == Op::Or && isC(a->k[1])) return bin(Op::Or, a->k[0], cst(a->k[1]->val | b->val, w));
			if (a->op == Op::Xor && isC(a->k[1], m) && a->k[0] == b) return cst(m, w);
			if (b->op == Op::Xor && isC(b->k[1], m) && b->k[0] == a) return cst(m, w);
			if (w == 1) {
				if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return a;
				if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return b;
			}
			if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return zext(bin(op, a->k[0], b->k[0]), w);
			if (w > 1) {  // disjoint bits -> concat
				Expr *hi = nullptr, *lo = nullptr;
				if (topBit(b) <= lowZeros(a)) { hi = a; lo = b; }
				else if (topBit(a) <= lowZeros(b)) { hi = b; lo = a; }
				if (hi) {
					unsigned z = lowZeros(hi);
					if (z < w && z > 0) return concat(extract(hi, z, w - z), extract(lo, 0, z));
				}
				// const with structured
				if (isC(b) && a->op == Op::Concat) {
					unsigned lw = a->k[1]->w;
					return concat(bin(Op::Or, a->k[0], cst(b->val >> lw, a->k[0]->w)), bin(Op::Or, a->k[1], cst(b->val, lw)));
				}
				if (isC(b) && a->op == Op::ZExt) {
					unsigned iw = a->k[0]->w;
					return concat(cst(b->val >> iw, w - iw), bin(Op::Or, a->k[0], cst(b->val, iw)));
				}
				if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w)
					return concat(bin(op, a->k[0], b->k[0]), bin(op, a->k[1], b->k[1]));
			}
			break;
		case Op::Xor:
			if (isC(b, 0)) return a;
			if (a == b) return cst(0, w);
			if (isC(b) && a->op == Op::Xor && isC(a->k[1])) return bin(Op::Xor, a->k[0], cst(a->k[1]->val ^ b->val, w));
			if (!isC(b) && a->op == Op::Xor && isC(a->k[1])) return bin(Op::Xor, bin(Op::Xor, a->k[0], b), a->k[1]);
			if (!isC(b) && b->op == Op::Xor && isC(b->k[1])) return bin(Op::Xor, bin(Op::Xor, a, b->k[0]), b->k[1]);
			if (a->op == Op::Xor && a->k[0] == b) return a->k[1];
			if (a->op == Op::Xor && a->k[1] == b) return a->k[0];
			if (b->op == Op::Xor && b->k[0] == a) return b->k[1];
			if (b->op == Op::Xor && b->k[1] == a) return b->k[0];
			if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return zext(bin(op, a->k[0], b->k[0]), w);
			if (isC(b) && a->op == Op::ZExt && (b->val >> a->k[0]->w) == 0) return zext(bin(op, a->k[0], cst(b->val, a->k[0]->w)), w);
			if (isC(b) && a->op == Op::Concat) {
				unsigned lw = a->k[1]->w;
				return concat(bin(op, a->k[0], cst(b->val >> lw, a->k[0]->w)), bin(op, a->k[1], cst(b->val, lw)));
			}
			if (w == 1 && isC(b, 1)) {  // not
				if (a->op == Op::Ult) return bin(Op::Ule, a->k[1], a->k[0]);
				if (a->op == Op::Ule) return bin(Op::Ult, a->k[1], a->k[0]);
				if (a->op == Op::Slt) return bin(Op::Sle, a->k[1], a->k[0]);
				if (a->op == Op::Sle) return bin(Op::Slt, a->k[1], a->k[0]);
			}
			if (w > 1) {
				if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w)
					return concat(bin(op, a->k[0], b->k[0]), bin(op, a->k[1], b->k[1]));
			}
			break;
		case Op::Shl:
			if (isC(b)) {
				if (b->val >= w) return cst(0, w);
				if (b->val == 0) return a;
				unsigned s = (unsigned)b->val;
				return concat(extract(a, 0, w - s), cst(0, s));
			}
			break;
		case Op::LShr:
			if (isC(b)) {
				if (b->val >= w) return cst(0, w);
				if (b->val == 0) return a;
				unsigned s = (unsigned)b->val;
				return zext(extract(a, s, w - s), w);
			}
			break;
		case Op::AShr:
			if (isC(b)) {
				unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
				if (s == 0) return a;
				return sext(extract(a, s, w - s), w);
			}
			break;
		case Op::Eq:
			if (a == b) return tru();
			if (w == 1 && aw == 1) {
				if (isC(b)) return b->val ? a : lnot(a);
				return lnot(bin(Op::Xor, a, b));
			}
			if (isC(b)) {
				u128 v = b->val;
				switch (a->op) {
				case Op::ZExt: {
					unsigned iw = a->k[0]->w;
					if (v >> iw) return fls();
					return bin(Op::Eq, a->k[0], cst(v, iw));
				}
				case Op::SExt: {
					unsigned iw = a->k[0]->w;
					if (((u128)sext128(v & maskw(iw), iw) & m) != v) return fls();
					return bin(Op::Eq, a->k[0], cst(v, iw));
				}
				case Op::Concat: {
					unsigned lw = a->k[1]->w;
					return bin(Op::And, bin(Op::Eq, a->k[0], cst(v >> lw, a->k[0]->w)), bin(Op::Eq, a->k[1], cst(v, lw)));
				}
				case Op::Add:
					if (isC(a->k[1])) return bin(Op::Eq, a->k[0], cst(v - a->k[1]->val, aw));
					break;
				case Op::Sub:
					if (v == 0) return bin(Op::Eq, a->k[0], a->k[1]);
					if (isC(a->k[0])) return bin(Op::Eq, a->k[1], cst(a->k[0]->val - v, aw));
					break;
				case Op::Xor:
					if (isC(a->k[1])) return bin(Op::Eq, a->k[0], cst(v ^ a->k[1]->val, aw));
					if (v == 0) return bin(Op::Eq, a->k[0], a->k[1]);
					break;
				case Op::Ite:
					if (isC(a->k[1]) || isC(a->k[2]))
						return ite(a->k[0], bin(Op::Eq, a->k[1], b), bin(Op::Eq, a->k[2], b));
					break;
				default: break;
				}
			} else {
				if (a->op == Op::ZExt && b->op == Op::ZExt) {
					unsigned x = a->k[0]->w, y = b->k[0]->w, mx = std::max(x, y);
					return bin(Op::Eq, zext(a->k[0], mx), zext(b->k[0], mx));
				}
				if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w)
					return bin(Op::And, bin(Op::Eq, a->k[0], b->k[0]), bin(Op::Eq, a->k[1], b->k[1]));
				if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return bin(Op::Eq, a->k[0], b->k[0]);
				if (a->op == Op::Add && isC(a->k[1]) && a->k[0] == b) return fls();
				if (b->op == Op::Add && isC(b->k[1]) && b->k[0] == a) return fls();
			}
			if (aw <= 64 && (a->umax < b->umin || b->umax < a->umin)) return fls();
			break;
		case Op::Ult:
			if (a == b) return fls();
			if (aw <= 64) {
				if (a->umax < b->umin) return tru();
				if (a->umin >= b->umax) return fls();
			}
			if (aw == 1) return bin(Op::And, lnot(a), b);
			if (isC(b, 1)) return bin(Op::Eq, a, cst(0, aw));
			if (isC(a, 0)) return lnot(bin(Op::Eq, b, a));
			if (a->op == Op::ZExt && b->op == Op::ZExt) {
				unsigned mx = std::max(a->k[0]->w, b->k[0]->w);
				return bin(op, zext(a->k[0], mx), zext(b->k[0], mx));
			}
			if (a->op == Op::ZExt && isC(b)) {
				unsigned iw = a->k[0]->w;
				if (b->val >> iw) return tru();
				return bin(op, a->k[0], cst(b->val, iw));
			}
			if (b->op == Op::ZExt && isC(a)) {
				unsigned iw = b->k[0]->w;
				if (a->val >> iw) return fls();
				return bin(op, cst(a->val, iw), b->k[0]);
			}
			break;
		case Op::Ule:
			if (a == b) return tru();
			if (isC(b)) {
				if (b->val == m) return tru();
				return bin(Op::Ult, a, cst(b->val + 1, aw));
			}
			if (isC(a)) {
				if (a->val == 0) return tru();
				return bin(Op::Ult, cst(a->val - 1, aw), b);
			}
			if (aw <= 64) {
				if (a->umax <= b->umin) return tru();
				if (a->umin > b->umax) return fls();
			}
			if (a->op == Op::ZExt && b->op == Op::ZExt) {
				unsigned mx = std::max(a->k[0]->w, b->k[0]->w);
				return bin(op, zext(a->k[0], mx), zext(b->k[0], mx));
			}
			break;
		case Op::Slt: case Op::Sle: {
			if (a == b) return boolc(op == Op::Sle);
			if (aw <= 64) {
				u64 half = 1ULL << (aw - 1);
				bool ap = a->umax < half, bp = b->umax < half, an = a->umin >= half, bn = b->umin >= half;
				if ((ap && bp) || (an && bn)) return bin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
				if (ap && bn) return fls();
				if (an && bp) return tru();
			}
			if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return bin(op, a->k[0], b->k[0]);
			if (a->op == Op::SExt && isC(b)) {
				unsigned iw = a->k[0]->w;
				if (((u128)sext128(b->val & maskw(iw), iw) & m) == b->val) return bin(op, a->k[0], cst(b->val, iw));
			}
			if (b->op == Op::SExt && isC(a)) {
				unsigned iw = b->k[0]->w;
				if (((u128)sext128(a->val & maskw(iw), iw) & m) == a->val) return bin(op, cst(a->val, iw), b->k[0]);
			}
			break;
		}
		default: break;
		}
		return mk(op, w, 0, a, b);
	}
	Expr *un(Op op, Expr *a, unsigned w) {
		if (isC(a)) return cst(evalUnary(op, w, 0, a->val, a->w), w);
		return mk(op, w, 0, a);
	}
};

inline std::string exprStr(const Expr *e, int d = 6) {
	static const char *names[] = {"c", "s", "tbl", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "cat", "ext", "zx", "sx", "fadd", "fsub", "fmul", "fdiv", "foeq", "folt", "fole", "funo", "ftosi", "ftoui", "sitof", "uitof", "fext", "ftrunc", "fsqrt"};
	char b[64];
	if (e->op == Op::Const) {
		snprintf(b, sizeof b, "%llx:%u", (unsigned long long)e->val, e->w);
		return b;
	}
	if (e->op == Op::Sym) {
		snprintf(b, sizeof b, "s%u", (unsigned)e->val);
		return b;
	}
	if (d == 0) return "...";
	std::string r = std::string("(") + names[(int)e->op];
	if (e->op == Op::Extract) {
		snprintf(b, sizeof b, "[%u+%u]", (unsigned)e->val, e->w);
		r += b;
	}
	for (int i = 0; i < 3; i++)
		if (e->k[i]) r += " " + exprStr(e->k[i], d - 1);
	return r + ")";
}
