// SMT back end (Z3) with byte-domain propagation, independence slicing, query caching.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>

struct Bits256 {
	u64 b[4];
	static Bits256 all() { return {{~0ULL, ~0ULL, ~0ULL, ~0ULL}}; }
	static Bits256 none() { return {{0, 0, 0, 0}}; }
	bool get(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; }
	void set(unsigned i) { b[i >> 6] |= 1ULL << (i & 63); }
	bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
	bool operator==(const Bits256 &o) const { return !memcmp(b, o.b, 32); }
	bool operator<(const Bits256 &o) const { return memcmp(b, o.b, 32) < 0; }
	Bits256 operator&(const Bits256 &o) const { return {{b[0] & o.b[0], b[1] & o.b[1], b[2] & o.b[2], b[3] & o.b[3]}}; }
	Bits256 operator~() const { return {{~b[0], ~b[1], ~b[2], ~b[3]}}; }
	bool isAll() const { return b[0] == ~0ULL && b[1] == ~0ULL && b[2] == ~0ULL && b[3] == ~0ULL; }
	unsigned first() const {
		for (int i = 0; i < 4; i++)
			if (b[i]) return i * 64 + (unsigned)__builtin_ctzll(b[i]);
		return 256;
	}
	unsigned count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); }
};

struct PathCond {
	std::vector<Bits256> dom;     // per symbol
	std::vector<u8> inMulti;      // symbol occurs in a multi-symbol constraint
	std::vector<Expr *> multi;    // constraints over >=2 symbols
	std::vector<u8> model;        // satisfies everything above
	void ensure(size_t n) {
		if (dom.size() < n) {
			dom.resize(n, Bits256::all());
			inMulti.resize(n, 0);
		}
		if (model.size() < n) model.resize(n, 0);
	}
};

struct SolverStats {
	u64 z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, domainDecided = 0, modelReuse = 0, cacheHits = 0, intervalDecided = 0;
	double z3Time = 0, z3Max = 0;
	u64 assertZ3 = 0, assertTotal = 0, assertConst = 0, assertDomain = 0;
};

struct Solver {
	Ctx &C;
	Z3_context z;
	Z3_solver sBV = nullptr, sFP = nullptr;
	SolverStats st;
	unsigned rlimit = 400000000, timeoutMs = 30000;
	enum R { SAT, UNSAT, UNKNOWN };
	struct CacheEnt {
		R r;
		std::vector<std::pair<u32, u8>> m;
	};
	std::unordered_map<std::string, CacheEnt> cache;
	std::unordered_map<const Expr *, Bits256> truth;
	std::map<std::pair<u32, Bits256>, Z3_ast> domAst;
	std::unordered_map<const Expr *, u8> usesFP_;

	Solver(Ctx &c) : C(c) {
		Z3_config cfg = Z3_mk_config();
		z = Z3_mk_context(cfg);
		Z3_del_config(cfg);
		Z3_set_error_handler(z, [](Z3_context zc, Z3_error_code e) {
			fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(zc, e));
			abort();
		});
	}
	static void errh() {}

	Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
	Z3_ast num(u128 v, unsigned w) {
		if (w <= 64) return Z3_mk_unsigned_int64(z, (u64)v, bv(w));
		Z3_ast hi = Z3_mk_unsigned_int64(z, (u64)(v >> 64), bv(w - 64)), lo = Z3_mk_unsigned_int64(z, (u64)v, bv(64));
		return Z3_mk_concat(z, hi, lo);
	}
	bool usesFP(const Expr *e) {
		if (e->op == Op::Const || e->op == Op::Sym) return false;
		auto it = usesFP_.find(e);
		if (it != usesFP_.end()) return it->second;
		bool r = e->op >= Op::FAdd;
		for (int i = 0; i < 3 && !r; i++)
			if (e->k[i] && usesFP(e->k[i])) r = true;
		usesFP_[e] = r;
		return r;
	}
	Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(z, b, num(1, 1), num(0, 1)); }
	Z3_ast tableAst(const ConstTable &t, Z3_ast idx, size_t lo, size_t n) {
		bool same = true;
		for (size_t i = 1; i < n; i++)
			if (t.e[lo + i] != t.e[lo]) { same = false; break; }
		if (same) return num(t.e[lo], t.w);
		unsigned bit = 0;
		while ((size_t(1) << (bit + 1)) < n) bit++;
		Z3_ast c = Z3_mk_eq(z, Z3_mk_extract(z, bit, bit, idx), num(1, 1));
		size_t h = n / 2;
		return Z3_mk_ite(z, c, tableAst(t, idx, lo + h, h), tableAst(t, idx, lo, h));
	}
	Z3_sort fpS(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort_32(z); }
	Z3_ast fp(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(z, a, fpS(w)); }
	Z3_ast tr(const Expr *e) {
		if (e->z3) return (Z3_ast)e->z3;
		Z3_ast r = nullptr;
		Z3_ast k[3] = {nullptr, nullptr, nullptr};
		for (int i = 0; i < 3; i++)
			if (e->k[i]) k[i] = tr(e->k[i]);
		unsigned aw = e->k[0] ? e->k[0]->w : 0;
		switch (e->op) {
		case Op::Const: r = num(e->val, e->w); break;
		case Op::Sym: {
			char nm[32];
			snprintf(nm, sizeof nm, "s%u", (unsigned)e->val);
			r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), bv(8));
			break;
		}
		case Op::Table: {
			auto &t = *C.tables[(size_t)e->val];
			r = tableAst(t, k[0], 0, t.e.size());
			break;
		}
		case Op::Add: r = Z3_mk_bvadd(z, k[0], k[1]); break;
		case Op::Sub: r = Z3_mk_bvsub(z, k[0], k[1]); break;
		case Op::Mul: r = Z3_mk_bvmul(z, k[0], k[1]); break;
		case Op::UDiv: r = Z3_mk_bvudiv(z, k[0], k[1]); break;
		case Op::SDiv: r = Z3_mk_bvsdiv(z, k[0], k[1]); break;
		case Op::URem: r = Z3_mk_bvurem(z, k[0], k[1]); break;
		case Op::SRem: r = Z3_mk_bvsrem(z, k[0], k[1]); break;
		case Op::And: r = Z3_mk_bvand(z, k[0], k[1]); break;
		case Op::Or: r = Z3_mk_bvor(z, k[0], k[1]); break;
		case Op::Xor: r = Z3_mk_bvxor(z, k[0], k[1]); break;
		case Op::Shl: r = Z3_mk_bvshl(z, k[0], k[1]); break;
		case Op::LShr: r = Z3_mk_bvlshr(z, k[0], k[1]); break;
		case Op::AShr: r = Z3_mk_bvashr(z, k[0], k[1]); break;
		case Op::Eq: r = b2bv(Z3_mk_eq(z, k[0], k[1])); break;
		case Op::Ult: r = b2bv(Z3_mk_bvult(z, k[0], k[1])); break;
		case Op::Ule: r = b2bv(Z3_mk_bvule(z, k[0], k[1])); break;
		case Op::Slt: r = b2bv(Z3_mk_bvslt(z, k[0], k[1])); break;
		case Op::Sle: r = b2bv(Z3_mk_bvsle(z, k[0], k[1])); break;
		case Op::Ite: r = Z3_mk_ite(z, Z3_mk_eq(z, k[0], num(1, 1)), k[1], k[2]); break;
		case Op::Concat: r = Z3_mk_concat(z, k[0], k[1]); break;
		case Op::Extract: r = Z3_mk_extract(z, (unsigned)e->val + e->w - 1, (unsigned)e->val, k[0]); break;
		case Op::ZExt: r = Z3_mk_zero_ext(z, e->w - aw, k[0]); break;
		case Op::SExt: r = Z3_mk_sign_ext(z, e->w - aw, k[0]); break;
		case Op::FAdd: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, Z3_mk_fpa_rne(z), fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FSub: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, Z3_mk_fpa_rne(z), fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FMul: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, Z3_mk_fpa_rne(z), fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FDiv: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, Z3_mk_fpa_rne(z), fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FOeq: r = b2bv(Z3_mk_fpa_eq(z, fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FOlt: r = b2bv(Z3_mk_fpa_lt(z, fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FOle: r = b2bv(Z3_mk_fpa_leq(z, fp(k[0], aw), fp(k[1], aw))); break;
		case Op::FUno: {
			Z3_ast o[2] = {Z3_mk_fpa_is_nan(z, fp(k[0], aw)), Z3_mk_fpa_is_nan(z, fp(k[1], aw))};
			r = b2bv(Z3_mk_or(z, 2, o));
			break;
		}
		case Op::FToSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), fp(k[0], aw), e->w); break;
		case Op::FToUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), fp(k[0], aw), e->w); break;
		case Op::SIToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, Z3_mk_fpa_rne(z), k[0], fpS(e->w))); break;
		case Op::UIToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, Z3_mk_fpa_rne(z), k[0], fpS(e->w))); break;
		case Op::FExt: case Op::FTrunc:
			r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), fp(k[0], aw), fpS(e->w)));
			break;
		case Op::FSqrt: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sqrt(z, Z3_mk_fpa_rne(z), fp(k[0], aw))); break;
		}
		e->z3 = (void *)r;
		return r;
	}
	Z3_ast asBool(const Expr *e) {
		switch (e->op) {
		case Op::Eq: return Z3_mk_eq(z, tr(e->k[0]), tr(e->k[1]));
		case Op::Ult: return Z3_mk_bvult(z, tr(e->k[0]), tr(e->k[1]));
		case Op::Ule: return Z3_mk_bvule(z, tr(e->k[0]), tr(e->k[1]));
		case Op::And:
			if (e->w == 1) {
				Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])};
				return Z3_mk_and(z, 2, a);
			}
			break;
		case Op::Or:
			if (e->w == 1) {
				Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])};
				return Z3_mk_or(z, 2, a);
			}
			break;
		case Op::Xor:
			if (e->w == 1 && Ctx::isC(e->k[1], 1)) return Z3_mk_not(z, asBool(e->k[0]));
			break;
		default: break;
		}
		return Z3_mk_eq(z, tr(e), num(1, 1));
	}
	Z3_ast domainAst(u32 sym, const Bits256 &d) {
		auto key = std::make_pair(sym, d);
		auto it = domAst.find(key);
		if (it != domAst.end()) return it->second;
		Z3_ast s = tr(C.sym(sym));
		std::vector<Z3_ast> ors;
		for (unsigned i = 0; i < 256;) {
			if (!d.get(i)) { i++; continue; }
			unsigned j = i;
			while (j + 1 < 256 && d.get(j + 1)) j++;
			if (i == j)
				ors.push_back(Z3_mk_eq(z, s, num(i, 8)));
			else {
				Z3_ast a[2] = {Z3_mk_bvuge(z, s, num(i, 8)), Z3_mk_bvule(z, s, num(j, 8))};
				ors.push_back(Z3_mk_and(z, 2, a));
			}
			i = j + 1;
		}
		Z3_ast r = ors.empty() ? Z3_mk_false(z) : Z3_mk_or(z, (unsigned)ors.size(), ors.data());
		domAst[key] = r;
		return r;
	}
	const Bits256 &truthTable(const Expr *e, u32 s) {
		auto it = truth.find(e);
		if (it != truth.end()) return it->second;
		Bits256 t = Bits256::none();
		std::vector<u8> asg(s + 1, 0);
		for (unsigned i = 0; i < 256; i++) {
			asg[s] = (u8)i;
			if (C.eval(e, asg)) t.set(i);
		}
		return truth[e] = t;
	}

	// e (width 1) as a conjunction of smaller conditions
	void conjuncts(Expr *e, std::vector<Expr *> &out, int depth = 0) {
		if (depth < 64 && e->syms->v.size() > 1) {
			if (e->op == Op::And && e->w == 1) {
				conjuncts(e->k[0], out, depth + 1);
				conjuncts(e->k[1], out, depth + 1);
				return;
			}
			if (e->op == Op::Xor && e->w == 1 && Ctx::isC(e->k[1], 1)) {
				std::vector<Expr *> d;
				disjuncts(e->k[0], d, depth + 1);
				if (d.size() > 1) {
					for (auto x : d) conjuncts(C.lnot(x), out, depth + 1);
					return;
				}
			}
			if (e->op == Op::Eq && Ctx::isC(e->k[1], 0)) {
				Expr *x = e->k[0];
				if (x->op == Op::Or) {
					Expr *z = e->k[1];
					conjuncts(C.bin(Op::Eq, x->k[0], z), out, depth + 1);
					conjuncts(C.bin(Op::Eq, x->k[1], z), out, depth + 1);
					return;
				}
				if (x->op == Op::And && Ctx::isC(x->k[1]) && x->k[0]->op == Op::Or) {
					Expr *z = e->k[1];
					for (int i = 0; i < 2; i++) conjuncts(C.bin(Op::Eq, C.bin(Op::And, x->k[0]->k[i], x->k[1]), z), out, depth + 1);
					return;
				}
			}
			if (e->op == Op::Eq && (e->k[0]->op == Op::Concat || e->k[1]->op == Op::Concat)) {
				Expr *x = e->k[0]->op == Op::Concat ? e->k[0] : e->k[1], *y = e->k[0]->op == Op::Concat ? e->k[1] : e->k[0];
				unsigned lw = x->k[1]->w;
				Expr *l = C.bin(Op::Eq, x->k[1], C.extract(y, 0, lw)), *h = C.bin(Op::Eq, x->k[0], C.extract(y, lw, x->w - lw));
				conjuncts(l, out, depth + 1);
				conjuncts(h, out, depth + 1);
				return;
			}
		}
		out.push_back(e);
	}
	void disjuncts(Expr *e, std::vector<Expr *> &out, int depth = 0) {
		if (depth < 64 && e->syms->v.size() > 1) {
			if (e->op == Op::Or && e->w == 1) {
				disjuncts(e->k[0], out, depth + 1);
				disjuncts(e->k[1], out, depth + 1);
				return;
			}
			if (e->op == Op::Xor && e->w == 1 && Ctx::isC(e->k[1], 1)) {
				std::vector<Expr *> c;
				conjuncts(e->k[0], c, depth + 1);
				if (c.size() > 1) {
					for (auto x : c) disjuncts(C.lnot(x), out, depth + 1);
					return;
				}
			}
		}
		out.push_back(e);
	}

	// ---- sums of per-byte functions: exact interval reasoning over the byte domains (no solver call) ----
	typedef __int128 i128;
	struct Lin {
		bool ok = false;
		i128 c = 0;                                          // constant part
		std::vector<std::pair<u32, std::vector<i128>>> t;  // per symbol: 256 values (only those in the domain matter)
		i128 lo = 0, hi = 0;                                 // range of c + sum t, as an integer
	};
	struct LinCtx {
		std::unordered_map<const Expr *, std::shared_ptr<Lin>> memo;
		std::shared_ptr<Lin> extreme;
		unsigned nodes = 0;
	};
	static constexpr i128 LINMAX = (i128)1 << 110;
	static constexpr u32 OPAQUE = 0x40000000;  // term numbers from here on stand for subexpressions known by their range
	std::shared_ptr<Lin> linOpaque(PathCond &pc, Expr *e, i128 lo, i128 hi) {
		auto r = std::make_shared<Lin>();
		if ((u32)e->id >= OPAQUE) return r;
		std::vector<i128> v(256);
		v[0] = lo;
		v[1] = hi;
		r->ok = true;
		r->t.push_back({OPAQUE + (u32)e->id, v});
		linRange(pc, *r);
		return r;
	}
	void linRange(PathCond &pc, Lin &l) {
		l.lo = l.hi = l.c;
		for (auto &p : l.t) {
			if (p.first >= OPAQUE) {  // only its range is known: entries 0 and 1
				l.lo += std::min(p.second[0], p.second[1]);
				l.hi += std::max(p.second[0], p.second[1]);
				continue;
			}
			bool first = true;
			i128 mn = 0, mx = 0;
			for (unsigned i = 0; i < 256; i++)
				if (pc.dom[p.first].get(i)) {
					i128 v = p.second[i];
					if (first || v < mn) mn = v;
					if (first || v > mx) mx = v;
					first = false;
				}
			l.lo += mn;
			l.hi += mx;
		}
		if (l.lo < -LINMAX || l.hi > LINMAX) l.ok = false;
	}
	std::shared_ptr<Lin> linFold(PathCond &pc, const Lin &a, i128 ka, const Lin *b, i128 kb) {
		auto r = std::make_shared<Lin>();
		r->ok = a.ok && (!b || b->ok);
		if (!r->ok) return r;
		auto big = [](i128 x) { return x > LINMAX || x < -LINMAX; };
		auto mulok = [&](const Lin &l, i128 k) {
			if (k == 0) return true;
			i128 ak = k < 0 ? -k : k;
			i128 m = std::max(l.hi < 0 ? -l.hi : l.hi, l.lo < 0 ? -l.lo : l.lo), cc = l.c < 0 ? -l.c : l.c;
			return !big(ak) && std::max(m, cc) <= LINMAX / ak;
		};
		if (!mulok(a, ka) || (b && !mulok(*b, kb))) {
			r->ok = false;
			return r;
		}
		r->c = a.c * ka + (b ? b->c * kb : 0);
		r->t = a.t;
		for (auto &p : r->t)
			for (auto &v : p.second) v *= ka;
		if (b)
			for (auto &p : b->t) {
				bool f = false;
				for (auto &q : r->t)
					if (q.first == p.first) {
						for (unsigned i = 0; i < 256; i++) q.second[i] += p.second[i] * kb;
						f = true;
						break;
					}
				if (!f) {
					r->t.push_back(p);
					for (auto &v : r->t.back().second) v *= kb;
				}
			}
		linRange(pc, *r);
		return r;
	}
	// re-interpret the w-bit value of l as unsigned / signed: allowed when the whole range lies in one block
	std::shared_ptr<Lin> linInterp(PathCond &pc, const std::shared_ptr<Lin> &l, unsigned w, bool sgn) {
		if (!l->ok) return l;
		if (w > 100) {
			if (sgn || l->lo >= 0) return l;
			auto r = std::make_shared<Lin>();
			return r;
		}
		i128 m = (i128)1 << w, off = sgn ? m / 2 : 0;
		auto fl = [&](i128 x) { return x >= 0 ? x / m : -((-x + m - 1) / m); };
		i128 b = fl(l->lo + off);
		if (fl(l->hi + off) != b) return std::make_shared<Lin>();
		if (b == 0) return l;
		auto r = std::make_shared<Lin>(*l);
		r->c -= b * m;
		r->lo -= b * m;
		r->hi -= b * m;
		return r;
	}
	std::shared_ptr<Lin> lin(PathCond &pc, LinCtx &L, Expr *e) {
		auto it = L.memo.find(e);
		if (it != L.memo.end()) return it->second;
		std::shared_ptr<Lin> r = std::make_shared<Lin>();
		if (++L.nodes > 3000) return r;
		if (e->op == Op::Const) {
			r->ok = true;
			r->c = e->w >= 128 ? (i128)e->val : sext128(e->val, e->w);
			linRange(pc, *r);
		} else if (e->syms->v.size() == 1) {
			u32 s = e->syms->v[0];
			if (e->w <= 128) {
				r->ok = true;
				auto &tt = singleTable(e, s);
				r->t.push_back({s, tt});
				linRange(pc, *r);
			}
		} else
			switch (e->op) {
			case Op::Add: case Op::Sub: {
				auto a = lin(pc, L, e->k[0]);
				if (!a->ok) break;
				auto b = lin(pc, L, e->k[1]);
				r = linFold(pc, *a, 1, b.get(), e->op == Op::Add ? 1 : -1);
				break;
			}
			case Op::Mul: case Op::Shl: {
				Expr *x = e->k[0], *y = e->k[1];
				if (Ctx::isC(x) && e->op == Op::Mul) std::swap(x, y);
				if (!Ctx::isC(y)) break;
				auto a = lin(pc, L, x);
				i128 k = sext128(y->val, y->w);
				if (e->op == Op::Shl) {
					if (k < 0 || k > 64) break;
					k = (i128)1 << (int)k;
				}
				r = linFold(pc, *a, k, nullptr, 0);
				break;
			}
			case Op::Xor:
				if (Ctx::isC(e->k[1], maskw(e->w))) {  // ~x == -x - 1
					r = linFold(pc, *lin(pc, L, e->k[0]), -1, nullptr, 0);
					if (r->ok) {
						r->c -= 1;
						r->lo -= 1;
						r->hi -= 1;
					}
				}
				break;
			case Op::ZExt: r = linInterp(pc, lin(pc, L, e->k[0]), e->k[0]->w, false); break;
			case Op::SExt: r = linInterp(pc, lin(pc, L, e->k[0]), e->k[0]->w, true); break;
			case Op::Extract:
				if (e->val == 0) r = lin(pc, L, e->k[0]);
				break;
			case Op::Concat: {
				auto b = linInterp(pc, lin(pc, L, e->k[1]), e->k[1]->w, false);
				if (!b->ok || e->k[1]->w > 100) break;
				auto a = lin(pc, L, e->k[0]);
				r = linFold(pc, *a, (i128)1 << e->k[1]->w, b.get(), 1);
				break;
			}
			case Op::SDiv:
				if (Ctx::isC(e->k[1]) && e->w <= 64) {
					i128 d = sext128(e->k[1]->val, e->w);
					auto a = linInterp(pc, lin(pc, L, e->k[0]), e->w, true);
					if (!a->ok || d <= 0) break;
					r = linOpaque(pc, e, a->lo / d, a->hi / d);
				}
				break;
			case Op::UDiv: case Op::LShr:
				if (Ctx::isC(e->k[1]) && e->w <= 64) {
					i128 d = (i128)e->k[1]->val;
					auto a = linInterp(pc, lin(pc, L, e->k[0]), e->w, false);
					if (e->op == Op::LShr) {
						if (d >= e->w) break;
						d = (i128)1 << (int)d;
					}
					if (!a->ok || d <= 0) break;
					r = linOpaque(pc, e, a->lo / d, a->hi / d);
				}
				break;
			default: break;
			}
		L.memo[e] = r;
		return r;
	}
	std::unordered_map<const Expr *, std::vector<i128>> singleTab;
	const std::vector<i128> &singleTable(Expr *e, u32 s) {
		auto it = singleTab.find(e);
		if (it != singleTab.end()) return it->second;
		std::vector<i128> v(256);
		std::vector<u8> asg(s + 1, 0);
		for (unsigned i = 0; i < 256; i++) {
			asg[s] = (u8)i;
			v[i] = sext128(C.eval(e, asg), e->w);
		}
		if (singleTab.size() > 20000) singleTab.clear();
		return singleTab[e] = v;
	}
	// 1: always true, 0: always false, -1: not decided
	int linTruth(PathCond &pc, LinCtx &L, Expr *e) {
		if (Ctx::isC(e)) return e->val != 0;
		if (e->syms->v.size() == 1) {
			Bits256 t = truthTable(e, e->syms->v[0]), d = pc.dom[e->syms->v[0]];
			if ((t & d).empty()) return 0;
			if (((~t) & d).empty()) return 1;
			return -1;
		}
		switch (e->op) {
		case Op::And: {
			if (e->w != 1) return -1;
			int a = linTruth(pc, L, e->k[0]);
			if (a == 0) return 0;
			int b = linTruth(pc, L, e->k[1]);
			return b == 0 ? 0 : (a == 1 && b == 1) ? 1 : -1;
		}
		case Op::Or: {
			if (e->w != 1) return -1;
			int a = linTruth(pc, L, e->k[0]);
			if (a == 1) return 1;
			int b = linTruth(pc, L, e->k[1]);
			return b == 1 ? 1 : (a == 0 && b == 0) ? 0 : -1;
		}
		case Op::Xor:
			if (e->w == 1 && Ctx::isC(e->k[1], 1)) {
				int a = linTruth(pc, L, e->k[0]);
				return a < 0 ? -1 : 1 - a;
			}
			return -1;
		case Op::Eq: {
			unsigned w = e->k[0]->w;
			auto a = lin(pc, L, e->k[0]);
			if (!a->ok) return -1;
			auto b = lin(pc, L, e->k[1]);
			if (!b->ok) return -1;
			auto d = linFold(pc, *a, 1, b.get(), -1);
			if (!d->ok) return -1;
			L.extreme = d;
			if (w > 100) return d->lo > 0 || d->hi < 0 ? 0 : d->lo == 0 && d->hi == 0 ? 1 : -1;
			// is every value of d a non-multiple / a multiple of 2^w?
			i128 m = (i128)1 << w;
			auto fl = [&](i128 x) { return x >= 0 ? x / m : -((-x + m - 1) / m); };
			if (d->lo == d->hi) return d->lo % m == 0;
			if (fl(d->lo) == fl(d->hi) && d->lo - fl(d->lo) * m > 0) return 0;
			return -1;
		}
		case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: {
			bool sg = e->op == Op::Slt || e->op == Op::Sle;
			unsigned w = e->k[0]->w;
			auto a = linInterp(pc, lin(pc, L, e->k[0]), w, sg);
			if (!a->ok) return -1;
			auto b = linInterp(pc, lin(pc, L, e->k[1]), w, sg);
			if (!b->ok) return -1;
			auto d = linFold(pc, *a, 1, b.get(), -1);
			if (!d->ok) return -1;
			L.extreme = d;
			bool strict = e->op == Op::Ult || e->op == Op::Slt;
			if (strict) return d->hi < 0 ? 1 : d->lo >= 0 ? 0 : -1;
			return d->hi <= 0 ? 1 : d->lo > 0 ? 0 : -1;
		}
		default: return -1;
		}
	}

	// Is pc && cond satisfiable?  On SAT, newModel (if given) receives a full model.
	R check(PathCond &pc, Expr *cond, std::vector<u8> *newModel, bool *viaZ3 = nullptr) {
		if (viaZ3) *viaZ3 = false;
		if (Ctx::isC(cond)) {
			if (cond->val == 0) return UNSAT;
			if (newModel) *newModel = pc.model;
			return SAT;
		}
		for (u32 s : cond->syms->v) pc.ensure(s + 1);
		if (C.eval(cond, pc.model)) {
			st.modelReuse++;
			if (newModel) *newModel = pc.model;
			return SAT;
		}
		if (cond->syms->v.size() == 1) {
			u32 s = cond->syms->v[0];
			Bits256 t = truthTable(cond, s) & pc.dom[s];
			if (t.empty()) {
				st.domainDecided++;
				return UNSAT;
			}
			if (!pc.inMulti[s]) {
				st.domainDecided++;
				if (newModel) {
					*newModel = pc.model;
					(*newModel)[s] = (u8)t.first();
				}
				return SAT;
			}
		}
		if (cond->syms->v.size() > 1) {
			// a disjunction: drop the parts that the byte domains refute, keep the rest together
			std::vector<Expr *> ds;
			disjuncts(cond, ds);
			if (ds.size() > 1) {
				Expr *rest = nullptr;
				bool dropped = false;
				for (auto d : ds) {
					if (Ctx::isC(d)) {
						if (d->val) rest = C.tru();
						dropped = true;
						continue;
					}
					if (d->syms->v.size() == 1) {
						u32 s = d->syms->v[0];
						Bits256 t = truthTable(d, s) & pc.dom[s];
						if (t.empty()) {
							dropped = true;
							continue;
						}
						if (!pc.inMulti[s]) {
							st.domainDecided++;
							if (newModel) {
								*newModel = pc.model;
								(*newModel)[s] = (u8)t.first();
							}
							return SAT;
						}
					}
					rest = rest ? C.bin(Op::Or, rest, d) : d;
				}
				if (!rest) {
					st.domainDecided++;
					return UNSAT;
				}
				if (dropped) return check(pc, rest, newModel, viaZ3);
			}
		}
		LinCtx L;
		if (cond->syms->v.size() > 1) {
			int t = linTruth(pc, L, cond);
			if (t == 0) {
				st.intervalDecided++;
				return UNSAT;
			}
		}
		// slice
		std::vector<u8> inS(pc.dom.size(), 0);
		std::vector<u32> syms(cond->syms->v);
		for (u32 s : syms) inS[s] = 1;
		std::vector<Expr *> cs;
		std::vector<u8> used(pc.multi.size(), 0);
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t i = 0; i < pc.multi.size(); i++) {
				if (used[i]) continue;
				auto &sv = pc.multi[i]->syms->v;
				bool hit = false;
				for (u32 s : sv)
					if (inS[s]) { hit = true; break; }
				if (!hit) continue;
				used[i] = 1;
				ch = true;
				cs.push_back(pc.multi[i]);
				for (u32 s : sv)
					if (!inS[s]) {
						inS[s] = 1;
						syms.push_back(s);
					}
			}
		}
		std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
		std::sort(syms.begin(), syms.end());
		std::string key;
		key.reserve(4 * (cs.size() + 2) + syms.size() * 36);
		auto put = [&](const void *p, size_t n) { key.append((const char *)p, n); };
		put(&cond->id, 4);
		for (auto c : cs) put(&c->id, 4);
		u32 sep = 0;
		put(&sep, 4);
		for (u32 s : syms)
			if (!pc.dom[s].isAll()) {
				put(&s, 4);
				put(pc.dom[s].b, 32);
			}
		auto it = cache.find(key);
		if (it != cache.end()) {
			st.cacheHits++;
			if (viaZ3) *viaZ3 = true;
			if (it->second.r == SAT && newModel) {
				*newModel = pc.model;
				for (auto &p : it->second.m) (*newModel)[p.first] = p.second;
			}
			return it->second.r;
		}
		if (L.extreme)
			for (auto &p : L.extreme->t)
				if (p.first >= OPAQUE) {
					L.extreme.reset();
					break;
				}
		if (L.extreme) {  // the assignments at the ends of the range are good guesses
			for (int side = 0; side < 2; side++) {
				std::vector<u8> full = pc.model;
				for (auto &p : L.extreme->t) {
					bool first = true;
					i128 best = 0;
					for (unsigned i = 0; i < 256; i++)
						if (pc.dom[p.first].get(i) && (first || (side ? p.second[i] > best : p.second[i] < best))) {
							best = p.second[i];
							full[p.first] = (u8)i;
							first = false;
						}
				}
				bool good = C.eval(cond, full) != 0;
				for (auto c : cs) good = good && C.eval(c, full) != 0;
				if (good) {
					st.intervalDecided++;
					CacheEnt ent;
					ent.r = SAT;
					for (u32 sy : syms) ent.m.push_back({sy, full[sy]});
					if (newModel) *newModel = full;
					cache[key] = ent;
					return SAT;
				}
			}
		}
		bool fpq = usesFP(cond);
		for (auto c : cs) fpq = fpq || usesFP(c);
		Z3_solver s = getSolver(fpq);
		Z3_solver_push(z, s);
		for (auto c : cs) Z3_solver_assert(z, s, asBool(c));
		for (u32 sy : syms)
			if (!pc.dom[sy].isAll()) Z3_solver_assert(z, s, domainAst(sy, pc.dom[sy]));
		Z3_solver_assert(z, s, asBool(cond));
		auto t0 = std::chrono::steady_clock::now();
		if (getenv("VP_DUMP_SMT")) fprintf(stderr, "%s\n", Z3_solver_to_string(z, s));
		Z3_lbool r = Z3_solver_check(z, s);
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		st.z3Queries++;
		st.z3Time += dt;
		st.z3Max = std::max(st.z3Max, dt);
		if (viaZ3) *viaZ3 = true;
		CacheEnt ent;
		if (r == Z3_L_TRUE) {
			st.z3Sat++;
			ent.r = SAT;
			Z3_model m = Z3_solver_get_model(z, s);
			Z3_model_inc_ref(z, m);
			for (u32 sy : syms) {
				Z3_ast v;
				u8 val = 0;
				if (Z3_model_eval(z, m, tr(C.sym(sy)), true, &v)) {
					uint64_t x;
					if (Z3_get_numeral_uint64(z, v, &x)) val = (u8)x;
				}
				ent.m.push_back({sy, val});
			}
			Z3_model_dec_ref(z, m);
			// sanity: the model must satisfy the query in our own evaluator
			std::vector<u8> full = pc.model;
			for (auto &p : ent.m) full[p.first] = p.second;
			bool good = C.eval(cond, full) != 0;
			for (auto c : cs) good = good && C.eval(c, full) != 0;
			if (!good) {
				fprintf(stderr, "ENCODING-MISMATCH: Z3 model does not satisfy query under the evaluator: %s\n", exprStr(cond, 8).c_str());
				encodingMismatch++;
			}
			if (newModel) *newModel = full;
		} else if (r == Z3_L_FALSE) {
			st.z3Unsat++;
			ent.r = UNSAT;
		} else {
			st.z3Unknown++;
			ent.r = UNKNOWN;
		}
		Z3_solver_pop(z, s, 1);
		if (++sinceReset > 2000) resetSolvers();
		cache[key] = ent;
		return ent.r;
	}
	u64 encodingMismatch = 0;
	unsigned sinceReset = 0;
	void resetSolvers() {
		sinceReset = 0;
		if (sBV) { Z3_solver_dec_ref(z, sBV); sBV = nullptr; }
		if (sFP) { Z3_solver_dec_ref(z, sFP); sFP = nullptr; }
	}
	Z3_solver getSolver(bool fpq) {
		Z3_solver &s = fpq ? sFP : sBV;
		if (!s) {
			s = fpq ? Z3_mk_solver(z) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
			Z3_solver_inc_ref(z, s);
			Z3_params p = Z3_mk_params(z);
			Z3_params_inc_ref(z, p);
			Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), rlimit);
			Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), fpq ? timeoutMs * 4 : timeoutMs);
			Z3_solver_set_params(z, s, p);
			Z3_params_dec_ref(z, p);
		}
		return s;
	}
	// add constraint known to be satisfiable together with pc; model must satisfy it afterwards
	bool add(PathCond &pc, Expr *cond, const std::vector<u8> &model) {
		pc.model = model;
		if (Ctx::isC(cond)) return cond->val != 0;
		if (cond->syms->v.size() > 1) {
			std::vector<Expr *> cs;
			conjuncts(cond, cs);
			if (cs.size() > 1) {
				for (auto x : cs)
					if (!add(pc, x, model)) return false;
				return true;
			}
		}
		for (u32 s : cond->syms->v) pc.ensure(s + 1);
		if (cond->syms->v.size() == 1) {
			u32 s = cond->syms->v[0];
			pc.dom[s] = pc.dom[s] & truthTable(cond, s);
			return !pc.dom[s].empty();
		}
		for (auto m : pc.multi)
			if (m == cond) return true;
		pc.multi.push_back(cond);
		for (u32 s : cond->syms->v) pc.inMulti[s] = 1;
		return true;
	}
};
