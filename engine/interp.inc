	// ------------------------------------------------------------ interpreter (included inside struct Engine)
	static V mkV(Expr *e) {
		if (e->w <= 64 && e->op == Op::Const) return {(u64)e->val, nullptr};
		return {0, e};
	}
	Expr *toE(const V &v, unsigned w) {
		if (v.e) {
			if (v.e->w != w) {
				fprintf(stderr, "toE width %u expected %u: %s\n", v.e->w, w, exprStr(v.e, 3).c_str());
				abort();
			}
			return v.e;
		}
		return C.cst(v.c, w);
	}
	static V cV(u64 c) { return {c, nullptr}; }
	inline V get(Frame &f, int ref) { return ref >= 0 ? f.regs[ref] : consts[~ref]; }

	bool forkSelects = false;  // selects of 64-bit values (min of lengths) as branches
	// ---- decisions. Returns the branch the current state takes; a clone taking the other one is queued.
	bool decide(State &S, Expr *c) {
		if (Ctx::isC(c)) return c->val != 0;
		for (u32 s : c->syms->v) S.pc.ensure(s + 1);
		if (c->syms->v.size() > 1) {
			Expr *n = C.lnot(c);
			for (auto m : S.pc.multi) {
				if (m == c) return true;
				if (m == n) return false;
			}
		}
		bool mv = C.eval(c, S.pc.model) != 0;
		Expr *other = mv ? C.lnot(c) : c;
		std::vector<u8> nm;
		auto r = SV.check(S.pc, other, &nm);
		if (r == Solver::UNSAT) return mv;
		if (r == Solver::UNKNOWN) {
			nUnknownBr++;
			incomplete("solver gave no answer on a branch (resource limit)");
			SV.add(S.pc, mv ? c : C.lnot(c), S.pc.model);
			return mv;
		}
		State *T = S.clone();
		nForks++;
		T->forks++;
		S.forks++;
		SV.add(T->pc, other, nm);
		work.push_back(T);
		std::vector<u8> keep = S.pc.model;
		SV.add(S.pc, mv ? c : C.lnot(c), keep);
		return mv;
	}
	bool decideV(State &S, const V &v) { return v.e ? decide(S, v.e) : (v.c & 1); }
	u64 conc(State &S, const V &v, unsigned w) {
		if (!v.e) return v.c;
		if (v.e->op == Op::Const) return (u64)v.e->val;
		for (;;) {
			for (u32 s : v.e->syms->v) S.pc.ensure(s + 1);
			u64 x = (u64)C.eval(v.e, S.pc.model);
			if (decide(S, C.bin(Op::Eq, v.e, C.cst(x, w)))) return x;
		}
	}

	// ---- memory access
	Expr *byteE(Obj *o, u64 off) {
		if (o->s && o->s[off]) {
			Expr *e = o->s[off];
			return e->op == Op::Extract ? C.extract(e->k[0], (unsigned)e->val, 8) : e;
		}
		return C.cst(o->d[off], 8);
	}
	// bytes [off, off+n) as one expression (symbolic); stored values that are read back whole come back unchanged
	Expr *wordE(Obj *o, u64 off, unsigned n) {
		Expr *r = nullptr;
		for (unsigned i = 0; i < n;) {
			Expr *p = o->s[off + i], *part;
			unsigned run = 1;
			if (p && p->op == Op::Extract) {
				while (i + run < n && o->s[off + i + run] && o->s[off + i + run]->op == Op::Extract && o->s[off + i + run]->k[0] == p->k[0] && o->s[off + i + run]->val == p->val + run * 8) run++;
				part = C.extract(p->k[0], (unsigned)p->val, run * 8);
			} else
				part = byteE(o, off + i);
			r = r ? C.concat(part, r) : part;
			i += run;
		}
		return r;
	}
	V readAt(Obj *o, u64 off, unsigned w) {
		unsigned n = (w + 7) / 8;
		if (o->s) {
			bool any = false;
			for (unsigned i = 0; i < n; i++)
				if (o->s[off + i]) { any = true; break; }
			if (any) {
				Expr *e = wordE(o, off, n);
				if (e->w != w) e = C.extract(e, 0, w);
				return w <= 64 ? mkV(e) : V{0, e};
			}
		}
		if (w <= 64) {
			u64 x = 0;
			memcpy(&x, o->d + off, n);
			return cV(x & (u64)maskw(w));
		}
		u128 x = 0;
		memcpy(&x, o->d + off, n);
		return {0, C.cst(x, w)};
	}
	void setByte(Obj *o, u64 off, Expr *e) {
		if (Ctx::isC(e)) {
			o->d[off] = (u8)e->val;
			if (o->s) o->s[off] = nullptr;
		} else {
			if (!o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
			o->s[off] = e;
		}
	}
	void writeAt(Obj *o, u64 off, unsigned w, const V &v) {
		unsigned n = (w + 7) / 8;
		if (!v.e) {
			u64 x = v.c;
			memcpy(o->d + off, &x, n);
			if (o->s) memset(o->s + off, 0, n * sizeof(Expr *));
			return;
		}
		Expr *e = v.e;
		if (e->w != n * 8) e = C.zext(e, n * 8);
		bool keep = n > 1 && e->depth >= 3;
		for (unsigned i = 0; i < n; i++) {
			Expr *b = C.extract(e, i * 8, 8);
			setByte(o, off + i, keep && !Ctx::isC(b) ? C.mk(Op::Extract, 8, i * 8, e) : b);
		}
	}
	// concrete address check
	Obj *locate(State &S, u64 addr, u64 n, bool write, const char **err) {
		u32 id = (u32)(addr >> OBJ_SHIFT);
		u64 off = addr & OFF_MASK;
		if (addr < 4096 && id == 0) {
			*err = "null pointer dereference";
			return nullptr;
		}
		if ((addr >> OBJ_SHIFT) >= S.nextId) {
			*err = "wild pointer access";
			return nullptr;
		}
		Obj *o = obj(S, id);
		if (!o) {
			*err = "access to dead stack object or unmapped memory";
			return nullptr;
		}
		if (o->kind == K_FREED) {
			*err = "heap use after free";
			return nullptr;
		}
		if (o->kind == K_FUNC || off + n > o->size) {
			*err = o->kind == K_STACK ? "stack buffer overflow" : o->kind == K_GLOBAL || o->kind == K_CONST ? "global buffer overflow" : "heap buffer overflow";
			return nullptr;
		}
		if (write && o->kind == K_CONST) {
			*err = "write to constant memory";
			return nullptr;
		}
		return o;
	}
	// Make an address concrete (forking over feasible values). Returns false when the access is a violation (path is dead).
	bool concAddr(State &S, const V &a, u64 &out) {
		out = conc(S, a, 64);
		return true;
	}
	void memViolation(State &S, const char *err, bool write) {
		violation(S, "memory", std::string(err) + (write ? " (write)" : " (read)"));
	}
	// single-symbol: offsets for each byte value
	bool readSym(State &S, Expr *addr, unsigned w, V &out) {
		unsigned n = (w + 7) / 8;
		for (u32 s : addr->syms->v) S.pc.ensure(s + 1);
		u64 mv = (u64)C.eval(addr, S.pc.model);
		const char *err = nullptr;
		Obj *o = locate(S, mv, n, false, &err);
		if (!o) {
			memViolation(S, err, false);
			return false;
		}
		u64 base = mv & ~OFF_MASK;
		Expr *off = C.bin(Op::Sub, addr, C.cst(base, 64));
		Expr *inb = C.bin(Op::Ule, off, C.cst(o->size - n, 64));
		if (!decide(S, inb)) {  // model said in bounds, so decide() returns true unless the model changed
			return readSym(S, addr, w, out);
		}
		o = obj(S, (u32)(base >> OBJ_SHIFT));
		if (w <= 64) {
			if (addr->syms->v.size() == 1) {
				u32 s = addr->syms->v[0];
				std::vector<u8> asg(s + 1, 0);
				std::vector<u64> offs(256, 0);
				bool symc = false;
				std::set<u64> distinct;
				for (unsigned b = 0; b < 256; b++) {
					if (!S.pc.dom[s].get(b)) { offs[b] = ~0ULL; continue; }
					asg[s] = (u8)b;
					u64 x = (u64)C.eval(off, asg);
					if (x > o->size - n) { offs[b] = ~0ULL; continue; }
					offs[b] = x;
					distinct.insert(x);
					if (o->s)
						for (unsigned i = 0; i < n; i++)
							if (o->s[x + i]) symc = true;
				}
				if (!symc) {
					std::vector<u64> e(256, 0);
					u64 dflt = 0;
					for (unsigned b = 0; b < 256; b++)
						if (offs[b] != ~0ULL) { memcpy(&dflt, o->d + offs[b], n); break; }
					for (unsigned b = 0; b < 256; b++) {
						u64 x = dflt;
						if (offs[b] != ~0ULL) { x = 0; memcpy(&x, o->d + offs[b], n); }
						e[b] = x & (u64)maskw(w);
					}
					out = mkV(C.table(e, w, C.sym(s)));
					return true;
				}
				if (distinct.size() <= 64) return muxRead(S, o, off, w, distinct, out);
			} else {
				u64 lo = off->umin, hi = std::min<u64>(off->umax, o->size - n);
				bool symc = false;
				if (o->s)
					for (u64 i = lo; i < hi + n; i++)
						if (o->s[i]) symc = true;
				if (!symc && o->size <= 8192) {
					unsigned k = 1;
					while ((1u << k) < o->size) k++;
					std::vector<u64> e((size_t)1 << k, 0);
					for (u64 x = lo; x <= hi; x++) {
						u64 t = 0;
						memcpy(&t, o->d + x, n);
						e[x] = t & (u64)maskw(w);
					}
					out = mkV(C.table(e, w, C.extract(off, 0, k)));
					return true;
				}
				if (hi - lo < 64) {
					std::set<u64> d;
					for (u64 x = lo; x <= hi; x++) d.insert(x);
					return muxRead(S, o, off, w, d, out);
				}
			}
		}
		u64 x = conc(S, {0, addr}, 64);
		o = obj(S, (u32)(x >> OBJ_SHIFT));
		out = readAt(o, x & OFF_MASK, w);
		return true;
	}
	bool muxRead(State &S, Obj *o, Expr *off, unsigned w, const std::set<u64> &d, V &out) {
		Expr *r = nullptr;
		for (u64 x : d) {
			Expr *v = toE(readAt(o, x, w), w);
			r = r ? C.ite(C.bin(Op::Eq, off, C.cst(x, 64)), v, r) : v;
		}
		out = mkV(r);
		return true;
	}
	bool loadV(State &S, const V &a, unsigned w, V &out) {
		if (a.e) return readSym(S, a.e, w, out);
		const char *err = nullptr;
		Obj *o = locate(S, a.c, (w + 7) / 8, false, &err);
		if (!o) {
			memViolation(S, err, false);
			return false;
		}
		out = readAt(o, a.c & OFF_MASK, w);
		return true;
	}
	bool storeV(State &S, const V &a, unsigned w, const V &v) {
		u64 addr = conc(S, a, 64);
		const char *err = nullptr;
		Obj *o = locate(S, addr, (w + 7) / 8, true, &err);
		if (!o) {
			memViolation(S, err, true);
			return false;
		}
		o = wobj(S, (u32)(addr >> OBJ_SHIFT));
		writeAt(o, addr & OFF_MASK, w, v);
		return true;
	}
	bool copyMem(State &S, u64 dst, u64 src, u64 n) {
		if (n == 0) return true;
		const char *err = nullptr;
		Obj *so = locate(S, src, n, false, &err);
		if (!so) { memViolation(S, err, false); return false; }
		Obj *d0 = locate(S, dst, n, true, &err);
		if (!d0) { memViolation(S, err, true); return false; }
		Obj *o = wobj(S, (u32)(dst >> OBJ_SHIFT));
		so = obj(S, (u32)(src >> OBJ_SHIFT));
		u64 d = dst & OFF_MASK, s = src & OFF_MASK;
		memmove(o->d + d, so->d + s, n);
		if (so->s) {
			bool any = o->s != nullptr;
			for (u64 i = 0; i < n && !any; i++)
				if (so->s[s + i]) any = true;
			if (any) {
				if (!o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
				memmove(o->s + d, so->s + s, n * sizeof(Expr *));
			}
		} else if (o->s)
			memset(o->s + d, 0, n * sizeof(Expr *));
		return true;
	}
	std::string cstr(State &S, u64 a) {
		std::string r;
		const char *err;
		for (;;) {
			Obj *o = locate(S, a, 1, false, &err);
			if (!o) return r;
			u8 ch = o->d[a & OFF_MASK];
			if (!ch) return r;
			r += (char)ch;
			a++;
		}
	}
	u64 rd64(State &S, u64 a) {
		const char *err;
		Obj *o = locate(S, a, 8, false, &err);
		if (!o) return 0;
		u64 x;
		memcpy(&x, o->d + (a & OFF_MASK), 8);
		return x;
	}
	u32 rd32(State &S, u64 a) {
		const char *err;
		Obj *o = locate(S, a, 4, false, &err);
		if (!o) return 0;
		u32 x;
		memcpy(&x, o->d + (a & OFF_MASK), 4);
		return x;
	}

	// ---- race detector
	std::vector<u32> &vcOf(State &S, int t) {
		auto &v = S.th[t].vc;
		if (v.size() < S.th.size()) v.resize(S.th.size(), 0);
		if (v[(size_t)t] == 0) v[(size_t)t] = 1;
		return v;
	}
	static void joinVC(std::vector<u32> &a, const std::vector<u32> &b) {
		if (a.size() < b.size()) a.resize(b.size(), 0);
		for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
	}
	void vcAcquire(State &S, u64 addr) {
		if (!O.race) return;
		auto it = S.syncVC.find(addr);
		if (it != S.syncVC.end()) joinVC(vcOf(S, S.cur), it->second);
	}
	void vcRelease(State &S, u64 addr) {
		if (!O.race) return;
		auto &v = vcOf(S, S.cur);
		joinVC(S.syncVC[addr], v);
		v[S.cur]++;
	}
	void raceAccess(State &S, u64 addr, unsigned n, bool write) {
		if (S.th.size() < 2 || S.th[S.cur].noRace) return;
		u32 id = (u32)(addr >> OBJ_SHIFT);
		Obj *o = obj(S, id);
		if (!o || o->kind == K_CONST) return;
		if (!n) return;
		auto &vc = vcOf(S, S.cur);
		auto &ptr = S.shadow[id];
		if (!ptr) ptr = std::make_shared<ObjShadow>();
		else if (ptr.use_count() > 1) ptr = std::make_shared<ObjShadow>(*ptr);
		ObjShadow &os = *ptr;
		u32 from = (u32)(addr & OFF_MASK), to = from + n;
		auto clk = [&](int t) { return t < (int)vc.size() ? vc[t] : 0; };
		size_t i = 0;
		while (i < os.size() && os[i].to <= from) i++;
		u32 at = from;
		while (at < to) {
			if (i >= os.size() || os[i].from > at) {  // nothing known
				Shadow g;
				g.from = at;
				g.to = i < os.size() ? std::min(to, os[i].from) : to;
				os.insert(os.begin() + (long)i, g);
			} else {
				if (os[i].from < at) {
					Shadow l = os[i];
					l.to = at;
					os[i].from = at;
					os.insert(os.begin() + (long)i, l);
					i++;
				}
				if (os[i].to > to) {
					Shadow r = os[i];
					r.from = to;
					os[i].to = to;
					os.insert(os.begin() + (long)i + 1, r);
				}
			}
			Shadow &sh_ = os[i];
			if (sh_.wt >= 0 && sh_.wt != S.cur && sh_.wc > clk(sh_.wt)) {
				violation(S, "race", write ? "data race: write after unordered write" : "data race: read after unordered write");
				sh_.wt = -1;
				return;
			}
			if (write) {
				for (auto &r : sh_.reads)
					if (r.first != S.cur && r.second > clk(r.first)) {
						violation(S, "race", "data race: write after unordered read");
						sh_.reads.clear();
						return;
					}
				sh_.reads.clear();
				sh_.wt = S.cur;
				sh_.wc = vc[S.cur];
			} else {
				bool f = false;
				for (auto &r : sh_.reads)
					if (r.first == S.cur) { r.second = vc[S.cur]; f = true; }
				if (!f) sh_.reads.push_back({S.cur, vc[S.cur]});
			}
			at = sh_.to;
			// equal neighbours become one
			if (i && os[i - 1].to == os[i].from && os[i - 1].wt == os[i].wt && os[i - 1].wc == os[i].wc && os[i - 1].reads == os[i].reads) {
				os[i - 1].to = os[i].to;
				os.erase(os.begin() + (long)i);
			} else
				i++;
		}
	}

	// ---- calls
	void freeFrame(State &S, Frame &f) {
		for (u32 id : f.allocas) {
			if (O.race) S.shadow.erase(id);
			Page *&p = S.pages[id >> 6];
			if (p->rc > 1) {
				p->rc--;
				p = new Page(*p);
			}
			Obj *&o = p->o[id & 63];
			if (o && --o->rc == 0) delete o;
			o = nullptr;
		}
		f.allocas.clear();
	}
	bool pushFrame(State &S, Fn *F, const std::vector<V> &args, bool engineCall = false) {
		if (F->decl) {
			nErrors++;
			incomplete("call to external function without a model: " + F->name);
			return false;
		}
		if (!F->compiled) compile(F);
		F->executed = true;
		F->blocks[0].executed = true;
		auto &st = S.th[S.cur].st;
		if (st.size() > 2000) {
			violation(S, "hang", "call stack deeper than 2000 frames");
			return false;
		}
		st.emplace_back();
		Frame &f = st.back();
		f.fn = F;
		f.pc = F->blocks[0].start;
		f.regs.resize(F->nregs, V{0, nullptr});
		for (u32 i = 0; i < F->nArgSlots && i < args.size(); i++) f.regs[i] = args[i];
		f.engineCall = engineCall;
		return true;
	}
	void takeEdge(Frame &f, const Edge &e) {
		if (!e.moves.empty()) {
			if (e.moves.size() == 1)
				f.regs[e.moves[0].first] = get(f, e.moves[0].second);
			else {
				static thread_local std::vector<V> tmp;
				tmp.clear();
				for (auto &m : e.moves) tmp.push_back(get(f, m.second));
				for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].first] = tmp[i];
			}
		}
		f.fn->blocks[e.blk].executed = true;
		f.pc = e.target;
	}
	void advance(Frame &f) {
		auto &in = f.fn->code[f.pc];
		if (in.op == I::Invoke) takeEdge(f, in.edges[0]);
		else f.pc++;
	}

	// ---- exceptions
	std::map<u64, int> typeIds;
	int typeId(u64 t) {
		auto it = typeIds.find(t);
		if (it != typeIds.end()) return it->second;
		int id = (int)typeIds.size() + 1;
		typeIds[t] = id;
		return id;
	}
	int tiKind(State &S, u64 ti) {  // 0 class,1 si,2 vmi,3 other
		u64 vt = rd64(S, ti) & ~OFF_MASK;
		auto it = gByAddr.find(vt);
		if (it == gByAddr.end()) return 3;
		std::string n = it->second->getName().str();
		if (n.find("__si_class_type_info") != std::string::npos) return 1;
		if (n.find("__vmi_class_type_info") != std::string::npos) return 2;
		if (n.find("__class_type_info") != std::string::npos) return 0;
		return 3;
	}
	bool typeMatch(State &S, u64 thrown, u64 want, i64 &adj) {
		if (thrown == want) return true;
		switch (tiKind(S, thrown)) {
		case 1: return typeMatch(S, rd64(S, thrown + 16), want, adj);
		case 2: {
			u32 n = rd32(S, thrown + 20);
			for (u32 i = 0; i < n; i++) {
				u64 b = rd64(S, thrown + 24 + 16 * i);
				i64 fl = (i64)rd64(S, thrown + 32 + 16 * i);
				i64 a = adj + (fl >> 8);
				if ((fl & 2) && !(fl & 1) && typeMatch(S, b, want, a)) {
					adj = a;
					return true;
				}
			}
			return false;
		}
		default: return false;
		}
	}
	ExcInfo *exc(State &S, u64 addr) {
		for (auto &e : S.excs)
			if (e.addr == addr) return &e;
		return nullptr;
	}
	// unwind from the current top frame's call instruction. false => path ends.
	bool unwind(State &S) {
		Thread &T = S.th[S.cur];
		ExcInfo *x = exc(S, T.excPtr);
		u64 ti = x ? x->tinfo : 0;
		while (!T.st.empty()) {
			Frame &f = T.st.back();
			auto &in = f.fn->code[f.pc];
			if (in.op == I::Invoke) {
				auto &e = in.edges[1];
				auto &blk = f.fn->blocks[e.blk];
				if (blk.lp >= 0) {
					auto &lp = f.fn->lps[blk.lp];
					int sel = 0;
					bool hit = false;
					for (auto &c : lp.clauses) {
						if (c.kind == 0) {
							i64 adj = 0;
							if (c.types[0] == 0 || typeMatch(S, ti, c.types[0], adj)) {
								sel = typeId(c.types[0]);
								if (x) x->adj = adj;
								hit = true;
								break;
							}
						} else {
							bool allowed = false;
							for (u64 t : c.types) {
								i64 adj = 0;
								if (typeMatch(S, ti, t, adj)) allowed = true;
							}
							if (!allowed) {
								sel = -1;
								hit = true;
								break;
							}
						}
					}
					if (hit || lp.cleanup) {
						T.excSel = hit ? sel : 0;
						takeEdge(f, e);
						return true;
					}
				}
			}
			bool ec = f.engineCall;
			freeFrame(S, f);
			if (f.onReturnFree || ec) {
				violation(S, "terminate", "exception escaped from a destructor or static initialiser");
				return false;
			}
			T.st.pop_back();
		}
		std::string tn = "?";
		auto it = gByAddr.find(ti);
		if (it != gByAddr.end()) tn = demangle(it->second->getName().str());
		violation(S, "terminate", "uncaught exception: " + tn);
		return false;
	}

	// ---- scheduler
	bool runnable(State &S, int t) {
		Thread &T = S.th[t];
		switch (T.status) {
		case T_RUN: return true;
		case T_MUTEX: {
			auto it = S.mutexOwner.find(T.waitAddr);
			return it == S.mutexOwner.end() || it->second < 0;
		}
		case T_COND: return T.notified;
		case T_JOIN: return S.th[T.joinTid].status == T_DONE;
		case T_PRED: {
			const char *err;
			Obj *o = locate(S, T.waitAddr, 4, false, &err);
			if (!o) return true;
			V v = readAt(o, T.waitAddr & OFF_MASK, 32);
			return v.e || (v.c & T.waitMask);
		}
		case T_DONE: return false;
		}
		return false;
	}
	// preemption point before executing a synchronising instruction
	void schedPoint(State &S) {
		if (S.th.size() < 2 || !S.needSched) return;
		S.needSched = false;
		nSched++;
		if (S.preempt >= O.maxPreempt) return;
		for (int t = 0; t < (int)S.th.size(); t++) {
			if (t == S.cur || !runnable(S, t)) continue;
			State *T = S.clone();
			T->cur = t;
			T->preempt++;
			T->sched.push_back((u8)t);
			T->needSched = false;
			nForks++;
			work.push_back(T);
		}
	}
	// current thread cannot continue; pick another. false => path over
	bool schedBlocked(State &S) {
		std::vector<int> r;
		for (int t = 0; t < (int)S.th.size(); t++)
			if (runnable(S, t)) r.push_back(t);
		if (r.empty()) {
			std::string s;
			for (int t = 0; t < (int)S.th.size(); t++) {
				static const char *nm[] = {"run", "mutex", "cond", "join", "wait", "done"};
				s += " t" + std::to_string(t) + ":" + nm[S.th[t].status];
			}
			violation(S, "deadlock", "no thread can make progress:" + s);
			return false;
		}
		for (size_t i = 1; i < r.size(); i++) {
			State *T = S.clone();
			T->cur = r[i];
			T->sched.push_back((u8)r[i]);
			T->needSched = false;
			nForks++;
			work.push_back(T);
		}
		S.cur = r[0];
		S.sched.push_back((u8)r[0]);
		S.needSched = false;
		return true;
	}
	u64 tlsAddr(State &S, const GlobalVariable *g) {
		if (S.cur == 0) return gaddr[g];
		Thread &T = S.th[S.cur];
		auto it = T.tls.find(g);
		if (it != T.tls.end()) return it->second;
		Obj *o = obj(init, (u32)(gaddr[g] >> OBJ_SHIFT));
		u32 id = newObj(S, o->size, K_GLOBAL);
		memcpy(wobj(S, id)->d, o->d, o->size);
		T.tls[g] = addrOf(id);
		return addrOf(id);
	}

	// ---- instruction semantics
	V binV(State &S, B op, const V &a, const V &b, unsigned w, bool &dead) {
		static const Op m[] = {Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor};
		if (op == B::UDiv || op == B::SDiv || op == B::URem || op == B::SRem) {
			bool z = (!b.e || b.e->op == Op::Const) ? (b.e ? b.e->val == 0 : b.c == 0) : decide(S, C.bin(Op::Eq, b.e, C.cst(0, w)));
			if (z) {
				violation(S, "ub", "division by zero");
				dead = true;
				return cV(0);
			}
		}
		if (!a.e && !b.e && w <= 64) {
			u64 x = a.c, y = b.c, M_ = (u64)maskw(w);
			switch (op) {
			case B::Add: return cV((x + y) & M_);
			case B::Sub: return cV((x - y) & M_);
			case B::Mul: return cV((x * y) & M_);
			case B::UDiv: return cV(x / y);
			case B::URem: return cV(x % y);
			case B::And: return cV(x & y);
			case B::Or: return cV(x | y);
			case B::Xor: return cV(x ^ y);
			case B::Shl: return cV(y >= w ? 0 : (x << y) & M_);
			case B::LShr: return cV(y >= w ? 0 : x >> y);
			case B::AShr: return cV((u64)(sext64(x, w) >> (y >= w ? w - 1 : y)) & M_);
			default: return cV((u64)Ctx::evalOp(m[(int)op], w, x, y, w));
			}
		}
		Expr *r = C.bin(m[(int)op], toE(a, w), toE(b, w));
		return w <= 64 ? mkV(r) : V{0, r};
	}
	V icmpV(unsigned p, const V &a, const V &b, unsigned w) {
		if (!a.e && !b.e) {
			u64 x = a.c, y = b.c;
			i64 sx = sext64(x, w), sy = sext64(y, w);
			switch (p) {
			case CmpInst::ICMP_EQ: return cV(x == y);
			case CmpInst::ICMP_NE: return cV(x != y);
			case CmpInst::ICMP_UGT: return cV(x > y);
			case CmpInst::ICMP_UGE: return cV(x >= y);
			case CmpInst::ICMP_ULT: return cV(x < y);
			case CmpInst::ICMP_ULE: return cV(x <= y);
			case CmpInst::ICMP_SGT: return cV(sx > sy);
			case CmpInst::ICMP_SGE: return cV(sx >= sy);
			case CmpInst::ICMP_SLT: return cV(sx < sy);
			case CmpInst::ICMP_SLE: return cV(sx <= sy);
			}
		}
		Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr;
		switch (p) {
		case CmpInst::ICMP_EQ: r = C.bin(Op::Eq, x, y); break;
		case CmpInst::ICMP_NE: r = C.lnot(C.bin(Op::Eq, x, y)); break;
		case CmpInst::ICMP_UGT: r = C.bin(Op::Ult, y, x); break;
		case CmpInst::ICMP_UGE: r = C.bin(Op::Ule, y, x); break;
		case CmpInst::ICMP_ULT: r = C.bin(Op::Ult, x, y); break;
		case CmpInst::ICMP_ULE: r = C.bin(Op::Ule, x, y); break;
		case CmpInst::ICMP_SGT: r = C.bin(Op::Slt, y, x); break;
		case CmpInst::ICMP_SGE: r = C.bin(Op::Sle, y, x); break;
		case CmpInst::ICMP_SLT: r = C.bin(Op::Slt, x, y); break;
		case CmpInst::ICMP_SLE: r = C.bin(Op::Sle, x, y); break;
		}
		return mkV(r);
	}
	V fcmpV(unsigned p, const V &a, const V &b, unsigned w) {
		Expr *x = toE(a, w), *y = toE(b, w);
		auto oeq = [&] { return C.bin(Op::FOeq, x, y); };
		auto olt = [&](Expr *q, Expr *r) { return C.bin(Op::FOlt, q, r); };
		auto ole = [&](Expr *q, Expr *r) { return C.bin(Op::FOle, q, r); };
		auto uno = [&] { return C.bin(Op::FUno, x, y); };
		Expr *r = C.fls();
		switch (p) {
		case CmpInst::FCMP_FALSE: r = C.fls(); break;
		case CmpInst::FCMP_OEQ: r = oeq(); break;
		case CmpInst::FCMP_OGT: r = olt(y, x); break;
		case CmpInst::FCMP_OGE: r = ole(y, x); break;
		case CmpInst::FCMP_OLT: r = olt(x, y); break;
		case CmpInst::FCMP_OLE: r = ole(x, y); break;
		case CmpInst::FCMP_ONE: r = C.bin(Op::Or, olt(x, y), olt(y, x)); break;
		case CmpInst::FCMP_ORD: r = C.lnot(uno()); break;
		case CmpInst::FCMP_UNO: r = uno(); break;
		case CmpInst::FCMP_UEQ: r = C.bin(Op::Or, uno(), oeq()); break;
		case CmpInst::FCMP_UGT: r = C.lnot(ole(x, y)); break;
		case CmpInst::FCMP_UGE: r = C.lnot(olt(x, y)); break;
		case CmpInst::FCMP_ULT: r = C.lnot(ole(y, x)); break;
		case CmpInst::FCMP_ULE: r = C.lnot(olt(y, x)); break;
		case CmpInst::FCMP_UNE: r = C.lnot(oeq()); break;
		case CmpInst::FCMP_TRUE: r = C.tru(); break;
		}
		return mkV(r);
	}
	V castV(const Ins &in, const V &a) {
		unsigned w = in.w, w2 = in.w2;
		auto fin = [&](Expr *e) { return w2 <= 64 ? mkV(e) : V{0, e}; };
		switch (in.sub) {
		case 0: {
			if (!a.e) return cV(a.c & (u64)maskw(w2));
			return fin(C.extract(toE(a, w), 0, w2));
		}
		case 1: {
			if (!a.e && w2 <= 64) return a;
			return fin(C.zext(toE(a, w), w2));
		}
		case 2: {
			if (!a.e && w2 <= 64) return cV((u64)sext64(a.c, w) & (u64)maskw(w2));
			return fin(C.sext(toE(a, w), w2));
		}
		case 3: return fin(C.un(Op::FToSI, toE(a, w), w2));
		case 4: return fin(C.un(Op::FToUI, toE(a, w), w2));
		case 5: return fin(C.un(Op::SIToF, toE(a, w), w2));
		case 6: return fin(C.un(Op::UIToF, toE(a, w), w2));
		case 7: return fin(C.un(Op::FExt, toE(a, w), w2));
		case 8: return fin(C.un(Op::FTrunc, toE(a, w), w2));
		}
		return cV(0);
	}

	// intrinsics. returns 0 unsupported, 1 ok, 2 path dead
	int intrinsic(State &S, const Ins &in, unsigned id, std::vector<V> &a) {
		Frame &f = S.th[S.cur].st.back();
		unsigned w = in.argw.empty() ? 0 : in.argw[0];
		auto set = [&](V v) {
			if (in.dst >= 0) f.regs[in.dst] = v;
		};
		auto E = [&](int i) { return toE(a[i], in.argw[i]); };
		auto mv = [&](Expr *e) { return e->w <= 64 ? mkV(e) : V{0, e}; };
		switch (id) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
			u64 n = conc(S, a[2], in.argw[2]);
			u64 d = conc(S, a[0], 64), s = conc(S, a[1], 64);
			if (!copyMem(S, d, s, n)) return 2;
			if (O.race && n) {
				raceAccess(S, s, (unsigned)n, false);
				raceAccess(S, d, (unsigned)n, true);
			}
			return 1;
		}
		case Intrinsic::memset: case Intrinsic::memset_inline: {
			u64 n = conc(S, a[2], in.argw[2]);
			u64 d = conc(S, a[0], 64);
			return memsetB(S, d, a[1], n) ? 1 : 2;
		}
		case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
			bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
			Op op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Op::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::Add : Op::Sub;
			Expr *x = E(0), *y = E(1);
			unsigned w2 = op == Op::Mul ? 2 * w : w + 1;
			Expr *r = C.bin(op, x, y), *ov;
			if (w2 > 128) {
				// 128-bit operands: decide via division-free check is not available
				incomplete("128-bit overflow arithmetic");
				return 2;
			}
			Expr *X = sg ? C.sext(x, w2) : C.zext(x, w2), *Y = sg ? C.sext(y, w2) : C.zext(y, w2);
			if (op == Op::Sub && !sg) ov = C.bin(Op::Ult, x, y);
			else if (op == Op::Add && !sg) ov = C.bin(Op::Ult, r, x);
			else ov = C.lnot(C.bin(Op::Eq, C.bin(op, X, Y), sg ? C.sext(r, w2) : C.zext(r, w2)));
			f.regs[in.dst] = mv(r);
			f.regs[in.dst + 1] = mkV(ov);
			return 1;
		}
		case Intrinsic::umin:
		case Intrinsic::umax:
			if (forkSelects && w == 64) {
				bool less = decide(S, C.bin(Op::Ult, E(0), E(1)));
				set((id == Intrinsic::umin) == less ? a[0] : a[1]);
				return 1;
			}
			if (id == Intrinsic::umax) { set(mv(C.ite(C.bin(Op::Ult, E(0), E(1)), E(1), E(0)))); return 1; }
			set(mv(C.ite(C.bin(Op::Ult, E(0), E(1)), E(0), E(1))));
			return 1;
		case Intrinsic::smax: set(mv(C.ite(C.bin(Op::Slt, E(0), E(1)), E(1), E(0)))); return 1;
		case Intrinsic::smin: set(mv(C.ite(C.bin(Op::Slt, E(0), E(1)), E(0), E(1)))); return 1;
		case Intrinsic::abs: set(mv(C.ite(C.bin(Op::Slt, E(0), C.cst(0, w)), C.bin(Op::Sub, C.cst(0, w), E(0)), E(0)))); return 1;
		case Intrinsic::uadd_sat: {
			Expr *r = C.bin(Op::Add, E(0), E(1));
			set(mv(C.ite(C.bin(Op::Ult, r, E(0)), C.cst(maskw(w), w), r)));
			return 1;
		}
		case Intrinsic::usub_sat: set(mv(C.ite(C.bin(Op::Ult, E(0), E(1)), C.cst(0, w), C.bin(Op::Sub, E(0), E(1))))); return 1;
		case Intrinsic::ssub_sat: case Intrinsic::sadd_sat: {
			Op op = id == Intrinsic::ssub_sat ? Op::Sub : Op::Add;
			Expr *r = C.bin(op, C.sext(E(0), w + 1), C.sext(E(1), w + 1));
			Expr *mx = C.cst(maskw(w - 1), w + 1), *mn = C.cst((maskw(w + 1) ^ maskw(w - 1)), w + 1);
			r = C.ite(C.bin(Op::Slt, mx, r), mx, C.ite(C.bin(Op::Slt, r, mn), mn, r));
			set(mv(C.extract(r, 0, w)));
			return 1;
		}
		case Intrinsic::fshl: case Intrinsic::fshr: {
			// shift amount modulo w
			if (a[2].e) {
				Expr *sh = C.bin(Op::URem, E(2), C.cst(w, w));
				Expr *cat = C.concat(E(0), E(1));
				Expr *shw = C.zext(sh, 2 * w);
				Expr *r = id == Intrinsic::fshl ? C.extract(C.bin(Op::Shl, cat, shw), w, w) : C.extract(C.bin(Op::LShr, cat, shw), 0, w);
				set(mv(r));
				return 1;
			}
			unsigned s = (unsigned)(a[2].c % w);
			if (s == 0) { set(id == Intrinsic::fshl ? a[0] : a[1]); return 1; }
			if (id == Intrinsic::fshr) s = w - s;
			// fshl by s: (x << s) | (y >> (w-s))
			Expr *r = C.concat(C.extract(E(0), 0, w - s), C.extract(E(1), w - s, s));
			set(mv(r));
			return 1;
		}
		case Intrinsic::bswap: {
			Expr *x = E(0), *r = C.extract(x, 0, 8);
			for (unsigned i = 1; i < w / 8; i++) r = C.concat(r, C.extract(x, 8 * i, 8));
			set(mv(r));
			return 1;
		}
		case Intrinsic::bitreverse: {
			Expr *x = E(0), *r = C.extract(x, 0, 1);
			for (unsigned i = 1; i < w; i++) r = C.concat(r, C.extract(x, i, 1));
			set(mv(r));
			return 1;
		}
		case Intrinsic::ctpop: {
			Expr *r = C.cst(0, w);
			for (unsigned i = 0; i < w; i++) r = C.bin(Op::Add, r, C.zext(C.extract(E(0), i, 1), w));
			set(mv(r));
			return 1;
		}
		case Intrinsic::cttz: {
			Expr *r = C.cst(w, w);
			for (int i = (int)w - 1; i >= 0; i--) r = C.ite(C.extract(E(0), (unsigned)i, 1), C.cst((unsigned)i, w), r);
			set(mv(r));
			return 1;
		}
		case Intrinsic::ctlz: {
			Expr *r = C.cst(w, w);
			for (unsigned i = 0; i < w; i++) r = C.ite(C.extract(E(0), i, 1), C.cst(w - 1 - i, w), r);
			set(mv(r));
			return 1;
		}
		case Intrinsic::threadlocal_address: {
			auto *g = dyn_cast<GlobalVariable>(cast<CallBase>(in.src)->getArgOperand(0)->stripPointerCasts());
			if (!g) return 0;
			set(cV(tlsAddr(S, g)));
			return 1;
		}
		case Intrinsic::objectsize: set(cV(a[1].c ? 0 : maskw(in.w))); return 1;
		case Intrinsic::is_constant: set(cV(0)); return 1;
		case Intrinsic::expect: case Intrinsic::expect_with_probability: set(a[0]); return 1;
		case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(a[0]); return 1;
		case Intrinsic::ptrmask: set(mv(C.bin(Op::And, E(0), E(1)))); return 1;
		case Intrinsic::eh_typeid_for: set(cV((u64)(u32)typeId(a[0].c))); return 1;
		case Intrinsic::stacksave: set(cV(0)); return 1;
		case Intrinsic::trap: case Intrinsic::ubsantrap: {
			std::string msg = "undefined behaviour trap";
			if (id == Intrinsic::ubsantrap) {
				static const char *nm[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment", "vla bound"};
				msg = std::string("undefined behaviour: ") + (a[0].c < 25 ? nm[a[0].c] : "?");
			}
			violation(S, "ub", msg);
			return 2;
		}
		case Intrinsic::debugtrap: violation(S, "ub", "debugtrap"); return 2;
		case Intrinsic::fabs: set(mv(C.bin(Op::And, E(0), C.cst(maskw(w - 1), w)))); return 1;
		case Intrinsic::sqrt: set(mv(C.un(Op::FSqrt, E(0), w))); return 1;
		case Intrinsic::fmuladd: set(mv(C.bin(Op::FAdd, C.bin(Op::FMul, E(0), E(1)), E(2)))); return 1;
		case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
			if (a[0].e && a[0].e->op != Op::Const) return 0;
			double d = Ctx::toD(a[0].c, w);
			d = id == Intrinsic::floor ? std::floor(d) : id == Intrinsic::ceil ? std::ceil(d) : id == Intrinsic::trunc ? std::trunc(d) : id == Intrinsic::round ? std::round(d) : std::rint(d);
			set(cV((u64)Ctx::fromD(d, w)));
			return 1;
		}
		default: return 0;
		}
	}
	bool memsetB(State &S, u64 d, const V &val, u64 n) {
		if (n == 0) return true;
		const char *err;
		if (!locate(S, d, n, true, &err)) { memViolation(S, err, true); return false; }
		Obj *o = wobj(S, (u32)(d >> OBJ_SHIFT));
		u64 x = d & OFF_MASK;
		if (!val.e) {
			memset(o->d + x, (int)(u8)val.c, n);
			if (o->s) memset(o->s + x, 0, n * sizeof(Expr *));
		} else {
			Expr *b = val.e->w > 8 ? C.extract(val.e, 0, 8) : val.e;
			for (u64 i = 0; i < n; i++) setByte(o, x + i, b);
		}
		if (O.race) raceAccess(S, d, (unsigned)n, true);
		return true;
	}

	double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

	// run a state to the end of its path
	enum class PE { Done, Dead };
	bool isSyncBuiltin(const Fn *F) const { return F && F->builtin >= 0 && builtinSync[F->builtin]; }
	std::vector<bool> builtinSync;

	u32 tick = 0;
	PE run(State &S) {
		std::vector<V> args;
		for (;;) {
			if ((++tick & 0xfff) == 0) {
				if (sh->stop) return PE::Dead;
				if (elapsed() > O.timeLimit) {
					sh->stop = 1;
					incomplete("time limit");
					return PE::Dead;
				}
				if (sh->freeTokens.load() > 0 && !work.empty()) trySplit(&S);
			}
			if (++S.steps > O.maxSteps) {
				violation(S, "hang", "step limit exceeded on one path");
				return PE::Dead;
			}
			nInstr++;
			Thread *T = &S.th[S.cur];
			if (T->status != T_RUN) {  // scheduled after blocking: wake up and re-execute
				if (!runnable(S, S.cur)) {
					if (!schedBlocked(S)) return PE::Dead;
					continue;
				}
			}
			Frame *f = &T->st.back();
			const Ins &in = f->fn->code[f->pc];
			switch (in.op) {
			case I::Bin: {
				bool dead = false;
				V r = binV(S, (B)in.sub, get(*f, in.a[0]), get(*f, in.a[1]), in.w, dead);
				if (dead) return PE::Dead;
				f->regs[in.dst] = r;
				f->pc++;
				break;
			}
			case I::FBin: {
				Expr *r = C.bin((Op)in.sub, toE(get(*f, in.a[0]), in.w), toE(get(*f, in.a[1]), in.w));
				f->regs[in.dst] = mkV(r);
				f->pc++;
				break;
			}
			case I::FNeg:
				f->regs[in.dst] = mkV(C.bin(Op::Xor, toE(get(*f, in.a[0]), in.w), C.cst((u128)1 << (in.w - 1), in.w)));
				f->pc++;
				break;
			case I::ICmp:
				f->regs[in.dst] = icmpV(in.sub, get(*f, in.a[0]), get(*f, in.a[1]), in.w);
				f->pc++;
				break;
			case I::FCmp:
				f->regs[in.dst] = fcmpV(in.sub, get(*f, in.a[0]), get(*f, in.a[1]), in.w);
				f->pc++;
				break;
			case I::Select: {
				V c = get(*f, in.a[0]);
				if (c.e && (in.ptrSel || in.nslots > 1 || (in.w == 64 && forkSelects))) c = cV(decide(S, c.e));
				for (int i = 0; i < in.nslots; i++) {
					V x = get(*f, off(in.a[1], i)), y = get(*f, off(in.a[2], i));
					if (!c.e) f->regs[in.dst + i] = c.c ? x : y;
					else if (!x.e && !y.e && x.c == y.c) f->regs[in.dst + i] = x;
					else {
						Expr *r = C.ite(c.e, toE(x, in.w), toE(y, in.w));
						f->regs[in.dst + i] = in.w <= 64 ? mkV(r) : V{0, r};
					}
				}
				f->pc++;
				break;
			}
			case I::Cast:
				f->regs[in.dst] = castV(in, get(*f, in.a[0]));
				f->pc++;
				break;
			case I::Gep: {
				V p = get(*f, in.a[0]);
				u64 c = (u64)in.imm;
				Expr *se = nullptr;
				for (size_t i = 1; i < in.a.size(); i++) {
					V ix = get(*f, in.a[i]);
					unsigned iw = in.argw[i - 1];
					if (!ix.e) c += (u64)sext64(ix.c, iw) * (u64)in.scales[i - 1];
					else {
						Expr *x = C.bin(Op::Mul, iw == 64 ? ix.e : C.sext(ix.e, 64), C.cst((u64)in.scales[i - 1], 64));
						se = se ? C.bin(Op::Add, se, x) : x;
					}
				}
				if (!p.e && !se) f->regs[in.dst] = cV(p.c + c);
				else {
					Expr *r = C.bin(Op::Add, toE(p, 64), C.cst(c, 64));
					if (se) r = C.bin(Op::Add, r, se);
					f->regs[in.dst] = mkV(r);
				}
				f->pc++;
				break;
			}
			case I::Load: {
				if (in.atomic && S.th.size() > 1) {
					schedPoint(S);
					T = &S.th[S.cur];
					f = &T->st.back();
				}
				V a = get(*f, in.a[0]);
				if (in.nslots == 1 && in.slots[0].off == 0) {
					V r;
					if (!loadV(S, a, in.slots[0].w, r)) return PE::Dead;
					f->regs[in.dst] = r;
				} else {
					if (a.e) a = cV(conc(S, a, 64));
					for (int i = 0; i < in.nslots; i++) {
						V r;
						if (!loadV(S, cV(a.c + in.slots[i].off), in.slots[i].w, r)) return PE::Dead;
						f->regs[in.dst + i] = r;
					}
				}
				if (O.race && !a.e && S.th.size() > 1) {
					if (in.atomic) vcAcquire(S, a.c);
					else
						for (auto &sl : in.slots) raceAccess(S, a.c + sl.off, (sl.w + 7) / 8, false);
				}
				f->pc++;
				if (in.atomic) S.needSched = true;
				break;
			}
			case I::Store: {
				if (in.atomic && S.th.size() > 1) {
					schedPoint(S);
					T = &S.th[S.cur];
					f = &T->st.back();
				}
				u64 a = conc(S, get(*f, in.a[0]), 64);
				for (int i = 0; i < in.nslots; i++)
					if (!storeV(S, cV(a + in.slots[i].off), in.slots[i].w, get(*f, off(in.a[1], i)))) return PE::Dead;
				if (O.race && S.th.size() > 1) {
					if (in.atomic) vcRelease(S, a);
					else
						for (auto &sl : in.slots) raceAccess(S, a + sl.off, (sl.w + 7) / 8, true);
				}
				f->pc++;
				if (in.atomic) S.needSched = true;
				break;
			}
			case I::Alloca: {
				u64 n = conc(S, get(*f, in.a[0]), 64);
				u32 id = newObj(S, (u32)(n * (u64)in.imm), K_STACK, 0, 0xA5);
				f->allocas.push_back(id);
				f->regs[in.dst] = cV(addrOf(id));
				f->pc++;
				break;
			}
			case I::Br: takeEdge(*f, in.edges[0]); break;
			case I::CondBr: {
				bool t = decideV(S, get(*f, in.a[0]));
				takeEdge(*f, in.edges[t ? 0 : 1]);
				break;
			}
			case I::Switch: {
				V v = get(*f, in.a[0]);
				if (!v.e) {
					int e = 0;
					for (auto &c : in.cases)
						if (c.first == v.c) { e = c.second; break; }
					takeEdge(*f, in.edges[e]);
					break;
				}
				// group by target
				int taken = 0;
				for (size_t k = 1; k < in.edges.size(); k++) {
					Expr *c = C.fls();
					for (auto &cs : in.cases)
						if (cs.second == (int)k) c = C.bin(Op::Or, c, C.bin(Op::Eq, v.e, C.cst(cs.first, in.w)));
					if (decide(S, c)) { taken = (int)k; break; }
				}
				takeEdge(*f, in.edges[taken]);
				break;
			}
			case I::Ret: {
				std::vector<V> rv;
				for (int i = 0; i < in.nslots; i++) rv.push_back(get(*f, off(in.a[0], i)));
				u64 orf = f->onReturnFree;
				bool ec = f->engineCall;
				freeFrame(S, *f);
				T->st.pop_back();
				if (orf) freeExc(S, orf);
				if (T->st.empty()) {
					T->status = T_DONE;
					if (O.race) vcRelease(S, 0x1000 + S.cur);
					if (S.cur == 0) return PE::Done;
					if (!schedBlocked(S)) return PE::Dead;
					break;
				}
				if (ec) break;
				Frame &c = T->st.back();
				const Ins &ci = c.fn->code[c.pc];
				if (ci.dst >= 0)
					for (int i = 0; i < ci.nslots && i < (int)rv.size(); i++) c.regs[ci.dst + i] = rv[i];
				advance(c);
				break;
			}
			case I::Call: case I::Invoke: {
				Fn *callee = in.callee;
				size_t ai = 0;
				if (!callee) {
					u64 fp = conc(S, get(*f, in.a[0]), 64);
					auto it = fnByAddr.find(fp);
					if (it == fnByAddr.end()) {
						violation(S, "memory", fp == 0 ? "call through null function pointer" : "call through invalid function pointer");
						return PE::Dead;
					}
					callee = it->second;
					ai = 1;
				}
				if (callee->builtin >= 0 && builtinSync[callee->builtin] && S.th.size() > 1) {
					schedPoint(S);
					T = &S.th[S.cur];
					Frame *nf = &T->st.back();
					if (nf != f) break;
				}
				args.clear();
				for (; ai < in.a.size(); ai++) args.push_back(get(*f, in.a[ai]));
				if (callee->f->isIntrinsic()) {
					int r = intrinsic(S, in, callee->f->getIntrinsicID(), args);
					if (r == 2) return PE::Dead;
					if (r == 0) {
						nErrors++;
						incomplete("unsupported intrinsic " + callee->name);
						return PE::Dead;
					}
					f->pc++;
					break;
				}
				if (callee->builtin >= 0) {
					V ret = cV(0);
					bool sync = builtinSync[callee->builtin];
					BR r = builtins[callee->builtin](S, in, args, ret);
					switch (r) {
					case BR::Ok: {
						Frame &c = S.th[S.cur].st.back();
						if (in.dst >= 0) c.regs[in.dst] = ret;
						S.th[S.cur].status = T_RUN;
						advance(c);
						if (sync) S.needSched = true;
						break;
					}
					case BR::Block:
						if (!schedBlocked(S)) return PE::Dead;
						break;
					case BR::Killed: return PE::Dead;
					case BR::Unwind:
						if (!unwind(S)) return PE::Dead;
						break;
					case BR::Pushed: break;
					}
					break;
				}
				u32 nal = 0;
				std::vector<u32> al;
				for (size_t i = 0; i + 1 < in.scales.size(); i += 2) {
					size_t k = (size_t)in.scales[i] - (in.callee ? 0 : 1);
					u64 sz = (u64)in.scales[i + 1];
					u64 src = conc(S, args[k], 64);
					u32 id = newObj(S, (u32)sz, K_STACK);
					if (!copyMem(S, addrOf(id), src, sz)) return PE::Dead;
					args[k] = cV(addrOf(id));
					al.push_back(id);
					nal++;
				}
				if (!pushFrame(S, callee, args)) return PE::Dead;
				if (nal) S.th[S.cur].st.back().allocas = al;
				break;
			}
			case I::LandingPad:
				f->regs[in.dst] = cV(T->excPtr);
				f->regs[in.dst + 1] = cV((u64)(u32)T->excSel);
				f->pc++;
				break;
			case I::Resume: {
				T->excPtr = get(*f, in.a[0]).c;
				freeFrame(S, *f);
				bool bad = f->onReturnFree || f->engineCall;
				T->st.pop_back();
				if (bad) {
					violation(S, "terminate", "exception escaped from a destructor or static initialiser");
					return PE::Dead;
				}
				if (!unwind(S)) return PE::Dead;
				break;
			}
			case I::Unreachable:
				violation(S, "ub", "reached unreachable code");
				return PE::Dead;
			case I::ExtractV:
				for (int i = 0; i < in.nslots; i++) f->regs[in.dst + i] = get(*f, off(in.a[0], i));
				f->pc++;
				break;
			case I::InsertV:
				for (int i = 0; i < in.nslots; i++) {
					if (i >= in.imm && i < in.imm + in.w2) f->regs[in.dst + i] = get(*f, off(in.a[1], i - (int)in.imm));
					else f->regs[in.dst + i] = get(*f, off(in.a[0], i));
				}
				f->pc++;
				break;
			case I::Freeze:
				for (int i = 0; i < in.nslots; i++) f->regs[in.dst + i] = get(*f, off(in.a[0], i));
				f->pc++;
				break;
			case I::AtomicRMW: {
				if (S.th.size() > 1) {
					schedPoint(S);
					T = &S.th[S.cur];
					f = &T->st.back();
				}
				u64 a = conc(S, get(*f, in.a[0]), 64);
				V old;
				if (!loadV(S, cV(a), in.w, old)) return PE::Dead;
				V x = get(*f, in.a[1]), n = old;
				bool dead = false;
				switch (in.sub) {
				case AtomicRMWInst::Xchg: n = x; break;
				case AtomicRMWInst::Add: n = binV(S, B::Add, old, x, in.w, dead); break;
				case AtomicRMWInst::Sub: n = binV(S, B::Sub, old, x, in.w, dead); break;
				case AtomicRMWInst::And: n = binV(S, B::And, old, x, in.w, dead); break;
				case AtomicRMWInst::Or: n = binV(S, B::Or, old, x, in.w, dead); break;
				case AtomicRMWInst::Xor: n = binV(S, B::Xor, old, x, in.w, dead); break;
				default: incomplete("unsupported atomicrmw"); return PE::Dead;
				}
				if (!storeV(S, cV(a), in.w, n)) return PE::Dead;
				if (S.th.size() > 1) {
					vcAcquire(S, a);
					vcRelease(S, a);
				}
				f->regs[in.dst] = old;
				f->pc++;
				S.needSched = true;
				break;
			}
			case I::CmpXchg: {
				if (S.th.size() > 1) {
					schedPoint(S);
					T = &S.th[S.cur];
					f = &T->st.back();
				}
				u64 a = conc(S, get(*f, in.a[0]), 64);
				V old;
				if (!loadV(S, cV(a), in.w, old)) return PE::Dead;
				V eq = icmpV(CmpInst::ICMP_EQ, old, get(*f, in.a[1]), in.w);
				bool t = decideV(S, eq);
				if (t && !storeV(S, cV(a), in.w, get(*f, in.a[2]))) return PE::Dead;
				if (S.th.size() > 1) {
					vcAcquire(S, a);
					vcRelease(S, a);
				}
				f->regs[in.dst] = old;
				f->regs[in.dst + 1] = cV(t);
				f->pc++;
				S.needSched = true;
				break;
			}
			case I::Nop: f->pc++; break;
			case I::Unsupported: {
				std::string s;
				raw_string_ostream os(s);
				if (in.src) in.src->print(os);
				nErrors++;
				incomplete("unsupported instruction: " + os.str());
				return PE::Dead;
			}
			}
		}
	}
	void freeExc(State &S, u64 addr) {
		for (size_t i = 0; i < S.excs.size(); i++)
			if (S.excs[i].addr == addr) {
				S.excs.erase(S.excs.begin() + (long)i);
				break;
			}
		killObj(S, (u32)(addr >> OBJ_SHIFT), K_FREED);
	}

	// ------------------------------------------------------------ exploration
	double lastSplit = 0;
	void trySplit(State *curState) {
		// give away the older half of the queue to a new process
		if (work.size() < (curState ? 1u : 2u)) return;
		double now = elapsed();
		if (now - lastSplit < 0.02) return;
		int t = sh->freeTokens.load();
		do {
			if (t <= 0) return;
		} while (!sh->freeTokens.compare_exchange_weak(t, t - 1));
		lastSplit = now;
		pid_t p = ::fork();
		if (p < 0) {
			sh->freeTokens++;
			return;
		}
		size_t give = std::max<size_t>(1, work.size() / 2);
		if (!curState && give == work.size()) give = work.size() - 1;
		if (p == 0) {
			isChild = true;
			resetStats();
			std::vector<State *> mine(work.begin(), work.begin() + (long)give);
			work = mine;
			exploreLoop();
			writePart();
			sh->freeTokens++;
			_exit(0);
		}
		work.erase(work.begin(), work.begin() + (long)give);
	}
	void resetStats() {
		covers.clear();
		viols.clear();
		cases.clear();
		casesSeen = 0;
		nPaths = nAssumeKilled = nForks = nErrors = nInstr = nIncomplete = nUnknownBr = nStates = nSched = nMemQ = 0;
		assertZ3 = assertSym = assertConcrete = 0;
		incompleteWhy.clear();
		obsDistinct.clear();
		SV.st = SolverStats();
		SV.encodingMismatch = 0;
		rng ^= (u64)getpid() * 0x9E3779B97F4A7C15ULL;
	}
	void pathDone(State &S) {
		nPaths++;
		sh->paths++;
		std::string ob;
		char b[40];
		u64 h = 1469598103934665603ULL;
		for (auto &o : S.obs) {
			u64 v = o.v.e ? (u64)C.eval(o.v.e, S.pc.model) : o.v.c;
			snprintf(b, sizeof b, "%llx,", (unsigned long long)v);
			ob += b;
			h = (h ^ v) * 1099511628211ULL;
		}
		obsDistinct.insert(h);
		for (u16 c : S.covers) covers[coverNames[c]]++;
		// reservoir sampling of concrete cases
		casesSeen++;
		size_t cap = (size_t)O.maxCases;
		if (cases.size() < cap || rnd() % casesSeen < cap) {
			auto cs = std::make_pair(inputsStr(S, S.pc.model) + "|" + schedStr(S), ob);
			if (cases.size() < cap) cases.push_back(cs);
			else cases[rnd() % cap] = cs;
		}
	}
	std::vector<std::string> coverNames;
	std::map<std::string, u16> coverIdx;
	void exploreLoop() {
		while (!work.empty()) {
			if (sh->stop) {
				if (!work.empty()) incomplete(elapsed() > O.timeLimit ? "time limit" : "stopped after enough violations");
				for (auto s : work) delete s;
				work.clear();
				break;
			}
			if ((nStates & 7) == 0 && elapsed() > O.timeLimit) {
				sh->stop = 1;
				continue;
			}
			if (sh->freeTokens.load() > 0) trySplit(nullptr);
			State *S = work.back();
			work.pop_back();
			nStates++;
			PE r = run(*S);
			if (r == PE::Done) pathDone(*S);
			delete S;
			if (sh->violCount.load() >= (u64)O.maxViol) sh->stop = 1;
			if ((nStates & 15) == 0) {
				struct rusage ru;
				getrusage(RUSAGE_SELF, &ru);
				if ((u64)ru.ru_maxrss > O.memMB * 1024) {
					incomplete("memory limit");
					for (auto s : work) delete s;
					work.clear();
				}
			}
		}
	}
	static std::string clean(std::string s) {
		for (auto &c : s)
			if (c == '\t' || c == '\n') c = ' ';
		return s;
	}
	void writePart() {
		std::ofstream f(O.out + "/part." + std::to_string(getpid()));
		auto st = [&](const char *n, double v) {
			char b[64];
			snprintf(b, sizeof b, "%.17g", v);
			f << "stat\t" << n << "\t" << b << "\n";
		};
		st("paths", (double)nPaths);
		st("assume_killed", (double)nAssumeKilled);
		st("forks", (double)nForks);
		st("states", (double)nStates);
		st("errors", (double)nErrors);
		st("instructions", (double)nInstr);
		st("incomplete", (double)nIncomplete);
		st("unknown_branches", (double)nUnknownBr);
		st("sched_points", (double)nSched);
		st("assert_z3", (double)assertZ3);
		st("assert_symbolic", (double)assertSym);
		st("assert_concrete", (double)assertConcrete);
		st("z3_queries", (double)SV.st.z3Queries);
		st("z3_sat", (double)SV.st.z3Sat);
		st("z3_unsat", (double)SV.st.z3Unsat);
		st("z3_unknown", (double)SV.st.z3Unknown);
		st("z3_time", SV.st.z3Time);
		st("max_z3_time", SV.st.z3Max);
		st("domain_decided", (double)SV.st.domainDecided);
		st("model_reuse", (double)SV.st.modelReuse);
		st("cache_hits", (double)SV.st.cacheHits);
		st("encoding_mismatch", (double)SV.encodingMismatch);
		st("distinct_outcomes", (double)obsDistinct.size());
		for (auto &c : covers) f << "cover\t" << c.first << "\t" << c.second << "\n";
		for (auto &w : incompleteWhy) f << "inc\t" << clean(w) << "\n";
		for (auto &v : viols) f << "viol\t" << clean(v.kind) << "\t" << clean(v.msg) << "\t" << clean(v.where) << "\t" << v.inputs << "\t" << v.sched << "\n";
		for (auto &c : cases) f << "case\t" << c.first << "\t" << c.second << "\n";
		for (auto &p : fns) {
			Fn *F = p.second;
			if (!F->executed) continue;
			std::string file;
			if (auto *sp = F->f->getSubprogram()) file = sp->getFilename().str();
			size_t ex = 0;
			std::string bm;
			for (auto &b : F->blocks) {
				ex += b.executed;
				bm += b.executed ? '1' : '0';
			}
			f << "fn\t" << F->name << "\t" << file << "\t" << bm << "\n";
		}
		if (const char *lp = getenv("VP_LINES")) {  // which source lines of crablib are in blocks that ran
			std::ofstream lf(std::string(lp) + "." + std::to_string(getpid()));
			std::set<std::string> yes;
			for (auto &p : fns)
				for (auto &b : p.second->blocks)
					if (b.executed)
						for (auto &in : *b.bb)
							for (const DILocation *L = in.getDebugLoc().get(); L; L = L->getInlinedAt())
								if (L->getFilename().find("include/crab") != StringRef::npos) yes.insert(L->getFilename().str() + ":" + std::to_string(L->getLine()));
			std::set<std::string> no;
			for (auto &F : *M)
				for (auto &bb : F)
					for (auto &in : bb)
						for (const DILocation *L = in.getDebugLoc().get(); L; L = L->getInlinedAt())
							if (L->getFilename().find("include/crab") != StringRef::npos) {
								auto k = L->getFilename().str() + ":" + std::to_string(L->getLine());
								if (!yes.count(k)) no.insert(k);
							}
			for (auto &k : yes) lf << "1 " << k << "\n";
			for (auto &k : no) lf << "0 " << k << "\n";
		}
	}
	int explore() {
		const Function *ef = M->getFunction(O.entry);
		if (!ef) {
			fprintf(stderr, "no entry %s\n", O.entry.c_str());
			return 2;
		}
		State *S = init.clone();
		S->th.resize(1);
		S->cur = 0;
		S->needSched = true;
		std::vector<V> none;
		pushFrame(*S, fn(ef), none);
		std::vector<std::pair<u64, Fn *>> ctors;
		if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
			if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
				for (auto &o : ca->operands()) {
					auto *cs = dyn_cast<ConstantStruct>(o);
					auto *cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
					if (cf) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn(cf)});
				}
		std::stable_sort(ctors.begin(), ctors.end(), [](const std::pair<u64, Fn *> &a, const std::pair<u64, Fn *> &b) { return a.first < b.first; });
		for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushFrame(*S, it->second, none, true);
		work.push_back(S);
		exploreLoop();
		writePart();
		int bad = 0;
		for (;;) {
			int stt;
			pid_t p = waitpid(-1, &stt, 0);
			if (p < 0) {
				if (errno == EINTR) continue;
				break;
			}
			if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) bad++;
		}
		if (bad) {
			std::ofstream f(O.out + "/part.crash");
			f << "inc\tworker process died\nstat\tincomplete\t" << bad << "\nstat\tworkers_died\t" << bad << "\n";
			fprintf(stderr, "vpsym: %d worker(s) died\n", bad);
		}
		return 0;
	}
