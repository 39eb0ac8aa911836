	// ------------------------------------------------------------ builtins (included inside struct Engine)
	void reg(const char *name, Builtin b, bool sync = false) {
		builtinIdx[name] = (int)builtins.size();
		builtins.push_back(b);
		builtinSync.push_back(sync);
	}
	u64 heapAlloc(State &S, u64 n, Kind k) {
		u32 id = newObj(S, (u32)n, k, 0, 0xBE);
		S.liveHeap++;
		return addrOf(id);
	}
	BR heapFree(State &S, u64 p, Kind k) {
		if (p == 0) return BR::Ok;
		u32 id = (u32)(p >> OBJ_SHIFT);
		Obj *o = (p >> OBJ_SHIFT) < S.nextId ? obj(S, id) : nullptr;
		if (!o || (p & OFF_MASK) || (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWARR)) {
			violation(S, "memory", o && o->kind == K_FREED ? "double free" : "free of a pointer that was not allocated");
			return BR::Killed;
		}
		if (o->kind != k) {
			violation(S, "memory", "allocation and deallocation functions do not match");
			return BR::Killed;
		}
		if (O.race) {
			raceAccess(S, p, o->size, true);
			S.shadow.erase(id);
		}
		S.liveHeap--;
		killObj(S, id, K_FREED);
		return BR::Ok;
	}
	u64 throwSimple(State &, const char *) { return 0; }
	u16 coverId(const std::string &n) {
		auto it = coverIdx.find(n);
		if (it != coverIdx.end()) return it->second;
		u16 id = (u16)coverNames.size();
		coverNames.push_back(n);
		coverIdx[n] = id;
		return id;
	}
	// lexicographic compare expression of n bytes
	bool cmpBytes(State &S, u64 a, u64 b, u64 n, V &out, bool eqOnly) {
		if (n == 0) { out = cV(0); return true; }
		const char *err;
		Obj *x = locate(S, a, n, false, &err);
		if (!x) { memViolation(S, err, false); return false; }
		Obj *y = locate(S, b, n, false, &err);
		if (!y) { memViolation(S, err, false); return false; }
		u64 ao = a & OFF_MASK, bo = b & OFF_MASK;
		if (!x->s && !y->s) {
			int r = memcmp(x->d + ao, y->d + bo, n);
			out = cV((u32)(r < 0 ? -1 : r > 0));
			return true;
		}
		if (eqOnly) {
			Expr *ne = C.fls();
			for (u64 i = 0; i < n; i++) {
				Expr *e = C.lnot(C.bin(Op::Eq, byteE(x, ao + i), byteE(y, bo + i)));
				ne = C.bin(Op::Or, ne, e);
				if (Ctx::isC(ne, 1)) break;
			}
			out = mkV(C.zext(ne, 32));
			return true;
		}
		// find the first definitely different position
		u64 m = n;
		for (u64 i = 0; i < n; i++) {
			Expr *e = C.bin(Op::Eq, byteE(x, ao + i), byteE(y, bo + i));
			if (Ctx::isC(e, 0)) { m = i + 1; break; }
		}
		Expr *r = C.cst(0, 32);
		for (i64 i = (i64)m - 1; i >= 0; i--) {
			Expr *p = byteE(x, ao + (u64)i), *q = byteE(y, bo + (u64)i);
			Expr *lt = C.ite(C.bin(Op::Ult, p, q), C.cst((u32)-1, 32), C.cst(1, 32));
			r = C.ite(C.bin(Op::Eq, p, q), r, lt);
		}
		out = mkV(r);
		return true;
	}
	BR doAssert(State &S, const V &c, const std::string &msg) {
		if (!c.e) {
			assertConcrete++;
			if (!(c.c & 1)) {
				violation(S, "assert", msg);
				return BR::Killed;
			}
			return BR::Ok;
		}
		assertSym++;
		std::vector<u8> nm;
		bool z3 = false;
		for (u32 s : c.e->syms->v) S.pc.ensure(s + 1);
		for (auto m : S.pc.multi)
			if (m == c.e) return BR::Ok;
		auto r = SV.check(S.pc, C.lnot(c.e), &nm, &z3);
		if (z3) assertZ3++;
		if (r == Solver::UNSAT) return BR::Ok;
		if (r == Solver::UNKNOWN) {
			incomplete("solver gave no answer on assertion: " + msg);
			return BR::Ok;
		}
		violation(S, "assert", msg, &nm);
		r = SV.check(S.pc, c.e, &nm);
		if (r != Solver::SAT) return BR::Killed;
		SV.add(S.pc, c.e, nm);
		return BR::Ok;
	}
	// printf family with the arguments made concrete
	std::string formatArgs(State &S, const std::string &f, const Ins &in, std::vector<V> &a, size_t k) {
		std::string out;
		for (size_t i = 0; i < f.size(); i++) {
			if (f[i] != '%') { out += f[i]; continue; }
			std::string spec = "%";
			i++;
			bool lng = false;
			while (i < f.size() && strchr("-+ #0123456789.*lhzjtL", f[i])) {
				if (strchr("lzjt", f[i])) lng = true;
				else if (f[i] == 'h') {
				} else if (f[i] == '*') { spec += std::to_string((int)conc(S, a[k], in.argw[k])); k++; }
				else spec += f[i];
				i++;
			}
			char c = i < f.size() ? f[i] : '%';
			if (c == '%') { out += '%'; continue; }
			char b[512];
			if (k >= a.size()) break;
			if (c == 's') {
				spec += 's';
				snprintf(b, sizeof b, spec.c_str(), cstr(S, conc(S, a[k++], 64)).c_str());
			} else if (strchr("fgeFGE", c)) {
				u64 bits = conc(S, a[k++], 64);
				double d;
				memcpy(&d, &bits, 8);
				spec += c;
				snprintf(b, sizeof b, spec.c_str(), d);
			} else {
				u64 v = conc(S, a[k], in.argw[k]);
				k++;
				if (c == 'd' || c == 'i') {
					spec += "lld";
					snprintf(b, sizeof b, spec.c_str(), lng ? (long long)v : (long long)(int)v);
				} else if (c == 'c') {
					b[0] = (char)v;
					b[1] = 0;
				} else {
					spec += "ll";
					spec += c == 'p' ? 'x' : c;
					snprintf(b, sizeof b, spec.c_str(), lng || c == 'p' ? (unsigned long long)v : (unsigned long long)(unsigned)v);
				}
			}
			out += b;
		}
		return out;
	}
	BR putString(State &S, u64 p, const std::string &s, u64 cap) {
		if (cap == 0) return BR::Ok;
		size_t n = std::min((size_t)(cap - 1), s.size());
		const char *err;
		if (!locate(S, p, n + 1, true, &err)) { memViolation(S, err, true); return BR::Killed; }
		Obj *o = wobj(S, (u32)(p >> OBJ_SHIFT));
		for (size_t i = 0; i <= n; i++) setByte(o, (p & OFF_MASK) + i, C.cst(i < n ? (u8)s[i] : 0, 8));
		return BR::Ok;
	}
	void registerBuiltins() {
		reg("sprintf", [this](State &S, const Ins &in, std::vector<V> &a, V &r) {
			std::string o = formatArgs(S, cstr(S, a[1].c), in, a, 2);
			r = cV((u32)o.size());
			return putString(S, conc(S, a[0], 64), o, o.size() + 1);
		});
		reg("snprintf", [this](State &S, const Ins &in, std::vector<V> &a, V &r) {
			std::string o = formatArgs(S, cstr(S, a[2].c), in, a, 3);
			r = cV((u32)o.size());
			return putString(S, conc(S, a[0], 64), o, conc(S, a[1], 64));
		});
		{
			// std::to_string of floating point values (only ever used in messages), and, where a harness asks for it
			// (opaque_to_string), of integers: the text is "?"
			auto opq = [this](State &S, const Ins &, std::vector<V> &a, V &) {
				u64 p = conc(S, a[0], 64);
				if (!storeV(S, cV(p), 64, cV(p + 16)) || !storeV(S, cV(p + 8), 64, cV(1)) || !storeV(S, cV(p + 16), 16, cV('?'))) return BR::Killed;
				return BR::Ok;
			};
			for (const char *t : {"d", "f", "e"}) reg(strdup((std::string("_ZNSt7__cxx119to_stringE") + t).c_str()), opq);
			if (O.params.count("opaque_to_string"))
				for (const char *t : {"i", "j", "l", "m", "x", "y"}) reg(strdup((std::string("_ZNSt7__cxx119to_stringE") + t).c_str()), opq);
		}
		auto A = [](std::vector<V> &a, size_t i) -> V & { return a[i]; };
		(void)A;
		reg("vp_symbolic", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			u64 p = conc(S, a[0], 64), n = conc(S, a[1], 64);
			std::string name = cstr(S, a[2].c);
			const char *err;
			if (n && !locate(S, p, n, true, &err)) { memViolation(S, err, true); return BR::Killed; }
			if (!n) return BR::Ok;
			Obj *o = wobj(S, (u32)(p >> OBJ_SHIFT));
			S.inputs.push_back({name, S.nextSym, (u32)n});
			S.pc.ensure(S.nextSym + n);
			for (u64 i = 0; i < n; i++) setByte(o, (p & OFF_MASK) + i, C.sym(S.nextSym + (u32)i));
			S.nextSym += (u32)n;
			return BR::Ok;
		});
		reg("vp_assume", [this](State &S, const Ins &in, std::vector<V> &a, V &) {
			V c = a[0];
			if (c.e && in.argw[0] != 1) c = mkV(C.extract(c.e, 0, 1));
			if (!c.e) {
				if (c.c & 1) return BR::Ok;
				nAssumeKilled++;
				return BR::Killed;
			}
			std::vector<u8> nm;
			auto r = SV.check(S.pc, c.e, &nm);
			if (r == Solver::UNKNOWN) incomplete("solver gave no answer on an assumption");
			if (r != Solver::SAT) {
				nAssumeKilled++;
				return BR::Killed;
			}
			if (!SV.add(S.pc, c.e, nm)) return BR::Killed;
			return BR::Ok;
		});
		reg("vp_assert_", [this](State &S, const Ins &in, std::vector<V> &a, V &) {
			V c = a[0];
			if (c.e && in.argw[0] != 1) c = mkV(C.extract(c.e, 0, 1));
			return doAssert(S, c, cstr(S, a[1].c));
		});
		reg("vp_cover", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			S.covers.push_back(coverId(cstr(S, a[0].c)));
			return BR::Ok;
		});
		reg("vp_observe", [](State &S, const Ins &in, std::vector<V> &a, V &) {
			S.obs.push_back({a[0], in.argw[0]});
			return BR::Ok;
		});
		reg("vp_concretize", [this](State &S, const Ins &in, std::vector<V> &a, V &r) {
			r = cV(conc(S, a[0], in.argw[0]));
			return BR::Ok;
		});
		reg("vp_param", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			auto it = O.params.find(cstr(S, a[0].c));
			r = it == O.params.end() ? a[1] : cV((u64)strtoll(it->second.c_str(), nullptr, 0));
			return BR::Ok;
		});
		reg("vp_is_engine", [](State &, const Ins &, std::vector<V> &, V &r) { r = cV(1); return BR::Ok; });
		reg("vp_kill", [](State &, const Ins &, std::vector<V> &, V &) { return BR::Killed; });
		reg("vp_live_heap", [](State &S, const Ins &, std::vector<V> &, V &r) { r = cV(S.liveHeap); return BR::Ok; });
		reg("vp_print", [this](State &S, const Ins &in, std::vector<V> &a, V &) {
			std::string m = cstr(S, a[0].c);
			if (getenv("VP_TRACE")) fprintf(stderr, "[trace] %s %s\n", m.c_str(), a[1].e ? exprStr(a[1].e, 4).c_str() : std::to_string(a[1].c).c_str());
			(void)in;
			return BR::Ok;
		});
		// logical connectives without forking
		reg("vp_and", [this](State &, const Ins &, std::vector<V> &a, V &r) {
			r = mkV(C.bin(Op::And, toE(a[0], 1), toE(a[1], 1)));
			return BR::Ok;
		});
		// ---- heap
		auto alloc = [this](Kind k) {
			return [this, k](State &S, const Ins &, std::vector<V> &a, V &r) {
				u64 n = conc(S, a[0], 64);
				if (n >= (1u << 27)) {
					violation(S, "memory", "allocation of an absurd size");
					return BR::Killed;
				}
				r = cV(heapAlloc(S, n, k));
				return BR::Ok;
			};
		};
		auto dealloc = [this](Kind k) {
			return [this, k](State &S, const Ins &, std::vector<V> &a, V &) { return heapFree(S, conc(S, a[0], 64), k); };
		};
		reg("malloc", alloc(K_MALLOC));
		reg("free", dealloc(K_MALLOC));
		reg("_Znwm", alloc(K_NEW));
		reg("_Znam", alloc(K_NEWARR));
		reg("_ZnwmRKSt9nothrow_t", alloc(K_NEW));
		reg("_ZnamRKSt9nothrow_t", alloc(K_NEWARR));
		reg("_ZdlPv", dealloc(K_NEW));
		reg("_ZdlPvm", dealloc(K_NEW));
		reg("_ZdaPv", dealloc(K_NEWARR));
		reg("_ZdaPvm", dealloc(K_NEWARR));
		reg("_ZdlPvRKSt9nothrow_t", dealloc(K_NEW));
		reg("_ZdaPvRKSt9nothrow_t", dealloc(K_NEWARR));
		reg("calloc", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 n = conc(S, a[0], 64) * conc(S, a[1], 64);
			u64 p = heapAlloc(S, n, K_MALLOC);
			memsetB(S, p, cV(0), n);
			r = cV(p);
			return BR::Ok;
		});
		// ---- mem/str
		reg("memcmp", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 n = conc(S, a[2], 64), p = conc(S, a[0], 64), q = conc(S, a[1], 64);
			return cmpBytes(S, p, q, n, r, false) ? BR::Ok : BR::Killed;
		});
		reg("bcmp", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 n = conc(S, a[2], 64), p = conc(S, a[0], 64), q = conc(S, a[1], 64);
			return cmpBytes(S, p, q, n, r, true) ? BR::Ok : BR::Killed;
		});
		auto mcpy = [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 n = conc(S, a[2], 64), p = conc(S, a[0], 64), q = conc(S, a[1], 64);
			r = cV(p);
			return copyMem(S, p, q, n) ? BR::Ok : BR::Killed;
		};
		reg("memcpy", mcpy);
		reg("memmove", mcpy);
		reg("memset", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 n = conc(S, a[2], 64), p = conc(S, a[0], 64);
			V v = a[1];
			if (!v.e) v = cV(v.c & 0xff);
			r = cV(p);
			return memsetB(S, p, v, n) ? BR::Ok : BR::Killed;
		});
		reg("strlen", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 p = conc(S, a[0], 64);
			for (u64 n = 0;; n++) {
				const char *err;
				Obj *o = locate(S, p + n, 1, false, &err);
				if (!o) { memViolation(S, err, false); return BR::Killed; }
				Expr *b = byteE(o, (p + n) & OFF_MASK);
				if (decide(S, C.bin(Op::Eq, b, C.cst(0, 8)))) {
					r = cV(n);
					return BR::Ok;
				}
			}
		});
		reg("memchr", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 p = conc(S, a[0], 64), n = conc(S, a[2], 64);
			Expr *ch = a[1].e ? C.extract(a[1].e, 0, 8) : C.cst(a[1].c & 0xff, 8);
			for (u64 i = 0; i < n; i++) {
				const char *err;
				Obj *o = locate(S, p + i, 1, false, &err);
				if (!o) { memViolation(S, err, false); return BR::Killed; }
				Expr *b = byteE(o, (p + i) & OFF_MASK);
				if (decide(S, C.bin(Op::Eq, b, ch))) {
					r = cV(p + i);
					return BR::Ok;
				}
			}
			r = cV(0);
			return BR::Ok;
		});
		reg("__errno_location", [this](State &S, const Ins &, std::vector<V> &, V &r) {
			Thread &T = S.th[S.cur];
			auto it = T.tls.find(nullptr);
			if (it == T.tls.end()) {
				u32 id = newObj(S, 8, K_GLOBAL);
				T.tls[nullptr] = addrOf(id);
				r = cV(addrOf(id));
			} else
				r = cV(it->second);
			return BR::Ok;
		});
		// ---- exceptions
		reg("__cxa_allocate_exception", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			r = cV(addrOf(newObj(S, (u32)conc(S, a[0], 64), K_EXC)));
			return BR::Ok;
		});
		reg("__cxa_free_exception", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			killObj(S, (u32)(a[0].c >> OBJ_SHIFT), K_FREED);
			return BR::Ok;
		});
		reg("__cxa_throw", [](State &S, const Ins &, std::vector<V> &a, V &) {
			ExcInfo x;
			x.addr = a[0].c;
			x.tinfo = a[1].c;
			x.dtor = a[2].c;
			S.excs.push_back(x);
			S.th[S.cur].excPtr = a[0].c;
			return BR::Unwind;
		});
		reg("__cxa_rethrow", [this](State &S, const Ins &, std::vector<V> &, V &) {
			Thread &T = S.th[S.cur];
			if (T.caught.empty()) {
				violation(S, "terminate", "rethrow with no active exception");
				return BR::Killed;
			}
			ExcInfo *x = exc(S, T.caught.back());
			x->handlers = -x->handlers;
			T.excPtr = x->addr;
			return BR::Unwind;
		});
		reg("__cxa_begin_catch", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			ExcInfo *x = exc(S, a[0].c);
			if (x) {
				x->handlers = x->handlers < 0 ? -x->handlers + 1 : x->handlers + 1;
				if (S.th[S.cur].caught.empty() || S.th[S.cur].caught.back() != x->addr) S.th[S.cur].caught.push_back(x->addr);
				r = cV(a[0].c + (u64)x->adj);
			} else
				r = a[0];
			return BR::Ok;
		});
		reg("__cxa_get_exception_ptr", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			ExcInfo *x = exc(S, a[0].c);
			r = cV(a[0].c + (x ? (u64)x->adj : 0));
			return BR::Ok;
		});
		reg("__cxa_end_catch", [this](State &S, const Ins &, std::vector<V> &, V &) {
			Thread &T = S.th[S.cur];
			if (T.caught.empty()) return BR::Ok;
			ExcInfo *x = exc(S, T.caught.back());
			if (x->handlers < 0) {
				if (++x->handlers == 0) T.caught.pop_back();
				return BR::Ok;
			}
			if (--x->handlers > 0) return BR::Ok;
			T.caught.pop_back();
			u64 addr = x->addr, d = x->dtor;
			if (d) {
				auto it = fnByAddr.find(d);
				if (it == fnByAddr.end()) return BR::Ok;
				std::vector<V> args{cV(addr)};
				// x stays registered until its destructor returned
				if (!pushFrame(S, it->second, args)) return BR::Killed;
				S.th[S.cur].st.back().onReturnFree = addr;
				return BR::Pushed;
			}
			freeExc(S, addr);
			return BR::Ok;
		});
		reg("_ZSt18uncaught_exceptionv", [](State &, const Ins &, std::vector<V> &, V &r) { r = cV(0); return BR::Ok; });
		auto term = [this](const char *m) {
			std::string mm = m;
			return [this, mm](State &S, const Ins &, std::vector<V> &, V &) {
				violation(S, "terminate", mm);
				return BR::Killed;
			};
		};
		reg("_ZSt9terminatev", term("std::terminate called"));
		reg("__clang_call_terminate", term("exception escaped a noexcept function"));
		reg("abort", term("abort called"));
		reg("__cxa_pure_virtual", term("pure virtual call"));
		reg("__cxa_bad_cast", term("bad cast"));
		reg("__assert_fail", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			violation(S, "assert", "assert() failed: " + cstr(S, a[0].c));
			return BR::Killed;
		});
		reg("exit", term("exit called"));
		reg("_exit", term("_exit called"));
		reg("__cxa_thread_atexit", [](State &, const Ins &, std::vector<V> &, V &r) { r = cV(0); return BR::Ok; });
		reg("__cxa_guard_acquire", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			V v, p;
			if (!loadV(S, a[0], 8, v)) return BR::Killed;
			r = cV(v.c == 0);
			if (v.c) {
				vcAcquire(S, a[0].c);
				return BR::Ok;
			}
			if (!loadV(S, cV(a[0].c + 4), 8, p)) return BR::Killed;
			if (p.c) {  // another thread initialises: wait for it
				if ((int)p.c - 1 == S.cur) {
					violation(S, "deadlock", "recursive initialisation of a static variable");
					return BR::Killed;
				}
				S.th[S.cur].status = T_PRED;
				S.th[S.cur].waitAddr = a[0].c;
				S.th[S.cur].waitMask = 0xff;
				return BR::Block;
			}
			return storeV(S, cV(a[0].c + 4), 8, cV((u64)S.cur + 1)) ? BR::Ok : BR::Killed;
		});
		reg("__cxa_guard_release", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			vcRelease(S, a[0].c);
			return storeV(S, a[0], 8, cV(1)) ? BR::Ok : BR::Killed;
		});
		reg("__cxa_guard_abort", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			vcRelease(S, a[0].c);
			return storeV(S, cV(a[0].c + 4), 8, cV(0)) ? BR::Ok : BR::Killed;
		});
		// ---- threads
		reg("vp_thread_create", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			int t = (int)S.th.size();
			u64 fp = a[0].c;
			auto it = fnByAddr.find(fp);
			if (it == fnByAddr.end()) return BR::Killed;
			// first thread: the second one has to know everything that happened before
			S.th.emplace_back();
			int cur = S.cur;
			S.cur = t;
			std::vector<V> args{a[1]};
			bool ok = pushFrame(S, it->second, args);
			S.cur = cur;
			if (!ok) return BR::Killed;
			if (O.race) {
				auto &pv = vcOf(S, cur);
				auto &cv = vcOf(S, t);
				joinVC(cv, pv);
				vcOf(S, t);
				pv[(size_t)cur]++;
			}
			r = cV((u64)t);
			return BR::Ok;
		}, true);
		reg("vp_thread_join", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			int t = (int)a[0].c;
			if (S.th[t].status != T_DONE) {
				S.th[S.cur].status = T_JOIN;
				S.th[S.cur].joinTid = t;
				return BR::Block;
			}
			vcAcquire(S, 0x1000 + (u64)t);
			return BR::Ok;
		}, true);
		reg("vp_thread_id", [](State &S, const Ins &, std::vector<V> &, V &r) { r = cV((u64)S.cur); return BR::Ok; });
		reg("vp_yield", [](State &, const Ins &, std::vector<V> &, V &) { return BR::Ok; }, true);
		// block until *(int*)p != 0
		reg("vp_wait_nonzero", [this](State &S, const Ins &, std::vector<V> &a, V &) {
			V v;
			if (!loadV(S, a[0], 32, v)) return BR::Killed;
			if (!v.e && v.c == 0) {
				S.th[S.cur].status = T_PRED;
				S.th[S.cur].waitAddr = a[0].c;
				S.th[S.cur].waitMask = ~0ull;
				return BR::Block;
			}
			return BR::Ok;
		}, true);
		// accesses of the models of kernel objects are not those of the program
		reg("vp_race_off", [](State &S, const Ins &, std::vector<V> &, V &) { S.th[S.cur].noRace++; return BR::Ok; });
		reg("vp_race_on", [](State &S, const Ins &, std::vector<V> &, V &) { S.th[S.cur].noRace--; return BR::Ok; });
		// environment synchronisation (kernel objects): happens-before edges
		reg("vp_hb_release", [this](State &S, const Ins &, std::vector<V> &a, V &) { vcRelease(S, a[0].c); return BR::Ok; });
		reg("vp_hb_acquire", [this](State &S, const Ins &, std::vector<V> &a, V &) { vcAcquire(S, a[0].c); return BR::Ok; });
		reg("pthread_mutex_lock", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 m = a[0].c;
			auto it = S.mutexOwner.find(m);
			if (it != S.mutexOwner.end() && it->second >= 0) {
				if (it->second == S.cur) {
					violation(S, "deadlock", "mutex locked twice by the same thread");
					return BR::Killed;
				}
				S.th[S.cur].status = T_MUTEX;
				S.th[S.cur].waitAddr = m;
				return BR::Block;
			}
			S.mutexOwner[m] = S.cur;
			vcAcquire(S, m);
			r = cV(0);
			return BR::Ok;
		}, true);
		reg("pthread_mutex_unlock", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			u64 m = a[0].c;
			auto it = S.mutexOwner.find(m);
			if (it == S.mutexOwner.end() || it->second != S.cur) {
				violation(S, "ub", "unlock of a mutex not held");
				return BR::Killed;
			}
			vcRelease(S, m);
			S.mutexOwner.erase(it);
			r = cV(0);
			return BR::Ok;
		}, true);
		reg("pthread_cond_wait", [this](State &S, const Ins &, std::vector<V> &a, V &r) {
			Thread &T = S.th[S.cur];
			u64 c = a[0].c, m = a[1].c;
			if (T.condPhase == 0) {
				vcRelease(S, m);
				S.mutexOwner.erase(m);
				T.condPhase = 1;
				T.notified = false;
				T.status = T_COND;
				T.waitAddr = c;
				T.waitAddr2 = m;
				return BR::Block;
			}
			// notified: take the mutex again
			auto it = S.mutexOwner.find(m);
			if (it != S.mutexOwner.end() && it->second >= 0) {
				T.status = T_MUTEX;
				T.waitAddr = m;
				return BR::Block;
			}
			S.mutexOwner[m] = S.cur;
			vcAcquire(S, m);
			T.condPhase = 0;
			r = cV(0);
			return BR::Ok;
		}, true);
		auto notify = [this](bool all) {
			return [this, all](State &S, const Ins &, std::vector<V> &a, V &r) {
				// notify_one: wakes the first waiter (waiters are symmetric in the code under test)
				for (size_t t = 0; t < S.th.size(); t++) {
					Thread &T = S.th[t];
					if (T.status == T_COND && T.waitAddr == a[0].c && !T.notified) {
						T.notified = true;
						if (!all) break;
					}
				}
				r = cV(0);
				return BR::Ok;
			};
		};
		reg("pthread_cond_signal", notify(false), true);
		reg("pthread_cond_broadcast", notify(true), true);
		auto zero = [](State &, const Ins &, std::vector<V> &, V &r) { r = cV(0); return BR::Ok; };
		reg("pthread_mutex_init", zero);
		reg("pthread_mutex_destroy", zero);
		reg("pthread_cond_init", zero);
		reg("pthread_cond_destroy", zero);
		reg("pthread_detach", zero);
		reg("__gmon_start__", zero);
		// bind
		for (auto &p : fns) {
			auto it = builtinIdx.find(p.second->name);
			if (it != builtinIdx.end()) p.second->builtin = it->second;
		}
	}
