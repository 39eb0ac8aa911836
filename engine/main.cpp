#include "exec.hpp"
#include <fstream>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/MathExtras.h>
using namespace llvm;

struct Shared {
	std::atomic<int> freeTokens;
	std::atomic<int> crashed;
	std::atomic<int> stop;
	std::atomic<u64> violCount;
	std::atomic<u64> paths;
	std::atomic<int> caseTokens;
};

struct Options {
	std::string file, entry, out;
	int jobs = 1;
	double timeLimit = 600;
	u64 maxSteps = 200000000;
	int maxPreempt = 2;
	int maxCases = 40;
	int maxViol = 8;
	bool race = false;
	u64 seed = 1;
	std::map<std::string, std::string> params;
	u64 memMB = 3500;
};

enum class BR { Ok, Block, Killed, Unwind, Pushed };

struct Engine {
	Options O;
	Shared *sh;
	LLVMContext LC;
	std::unique_ptr<Module> M;
	const DataLayout *DL;
	Ctx C;
	Solver SV;
	std::map<const Function *, Fn *> fns;
	std::map<u64, Fn *> fnByAddr;
	std::map<const GlobalVariable *, u64> gaddr;
	std::map<u64, const GlobalVariable *> gByAddr;
	std::vector<V> consts;
	std::map<const Constant *, int> constIdx;
	std::vector<State *> work;
	State init;
	// results
	std::map<std::string, u64> covers;
	std::vector<Violation> viols;
	std::map<std::string, int> violSeen;
	std::vector<std::pair<std::string, std::string>> cases;
	u64 casesSeen = 0;
	u64 nPaths = 0, nAssumeKilled = 0, nForks = 0, nErrors = 0, nInstr = 0, nIncomplete = 0, nUnknownBr = 0, nStates = 0, nSched = 0, nMemQ = 0;
	u64 assertZ3 = 0, assertSym = 0, assertConcrete = 0;
	std::set<std::string> incompleteWhy;
	std::set<u64> obsDistinct;
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
	bool isChild = false;
	typedef std::function<BR(State &, const Ins &, std::vector<V> &, V &)> Builtin;
	std::vector<Builtin> builtins;
	std::map<std::string, int> builtinIdx;
	u64 rng = 88172645463325252ULL;
	u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

	Engine() : SV(C) {}

	// ------------------------------------------------------------ memory
	Obj *obj(const State &S, u32 id) const {
		u32 p = id >> 6;
		if (p >= S.pages.size() || !S.pages[p]) return nullptr;
		return S.pages[p]->o[id & 63];
	}
	Obj *wobj(State &S, u32 id) {
		Page *&p = S.pages[id >> 6];
		if (p->rc > 1) {
			p->rc--;
			p = new Page(*p);
		}
		Obj *&o = p->o[id & 63];
		if (o->rc > 1) {
			o->rc--;
			o = new Obj(*o);
		}
		return o;
	}
	u32 newObj(State &S, u32 size, Kind k, u32 info = 0, u8 fill = 0) {
		u32 id = S.nextId++;
		u32 pi = id >> 6;
		if (pi >= S.pages.size()) S.pages.resize(pi + 1, nullptr);
		Page *&p = S.pages[pi];
		if (!p) p = new Page();
		else if (p->rc > 1) {
			p->rc--;
			p = new Page(*p);
		}
		Obj *o = new Obj();
		o->size = size;
		o->kind = k;
		o->info = info;
		o->d = (u8 *)malloc(size ? size : 1);
		memset(o->d, fill, size ? size : 1);
		p->o[id & 63] = o;
		return id;
	}
	static u64 addrOf(u32 id) { return (u64)id << OBJ_SHIFT; }
	void killObj(State &S, u32 id, Kind k) {
		Obj *o = wobj(S, id);
		u32 sz = o->size;
		free(o->d);
		free(o->s);
		o->s = nullptr;
		o->d = (u8 *)malloc(1);
		o->info = sz;
		o->size = 0;
		o->kind = k;
	}
	// ------------------------------------------------------------ violations
	std::string where(const State &S) {
		std::string r;
		if (S.cur < 0 || S.cur >= (int)S.th.size()) return "";
		auto &st = S.th[S.cur].st;
		int n = 0;
		for (int i = (int)st.size() - 1; i >= 0 && n < 8; i--) {
			auto &f = st[i];
			if (!f.fn->compiled || f.pc >= f.fn->code.size()) continue;
			auto *src = f.fn->code[f.pc].src;
			if (!src) continue;
			const DILocation *L = src->getDebugLoc().get();
			while (L && n < 8) {
				std::string fn = L->getScope()->getSubprogram()->getName().str();
				std::string file = L->getFilename().str();
				auto p = file.rfind('/');
				if (p != std::string::npos) file = file.substr(p + 1);
				r += (r.empty() ? "" : " < ") + fn + "@" + file + ":" + std::to_string(L->getLine());
				n++;
				L = L->getInlinedAt();
			}
		}
		return r;
	}
	std::string inputsStr(const State &S, const std::vector<u8> &m) {
		std::string r;
		char b[8];
		for (auto &in : S.inputs) {
			r += (r.empty() ? "" : ",") + in.name + "=";
			for (u32 i = 0; i < in.n; i++) {
				snprintf(b, sizeof b, "%02x", in.first + i < m.size() ? m[in.first + i] : 0);
				r += b;
			}
		}
		return r;
	}
	std::string schedStr(const State &S) {
		std::string r;
		for (auto x : S.sched) r += char('0' + x);
		return r;
	}
	void violation(State &S, const std::string &kind, const std::string &msg, const std::vector<u8> *model = nullptr) {
		sh->violCount++;
		std::string key = kind + "|" + msg;
		int &n = violSeen[key];
		if (n >= 4) return;
		n++;
		viols.push_back({kind, msg, where(S), inputsStr(S, model ? *model : S.pc.model), schedStr(S)});
	}
	void incomplete(const std::string &why) {
		nIncomplete++;
		incompleteWhy.insert(why);
	}

	// ------------------------------------------------------------ compile
	bool isExtVec(Type *T) { return T->isVectorTy(); }
	void leafSlots(Type *T, u64 off, std::vector<Slot> &out, bool &bad) {
		if (auto *ST = dyn_cast<StructType>(T)) {
			auto *L = DL->getStructLayout(ST);
			for (unsigned i = 0; i < ST->getNumElements(); i++) leafSlots(ST->getElementType(i), off + L->getElementOffset(i), out, bad);
		} else if (auto *AT = dyn_cast<ArrayType>(T)) {
			u64 sz = DL->getTypeAllocSize(AT->getElementType());
			for (u64 i = 0; i < AT->getNumElements(); i++) leafSlots(AT->getElementType(), off + i * sz, out, bad);
		} else if (T->isVoidTy()) {
		} else if (T->isIntegerTy() || T->isPointerTy() || T->isFloatTy() || T->isDoubleTy()) {
			u64 w = DL->getTypeSizeInBits(T);
			if (w > 128) bad = true;
			out.push_back({(u32)off, (u16)w});
		} else {
			bad = true;
			u64 w = T->isSized() ? (u64)DL->getTypeSizeInBits(T) : 64;
			out.push_back({(u32)off, (u16)std::min<u64>(w, 128)});
		}
	}
	std::vector<Slot> leaves(Type *T, bool *badp = nullptr) {
		std::vector<Slot> r;
		bool bad = false;
		leafSlots(T, 0, r, bad);
		if (badp) *badp = bad;
		return r;
	}
	V evalConst(const Constant *c) {  // scalar
		if (auto *ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() <= 64) return {ci->getZExtValue(), nullptr};
			auto v = ci->getValue();
			u128 x = (u128)v.extractBitsAsZExtValue(64, 0) | ((u128)v.extractBitsAsZExtValue(ci->getBitWidth() - 64, 64) << 64);
			return {0, C.cst(x, ci->getBitWidth())};
		}
		if (auto *cf = dyn_cast<ConstantFP>(c)) {
			auto v = cf->getValueAPF().bitcastToAPInt();
			return {v.getBitWidth() <= 64 ? v.getZExtValue() : 0, nullptr};
		}
		if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) {
			if (c->getType()->isIntegerTy() && c->getType()->getIntegerBitWidth() > 64) return {0, C.cst(0, c->getType()->getIntegerBitWidth())};
			return {0, nullptr};
		}
		if (auto *f = dyn_cast<Function>(c)) return {fn(f)->addr, nullptr};
		if (auto *g = dyn_cast<GlobalVariable>(c)) return {gaddr.at(g), nullptr};
		if (auto *a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
		if (auto *ce = dyn_cast<ConstantExpr>(c)) {
			unsigned w = (unsigned)DL->getTypeSizeInBits(ce->getType());
			switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: {
				APInt off(64, 0);
				auto *g = cast<GEPOperator>(ce);
				u64 base = evalConst(cast<Constant>(g->getPointerOperand())).c;
				if (!g->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; abort(); }
				return {base + (u64)off.getSExtValue(), nullptr};
			}
			case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
			case Instruction::Trunc: {
				u64 v = evalConst(ce->getOperand(0)).c;
				return {v & (u64)maskw(w), nullptr};
			}
			case Instruction::Sub: return {(evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & (u64)maskw(w), nullptr};
			case Instruction::Add: return {(evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & (u64)maskw(w), nullptr};
			default: break;
			}
		}
		errs() << "unsupported constant: " << *c << "\n";
		return {0, nullptr};
	}
	void flatConst(const Constant *c, std::vector<V> &out) {
		Type *T = c->getType();
		if (T->isStructTy() || T->isArrayTy()) {
			unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
			for (unsigned i = 0; i < n; i++) {
				Constant *e = c->getAggregateElement(i);
				flatConst(e, out);
			}
			return;
		}
		out.push_back(evalConst(c));
	}
	int constRef(const Constant *c) {
		auto it = constIdx.find(c);
		if (it != constIdx.end()) return ~it->second;
		std::vector<V> v;
		flatConst(c, v);
		int idx = (int)consts.size();
		for (auto &x : v) consts.push_back(x);
		if (v.empty()) consts.push_back({0, nullptr});
		constIdx[c] = idx;
		return ~idx;
	}
	Fn *fn(const Function *f) {
		auto it = fns.find(f);
		if (it != fns.end()) return it->second;
		Fn *r = new Fn();
		r->f = f;
		r->name = f->getName().str();
		r->decl = f->isDeclaration();
		r->addr = addrOf(newObj(init, 1, K_FUNC));
		fns[f] = r;
		fnByAddr[r->addr] = r;
		return r;
	}
	void writeInit(State &S, u32 id, u64 off, const Constant *c) {
		Type *T = c->getType();
		if (isa<UndefValue>(c)) return;
		if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;  // already zero
		if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
			StringRef d = cds->getRawDataValues();
			memcpy(wobj(S, id)->d + off, d.data(), d.size());
			return;
		}
		if (T->isStructTy()) {
			auto *L = DL->getStructLayout(cast<StructType>(T));
			for (unsigned i = 0; i < T->getStructNumElements(); i++) writeInit(S, id, off + L->getElementOffset(i), c->getAggregateElement(i));
			return;
		}
		if (T->isArrayTy()) {
			u64 sz = DL->getTypeAllocSize(T->getArrayElementType());
			for (unsigned i = 0; i < T->getArrayNumElements(); i++) writeInit(S, id, off + i * sz, c->getAggregateElement(i));
			return;
		}
		u64 n = DL->getTypeStoreSize(T);
		V v = evalConst(c);
		u128 x = v.e ? v.e->val : v.c;
		memcpy(wobj(S, id)->d + off, &x, std::min<u64>(n, 16));
	}
	void loadModule() {
		SMDiagnostic err;
		M = parseIRFile(O.file, err, LC);
		if (!M) {
			err.print("vpsym", errs());
			exit(2);
		}
		DL = &M->getDataLayout();
		for (auto &g : M->globals()) {
			u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
			if (g.isDeclaration()) sz = std::max<u64>(sz, 64);
			u32 id = newObj(init, (u32)sz, g.isConstant() ? K_CONST : K_GLOBAL);
			gaddr[&g] = addrOf(id);
			gByAddr[addrOf(id)] = &g;
		}
		for (auto &f : *M) fn(&f);
		for (auto &g : M->globals())
			if (g.hasInitializer()) writeInit(init, (u32)(gaddr[&g] >> OBJ_SHIFT), 0, g.getInitializer());
	}
	struct CompCtx {
		std::map<const Value *, int> reg;
		std::map<const BasicBlock *, int> blk;
	};
	int slotsOf(Type *T) { return (int)leaves(T).size(); }
	int opnd(CompCtx &cc, const Value *v) {
		if (auto *c = dyn_cast<Constant>(v)) return constRef(c);
		auto it = cc.reg.find(v);
		if (it == cc.reg.end()) {
			if (isa<MetadataAsValue>(v)) return constRef(ConstantInt::get(llvm::Type::getInt64Ty(LC), 0));
			errs() << "no reg for " << *v << "\n";
			return constRef(ConstantInt::get(llvm::Type::getInt64Ty(LC), 0));
		}
		return it->second;
	}
	u16 bw(Type *T) {
		if (T->isVoidTy() || !T->isSized()) return 0;
		u64 w = DL->getTypeSizeInBits(T);
		return (u16)std::min<u64>(w, 65535);
	}
	void addMoves(CompCtx &cc, Edge &e, const BasicBlock *from, const BasicBlock *to) {
		for (auto &phi : to->phis()) {
			int src = opnd(cc, phi.getIncomingValueForBlock(from));
			int dst = cc.reg[&phi];
			int n = slotsOf(phi.getType());
			for (int i = 0; i < n; i++) e.moves.push_back({dst + i, src >= 0 ? src + i : ~(~src + i)});
		}
	}
	static int off(int ref, int i) { return ref >= 0 ? ref + i : ~(~ref + i); }
	void compile(Fn *F) {
		F->compiled = true;
		const Function *f = F->f;
		CompCtx cc;
		u32 nr = 0;
		for (auto &a : f->args()) {
			cc.reg[&a] = (int)nr;
			int n = slotsOf(a.getType());
			F->argSlots.push_back(n);
			nr += n;
		}
		F->nArgSlots = nr;
		F->retSlots = f->getReturnType()->isVoidTy() ? 0 : slotsOf(f->getReturnType());
		for (auto &bb : *f)
			for (auto &in : bb)
				if (!in.getType()->isVoidTy() && !in.getType()->isTokenTy() && !in.getType()->isMetadataTy()) {
					cc.reg[&in] = (int)nr;
					nr += std::max(1, slotsOf(in.getType()));
				}
		F->nregs = nr;
		int bi = 0;
		for (auto &bb : *f) cc.blk[&bb] = bi++;
		// landing pads
		for (auto &bb : *f) {
			Blk b;
			b.start = (u32)F->code.size();
			b.bb = &bb;
			for (auto &in : bb) {
				if (isa<PHINode>(in)) continue;
				if (auto *lp = dyn_cast<LandingPadInst>(&in)) {
					LP l;
					l.cleanup = lp->isCleanup();
					for (unsigned i = 0; i < lp->getNumClauses(); i++) {
						LPClause c;
						c.kind = lp->isCatch(i) ? 0 : 1;
						if (lp->isCatch(i)) c.types.push_back(evalConst(lp->getClause(i)).c);
						else {
							std::vector<V> v;
							flatConst(lp->getClause(i), v);
							for (auto &x : v) c.types.push_back(x.c);
						}
						l.clauses.push_back(c);
					}
					b.lp = (int)F->lps.size();
					F->lps.push_back(l);
				}
				compileIns(F, cc, in);
			}
			F->blocks.push_back(b);
		}
		for (auto &in : F->code)
			for (auto &e : in.edges) e.target = F->blocks[e.blk].start;
	}
	void compileIns(Fn *F, CompCtx &cc, const Instruction &in) {
		if (isa<DbgInfoIntrinsic>(in)) return;
		Ins o;
		o.src = &in;
		o.op = I::Unsupported;
		auto R = cc.reg.find(&in);
		o.dst = R == cc.reg.end() ? -1 : R->second;
		auto edge = [&](const BasicBlock *to) {
			Edge e;
			e.blk = cc.blk[to];
			addMoves(cc, e, in.getParent(), to);
			o.edges.push_back(std::move(e));
		};
		bool vec = in.getType()->isVectorTy();
		for (auto &op : in.operands())
			if (op->getType()->isVectorTy()) vec = true;
		if (vec && !isa<IntrinsicInst>(in)) {
			F->code.push_back(o);
			return;
		}
		if (auto *bo = dyn_cast<BinaryOperator>(&in)) {
			o.w = bw(in.getType());
			o.a = {opnd(cc, bo->getOperand(0)), opnd(cc, bo->getOperand(1))};
			o.op = I::Bin;
			switch (bo->getOpcode()) {
			case Instruction::Add: o.sub = (u8)B::Add; break;
			case Instruction::Sub: o.sub = (u8)B::Sub; break;
			case Instruction::Mul: o.sub = (u8)B::Mul; break;
			case Instruction::UDiv: o.sub = (u8)B::UDiv; break;
			case Instruction::SDiv: o.sub = (u8)B::SDiv; break;
			case Instruction::URem: o.sub = (u8)B::URem; break;
			case Instruction::SRem: o.sub = (u8)B::SRem; break;
			case Instruction::Shl: o.sub = (u8)B::Shl; break;
			case Instruction::LShr: o.sub = (u8)B::LShr; break;
			case Instruction::AShr: o.sub = (u8)B::AShr; break;
			case Instruction::And: o.sub = (u8)B::And; break;
			case Instruction::Or: o.sub = (u8)B::Or; break;
			case Instruction::Xor: o.sub = (u8)B::Xor; break;
			case Instruction::FAdd: o.op = I::FBin; o.sub = (u8)Op::FAdd; break;
			case Instruction::FSub: o.op = I::FBin; o.sub = (u8)Op::FSub; break;
			case Instruction::FMul: o.op = I::FBin; o.sub = (u8)Op::FMul; break;
			case Instruction::FDiv: o.op = I::FBin; o.sub = (u8)Op::FDiv; break;
			default: o.op = I::Unsupported;
			}
			if (o.op == I::FBin && !(o.w == 32 || o.w == 64)) o.op = I::Unsupported;
		} else if (isa<UnaryOperator>(in) && in.getOpcode() == Instruction::FNeg) {
			o.op = I::FNeg;
			o.w = bw(in.getType());
			o.a = {opnd(cc, in.getOperand(0))};
		} else if (auto *ic = dyn_cast<ICmpInst>(&in)) {
			o.op = I::ICmp;
			o.sub = (u8)ic->getPredicate();
			o.w = bw(ic->getOperand(0)->getType());
			o.a = {opnd(cc, ic->getOperand(0)), opnd(cc, ic->getOperand(1))};
		} else if (auto *fc = dyn_cast<FCmpInst>(&in)) {
			o.op = I::FCmp;
			o.sub = (u8)fc->getPredicate();
			o.w = bw(fc->getOperand(0)->getType());
			o.a = {opnd(cc, fc->getOperand(0)), opnd(cc, fc->getOperand(1))};
		} else if (auto *sel = dyn_cast<SelectInst>(&in)) {
			auto lv = leaves(in.getType());
			o.op = I::Select;
			o.nslots = (u16)lv.size();
			o.slots = lv;
			o.w = lv.empty() ? 0 : lv[0].w;
			o.ptrSel = in.getType()->isPointerTy();
			o.a = {opnd(cc, sel->getCondition()), opnd(cc, sel->getTrueValue()), opnd(cc, sel->getFalseValue())};
		} else if (auto *ca = dyn_cast<CastInst>(&in)) {
			o.op = I::Cast;
			o.w = bw(ca->getSrcTy());
			o.w2 = bw(ca->getDestTy());
			o.a = {opnd(cc, ca->getOperand(0))};
			switch (ca->getOpcode()) {
			case Instruction::Trunc: o.sub = 0; break;
			case Instruction::ZExt: o.sub = 1; break;
			case Instruction::SExt: o.sub = 2; break;
			case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
				o.sub = o.w2 < o.w ? 0 : 1;
				break;
			case Instruction::FPToSI: o.sub = 3; break;
			case Instruction::FPToUI: o.sub = 4; break;
			case Instruction::SIToFP: o.sub = 5; break;
			case Instruction::UIToFP: o.sub = 6; break;
			case Instruction::FPExt: o.sub = 7; break;
			case Instruction::FPTrunc: o.sub = 8; break;
			default: o.op = I::Unsupported;
			}
			if (o.sub >= 3) {
				auto okf = [](Type *T) { return !T->isFloatingPointTy() || T->isFloatTy() || T->isDoubleTy(); };
				if (!okf(ca->getSrcTy()) || !okf(ca->getDestTy())) o.op = I::Unsupported;
			}
		} else if (auto *g = dyn_cast<GetElementPtrInst>(&in)) {
			o.op = I::Gep;
			o.a = {opnd(cc, g->getPointerOperand())};
			for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
				Value *idx = it.getOperand();
				if (auto *st = it.getStructTypeOrNull()) {
					o.imm += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
				} else {
					i64 sz = (i64)DL->getTypeAllocSize(it.getIndexedType());
					if (auto *ci = dyn_cast<ConstantInt>(idx)) o.imm += sz * ci->getSExtValue();
					else {
						o.a.push_back(opnd(cc, idx));
						o.scales.push_back(sz);
						o.argw.push_back(bw(idx->getType()));
					}
				}
			}
		} else if (auto *ld = dyn_cast<LoadInst>(&in)) {
			bool bad;
			o.op = I::Load;
			o.slots = leaves(in.getType(), &bad);
			o.nslots = (u16)o.slots.size();
			o.a = {opnd(cc, ld->getPointerOperand())};
			o.atomic = ld->isAtomic();
			if (bad) o.op = I::Unsupported;
		} else if (auto *sto = dyn_cast<StoreInst>(&in)) {
			bool bad;
			o.op = I::Store;
			o.slots = leaves(sto->getValueOperand()->getType(), &bad);
			o.nslots = (u16)o.slots.size();
			o.a = {opnd(cc, sto->getPointerOperand()), opnd(cc, sto->getValueOperand())};
			o.atomic = sto->isAtomic();
			if (bad) o.op = I::Unsupported;
		} else if (auto *al = dyn_cast<AllocaInst>(&in)) {
			o.op = I::Alloca;
			o.imm = (i64)DL->getTypeAllocSize(al->getAllocatedType());
			o.a = {opnd(cc, al->getArraySize())};
		} else if (auto *br = dyn_cast<BranchInst>(&in)) {
			if (br->isUnconditional()) {
				o.op = I::Br;
				edge(br->getSuccessor(0));
			} else {
				o.op = I::CondBr;
				o.a = {opnd(cc, br->getCondition())};
				edge(br->getSuccessor(0));
				edge(br->getSuccessor(1));
			}
		} else if (auto *sw = dyn_cast<SwitchInst>(&in)) {
			o.op = I::Switch;
			o.w = bw(sw->getCondition()->getType());
			o.a = {opnd(cc, sw->getCondition())};
			edge(sw->getDefaultDest());
			std::map<const BasicBlock *, int> seen;
			for (auto &c : sw->cases()) {
				const BasicBlock *to = c.getCaseSuccessor();
				auto it = seen.find(to);
				if (it == seen.end()) {
					edge(to);
					it = seen.insert({to, (int)o.edges.size() - 1}).first;
				}
				o.cases.push_back({c.getCaseValue()->getZExtValue(), it->second});
			}
		} else if (auto *rt = dyn_cast<ReturnInst>(&in)) {
			o.op = I::Ret;
			if (rt->getReturnValue()) {
				o.a = {opnd(cc, rt->getReturnValue())};
				o.nslots = (u16)slotsOf(rt->getReturnValue()->getType());
			} else
				o.nslots = 0;
		} else if (auto *cb = dyn_cast<CallBase>(&in)) {
			o.op = isa<InvokeInst>(in) ? I::Invoke : I::Call;
			if (isa<CallBrInst>(in)) o.op = I::Unsupported;
			o.nslots = in.getType()->isVoidTy() ? 0 : (u16)slotsOf(in.getType());
			o.w = in.getType()->isVoidTy() ? 0 : bw(in.getType());
			o.slots = in.getType()->isVoidTy() ? std::vector<Slot>() : leaves(in.getType());
			const Value *cv = cb->getCalledOperand()->stripPointerCasts();
			if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
			if (auto *cf = dyn_cast<Function>(cv)) {
				o.callee = fn(cf);
				if (cf->isIntrinsic()) {
					auto id = cf->getIntrinsicID();
					switch (id) {
					case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
						return;
					default: break;
					}
				}
			} else {
				o.a.push_back(opnd(cc, cb->getCalledOperand()));
				o.imm = 1;  // indirect
			}
			for (unsigned i = 0; i < cb->arg_size(); i++) {
				Value *av = cb->getArgOperand(i);
				if (av->getType()->isMetadataTy()) continue;
				if (cb->isByValArgument(i)) {
					// byval: copy semantic; handled by marking
					o.scales.push_back((i64)o.a.size());
					o.scales.push_back((i64)DL->getTypeAllocSize(cb->getParamByValType(i)));
				}
				int r = opnd(cc, av);
				auto lv = leaves(av->getType());
				for (size_t k = 0; k < lv.size(); k++) {
					o.a.push_back(off(r, (int)k));
					o.argw.push_back(lv[k].w);
				}
			}
			if (auto *iv = dyn_cast<InvokeInst>(&in)) {
				edge(iv->getNormalDest());
				edge(iv->getUnwindDest());
			}
		} else if (isa<LandingPadInst>(in)) {
			o.op = I::LandingPad;
		} else if (auto *rs = dyn_cast<ResumeInst>(&in)) {
			o.op = I::Resume;
			o.a = {opnd(cc, rs->getValue())};
		} else if (isa<UnreachableInst>(in)) {
			o.op = I::Unreachable;
		} else if (auto *ev = dyn_cast<ExtractValueInst>(&in)) {
			o.op = I::ExtractV;
			Type *T = ev->getAggregateOperand()->getType();
			int so = 0;
			for (unsigned ix : ev->indices()) {
				if (T->isStructTy()) {
					for (unsigned k = 0; k < ix; k++) so += slotsOf(T->getStructElementType(k));
					T = T->getStructElementType(ix);
				} else {
					T = T->getArrayElementType();
					so += (int)ix * slotsOf(T);
				}
			}
			o.a = {off(opnd(cc, ev->getAggregateOperand()), so)};
			o.nslots = (u16)slotsOf(in.getType());
		} else if (auto *iv = dyn_cast<InsertValueInst>(&in)) {
			o.op = I::InsertV;
			Type *T = iv->getAggregateOperand()->getType();
			int so = 0;
			for (unsigned ix : iv->indices()) {
				if (T->isStructTy()) {
					for (unsigned k = 0; k < ix; k++) so += slotsOf(T->getStructElementType(k));
					T = T->getStructElementType(ix);
				} else {
					T = T->getArrayElementType();
					so += (int)ix * slotsOf(T);
				}
			}
			o.imm = so;
			o.a = {opnd(cc, iv->getAggregateOperand()), opnd(cc, iv->getInsertedValueOperand())};
			o.nslots = (u16)slotsOf(in.getType());
			o.w2 = (u16)slotsOf(iv->getInsertedValueOperand()->getType());
		} else if (isa<FreezeInst>(in)) {
			o.op = I::Freeze;
			o.a = {opnd(cc, in.getOperand(0))};
			o.nslots = (u16)slotsOf(in.getType());
		} else if (auto *rm = dyn_cast<AtomicRMWInst>(&in)) {
			o.op = I::AtomicRMW;
			o.w = bw(rm->getType());
			o.sub = (u8)rm->getOperation();
			o.a = {opnd(cc, rm->getPointerOperand()), opnd(cc, rm->getValOperand())};
			o.atomic = true;
		} else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&in)) {
			o.op = I::CmpXchg;
			o.w = bw(cx->getCompareOperand()->getType());
			o.a = {opnd(cc, cx->getPointerOperand()), opnd(cc, cx->getCompareOperand()), opnd(cc, cx->getNewValOperand())};
			o.atomic = true;
		} else if (isa<FenceInst>(in)) {
			return;
		}
		F->code.push_back(std::move(o));
	}
#include "interp.inc"
#include "builtins.inc"
};

int main(int argc, char **argv) {
	Engine E;
	auto &O = E.O;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&]() { return std::string(argv[++i]); };
		if (a == "--entry") O.entry = nxt();
		else if (a == "--out") O.out = nxt();
		else if (a == "--jobs") O.jobs = atoi(nxt().c_str());
		else if (a == "--time") O.timeLimit = atof(nxt().c_str());
		else if (a == "--max-steps") O.maxSteps = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--preempt") O.maxPreempt = atoi(nxt().c_str());
		else if (a == "--cases") O.maxCases = atoi(nxt().c_str());
		else if (a == "--race") O.race = true;
		else if (a == "--seed") O.seed = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--mem") O.memMB = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--param") {
			std::string p = nxt();
			auto q = p.find('=');
			O.params[p.substr(0, q)] = p.substr(q + 1);
		} else
			O.file = a;
	}
	E.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (E.sh) Shared();
	E.sh->freeTokens = O.jobs - 1;
	E.sh->caseTokens = O.maxCases;
	E.rng ^= O.seed * 0x9E3779B97F4A7C15ULL;
	E.forkSelects = O.params.count("fork_selects") != 0;
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	E.loadModule();
	E.registerBuiltins();
	return E.explore();
}
