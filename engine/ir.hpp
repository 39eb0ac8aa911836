// LLVM module -> compact internal code.
#pragma once
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>

struct V {
	u64 c;
	Expr *e;
};

enum class I : u8 {
	Bin, FBin, FNeg, ICmp, FCmp, Select, Cast, Gep, Load, Store, Alloca, Br, CondBr, Switch, Ret, Call, Invoke, LandingPad, Resume, Unreachable, ExtractV, InsertV, Freeze, AtomicRMW, CmpXchg, Nop, Unsupported
};
enum class B : u8 { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor };

struct Fn;
struct Edge {
	u32 target = 0;  // pc
	u32 blk = 0;
	std::vector<std::pair<int, int>> moves;  // dst reg, src operand
};
struct Slot {
	u32 off;
	u16 w;  // bits
};
struct Ins {
	I op;
	u8 sub = 0;        // binop / predicate / cast kind / rmw op
	u16 w = 0, w2 = 0;  // operand width / result width
	int dst = -1;
	u16 nslots = 1;
	std::vector<int> a;  // operand refs: >=0 reg, <0 const ~idx
	i64 imm = 0;
	std::vector<i64> scales;   // gep: scale per a[1..]; insert/extract: offsets
	std::vector<Slot> slots;   // loads/stores (aggregate leaves)
	std::vector<Edge> edges;
	std::vector<std::pair<u64, int>> cases;  // switch: value -> edge
	Fn *callee = nullptr;
	const llvm::Instruction *src = nullptr;
	bool ptrSel = false;
	bool atomic = false;
	int builtin = -1;
	std::vector<u16> argw;  // widths for each flattened arg
};
struct LPClause {
	int kind;  // 0 catch 1 filter
	std::vector<u64> types;
};
struct Blk {
	u32 start;
	const llvm::BasicBlock *bb;
	bool executed = false;
	int lp = -1;  // index into fn lps
};
struct LP {
	bool cleanup;
	std::vector<LPClause> clauses;
};
struct Fn {
	const llvm::Function *f = nullptr;
	std::string name;
	u64 addr = 0;
	bool compiled = false, decl = true;
	int builtin = -1;
	u32 nregs = 0;
	std::vector<int> argSlots;  // number of slots per argument
	u32 nArgSlots = 0;
	int retSlots = 0;
	std::vector<Ins> code;
	std::vector<Blk> blocks;
	std::vector<LP> lps;
	bool executed = false;
};
