#include "engine.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <algorithm>
using namespace llvm;

Engine* g_eng = nullptr;
static double g_t0;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Shared { std::atomic<int> slots, stop, viol, procs; std::atomic<uint64_t> memKB; };
static Shared* g_sh = nullptr;
static std::atomic<int>* g_slots = nullptr;

std::string jsonEsc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o;
}

// ---------------------------------------------------------------- State
State::State(const State& o) : E_(o.E_), id(o.id), mem(o.mem), cs(o.cs), m(o.m), fixed(o.fixed), th(o.th), cur(o.cur), inputs(o.inputs), inputCount(o.inputCount), obs(o.obs), exc(o.exc), steps(o.steps), note(o.note), log(o.log),
	sc(o.sc), curErrno(o.curErrno), syncVc(o.syncVc), race(o.race), heapLive(o.heapLive), curKnown(o.curKnown), forks(o.forks), keyDtor(o.keyDtor) {
	for (auto& t : th) for (auto f : t.st) ++f->rc;
}
State::~State() { for (auto& t : th) for (auto f : t.st) if (--f->rc == 0) delete f; }
State* Engine::clone(State& s) { State* n = new State(s); n->id = nextStateId++; n->forks++; ++st.forks; return n; }

// ---------------------------------------------------------------- types
const TypeInfo* Engine::typeInfo(Type* T) {
	auto it = types.find(T); if (it != types.end()) return it->second;
	TypeInfo* ti = new TypeInfo(); ti->size = T->isVoidTy() || T->isFunctionTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy() ? 0 : DL->getTypeAllocSize(T);
	if (auto* S = dyn_cast<StructType>(T)) {
		const StructLayout* L = DL->getStructLayout(S);
		for (unsigned i = 0; i < S->getNumElements(); ++i) { const TypeInfo* x = typeInfo(S->getElementType(i)); for (auto& l : x->leaves) ti->leaves.push_back({(uint32_t)(l.off + L->getElementOffset(i)), l.w}); }
	} else if (auto* A = dyn_cast<ArrayType>(T)) {
		const TypeInfo* x = typeInfo(A->getElementType());
		for (uint64_t i = 0; i < A->getNumElements(); ++i) for (auto& l : x->leaves) ti->leaves.push_back({(uint32_t)(l.off + i * x->size), l.w});
	} else if (auto* V = dyn_cast<FixedVectorType>(T)) {
		unsigned ew = V->getElementType()->isPointerTy() ? 64 : V->getElementType()->getPrimitiveSizeInBits();
		for (unsigned i = 0; i < V->getNumElements(); ++i) ti->leaves.push_back({(uint32_t)(i * ((ew + 7) / 8)), (uint16_t)ew});
	} else if (T->isPointerTy()) ti->leaves.push_back({0, 64});
	else if (T->isIntegerTy() || T->isFloatTy() || T->isDoubleTy()) ti->leaves.push_back({0, (uint16_t)T->getPrimitiveSizeInBits()});
	else if (T->isX86_FP80Ty()) ti->leaves.push_back({0, 80});
	types[T] = ti;
	return ti;
}

// ---------------------------------------------------------------- loading
uint64_t Engine::globalAddr(State* s, const Value* G) {
	if (auto* A = dyn_cast<GlobalAlias>(G)) return globalAddr(s, A->getAliaseeObject());
	if (auto* F = dyn_cast<Function>(G)) return getFunc(F)->addr;
	auto* V = cast<GlobalVariable>(G);
	auto it = globals.find(V); if (it == globals.end()) { fprintf(stderr, "unknown global %s\n", V->getName().str().c_str()); abort(); }
	return it->second;
}
uint64_t Engine::constScalar(const Constant* C, E* wide) {
	if (auto* CI = dyn_cast<ConstantInt>(C)) {
		if (CI->getBitWidth() <= 64) return CI->getZExtValue();
		const APInt& v = CI->getValue(); u128 x = v.getRawData()[0]; if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
		if (wide) *wide = mkConst(x, CI->getBitWidth()); return (uint64_t)x;
	}
	if (auto* CF = dyn_cast<ConstantFP>(C)) {
		APInt v = CF->getValueAPF().bitcastToAPInt();
		if (v.getBitWidth() > 64) { if (wide) *wide = mkConst((u128)v.getRawData()[0] | ((u128)v.getRawData()[1] << 64), v.getBitWidth()); return v.getRawData()[0]; }
		return v.getZExtValue();
	}
	if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) { unsigned w = typeInfo(C->getType())->leaves[0].w; if (w > 64 && wide) *wide = mkConst(0, w); return 0; }
	if (auto* G = dyn_cast<GlobalValue>(C)) return globalAddr(nullptr, G);
	if (isa<DSOLocalEquivalent>(C)) return globalAddr(nullptr, cast<DSOLocalEquivalent>(C)->getGlobalValue());
	if (auto* CE = dyn_cast<ConstantExpr>(C)) {
		auto o = [&](unsigned i) { return constScalar(CE->getOperand(i), nullptr); };
		unsigned w = typeInfo(C->getType())->leaves[0].w;
		switch (CE->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) abort();
			return o(0) + off.getSExtValue();
		}
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return o(0);
		case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: case Instruction::ZExt: return o(0) & mask64(w);
		case Instruction::SExt: return (uint64_t)sext64(o(0), typeInfo(CE->getOperand(0)->getType())->leaves[0].w) & mask64(w);
		case Instruction::Add: return (o(0) + o(1)) & mask64(w);
		case Instruction::Sub: return (o(0) - o(1)) & mask64(w);
		case Instruction::Mul: return (o(0) * o(1)) & mask64(w);
		case Instruction::And: return o(0) & o(1);
		case Instruction::Or: return o(0) | o(1);
		case Instruction::Xor: return o(0) ^ o(1);
		case Instruction::Shl: return (o(0) << o(1)) & mask64(w);
		case Instruction::LShr: return o(0) >> o(1);
		case Instruction::ICmp: {
			uint64_t a = o(0), b = o(1);
			switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b; default: break; }
			break; }
		default: break;
		}
	}
	std::string str; raw_string_ostream os(str); C->print(os); fprintf(stderr, "constScalar: unsupported %s\n", os.str().c_str()); abort();
}
// data the executed code refers to but no linked unit defines
void Engine::noteData(const Constant* C) {
	if (isa<ConstantData>(C) || isa<Function>(C) || !dataNoted.insert(C).second) return;
	if (auto* G = dyn_cast<GlobalVariable>(C)) { if (G->hasInitializer()) noteData(G->getInitializer()); else if (G->isDeclaration() && G->getName().contains("stingray")) dataNeeded.insert(G->getName().str()); return; }
	for (auto& o : C->operands()) if (auto* K = dyn_cast<Constant>(o)) noteData(K);
}
void Engine::flattenConst(const Constant* C, std::vector<Val>& out) {
	Type* T = C->getType();
	const TypeInfo* ti = typeInfo(T);
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto& l : ti->leaves) { Val v; if (l.w > 64) v.e = mkConst(0, l.w); out.push_back(v); } return; }
	if (auto* CA = dyn_cast<ConstantAggregate>(C)) { for (auto& o : CA->operands()) flattenConst(cast<Constant>(o), out); return; }
	if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) flattenConst(CD->getElementAsConstant(i), out); return; }
	Val v; E wide = nullptr; v.c = constScalar(C, &wide); v.e = wide; out.push_back(v);
}
void Engine::writeConst(State& s, uint64_t addr, const Constant* C) {
	if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
	Type* T = C->getType();
	if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { uint64_t b, id; Obj* o = s.mem.find(addr, b, &id); o = s.mem.writable(id); StringRef r = CD->getRawDataValues(); memcpy(o->d.data() + (addr - b), r.data(), r.size()); return; }
	if (auto* CA = dyn_cast<ConstantAggregate>(C)) {
		for (unsigned i = 0; i < CA->getNumOperands(); ++i) {
			uint64_t off = 0;
			if (auto* S = dyn_cast<StructType>(T)) off = DL->getStructLayout(S)->getElementOffset(i);
			else if (auto* A = dyn_cast<ArrayType>(T)) off = i * DL->getTypeAllocSize(A->getElementType());
			else off = i * DL->getTypeAllocSize(cast<VectorType>(T)->getElementType());
			writeConst(s, addr + off, cast<Constant>(CA->getOperand(i)));
		}
		return;
	}
	std::vector<Val> v; flattenConst(C, v);
	const TypeInfo* ti = typeInfo(T);
	uint64_t b, id; Obj* o = s.mem.find(addr, b, &id); o = s.mem.writable(id);
	for (size_t i = 0; i < v.size(); ++i) storeAt(o, addr - b + ti->leaves[i].off, v[i], ti->leaves[i].w);
}
static std::string demang(const std::string& n) { return llvm::demangle(n); }
Func* Engine::getFunc(const Function* F) {
	auto it = funcs.find(F); if (it != funcs.end()) return it->second;
	Func* f = new Func(); f->F = F; f->name = F->getName().str(); f->isVarArg = F->isVarArg();
	f->addr = 0x500000 + funcs.size() * 16;
	funcs[F] = f; funcByAddr[f->addr] = f;
	Builtin b = findBuiltin(f->name); if (!b) b = findThreadBuiltin(f->name);
	f->msgOnly = f->name.find("17BuildErrorMessage") != std::string::npos || f->name.find("24IndexOutOfRangeExceptionC") != std::string::npos || f->name.find("17ArgumentExceptionC") != std::string::npos || f->name.find("24IntegerOverflowExceptionC") != std::string::npos;
	if (b) f->bi = b; else if (F->isDeclaration()) f->unresolved = true;
	return f;
}
static LLVMContext* g_ctx;
void Engine::load() {
	g_ctx = new LLVMContext(); SMDiagnostic err;
	auto mod = parseIRFile(opt.bc, err, *g_ctx);
	if (!mod) { err.print("symex", errs()); exit(3); }
	M = mod.release(); DL = &M->getDataLayout();
	for (auto& F : *M) getFunc(&F);
}
void Engine::initGlobals(State& s) {
	for (auto& G : M->globals()) {
		if (G.getName().starts_with("llvm.")) continue;
		uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
		if (G.isDeclaration() && sz < 256) sz = 256;
		globals[&G] = s.mem.alloc(sz, OK_Global, strdup(G.getName().str().c_str()));
	}
	for (auto& G : M->globals()) {
		if (!globals.count(&G)) continue;
		if (G.hasInitializer()) writeConst(s, globals[&G], G.getInitializer());
		else if (G.getName().starts_with("_ZTI")) { // type_info of the C++ runtime: only its name is needed
			std::string n = G.getName().substr(4).str(); uint64_t a = s.mem.alloc(n.size() + 1, OK_Const, "type name"), b, id; s.mem.find(a, b, &id); memcpy(&s.mem.writable(id)->d[0], n.c_str(), n.size() + 1);
			s.mem.find(globals[&G], b, &id); memcpy(&s.mem.writable(id)->d[8], &a, 8); }
		if (G.isConstant() && G.hasInitializer()) { uint64_t b, id; s.mem.find(globals[&G], b, &id); s.mem.writable(id)->kind = OK_Const; }
	}
}

// ---------------------------------------------------------------- decode
namespace {
struct Decoder {
	Engine& E_; Func& f; std::unordered_map<const Value*, uint32_t> regOf; std::unordered_map<const Value*, int32_t> constOf;
	Decoder(Engine& e, Func& fn) : E_(e), f(fn) {}
	int32_t opnd(const Value* V) {
		if (auto* C = dyn_cast<Constant>(V)) {
			E_.noteData(C);
			auto it = constOf.find(V); if (it != constOf.end()) return it->second;
			int32_t idx = ~(int32_t)f.consts.size();
			E_.flattenConst(C, f.consts);
			if ((size_t)(~idx) == f.consts.size()) f.consts.push_back(Val());
			constOf[V] = idx; return idx;
		}
		auto it = regOf.find(V); if (it == regOf.end()) { if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return 0; fprintf(stderr, "no reg for value in %s\n", f.name.c_str()); V->print(errs()); abort(); }
		return (int32_t)it->second;
	}
	static int32_t leafOf(int32_t base, unsigned i) { return base >= 0 ? base + (int32_t)i : base - (int32_t)i; }
	Edge* edge(const BasicBlock* from, const BasicBlock* to) {
		auto e = std::make_unique<Edge>(); e->pc = 0;
		for (auto& P : to->phis()) {
			const Value* v = P.getIncomingValueForBlock(from);
			int32_t src = opnd(v); uint32_t dst = regOf[&P]; const TypeInfo* ti = E_.typeInfo(P.getType());
			for (unsigned i = 0; i < ti->leaves.size(); ++i) { e->copies.emplace_back(dst + i, leafOf(src, i)); e->w.push_back(ti->leaves[i].w); }
		}
		Edge* r = e.get(); f.edges.push_back(std::move(e)); fix.emplace_back(r, to); return r;
	}
	std::vector<std::pair<Edge*, const BasicBlock*>> fix;
	static unsigned scalW(Type* T) { if (T->isPointerTy()) return 64; return T->getScalarSizeInBits(); }
	void run() {
		const Function* F = f.F; uint32_t n = 0;
		for (auto& A : F->args()) { regOf[&A] = n; n += E_.typeInfo(A.getType())->leaves.size(); }
		f.nargs = n;
		for (auto& B : *F) for (auto& I : B) { regOf[&I] = n; n += E_.typeInfo(I.getType())->leaves.size(); }
		f.nregs = n;
		for (auto& B : *F) {
			f.bbPc[&B] = f.code.size();
			for (auto& I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; Inst x; x.I = &I; x.dst = regOf[&I]; dec(I, x); if (x.op != Op::Nop) f.code.push_back(std::move(x)); }
		}
		for (auto& p : fix) p.first->pc = f.bbPc[p.second];
		f.decoded = true;
	}
	void dec(const Instruction& I, Inst& x) {
		Type* T = I.getType();
		bool vec = T->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy());
		if (!T->isVoidTy() && E_.typeInfo(T)->leaves.size() == 1) x.w = E_.typeInfo(T)->leaves[0].w;
		if (auto* B = dyn_cast<BinaryOperator>(&I)) {
			x.a = opnd(B->getOperand(0)); x.b = opnd(B->getOperand(1)); x.op = Op::Bin;
			switch (B->getOpcode()) {
			case Instruction::Add: x.sub = (uint8_t)K::Add; break; case Instruction::Sub: x.sub = (uint8_t)K::Sub; break; case Instruction::Mul: x.sub = (uint8_t)K::Mul; break;
			case Instruction::UDiv: x.sub = (uint8_t)K::UDiv; break; case Instruction::SDiv: x.sub = (uint8_t)K::SDiv; break; case Instruction::URem: x.sub = (uint8_t)K::URem; break; case Instruction::SRem: x.sub = (uint8_t)K::SRem; break;
			case Instruction::And: x.sub = (uint8_t)K::And; break; case Instruction::Or: x.sub = (uint8_t)K::Or; break; case Instruction::Xor: x.sub = (uint8_t)K::Xor; break;
			case Instruction::Shl: x.sub = (uint8_t)K::Shl; break; case Instruction::LShr: x.sub = (uint8_t)K::LShr; break; case Instruction::AShr: x.sub = (uint8_t)K::AShr; break;
			case Instruction::FAdd: x.op = Op::FBin; x.sub = (uint8_t)K::FAdd; break; case Instruction::FSub: x.op = Op::FBin; x.sub = (uint8_t)K::FSub; break; case Instruction::FMul: x.op = Op::FBin; x.sub = (uint8_t)K::FMul; break; case Instruction::FDiv: x.op = Op::FBin; x.sub = (uint8_t)K::FDiv; break;
			case Instruction::FRem: x.op = Op::FBin; x.sub = 255; break;
			default: x.op = Op::Bad;
			}
			if (vec) { if (x.op == Op::FBin) x.n = 1; x.op = Op::VecBin; x.w = scalW(T); x.imm = E_.typeInfo(T)->leaves.size(); }
			return;
		}
		if (auto* C = dyn_cast<ICmpInst>(&I)) {
			x.a = opnd(C->getOperand(0)); x.b = opnd(C->getOperand(1)); x.op = Op::Bin; x.w = scalW(C->getOperand(0)->getType());
			switch (C->getPredicate()) {
			case CmpInst::ICMP_EQ: x.sub = (uint8_t)K::Eq; break; case CmpInst::ICMP_NE: x.sub = (uint8_t)K::Eq; x.op = Op::ICmpN; break;
			case CmpInst::ICMP_ULT: x.sub = (uint8_t)K::Ult; break; case CmpInst::ICMP_ULE: x.sub = (uint8_t)K::Ule; break; case CmpInst::ICMP_SLT: x.sub = (uint8_t)K::Slt; break; case CmpInst::ICMP_SLE: x.sub = (uint8_t)K::Sle; break;
			case CmpInst::ICMP_UGT: x.sub = (uint8_t)K::Ult; std::swap(x.a, x.b); break; case CmpInst::ICMP_UGE: x.sub = (uint8_t)K::Ule; std::swap(x.a, x.b); break;
			case CmpInst::ICMP_SGT: x.sub = (uint8_t)K::Slt; std::swap(x.a, x.b); break; case CmpInst::ICMP_SGE: x.sub = (uint8_t)K::Sle; std::swap(x.a, x.b); break;
			default: x.op = Op::Bad;
			}
			if (vec) { x.n = x.op == Op::ICmpN; x.op = Op::VecCmp; x.imm = E_.typeInfo(C->getOperand(0)->getType())->leaves.size(); }
			return;
		}
		if (auto* C = dyn_cast<FCmpInst>(&I)) { x.op = vec ? Op::Bad : Op::FCmp; x.a = opnd(C->getOperand(0)); x.b = opnd(C->getOperand(1)); x.w = scalW(C->getOperand(0)->getType()); x.sub = (uint8_t)C->getPredicate(); return; }
		if (auto* C = dyn_cast<CastInst>(&I)) {
			x.a = opnd(C->getOperand(0)); x.w2 = scalW(C->getSrcTy()); x.w = scalW(C->getDestTy()); x.op = Op::Cast;
			switch (C->getOpcode()) {
			case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: x.sub = 0; if (x.w < x.w2) x.sub = 2; if (x.w == x.w2) x.op = Op::Copy; break;
			case Instruction::SExt: x.sub = 1; break; case Instruction::Trunc: x.sub = 2; break;
			case Instruction::BitCast: if (vec || T->isVectorTy()) { x.op = Op::VecCast; x.sub = 255; x.ty = E_.typeInfo(T); const TypeInfo* st = E_.typeInfo(C->getSrcTy()); x.n = st->leaves.size(); x.w2 = st->leaves[0].w; x.w = x.ty->leaves[0].w; return; } x.op = Op::Copy; break;
			case Instruction::FPToSI: x.sub = 3; break; case Instruction::FPToUI: x.sub = 4; break; case Instruction::SIToFP: x.sub = 5; break; case Instruction::UIToFP: x.sub = 6; break; case Instruction::FPExt: x.sub = 7; break; case Instruction::FPTrunc: x.sub = 8; break;
			default: x.op = Op::Copy;
			}
			if (vec) { x.n = E_.typeInfo(T)->leaves.size(); if (x.op == Op::Copy) { x.imm = x.n; } else x.op = Op::VecCast; }
			else x.imm = 1;
			return;
		}
		if (I.getOpcode() == Instruction::FNeg) { x.op = vec ? Op::Bad : Op::FNeg; x.a = opnd(I.getOperand(0)); return; }
		if (isa<FreezeInst>(I)) { x.op = Op::Copy; x.a = opnd(I.getOperand(0)); x.imm = E_.typeInfo(T)->leaves.size(); return; }
		if (auto* S = dyn_cast<SelectInst>(&I)) { x.op = Op::Select; x.a = opnd(S->getCondition()); x.b = opnd(S->getTrueValue()); x.c = opnd(S->getFalseValue()); x.ty = E_.typeInfo(T); x.n = S->getCondition()->getType()->isVectorTy(); return; }
		if (auto* L = dyn_cast<LoadInst>(&I)) { x.op = Op::Load; x.a = opnd(L->getPointerOperand()); x.ty = E_.typeInfo(T); x.sub = L->isAtomic(); x.n = L->isVolatile(); if (T->isVectorTy() && scalW(T) % 8) x.op = Op::Bad; return; }
		if (auto* S = dyn_cast<StoreInst>(&I)) { x.op = Op::Store; x.a = opnd(S->getPointerOperand()); x.b = opnd(S->getValueOperand()); x.ty = E_.typeInfo(S->getValueOperand()->getType()); x.sub = S->isAtomic(); return; }
		if (auto* A = dyn_cast<AllocaInst>(&I)) { x.op = Op::Alloca; x.imm = E_.DL->getTypeAllocSize(A->getAllocatedType()); x.a = opnd(A->getArraySize()); x.w2 = scalW(A->getArraySize()->getType()); return; }
		if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
			if (vec) { x.op = Op::Bad; return; }
			x.op = Op::Gep; x.a = opnd(G->getPointerOperand()); int64_t off = 0;
			for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
				const Value* idx = gi.getOperand();
				if (StructType* S = gi.getStructTypeOrNull()) { off += E_.DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
				uint64_t sc = E_.DL->getTypeAllocSize(gi.getIndexedType());
				if (auto* CI = dyn_cast<ConstantInt>(idx)) { off += (int64_t)sc * CI->getSExtValue(); continue; }
				x.xs.push_back(opnd(idx)); x.ys.push_back(sc); x.ws.push_back(scalW(idx->getType()));
			}
			x.imm = (uint64_t)off; return;
		}
		if (auto* B = dyn_cast<BranchInst>(&I)) {
			if (B->isUnconditional()) { x.op = Op::Br; x.e1 = edge(I.getParent(), B->getSuccessor(0)); }
			else { x.op = Op::CondBr; x.a = opnd(B->getCondition()); x.e1 = edge(I.getParent(), B->getSuccessor(0)); x.e2 = edge(I.getParent(), B->getSuccessor(1)); }
			return;
		}
		if (auto* S = dyn_cast<SwitchInst>(&I)) {
			x.op = Op::Switch; x.a = opnd(S->getCondition()); x.w = scalW(S->getCondition()->getType()); x.e1 = edge(I.getParent(), S->getDefaultDest());
			std::map<const BasicBlock*, Edge*> em;
			for (auto& c : S->cases()) { Edge*& e = em[c.getCaseSuccessor()]; if (!e) e = edge(I.getParent(), c.getCaseSuccessor()); x.ys.push_back(c.getCaseValue()->getZExtValue()); x.es.push_back(e); }
			if (x.w > 64) x.op = Op::Bad;
			return;
		}
		if (auto* R = dyn_cast<ReturnInst>(&I)) { x.op = Op::Ret; if (R->getReturnValue()) { x.a = opnd(R->getReturnValue()); x.n = E_.typeInfo(R->getReturnValue()->getType())->leaves.size(); } return; }
		if (isa<UnreachableInst>(I)) { x.op = Op::Unreachable; return; }
		if (isa<ResumeInst>(I)) { x.op = Op::Resume; x.a = opnd(I.getOperand(0)); return; }
		if (auto* L = dyn_cast<LandingPadInst>(&I)) {
			x.op = Op::LandingPad; x.sub = L->isCleanup();
			for (unsigned i = 0; i < L->getNumClauses(); ++i) { if (L->isCatch(i)) { x.ys.push_back(E_.constScalar(L->getClause(i), nullptr)); x.ws.push_back(0); } else { x.ys.push_back(0); x.ws.push_back(1); } }
			return;
		}
		if (auto* V = dyn_cast<ExtractValueInst>(&I)) { x.op = Op::ExtractVal; unsigned off, n; aggPos(V->getAggregateOperand()->getType(), V->getIndices(), off, n); x.a = leafOf(opnd(V->getAggregateOperand()), off); x.imm = n; x.op = Op::Copy; return; }
		if (auto* V = dyn_cast<InsertValueInst>(&I)) { x.op = Op::InsertVal; unsigned off, n; aggPos(T, V->getIndices(), off, n); x.a = opnd(V->getAggregateOperand()); x.b = opnd(V->getInsertedValueOperand()); x.imm = E_.typeInfo(T)->leaves.size(); x.n = off; x.c = n; return; }
		if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = Op::CmpXchg; x.a = opnd(X->getPointerOperand()); x.b = opnd(X->getCompareOperand()); x.c = opnd(X->getNewValOperand()); x.w = scalW(X->getCompareOperand()->getType()); return; }
		if (auto* R = dyn_cast<AtomicRMWInst>(&I)) { x.op = Op::AtomicRMW; x.a = opnd(R->getPointerOperand()); x.b = opnd(R->getValOperand()); x.sub = R->getOperation(); x.w = scalW(T); return; }
		if (isa<FenceInst>(I)) { x.op = Op::Nop; return; }
		if (auto* X = dyn_cast<ExtractElementInst>(&I)) { if (auto* CI = dyn_cast<ConstantInt>(X->getIndexOperand())) { x.op = Op::Copy; x.a = leafOf(opnd(X->getVectorOperand()), CI->getZExtValue()); x.imm = 1; return; } }
		if (auto* X = dyn_cast<InsertElementInst>(&I)) { if (auto* CI = dyn_cast<ConstantInt>(X->getOperand(2))) { x.op = Op::InsertVal; x.a = opnd(X->getOperand(0)); x.b = opnd(X->getOperand(1)); x.imm = E_.typeInfo(T)->leaves.size(); x.n = CI->getZExtValue(); x.c = 1; return; } }
		if (auto* X = dyn_cast<ShuffleVectorInst>(&I)) { x.op = Op::Shuffle; int32_t a = opnd(X->getOperand(0)), b = opnd(X->getOperand(1)); int n0 = E_.typeInfo(X->getOperand(0)->getType())->leaves.size(); for (int m : X->getShuffleMask()) x.xs.push_back(m < 0 ? leafOf(a, 0) : m < n0 ? leafOf(a, m) : leafOf(b, m - n0)); return; }
		if (auto* CB = dyn_cast<CallBase>(&I)) {
			if (CB->isInlineAsm()) { x.op = Op::Nop; if (!T->isVoidTy()) x.op = Op::Bad; return; }
			if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
				switch (II->getIntrinsicID()) {
				case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
					x.op = Op::Nop; if (II->getIntrinsicID() == Intrinsic::invariant_start) { x.op = Op::Copy; x.imm = 0; } return;
				default: break;
				}
				x.op = Op::Intr; x.n = II->getIntrinsicID();
				for (auto& A : II->args()) { if (A->getType()->isMetadataTy()) { x.xs.push_back(0); x.ws.push_back(0); continue; } const TypeInfo* ti = E_.typeInfo(A->getType()); int32_t o = opnd(A); for (unsigned i = 0; i < ti->leaves.size(); ++i) { x.xs.push_back(leafOf(o, i)); x.ws.push_back(ti->leaves[i].w); } }
				x.ty = E_.typeInfo(T);
				if (T->isVectorTy()) { x.op = Op::Bad; }
				if (auto* G = dyn_cast_or_null<GlobalVariable>(II->arg_size() ? II->getArgOperand(0)->stripPointerCasts() : nullptr)) { if (II->getIntrinsicID() == Intrinsic::threadlocal_address) x.imm = (uint64_t)G; if (II->getIntrinsicID() == Intrinsic::eh_typeid_for) x.imm = E_.globalAddr(nullptr, G); }
				return;
			}
			x.op = Op::Call; const Value* cal = CB->getCalledOperand()->stripPointerCasts();
			if (auto* GA = dyn_cast<GlobalAlias>(cal)) cal = GA->getAliaseeObject();
			if (auto* F = dyn_cast<Function>(cal)) x.callee = E_.getFunc(F); else x.a = opnd(CB->getCalledOperand());
			unsigned ai = 0;
			for (auto& A : CB->args()) { const TypeInfo* ti = E_.typeInfo(A->getType()); int32_t o = opnd(A); if (CB->isByValArgument(ai)) { x.ys.push_back(x.xs.size()); x.ys.push_back(E_.DL->getTypeAllocSize(CB->getParamByValType(ai))); } for (unsigned i = 0; i < ti->leaves.size(); ++i) { x.xs.push_back(leafOf(o, i)); x.ws.push_back(ti->leaves[i].w); } ++ai; }
			x.n = E_.typeInfo(T)->leaves.size(); x.ty = E_.typeInfo(T);
			uint32_t fixed = 0; for (unsigned i = 0; i < CB->getFunctionType()->getNumParams(); ++i) fixed += E_.typeInfo(CB->getFunctionType()->getParamType(i))->leaves.size();
			x.imm = fixed;
			if (auto* IV = dyn_cast<InvokeInst>(&I)) { x.isInvoke = true; x.e1 = edge(I.getParent(), IV->getNormalDest()); x.e2 = edge(I.getParent(), IV->getUnwindDest()); }
			return;
		}
		x.op = Op::Bad;
	}
	void aggPos(Type* T, ArrayRef<unsigned> idx, unsigned& off, unsigned& n) {
		off = 0;
		for (unsigned i : idx) {
			if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; ++j) off += E_.typeInfo(S->getElementType(j))->leaves.size(); T = S->getElementType(i); }
			else { auto* A = cast<ArrayType>(T); off += i * E_.typeInfo(A->getElementType())->leaves.size(); T = A->getElementType(); }
		}
		n = E_.typeInfo(T)->leaves.size();
	}
};
}
void Engine::decode(Func* f) { Decoder d(*this, *f); d.run(); }

// ---------------------------------------------------------------- locations
static std::string locOf(const Instruction* I) {
	if (!I) return "?";
	if (auto DLc = I->getDebugLoc()) { std::string r = DLc->getFilename().str(); if (r.size() > 2 && r.compare(0, 6, "/repo/") == 0) r = r.substr(6); return r + ":" + std::to_string(DLc.getLine()); }
	return I->getFunction()->getName().str();
}
std::string Engine::where(State& s) {
	auto& t = s.t(); if (t.st.empty()) return "?";
	// innermost frame whose location lies in /repo, else the innermost
	for (size_t i = t.st.size(); i-- > 0;) {
		Frame* f = t.st[i]; if (f->pc >= f->f->code.size()) continue;
		const Instruction* I = f->f->code[f->pc].I;
		if (auto DLc = I->getDebugLoc()) {
			const DILocation* L = DLc.get();
			while (L) { std::string fn = L->getFilename().str(); std::string dir = L->getDirectory().str(); if (fn.find("stingraykit") != std::string::npos) { size_t p = fn.find("stingraykit/"); return fn.substr(p) + ":" + std::to_string(L->getLine()); } L = L->getInlinedAt(); }
		}
	}
	Frame* f = t.st.back(); if (f->pc >= f->f->code.size()) return "?";
	if (auto DLc = f->f->code[f->pc].I->getDebugLoc()) for (const DILocation* L = DLc.get(); L; L = L->getInlinedAt()) { std::string fn = L->getFilename().str(); if (fn.find("/sx.h") == std::string::npos) return fn + ":" + std::to_string(L->getLine()); }
	return locOf(f->f->code[f->pc].I);
}
std::string Engine::backtrace(State& s) {
	std::string o; auto& t = s.t(); int n = 0;
	for (size_t i = t.st.size(); i-- > 0 && n < 24; ++n) { Frame* f = t.st[i]; o += demang(f->f->name).substr(0, 120) + " @ " + (f->pc < f->f->code.size() ? locOf(f->f->code[f->pc].I) : "?") + "\n"; }
	return o;
}

// ---------------------------------------------------------------- symbolic helpers
void Engine::addC(State& s, E c) { if (c->isTrue()) return; for (size_t i = s.cs.size(), k = 0; i-- > 0 && k < 8; ++k) if (s.cs[i] == c) return; s.cs.push_back(c); noteFixed(s, c); }
void Engine::noteFixed(State& s, E c) {
	bool neg = false;
	if (c->k == K::And && c->w == 1) { noteFixed(s, c->op[0]); noteFixed(s, c->op[1]); return; }
	if (c->k == K::Xor && c->w == 1 && c->op[1]->isTrue()) { neg = true; c = c->op[0]; }
	if (c->k != K::Eq) return;
	E a = c->op[0], b = c->op[1]; if (a->isConst()) std::swap(a, b);
	if (!b->isConst()) return;
	while (true) {
		if (a->k == K::ZExt || a->k == K::SExt) a = a->op[0];
		else if ((a->k == K::Add || a->k == K::Sub || a->k == K::Xor) && a->op[1]->isConst()) a = a->op[0];
		else if ((a->k == K::Add || a->k == K::Sub || a->k == K::Xor) && a->op[0]->isConst()) a = a->op[1];
		else if (a->k == K::Concat && a->op[0]->isConst()) a = a->op[1];
		else break;
	}
	if (a->k != K::Var) return;
	if (neg) { const VarInfo& vi = g_vars[a->aux]; if (vi.hi - vi.lo != 1) return; u128 x = a->aux < s.m.size() ? s.m[a->aux] : vi.lo; (void)x; // excluded value must be one of the two
		Assign m2 = s.m; if (m2.size() <= a->aux) m2.resize(a->aux + 1); bool e0, e1; m2[a->aux] = vi.lo; e0 = evalExpr(c, m2) != 0; m2[a->aux] = vi.hi; e1 = evalExpr(c, m2) != 0; if (e0 == e1) return; }
	if (s.fixed.size() <= a->aux) s.fixed.resize(a->aux + 1, 0);
	s.fixed[a->aux] = 1;
}
bool Engine::decide(State& s, E cond) {
	if (cond->isConst()) return cond->val != 0;
	if (allFixed(s, cond)) return evalExpr(cond, s.m) != 0;
	++st.symBranches;
	bool side = evalExpr(cond, s.m) != 0;
	E mine = side ? cond : mkNot(cond), other = side ? mkNot(cond) : cond;
	for (E c : s.cs) if (c == mine) return side;
	Assign m2 = s.m;
	Sat r = solverCheck(s.cs, other, m2, &s.fixed);
	if (r == Sat::Yes) { State* n = clone(s); n->m = m2; addC(*n, other); pending.push_back(n); addC(s, mine); }
	else if (r == Sat::Unknown) { ++st.unknownDrops; addC(s, mine); }
	else addC(s, mine); // implied, but cheap syntactic fact for later
	return side;
}
uint64_t Engine::conc(State& s, Val v, unsigned w) {
	if (!v.e) return v.c;
	if (v.e->isConst()) return v.e->c64();
	if (allFixed(s, v.e)) return (uint64_t)evalExpr(v.e, s.m);
	++st.concretized;
	uint64_t c = (uint64_t)evalExpr(v.e, s.m);
	bool b = decide(s, mkEq(v.e, mkConst(c, w))); (void)b;
	return c;
}
void Engine::assume(State& s, E cond) {
	if (cond->isTrue()) return;
	if (cond->isFalse()) { ++st.assumedAway; throw PathEnd{"assume"}; }
	for (E c : s.cs) if (c == cond) return;
	Sat r = solverCheck(s.cs, cond, s.m, &s.fixed);
	if (r == Sat::No) { ++st.assumedAway; throw PathEnd{"assume"}; }
	if (r == Sat::Unknown) { ++st.unknownDrops; throw PathEnd{"unknown"}; }
	addC(s, cond);
}
bool Engine::mustBe(State& s, E cond) {
	if (cond->isConst()) return cond->val;
	if (!evalExpr(cond, s.m)) return false;
	Assign m2 = s.m; return solverCheck(s.cs, mkNot(cond), m2, &s.fixed) == Sat::No;
}
void Engine::emitInputs(std::string& o, State& s, const Assign& m) {
	evalNewEpoch(); bool first = true; o += "[";
	for (auto& in : s.inputs) { if (!first) o += ","; first = false; char b[64]; u128 v = evalExprE(in.e, m); snprintf(b, 64, "%llu", (unsigned long long)v); o += "[\"" + jsonEsc(in.name) + "\"," + b + "]"; }
	o += "]";
}
void Engine::violation(State& s, const std::string& kind, const std::string& msg, const Assign* mo) {
	const Assign& m = mo ? *mo : s.m;
	++st.violPaths;
	std::string loc = where(s);
	std::string key = kind + "|" + msg + "|" + loc;
	if (violSeen[key]++ >= 2) return;
	g_sh->viol++;
	std::string o = "{\"type\":\"violation\",\"kind\":\"" + jsonEsc(kind) + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"loc\":\"" + jsonEsc(loc) + "\",\"stack\":\"" + jsonEsc(backtrace(s)) + "\",\"steps\":" + std::to_string(s.steps) + ",\"inputs\":";
	emitInputs(o, s, m);
	o += "}\n"; fputs(o.c_str(), outf); fflush(outf);
	if (opt.verbose) fprintf(stderr, "VIOLATION %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), backtrace(s).c_str());
	if ((int)g_sh->viol >= opt.maxViol) g_sh->stop = 1;
}
void Engine::checkOrViolate(State& s, E bad, const std::string& kind, const std::string& msg) {
	if (bad->isFalse()) return;
	Assign m2 = s.m; Sat r;
	if (evalExpr(bad, s.m)) r = Sat::Yes; else { for (E c : s.cs) if (c == mkNot(bad)) return; r = solverCheck(s.cs, bad, m2, &s.fixed); }
	if (r == Sat::Yes) violation(s, kind, msg, &m2);
	else if (r == Sat::Unknown) ++st.unknownDrops;
	if (bad->isTrue()) throw PathEnd{"violation"};
	if (r == Sat::No) { addC(s, mkNot(bad)); return; }
	// continue on the good side if possible
	Sat g = solverCheck(s.cs, mkNot(bad), s.m, &s.fixed);
	if (g != Sat::Yes) throw PathEnd{"violation"};
	addC(s, mkNot(bad));
}
void Engine::pathDone(State& s, const char* why) {
	++st.paths;
	bool take = samplesWritten < opt.sample / 2 || (samplesWritten < opt.sample && (st.paths & (st.paths - 1)) == 0) || (samplesWritten < opt.sample * 2 && st.paths % 257 == 0);
	if (take) {
		++samplesWritten;
		std::string o = "{\"type\":\"path\",\"inputs\":"; emitInputs(o, s, s.m); o += ",\"obs\":["; bool first = true; evalNewEpoch();
		for (auto& p : s.obs) { char b[40]; snprintf(b, 40, "%s%llu", first ? "" : ",", (unsigned long long)(p.first ? (uint64_t)evalExprE(p.first, s.m) : p.second)); o += b; first = false; }
		o += "],\"steps\":" + std::to_string(s.steps) + "}\n"; fputs(o.c_str(), outf);
	}
}
E Engine::newInput(State& s, const std::string& name, unsigned w, uint64_t lo, uint64_t hi) {
	int k = s.inputCount[name]++;
	std::string nm = name + "#" + std::to_string(k);
	E v = mkVar(nm, w, lo, hi);
	if (s.m.size() <= v->aux) { size_t o = s.m.size(); s.m.resize(v->aux + 1); for (; o <= v->aux; ++o) s.m[o] = g_vars[o].lo; }
	s.inputs.push_back({nm, v});
	return v;
}

// ---------------------------------------------------------------- memory
Val Engine::loadAt(Obj* o, uint64_t off, unsigned w) {
	unsigned n = (w + 7) / 8; Val v;
	bool sym = false;
	if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { sym = true; break; }
	if (!sym) {
		if (w <= 64) { uint64_t x = 0; memcpy(&x, &o->d[off], n); v.c = x & mask64(w); return v; }
		u128 x = 0; memcpy(&x, &o->d[off], n); v.e = mkConst(x, w); return v;
	}
	E r = nullptr;
	for (unsigned i = 0; i < n; ++i) { E b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8); r = r ? mkConcat(b, r) : b; }
	if (r->w > w) r = mkExtract(r, 0, w);
	if (w <= 64) return fromE(r);
	v.e = r; return v;
}
void Engine::storeAt(Obj* o, uint64_t off, Val v, unsigned w) {
	unsigned n = (w + 7) / 8;
	if (v.e && v.e->isConst()) {
		u128 x = v.e->val; memcpy(&o->d[off], &x, n); if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr; return;
	}
	if (!v.e) { uint64_t x = v.c; memcpy(&o->d[off], &x, n); if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr; return; }
	if (o->s.empty()) o->s.assign(o->size, nullptr);
	E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
	for (unsigned i = 0; i < n; ++i) { E b = mkExtract(e, i * 8, 8); if (b->isConst()) { o->d[off + i] = (uint8_t)b->c64(); o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
Engine::Ref Engine::resolve(State& s, Val addr, uint64_t n, bool write, const char* what) {
	addr = simp(s, addr);
	Ref r{}; uint64_t a = addr.c; bool sym = addr.e && !addr.e->isConst();
	if (addr.e) a = sym ? (uint64_t)evalExpr(addr.e, s.m) : addr.e->c64();
	r.o = s.mem.find(a, r.base, &r.id);
	auto bad = [&](const char* k) { char b[160]; snprintf(b, 160, "%s (%s of %llu bytes)", k, what, (unsigned long long)n); violation(s, "memory", b); if (sym) { // also explore the valid remainder
			} throw PathEnd{"violation"}; };
	const char* err = nullptr;
	if (!r.o) err = a < 4096 ? "null pointer dereference" : s.mem.everAllocated(a) ? "use after free or out-of-bounds access" : "wild pointer access";
	else if (a < r.base || a - r.base > r.o->size || n > r.o->size - (a - r.base)) err = r.o->kind == OK_Stack ? "stack buffer overflow" : r.o->kind >= OK_Global ? "global buffer overflow" : "heap buffer overflow";
	else if (write && r.o->kind == OK_Const) err = "write to constant memory";
	if (err) {
		if (sym) { // report, then continue with addresses inside the object if any other exist: constrain to differ
			violation(s, "memory", std::string(err) + " (" + what + ")");
			throw PathEnd{"violation"};
		}
		bad(err);
	}
	r.off = a - r.base;
	if (sym) {
		++st.memRes;
		r.offE = mkBin(K::Sub, addr.e, mkConst(r.base, 64));
		decide(s, mkBin(K::Ule, r.offE, mkConst(r.o->size - n, 64)));
		if (r.offE->isConst()) { r.off = r.offE->c64(); r.offE = nullptr; }
	}
	if (write) r.o = s.mem.writable(r.id);
	return r;
}
static unsigned knownTZ(E e) {
	switch (e->k) {
	case K::Const: return e->val ? (unsigned)__builtin_ctzll((uint64_t)e->val | (1ull << 63)) : 63;
	case K::Concat: { unsigned l = knownTZ(e->op[1]); return l >= e->op[1]->w || (e->op[1]->isConst() && e->op[1]->val == 0) ? e->op[1]->w + std::min(62u - std::min(62u, (unsigned)e->op[1]->w), knownTZ(e->op[0])) : l; }
	case K::ZExt: case K::SExt: return std::min(knownTZ(e->op[0]), (unsigned)e->op[0]->w);
	case K::Add: case K::Sub: return std::min(knownTZ(e->op[0]), knownTZ(e->op[1]));
	case K::Mul: return std::min(62u, knownTZ(e->op[0]) + knownTZ(e->op[1]));
	case K::Ite: return std::min(knownTZ(e->op[1]), knownTZ(e->op[2]));
	default: return 0;
	}
}
static E buildTree(E idx, uint64_t first, uint64_t step, const std::vector<E>& vals, size_t lo, size_t hi) {
	if (hi - lo == 1) return vals[lo];
	bool same = true; for (size_t i = lo + 1; i < hi; ++i) if (vals[i] != vals[lo]) { same = false; break; }
	if (same) return vals[lo];
	size_t mid = (lo + hi) / 2;
	// split at a run boundary nearest to the middle
	size_t l = mid, r2 = mid; while (l > lo && vals[l] == vals[l - 1]) --l; while (r2 < hi && vals[r2] == vals[r2 - 1]) ++r2;
	if (l > lo && (r2 >= hi || mid - l <= r2 - mid)) mid = l; else if (r2 < hi) mid = r2;
	return mkIte(mkBin(K::Ult, idx, mkConst(first + mid * step, 64)), buildTree(idx, first, step, vals, lo, mid), buildTree(idx, first, step, vals, mid, hi));
}
static bool offRange(Engine::Ref& r, uint64_t n, uint64_t& lo, uint64_t& hi, uint64_t& step) {
	lo = r.offE->umin; hi = std::min<uint64_t>(r.offE->umax, r.o->size - n);
	if (lo > hi) lo = 0;
	unsigned tz = std::min(knownTZ(r.offE), 6u); step = 1ull << tz; lo = (lo + step - 1) / step * step;
	return (hi - lo) / step < 4096;
}
Val Engine::loadScalar(State& s, Val addr, unsigned w) {
	unsigned n = (w + 7) / 8;
	Ref r = resolve(s, addr, n, false, "read");
	if (raceOn(s)) raceAccess(s, r.base + r.off, n, false, false);
	if (!r.offE) return loadAt(r.o, r.off, w);
	uint64_t lo, hi, step;
	if (!offRange(r, n, lo, hi, step)) { uint64_t o = conc(s, fromE(r.offE), 64); return loadAt(r.o, o, w); }
	std::vector<E> vals; for (uint64_t o = lo; o <= hi; o += step) vals.push_back(toE(loadAt(r.o, o, w), w));
	return fromE(buildTree(r.offE, lo, step, vals, 0, vals.size()));
}
void Engine::storeScalar(State& s, Val addr, Val v, unsigned w) {
	unsigned n = (w + 7) / 8;
	Ref r = resolve(s, addr, n, true, "write");
	if (raceOn(s)) raceAccess(s, r.base + r.off, n, true, false);
	if (!r.offE) { storeAt(r.o, r.off, v, w); return; }
	uint64_t lo, hi, step;
	if (!offRange(r, n, lo, hi, step) || (hi - lo) / step > 512) { uint64_t o = conc(s, fromE(r.offE), 64); r.o = s.mem.writable(r.id); storeAt(r.o, o, v, w); return; }
	std::vector<Val> nv; for (uint64_t o = lo; o <= hi; o += step) { if (step < n) break; nv.push_back(fromE(mkIte(mkEq(r.offE, mkConst(o, 64)), toE(v, w), toE(loadAt(r.o, o, w), w)))); }
	if (step >= n) { size_t i = 0; for (uint64_t o = lo; o <= hi; o += step) storeAt(r.o, o, nv[i++], w); return; }
	E ev = toE(v, w); if (ev->w < n * 8) ev = mkZExt(ev, n * 8);
	for (uint64_t o = lo; o < hi + n; ++o) {
		E old = toE(loadAt(r.o, o, 8), 8), ne = old;
		for (unsigned i = 0; i < n; ++i) if (o >= i && o - i >= lo && o - i <= hi && (o - i - lo) % step == 0) ne = mkIte(mkEq(r.offE, mkConst(o - i, 64)), mkExtract(ev, i * 8, 8), ne);
		storeAt(r.o, o, fromE(ne), 8);
	}
}
uint64_t Engine::rd(State& s, uint64_t addr, unsigned bytes) { return conc(s, loadScalar(s, cv(addr), bytes * 8), bytes * 8); }
void Engine::wr(State& s, uint64_t addr, uint64_t v, unsigned bytes) { storeScalar(s, cv(addr), cv(v), bytes * 8); }
std::string Engine::cstr(State& s, uint64_t addr, size_t max) { std::string r; while (r.size() < max) { char c = (char)rd(s, addr + r.size(), 1); if (!c) break; r += c; } return r; }
void Engine::memcopy(State& s, uint64_t d, uint64_t sr, uint64_t n) {
	if (!n) return;
	Ref a = resolve(s, cv(sr), n, false, "read"); Ref b = resolve(s, cv(d), n, true, "write");
	if (raceOn(s)) { raceAccess(s, sr, n, false, false); raceAccess(s, d, n, true, false); }
	if (a.id == b.id) a.o = b.o;
	memmove(&b.o->d[b.off], &a.o->d[a.off], n);
	if (!a.o->s.empty()) {
		if (b.o->s.empty()) { bool any = false; for (uint64_t i = 0; i < n; ++i) if (a.o->s[a.off + i]) { any = true; break; } if (!any) return; b.o->s.assign(b.o->size, nullptr); }
		memmove(&b.o->s[b.off], &a.o->s[a.off], n * sizeof(E));
	} else if (!b.o->s.empty()) for (uint64_t i = 0; i < n; ++i) b.o->s[b.off + i] = nullptr;
}
void Engine::freeObj(State& s, Val p, ObjKind k, const char* what) {
	uint64_t a = conc(s, p, 64); if (!a) return;
	uint64_t base, id; Obj* o = s.mem.find(a, base, &id);
	if (!o) { violation(s, "memory", std::string("double free or invalid free (") + what + ")"); throw PathEnd{"violation"}; }
	if (a != base || o->kind != k) { violation(s, "memory", std::string(a != base ? "free of interior pointer (" : "mismatched deallocation (") + what + ")"); throw PathEnd{"violation"}; }
	if (raceOn(s)) raceAccess(s, base, o->size > 4096 ? 4096 : o->size, true, false);
	s.mem.free(id); if (k != OK_Malloc) --s.heapLive;
}

// ---------------------------------------------------------------- control
void Engine::takeEdge(State& s, Edge* e) {
	Frame& f = s.top();
	if (e->copies.size() == 1) { auto& c = e->copies[0]; f.r[c.first] = c.second >= 0 ? f.r[c.second] : f.f->consts[~c.second]; }
	else if (!e->copies.empty()) {
		static std::vector<Val> tmp; tmp.clear();
		for (auto& c : e->copies) tmp.push_back(c.second >= 0 ? f.r[c.second] : f.f->consts[~c.second]);
		size_t i = 0; for (auto& c : e->copies) f.r[c.first] = tmp[i++];
	}
	f.pc = e->pc;
}
// the text of an exception is part of no property: inside the functions that only build it, numbers take any one feasible value
Val Engine::anyValue(State& s, Val v) { if (v.e && v.e->w <= 64) return cv((uint64_t)evalExpr(v.e, s.m)); return v; }
void Engine::pushFrame(State& s, Func* f, const std::vector<Val>& args, uint32_t nfixed) {
	if (!f->decoded) decode(f);
	f->executed = true;
	if (s.t().st.size() > 3000) { violation(s, "hang", "unbounded recursion (stack overflow)"); throw PathEnd{"violation"}; }
	Frame* fr = new Frame(); fr->f = f; fr->r.resize(f->nregs);
	fr->msg = f->msgOnly || (s.t().st.size() && s.t().st.back()->msg);
	for (uint32_t i = 0; i < f->nargs && i < args.size(); ++i) fr->r[i] = fr->msg ? anyValue(s, args[i]) : args[i];
	if (f->isVarArg) {
		size_t nv = args.size() > nfixed ? args.size() - nfixed : 0;
		fr->vaObj = s.mem.alloc(nv * 8 + 8, OK_Stack, "varargs");
		uint64_t b, id; s.mem.find(fr->vaObj, b, &id); Obj* o = s.mem.writable(id);
		for (size_t i = 0; i < nv; ++i) { Val v = args[nfixed + i]; if (v.e && v.e->w < 64) v.e = mkZExt(v.e, 64); storeAt(o, i * 8, v, 64); }
		fr->allocas.push_back(id);
	}
	s.t().st.push_back(fr);
}
void Engine::setResult(State& s, Inst& I, Val v) { s.top().r[I.dst] = simp(s, v); }
void Engine::finishCall(State& s, Inst& I) { if (I.isInvoke) takeEdge(s, I.e1); else s.top().pc++; }
void Engine::ret(State& s, const Val* v, uint32_t n) {
	Thread& t = s.t(); Frame* f = t.st.back();
	std::vector<Val> vals(v, v + n);
	for (uint64_t id : f->allocas) s.mem.free(id);
	uint64_t fo = f->freeOnRet;
	uint8_t onRet = f->onRet;
	t.st.pop_back(); if (--f->rc == 0) delete f;
	if (fo) { uint64_t b, id; if (s.mem.find(fo, b, &id)) s.mem.free(id); }
	if (onRet || t.st.empty()) { // thread entry or detached call boundary
		if (t.st.empty()) { if (onRet != 2) t.retval = n ? (vals[0].e ? 0 : vals[0].c) : 0; return; }
		return; // engine-pushed call: resume the interrupted frame without touching its pc
	}
	Frame& c = s.top(); Inst& I = c.f->code[c.pc];
	for (uint32_t i = 0; i < I.n && i < n; ++i) c.r[I.dst + i] = vals[i];
	finishCall(s, I);
}
void Engine::call(State& s, Inst& I, Func* f, std::vector<Val>& args) {
	if (f->bi) {
		f->executed = true; f->bi(s, I, args); return; }
	if (f->unresolved) {
		unresolvedHit[f->name]++;
		if (opt.verbose) fprintf(stderr, "unresolved external %s\n%s", f->name.c_str(), backtrace(s).c_str());
		throw PathEnd{"unresolved"};
	}
	if (opt.traceCalls) fprintf(stderr, "%*s%s\n", (int)s.t().st.size(), "", demang(f->name).c_str());
	for (size_t i = 0; i + 1 < I.ys.size(); i += 2) { // byval
		uint64_t sz = I.ys[i + 1]; uint64_t src = conc(s, args[I.ys[i]], 64); uint64_t a = s.mem.alloc(sz, OK_Stack, "byval"); memcopy(s, a, src, sz);
		uint64_t b, id; s.mem.find(a, b, &id); s.top().allocas.push_back(id); args[I.ys[i]] = cv(a);
	}
	pushFrame(s, f, args, (uint32_t)I.imm);
}

// ---------------------------------------------------------------- exceptions
ExcRec* Engine::excRec(State& s, uint64_t obj) { for (auto& e : s.exc) if (e.obj == obj) return &e; return nullptr; }
static std::string g_vt[5] = {"_ZTVN10__cxxabiv117__class_type_infoE", "_ZTVN10__cxxabiv120__si_class_type_infoE", "_ZTVN10__cxxabiv121__vmi_class_type_infoE", "_ZTVN10__cxxabiv119__pointer_type_infoE", ""};
static int tiKind(Engine& e, State& s, uint64_t ti) {
	static uint64_t va[4] = {0, 0, 0, 0}; static bool init = false;
	if (!init) { init = true; for (int i = 0; i < 4; ++i) if (auto* g = e.M->getNamedGlobal(g_vt[i])) va[i] = e.globals[g] + 16; }
	uint64_t b; Obj* o = s.mem.find(ti, b); if (!o || o->size < 16) return -1;
	uint64_t v; memcpy(&v, &o->d[ti - b], 8);
	for (int i = 0; i < 4; ++i) if (va[i] && v == va[i]) return i;
	return -1;
}
// every base subobject: calls fn(ti, addr, isPublic)
static void walkBases(Engine& e, State& s, uint64_t ti, uint64_t addr, bool have, bool pub, const std::function<void(uint64_t, uint64_t, bool)>& fn) {
	fn(ti, addr, pub);
	int k = tiKind(e, s, ti);
	if (k == 1) walkBases(e, s, e.rd(s, ti + 16, 8), addr, have, pub, fn);
	else if (k == 2) {
		uint32_t n = (uint32_t)e.rd(s, ti + 20, 4);
		for (uint32_t i = 0; i < n; ++i) {
			uint64_t bt = e.rd(s, ti + 24 + i * 16, 8); int64_t fl = (int64_t)e.rd(s, ti + 32 + i * 16, 8); int64_t off = fl >> 8;
			uint64_t a = addr;
			if (have) { if (fl & 1) { uint64_t vt = e.rd(s, addr, 8); off = (int64_t)e.rd(s, vt + off, 8); } a = addr + off; }
			walkBases(e, s, bt, a, have, pub && (fl & 2), fn);
		}
	}
}
bool Engine::typeUpcast(State& s, uint64_t ti, uint64_t objAddr, uint64_t dst, uint64_t& out, bool have) {
	bool f = false; uint64_t o = objAddr;
	walkBases(*this, s, ti, objAddr, have, true, [&](uint64_t t, uint64_t a, bool pub) { if (t == dst && pub && !f) { f = true; o = a; } });
	out = o; return f;
}
bool Engine::catchMatch(State& s, uint64_t thrown, uint64_t catcher, uint64_t& adj) {
	if (catcher == 0) return true;
	if (thrown == catcher) return true;
	if (tiKind(*this, s, thrown) == 3) { if (tiKind(*this, s, catcher) == 3) { uint64_t a = rd(s, thrown + 24, 8), b = rd(s, catcher + 24, 8); if (a == b) { adj = rd(s, adj, 8); return true; } } return false; }
	return typeUpcast(s, thrown, adj, catcher, adj, true);
}
static std::vector<uint64_t> g_typeIds;
static uint32_t typeId(uint64_t ti) { for (size_t i = 0; i < g_typeIds.size(); ++i) if (g_typeIds[i] == ti) return i + 1; g_typeIds.push_back(ti); return g_typeIds.size(); }
static bool lpMatch(Engine& e, State& s, Inst& L, uint64_t obj, uint32_t& sel, uint64_t& adj) {
	ExcRec* r = e.excRec(s, obj);
	for (size_t i = 0; i < L.ys.size(); ++i) {
		if (L.ws[i] == 1) { sel = (uint32_t)-1; return true; } // filter: treated as a handler (std::unexpected)
		uint64_t a = obj; if (e.catchMatch(s, r->tinfo, L.ys[i], a)) { sel = typeId(L.ys[i]); adj = a; if (tiKind(e, s, r->tinfo) == 3) adj = a; return true; }
	}
	sel = 0; return false;
}
static std::string excDescr(Engine& e, State& s, uint64_t obj) {
	ExcRec* r = e.excRec(s, obj); std::string d = "?";
	if (r) { uint64_t b; Obj* o = s.mem.find(r->tinfo, b); if (o && o->name) d = demang(o->name); }
	return d;
}
void Engine::throwExc(State& s, uint64_t obj) {
	Thread& t = s.t();
	// search phase
	bool found = false;
	for (size_t i = t.st.size(); i-- > 0 && !found;) {
		Frame* f = t.st[i]; Inst& I = f->f->code[f->pc];
		if (I.op == Op::Call && I.isInvoke) { Inst& L = f->f->code[I.e2->pc]; uint32_t sel; uint64_t adj; if (L.op == Op::LandingPad && lpMatch(*this, s, L, obj, sel, adj)) found = true; }
		if (f->onRet == 1) break;
	}
	if (!found) { violation(s, "exception", "uncaught exception " + excDescr(*this, s, obj)); throw PathEnd{"violation"}; }
	t.inflight = obj; unwind(s);
}
void Engine::unwind(State& s) {
	Thread& t = s.t(); uint64_t obj = t.inflight;
	for (bool first = true;; first = false) {
		if (t.st.empty()) { violation(s, "exception", "uncaught exception " + excDescr(*this, s, obj)); throw PathEnd{"violation"}; }
		Frame* f = t.st.back(); Inst& I = f->f->code[f->pc];
		if (I.op == Op::Call && I.isInvoke) {
			Inst& L = f->f->code[I.e2->pc]; uint32_t sel = 0; uint64_t adj = obj;
			bool hit = lpMatch(*this, s, L, obj, sel, adj);
			if (hit || L.sub) {
				if (hit) { ExcRec* r = excRec(s, obj); r->adj = adj; }
				takeEdge(s, I.e2);
				Frame& fr = s.top(); fr.r[L.dst] = cv(obj); fr.r[L.dst + 1] = cv(sel); fr.pc++;
				return;
			}
		}
		for (uint64_t id : f->allocas) s.mem.free(id);
		uint64_t fo = f->freeOnRet; (void)fo;
		t.st.pop_back(); if (--f->rc == 0) delete f;
	}
}

// ---------------------------------------------------------------- exec
static inline uint64_t bin64(K k, uint64_t a, uint64_t b, unsigned w) {
	uint64_t M = mask64(w);
	switch (k) {
	case K::Add: return (a + b) & M; case K::Sub: return (a - b) & M; case K::Mul: return (a * b) & M;
	case K::And: return a & b; case K::Or: return a | b; case K::Xor: return a ^ b;
	case K::Shl: return b >= w ? (w == 32 || w == 64 ? (a << (b & (w - 1))) & M : 0) : (a << b) & M;
	case K::LShr: return b >= w ? (w == 32 || w == 64 ? a >> (b & (w - 1)) : 0) : a >> b;
	case K::AShr: { int64_t x = sext64(a, w); if (b >= w) b = w == 32 || w == 64 ? b & (w - 1) : w - 1; return (uint64_t)(x >> b) & M; }
	case K::Eq: return a == b; case K::Ult: return a < b; case K::Ule: return a <= b; case K::Slt: return sext64(a, w) < sext64(b, w); case K::Sle: return sext64(a, w) <= sext64(b, w);
	case K::UDiv: return a / b; case K::URem: return a % b;
	case K::SDiv: { int64_t x = sext64(a, w), y = sext64(b, w); return y == -1 ? (0 - a) & M : (uint64_t)(x / y) & M; }
	case K::SRem: { int64_t x = sext64(a, w), y = sext64(b, w); return y == -1 ? 0 : (uint64_t)(x % y) & M; }
	default: abort();
	}
}
static Val doBin(Engine& E_, State& s, K k, Val a, Val b, unsigned w) {
	if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) {
		if (b.e) E_.checkOrViolate(s, mkEq(b.e, mkConst(0, w)), "arith", "division by zero");
		else if (!b.c) { E_.violation(s, "arith", "division by zero"); throw PathEnd{"violation"}; }
		if ((k == K::SDiv || k == K::SRem) && (w == 32 || w == 64)) {
			if (!b.e && b.c == mask64(w) && !a.e && a.c == 1ull << (w - 1)) { E_.violation(s, "arith", "signed division overflow"); throw PathEnd{"violation"}; }
			if (b.e || (a.e && b.c == mask64(w))) E_.checkOrViolate(s, mkAnd(mkEq(toE(a, w), mkConst((u128)1 << (w - 1), w)), mkEq(toE(b, w), mkConst(mask64(w), w))), "arith", "signed division overflow");
		}
	}
	if (!a.e && !b.e && w <= 64) return cv(bin64(k, a.c, b.c, w));
	E x = toE(a, w), y = toE(b, w);
	if ((k == K::Shl || k == K::LShr || k == K::AShr) && !y->isConst() && (w == 32 || w == 64) && y->umax >= w) y = mkBin(K::And, y, mkConst(w - 1, w));
	E r = mkBin(k, x, y);
	if (r->w <= 64) return fromE(r);
	Val v; v.e = r; return v;
}
static double toD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromDbl(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }
static Val doFp(K k, Val a, Val b, unsigned ow, unsigned w, unsigned aux = 0) { return fromE(mkFp(k, toE(a, ow), (k == K::FAdd || k == K::FSub || k == K::FMul || k == K::FDiv || k == K::FEq || k == K::FLt || k == K::FLe || k == K::FUno) ? toE(b, ow) : nullptr, w, aux)); }
static Val doCast(unsigned sub, Val a, unsigned w2, unsigned w) {
	if (!a.e && w <= 64 && sub <= 2) { if (sub == 1) return cv((uint64_t)sext64(a.c, w2) & mask64(w)); return cv(a.c & mask64(w)); }
	if (sub <= 2) { E e = toE(a, w2); E r = sub == 0 ? mkZExt(e, w) : sub == 1 ? mkSExt(e, w) : mkExtract(e, 0, w); if (w <= 64) return fromE(r); Val v; v.e = r; return v; }
	static const K ks[] = {K::FPToSI, K::FPToUI, K::SIToFP, K::UIToFP, K::FPExt, K::FPTrunc};
	if (w == 80 || w2 == 80) { g_eng->unresolvedHit["x86_fp80"]++; throw PathEnd{"unresolved"}; }
	return doFp(ks[sub - 3], a, Val(), w2, w);
}

void Engine::exec(State& s, Inst& I) {
	Frame& f = s.top();
	#define V(i) ((i) >= 0 ? f.r[i] : f.f->consts[~(i)])
	switch (I.op) {
	case Op::Bin: { f.r[I.dst] = simp(s, doBin(*this, s, (K)I.sub, V(I.a), V(I.b), I.w)); f.pc++; break; }
	case Op::ICmpN: { Val r = doBin(*this, s, (K)I.sub, V(I.a), V(I.b), I.w); f.r[I.dst] = r.e ? fromE(mkNot(r.e)) : cv(!r.c); f.pc++; break; }
	case Op::FBin: {
		Val a = V(I.a), b = V(I.b);
		if (I.w == 80) { unresolvedHit["x86_fp80"]++; throw PathEnd{"unresolved"}; }
		if (I.sub == 255) { uint64_t x = conc(s, a, I.w), y = conc(s, b, I.w); f.r[I.dst] = cv(fromDbl(fmod(toD(x, I.w), toD(y, I.w)), I.w)); }
		else f.r[I.dst] = doFp((K)I.sub, a, b, I.w, I.w);
		f.pc++; break; }
	case Op::FCmp: {
		Val a = V(I.a), b = V(I.b); E x = toE(a, I.w), y = toE(b, I.w); E r = nullptr;
		auto p = (CmpInst::Predicate)I.sub; bool un = p >= CmpInst::FCMP_UNO && p != CmpInst::FCMP_TRUE; E u = mkFp(K::FUno, x, y, 1);
		switch (p) {
		case CmpInst::FCMP_FALSE: r = mkFalse(); un = false; break; case CmpInst::FCMP_TRUE: r = mkTrue(); break;
		case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = mkFp(K::FEq, x, y, 1); break;
		case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkFp(K::FLt, y, x, 1); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = mkFp(K::FLe, y, x, 1); break;
		case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkFp(K::FLt, x, y, 1); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkFp(K::FLe, x, y, 1); break;
		case CmpInst::FCMP_ONE: r = mkAnd(mkNot(u), mkNot(mkFp(K::FEq, x, y, 1))); break; case CmpInst::FCMP_UNE: r = mkNot(mkFp(K::FEq, x, y, 1)); break;
		case CmpInst::FCMP_ORD: r = mkNot(u); break; case CmpInst::FCMP_UNO: r = u; break; default: abort();
		}
		if (un && p != CmpInst::FCMP_UNE) r = mkOr(u, r);
		f.r[I.dst] = fromE(r); f.pc++; break; }
	case Op::FNeg: { Val a = V(I.a); f.r[I.dst] = fromE(mkBin(K::Xor, toE(a, I.w), mkConst((u128)1 << (I.w - 1), I.w))); f.pc++; break; }
	case Op::Cast: f.r[I.dst] = doCast(I.sub, V(I.a), I.w2, I.w); f.pc++; break;
	case Op::Copy: { for (uint64_t i = 0; i < I.imm; ++i) { int32_t o = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i; f.r[I.dst + i] = V(o); } f.pc++; break; }
	case Op::Select: {
		Val c = V(I.a); size_t n = I.ty->leaves.size();
		for (size_t i = 0; i < n; ++i) {
			if (I.n) { int32_t o = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i; c = V(o); }
			int32_t bo = I.b >= 0 ? I.b + (int32_t)i : I.b - (int32_t)i, co = I.c >= 0 ? I.c + (int32_t)i : I.c - (int32_t)i;
			Val x = V(bo), y = V(co);
			if (!c.e) f.r[I.dst + i] = c.c & 1 ? x : y;
			else { unsigned w = I.ty->leaves[i].w; E r = mkIte(c.e, toE(x, w), toE(y, w)); if (w <= 64) f.r[I.dst + i] = fromE(r); else f.r[I.dst + i].e = r; }
		}
		f.pc++; break; }
	case Op::Load: {
		Val a = V(I.a); size_t n = I.ty->leaves.size();
		// a pointer fetched from a symbolic place: enumerate the places instead of carrying a choice of pointers
		if (a.e && n == 1 && I.I->getType()->isPointerTy()) a = cv(conc(s, simp(s, a), 64));
		if (I.sub && raceOn(s)) raceAccess(s, conc(s, a, 64), I.ty->size, false, true);
		if (n == 1) { bool so = opt.race; if (I.sub) opt.race = false; Val v; try { v = loadScalar(s, a, I.ty->leaves[0].w); } catch (...) { opt.race = so; throw; } opt.race = so; s.top().r[I.dst] = s.top().msg ? anyValue(s, v) : simp(s, v); }
		else if (n) { uint64_t ad = conc(s, a, 64); std::vector<Val> vs; for (auto& l : I.ty->leaves) vs.push_back(loadScalar(s, cv(ad + l.off), l.w)); for (size_t i = 0; i < n; ++i) s.top().r[I.dst + i] = vs[i]; }
		s.top().pc++; break; }
	case Op::Store: {
		Val a = V(I.a); size_t n = I.ty->leaves.size();
		if (I.sub && raceOn(s)) raceAccess(s, conc(s, a, 64), I.ty->size, true, true);
		if (n == 1) { bool so = opt.race; if (I.sub) opt.race = false; try { storeScalar(s, a, V(I.b), I.ty->leaves[0].w); } catch (...) { opt.race = so; throw; } opt.race = so; }
		else if (n) { uint64_t ad = conc(s, a, 64); for (size_t i = 0; i < n; ++i) { int32_t o = I.b >= 0 ? I.b + (int32_t)i : I.b - (int32_t)i; Val v = V(o); storeScalar(s, cv(ad + I.ty->leaves[i].off), v, I.ty->leaves[i].w); } }
		s.top().pc++; break; }
	case Op::Alloca: { uint64_t n = conc(s, V(I.a), I.w2) * I.imm; uint64_t a = s.mem.alloc(n ? n : 1, OK_Stack, "alloca"); Frame& g = s.top(); g.allocas.push_back((a - ADDR_BASE) >> SLOT_BITS); g.r[I.dst] = cv(a); g.pc++; break; }
	case Op::Gep: {
		Val a = V(I.a); bool sym = a.e != nullptr;
		for (int32_t x : I.xs) if (V(x).e) sym = true;
		if (!sym) { uint64_t r = a.c + I.imm; for (size_t i = 0; i < I.xs.size(); ++i) r += (uint64_t)sext64(V(I.xs[i]).c, I.ws[i]) * I.ys[i]; f.r[I.dst] = cv(r); }
		else { E r = mkBin(K::Add, toE(a, 64), mkConst(I.imm, 64)); for (size_t i = 0; i < I.xs.size(); ++i) { E x = toE(V(I.xs[i]), I.ws[i]); x = mkSExt(x, 64); r = mkBin(K::Add, r, mkBin(K::Mul, x, mkConst(I.ys[i], 64))); } f.r[I.dst] = fromE(r); }
		f.pc++; break; }
	case Op::Br: takeEdge(s, I.e1); break;
	case Op::CondBr: { Val c = V(I.a); ++st.branches; bool b = c.e ? decide(s, c.e) : (c.c & 1); takeEdge(s, b ? I.e1 : I.e2); break; }
	case Op::Switch: {
		Val c = V(I.a);
		if (!c.e) { Edge* e = I.e1; for (size_t i = 0; i < I.ys.size(); ++i) if (I.ys[i] == c.c) { e = I.es[i]; break; } takeEdge(s, e); break; }
		uint64_t v = (uint64_t)evalExpr(c.e, s.m); Edge* e = I.e1; for (size_t i = 0; i < I.ys.size(); ++i) if (I.ys[i] == v) { e = I.es[i]; break; }
		E cond = mkFalse();
		for (size_t i = 0; i < I.ys.size(); ++i) { bool in = e == I.e1 ? true : I.es[i] == e; if (in) cond = mkOr(cond, mkEq(c.e, mkConst(I.ys[i], I.w))); }
		if (e == I.e1) cond = mkNot(cond);
		bool side = decide(s, cond); (void)side;
		takeEdge(s, e); break; }
	case Op::Ret: { std::vector<Val> v(I.n); for (uint32_t i = 0; i < I.n; ++i) { int32_t o = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i; v[i] = V(o); } ret(s, v.data(), I.n); break; }
	case Op::Call: {
		Func* fn = I.callee;
		if (!fn) { uint64_t a = conc(s, V(I.a), 64); auto it = funcByAddr.find(a); if (it == funcByAddr.end()) { violation(s, "memory", a ? "call through invalid function pointer" : "call through null function pointer"); throw PathEnd{"violation"}; } fn = it->second; }
		std::vector<Val> args(I.xs.size()); for (size_t i = 0; i < I.xs.size(); ++i) args[i] = V(I.xs[i]);
		call(s, I, fn, args); break; }
	case Op::Unreachable: violation(s, "ub", "reached code the compiler proved unreachable (undefined behaviour)"); throw PathEnd{"violation"};
	case Op::Resume: { Val v = V(I.a); Thread& t = s.t(); t.inflight = v.c; Frame* fr = t.st.back(); for (uint64_t id : fr->allocas) s.mem.free(id); t.st.pop_back(); if (--fr->rc == 0) delete fr; unwind(s); break; }
	case Op::LandingPad: f.pc++; break;
	case Op::InsertVal: {
		for (uint64_t i = 0; i < I.imm; ++i) {
			int32_t o; if (i >= I.n && i < I.n + (uint32_t)I.c) o = I.b >= 0 ? I.b + (int32_t)(i - I.n) : I.b - (int32_t)(i - I.n); else o = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i;
			f.r[I.dst + i] = V(o);
		}
		f.pc++; break; }
	case Op::Shuffle: { std::vector<Val> t; for (int32_t x : I.xs) t.push_back(V(x)); for (size_t i = 0; i < t.size(); ++i) f.r[I.dst + i] = t[i]; f.pc++; break; }
	case Op::VecBin: { for (uint64_t i = 0; i < I.imm; ++i) { int32_t ao = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i, bo = I.b >= 0 ? I.b + (int32_t)i : I.b - (int32_t)i; f.r[I.dst + i] = I.n ? doFp((K)I.sub, V(ao), V(bo), I.w, I.w) : doBin(*this, s, (K)I.sub, V(ao), V(bo), I.w); } f.pc++; break; }
	case Op::VecCmp: { for (uint64_t i = 0; i < I.imm; ++i) { int32_t ao = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i, bo = I.b >= 0 ? I.b + (int32_t)i : I.b - (int32_t)i; Val r = doBin(*this, s, (K)I.sub, V(ao), V(bo), I.w); if (I.n) r = r.e ? fromE(mkNot(r.e)) : cv(!r.c); f.r[I.dst + i] = r; } f.pc++; break; }
	case Op::VecCast: {
		if (I.sub != 255) { for (uint32_t i = 0; i < I.n; ++i) { int32_t o = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i; f.r[I.dst + i] = doCast(I.sub, V(o), I.w2, I.w); } f.pc++; break; }
		unsigned total = I.n * I.w2; if (total > 128) { unresolvedHit["wide vector bitcast"]++; throw PathEnd{"unresolved"}; }
		E all = nullptr; for (uint32_t i = 0; i < I.n; ++i) { int32_t o = I.a >= 0 ? I.a + (int32_t)i : I.a - (int32_t)i; E x = toE(V(o), I.w2); all = all ? mkConcat(x, all) : x; }
		for (size_t i = 0; i < I.ty->leaves.size(); ++i) { E x = mkExtract(all, i * I.w, I.w); if (I.w <= 64) f.r[I.dst + i] = fromE(x); else f.r[I.dst + i].e = x; }
		f.pc++; break; }
	case Op::CmpXchg: {
		Val ad = V(I.a); if (raceOn(s)) { raceAccess(s, conc(s, ad, 64), I.w / 8, true, true); }
		bool so = opt.race; opt.race = false;
		try {
			Val old = loadScalar(s, ad, I.w); Val cmp = V(I.b), nv = V(I.c);
			E eq = mkEq(toE(old, I.w), toE(cmp, I.w)); bool b = decide(s, eq);
			if (b) storeScalar(s, ad, nv, I.w);
			Frame& g = s.top(); g.r[I.dst] = old; g.r[I.dst + 1] = cv(b); g.pc++;
		} catch (...) { opt.race = so; throw; }
		opt.race = so; break; }
	case Op::AtomicRMW: {
		Val ad = V(I.a); if (raceOn(s)) { raceAccess(s, conc(s, ad, 64), I.w / 8, true, true); }
		bool so = opt.race; opt.race = false;
		try {
			Val old = loadScalar(s, ad, I.w), v = V(I.b), r; unsigned w = I.w;
			switch ((AtomicRMWInst::BinOp)I.sub) {
			case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = doBin(*this, s, K::Add, old, v, w); break; case AtomicRMWInst::Sub: r = doBin(*this, s, K::Sub, old, v, w); break;
			case AtomicRMWInst::And: r = doBin(*this, s, K::And, old, v, w); break; case AtomicRMWInst::Or: r = doBin(*this, s, K::Or, old, v, w); break; case AtomicRMWInst::Xor: r = doBin(*this, s, K::Xor, old, v, w); break;
			default: unresolvedHit["atomicrmw"]++; throw PathEnd{"unresolved"};
			}
			storeScalar(s, ad, r, w); Frame& g = s.top(); g.r[I.dst] = old; g.pc++;
		} catch (...) { opt.race = so; throw; }
		opt.race = so; break; }
	case Op::Intr: {
		unsigned w = I.ws.empty() ? 0 : I.ws[0];
		auto A = [&](int i) -> Val { return V(I.xs[i]); };
		auto R = [&](Val v) { s.top().r[I.dst] = v; s.top().pc++; };
		switch ((Intrinsic::ID)I.n) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = conc(s, A(2), I.ws[2]); if (n) { uint64_t d = conc(s, A(0), 64), sr = conc(s, A(1), 64); memcopy(s, d, sr, n); } s.top().pc++; break; }
		case Intrinsic::memset: { uint64_t n = conc(s, A(2), I.ws[2]); if (n) { uint64_t d = conc(s, A(0), 64); Val v = A(1); Ref r = resolve(s, cv(d), n, true, "write"); if (raceOn(s)) raceAccess(s, d, n, true, false); for (uint64_t i = 0; i < n; ++i) storeAt(r.o, r.off + i, v, 8); } s.top().pc++; break; }
		case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: R(A(0)); break;
		case Intrinsic::is_constant: R(cv(0)); break;
		case Intrinsic::objectsize: R(cv(mask64(I.ty->leaves[0].w))); break;
		case Intrinsic::stacksave: R(cv(0)); break;
		case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation(s, "abort", "trap executed"); throw PathEnd{"violation"};
		case Intrinsic::eh_typeid_for: R(cv(typeId(I.imm))); break;
		case Intrinsic::threadlocal_address: {
			auto* G = (const GlobalVariable*)I.imm; Thread& t = s.t();
			auto it = t.tls.find(G);
			if (it == t.tls.end()) { uint64_t sz = DL->getTypeAllocSize(G->getValueType()); uint64_t a = s.mem.alloc(sz, OK_Global, "tls"); if (G->hasInitializer()) writeConst(s, a, G->getInitializer()); it = t.tls.emplace(G, a).first; }
			R(cv(it->second)); break; }
		case Intrinsic::abs: { E x = toE(A(0), w); R(fromE(mkIte(mkBin(K::Slt, x, mkConst(0, w)), mkNeg(x), x))); break; }
		case Intrinsic::smax: { E x = toE(A(0), w), y = toE(A(1), w); R(fromE(mkIte(mkBin(K::Slt, x, y), y, x))); break; }
		case Intrinsic::smin: { E x = toE(A(0), w), y = toE(A(1), w); R(fromE(mkIte(mkBin(K::Slt, x, y), x, y))); break; }
		case Intrinsic::umax: { E x = toE(A(0), w), y = toE(A(1), w); R(fromE(mkIte(mkBin(K::Ult, x, y), y, x))); break; }
		case Intrinsic::umin: { E x = toE(A(0), w), y = toE(A(1), w); R(fromE(mkIte(mkBin(K::Ult, x, y), x, y))); break; }
		case Intrinsic::usub_sat: { E x = toE(A(0), w), y = toE(A(1), w); R(fromE(mkIte(mkBin(K::Ult, x, y), mkConst(0, w), mkBin(K::Sub, x, y)))); break; }
		case Intrinsic::uadd_sat: { E x = toE(A(0), w), y = toE(A(1), w); E r = mkBin(K::Add, x, y); R(fromE(mkIte(mkBin(K::Ult, r, x), mkConst(maskOf(w), w), r))); break; }
		case Intrinsic::uadd_with_overflow: { E x = toE(A(0), w), y = toE(A(1), w); E r = mkBin(K::Add, x, y); Frame& g = s.top(); g.r[I.dst] = fromE(r); g.r[I.dst + 1] = fromE(mkBin(K::Ult, r, x)); g.pc++; break; }
		case Intrinsic::usub_with_overflow: { E x = toE(A(0), w), y = toE(A(1), w); Frame& g = s.top(); g.r[I.dst] = fromE(mkBin(K::Sub, x, y)); g.r[I.dst + 1] = fromE(mkBin(K::Ult, x, y)); g.pc++; break; }
		case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
			E x = toE(A(0), w), y = toE(A(1), w); bool sub = I.n == Intrinsic::ssub_with_overflow; E r = mkBin(sub ? K::Sub : K::Add, x, y);
			E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1);
			E ov = sub ? mkAnd(mkBin(K::Xor, sx, sy), mkBin(K::Xor, sx, sr)) : mkAnd(mkNot(mkBin(K::Xor, sx, sy)), mkBin(K::Xor, sx, sr));
			Frame& g = s.top(); g.r[I.dst] = fromE(r); g.r[I.dst + 1] = fromE(ov); g.pc++; break; }
		case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
			if (w > 64) { unresolvedHit["wide mul overflow"]++; throw PathEnd{"unresolved"}; }
			E x = toE(A(0), w), y = toE(A(1), w); bool sg = I.n == Intrinsic::smul_with_overflow; E r = mkBin(K::Mul, x, y);
			E X = sg ? mkSExt(x, w * 2) : mkZExt(x, w * 2), Y = sg ? mkSExt(y, w * 2) : mkZExt(y, w * 2); E p = mkBin(K::Mul, X, Y);
			E ov = mkNot(mkEq(p, sg ? mkSExt(r, w * 2) : mkZExt(r, w * 2)));
			if (!sg && y->isConst() && y->val) ov = mkBin(K::Ult, mkConst(maskOf(w) / y->val, w), x);
			else if (!sg && x->isConst() && x->val) ov = mkBin(K::Ult, mkConst(maskOf(w) / x->val, w), y);
			Frame& g = s.top(); g.r[I.dst] = fromE(r); g.r[I.dst + 1] = fromE(ov); g.pc++; break; }
		case Intrinsic::bswap: { E x = toE(A(0), w); E r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } R(fromE(r)); break; }
		case Intrinsic::bitreverse: { E x = toE(A(0), w); E r = nullptr; for (unsigned i = 0; i < w; ++i) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } R(fromE(r)); break; }
		case Intrinsic::ctpop: { E x = toE(A(0), w); E r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkBin(K::Add, r, mkZExt(mkExtract(x, i, 1), w)); R(fromE(r)); break; }
		case Intrinsic::ctlz: { E x = toE(A(0), w); E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); R(fromE(r)); break; }
		case Intrinsic::cttz: { E x = toE(A(0), w); E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); R(fromE(r)); break; }
		case Intrinsic::fshl: case Intrinsic::fshr: {
			E x = toE(A(0), w), y = toE(A(1), w), z = mkBin(K::And, toE(A(2), w), mkConst(w - 1, w)); if (w & (w - 1)) { unresolvedHit["fshl"]++; throw PathEnd{"unresolved"}; }
			E c = mkConcat(x, y), zz = mkZExt(z, w * 2); E r = I.n == Intrinsic::fshl ? mkExtract(mkBin(K::Shl, c, zz), w, w) : mkExtract(mkBin(K::LShr, c, zz), 0, w); R(fromE(r)); break; }
		case Intrinsic::fabs: R(fromE(mkBin(K::And, toE(A(0), w), mkConst(maskOf(w) >> 1, w)))); break;
		case Intrinsic::floor: R(doFp(K::FRint, A(0), Val(), w, w, 0)); break;
		case Intrinsic::ceil: R(doFp(K::FRint, A(0), Val(), w, w, 1)); break;
		case Intrinsic::trunc: R(doFp(K::FRint, A(0), Val(), w, w, 2)); break;
		case Intrinsic::round: R(doFp(K::FRint, A(0), Val(), w, w, 3)); break;
		case Intrinsic::rint: case Intrinsic::nearbyint: R(doFp(K::FRint, A(0), Val(), w, w, 4)); break;
		case Intrinsic::sqrt: R(doFp(K::FSqrt, A(0), Val(), w, w)); break;
		case Intrinsic::fmuladd: case Intrinsic::fma: R(doFp(K::FAdd, doFp(K::FMul, A(0), A(1), w, w), A(2), w, w)); break;
		case Intrinsic::minnum: case Intrinsic::maxnum: { E x = toE(A(0), w), y = toE(A(1), w); E lt = mkFp(K::FLt, x, y, 1); R(fromE(I.n == Intrinsic::minnum ? mkIte(lt, x, y) : mkIte(lt, y, x))); break; }
		case Intrinsic::copysign: { E x = toE(A(0), w), y = toE(A(1), w); R(fromE(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); break; }
		case Intrinsic::pow: { double a = toD(conc(s, A(0), w), w), b = toD(conc(s, A(1), w), w); R(cv(fromDbl(pow(a, b), w))); break; }
		case Intrinsic::powi: { double a = toD(conc(s, A(0), w), w); int b = (int)conc(s, A(1), 32); R(cv(fromDbl(pow(a, b), w))); break; }
		case Intrinsic::log: R(cv(fromDbl(log(toD(conc(s, A(0), w), w)), w))); break;
		case Intrinsic::log2: R(cv(fromDbl(log2(toD(conc(s, A(0), w), w)), w))); break;
		case Intrinsic::log10: R(cv(fromDbl(log10(toD(conc(s, A(0), w), w)), w))); break;
		case Intrinsic::exp: R(cv(fromDbl(exp(toD(conc(s, A(0), w), w)), w))); break;
		case Intrinsic::sin: R(cv(fromDbl(sin(toD(conc(s, A(0), w), w)), w))); break;
		case Intrinsic::cos: R(cv(fromDbl(cos(toD(conc(s, A(0), w), w)), w))); break;
		case Intrinsic::is_fpclass: {
			uint32_t mask = (uint32_t)A(1).c; unsigned eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52; E x = toE(A(0), w);
			E sg = mkExtract(x, w - 1, 1), ex = mkExtract(x, mb, eb), ma = mkExtract(x, 0, mb); E e1 = mkEq(ex, mkConst(maskOf(eb), eb)), e0 = mkEq(ex, mkConst(0, eb)), m0 = mkEq(ma, mkConst(0, mb));
			E nan = mkAnd(e1, mkNot(m0)), inf = mkAnd(e1, m0), zero = mkAnd(e0, m0), subn = mkAnd(e0, mkNot(m0)), norm = mkAnd(mkNot(e0), mkNot(e1)), ns = mkNot(sg), r = mkFalse(); E q = mkExtract(x, mb - 1, 1);
			if (mask & 1) r = mkOr(r, mkAnd(nan, mkNot(q))); if (mask & 2) r = mkOr(r, mkAnd(nan, q)); if (mask & 4) r = mkOr(r, mkAnd(inf, sg)); if (mask & 8) r = mkOr(r, mkAnd(norm, sg)); if (mask & 16) r = mkOr(r, mkAnd(subn, sg)); if (mask & 32) r = mkOr(r, mkAnd(zero, sg));
			if (mask & 64) r = mkOr(r, mkAnd(zero, ns)); if (mask & 128) r = mkOr(r, mkAnd(subn, ns)); if (mask & 256) r = mkOr(r, mkAnd(norm, ns)); if (mask & 512) r = mkOr(r, mkAnd(inf, ns));
			R(fromE(r)); break; }
		case Intrinsic::vastart: {
			uint64_t p = conc(s, A(0), 64); wr(s, p, 48, 4); wr(s, p + 4, 176, 4); wr(s, p + 8, s.top().vaObj, 8); wr(s, p + 16, 0, 8); s.top().pc++; break; }
		case Intrinsic::vaend: s.top().pc++; break;
		case Intrinsic::vacopy: { uint64_t d = conc(s, A(0), 64), sr = conc(s, A(1), 64); memcopy(s, d, sr, 24); s.top().pc++; break; }
		case Intrinsic::returnaddress: case Intrinsic::frameaddress: R(cv(0)); break;
		default: { std::string n = Intrinsic::getBaseName(I.n).str(); unresolvedHit[n]++; throw PathEnd{"unresolved"}; }
		}
		break; }
	default: { std::string str; raw_string_ostream os(str); I.I->print(os); unresolvedHit["instruction:" + os.str()]++; throw PathEnd{"unresolved"}; }
	}
	#undef V
}

// ---------------------------------------------------------------- main loop
bool Engine::timeUp() { return nowSec() - g_t0 > opt.timeLimit || g_sh->stop; }
void Engine::maybeSplit() {
	if (pending.size() < 2 || !g_slots) return;
	int v = g_slots->load();
	while (v > 0) { if (g_slots->compare_exchange_weak(v, v - 1)) break; }
	if (v <= 0) return;
	fflush(outf); fflush(stderr);
	pid_t p = fork();
	if (p < 0) { g_slots->fetch_add(1); return; }
	size_t half = pending.size() / 2;
	if (p == 0) {
		// child: take every other state
		std::vector<State*> mine; for (size_t i = 0; i < pending.size(); ++i) { if (i % 2 == 0) mine.push_back(pending[i]); }
		pending = mine; cur = nullptr; st = Stats(); g_sstats = SolverStats(); samplesWritten = 0; unresolvedHit.clear();
		solverReset();
		std::string fn = opt.out + "." + std::to_string(getpid()); outf = fopen(fn.c_str(), "w");
		throw 42; // unwinds to run()
	}
	(void)half;
	std::vector<State*> mine; for (size_t i = 0; i < pending.size(); ++i) { if (i % 2 == 1) mine.push_back(pending[i]); else delete pending[i]; }
	pending = mine; g_sh->procs++;
}
void Engine::runState(State* sp) {
	State& s = *sp; cur = sp; uint64_t cnt = 0;
	try {
		for (;;) {
			Thread& t = s.t();
			if (s.sc.th[s.cur].st != SchedCore::Run || t.st.empty()) {
				if (t.st.empty() && s.sc.th[s.cur].st == SchedCore::Run) { if (s.cur == 0) { pathDone(s, "done"); break; } if (threadExit(s)) continue; }
				schedPoint(s, true); continue;
			}
			Frame* f = t.st.back(); if (f->rc > 1) { s.top(); f = t.st.back(); }
			Inst& I = f->f->code[f->pc];
			++s.steps; ++st.insts;
			if ((++cnt & 1023) == 0) {
				if (s.steps > opt.maxSteps) { violation(s, "hang", "step limit exceeded"); ++st.limitDrops; break; }
				if ((cnt & 0xffff) == 0 && timeUp()) { ++st.timeDrops; break; }
			}
			try { exec(s, I); } catch (Reexec&) {} catch (SwitchThread&) {}
			if (pending.size() >= 2 && (cnt & 255) == 0) maybeSplit();
		}
	} catch (PathEnd& p) { if (p.why == "unresolved") ++st.unknownDrops; }
	cur = nullptr; delete sp;
}
static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4 / 1024; }
void Engine::finish() {
	std::string o = "{\"type\":\"stats\"";
	auto add = [&](const char* k, uint64_t v) { o += ",\"" + std::string(k) + "\":" + std::to_string(v); };
	add("paths", st.paths); add("assumed_away", st.assumedAway); add("viol_paths", st.violPaths); add("unknown", st.unknownDrops); add("limit", st.limitDrops); add("time_drops", st.timeDrops + pending.size()); add("insts", st.insts); add("forks", st.forks); add("branches", st.branches); add("sym_branches", st.symBranches); add("mem_resolutions", st.memRes); add("asserts", st.asserts); add("sched_points", st.schedPoints); add("known_drops", st.knownDrops);
	add("queries", g_sstats.queries); add("z3_calls", g_sstats.z3calls); add("cache_hits", g_sstats.cacheHits); add("model_hits", g_sstats.modelHits); add("sat", g_sstats.sat); add("unsat", g_sstats.unsat); add("solver_unknown", g_sstats.unknown); add("solver_ms", (uint64_t)(g_sstats.z3time * 1000)); add("max_query_ms", (uint64_t)(g_sstats.maxQuery * 1000)); add("exprs", g_numExprs); add("rss_mb", rssMB());
	o += ",\"reach\":["; bool first = true; for (auto& r : reach) { o += (first ? "\"" : ",\"") + jsonEsc(r) + "\""; first = false; } o += "]";
	o += ",\"unresolved\":["; first = true; for (auto& r : unresolvedHit) { o += (first ? "\"" : ",\"") + jsonEsc(r.first) + "\""; first = false; } o += "]";
	o += ",\"data\":["; first = true; for (auto& r : dataNeeded) { o += (first ? "\"" : ",\"") + jsonEsc(r) + "\""; first = false; } o += "]";
	o += ",\"functions\":["; first = true;
	for (auto& p : funcs) if (p.second->executed && !p.second->bi) {
		std::string file; if (auto* SP = p.first->getSubprogram()) file = SP->getFilename().str();
		if (file.find("stingraykit/") == std::string::npos || file.find("/verif/") != std::string::npos) continue;
		o += (first ? "\"" : ",\"") + jsonEsc(demang(p.second->name).substr(0, 160)) + "\""; first = false;
	}
	o += "]}\n"; fputs(o.c_str(), outf); fflush(outf);
}
void Engine::run() {
	g_t0 = nowSec();
	g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (g_sh) Shared(); g_sh->slots = 0; g_sh->stop = 0; g_sh->viol = 0; g_sh->procs = 0;
	if (!opt.slots.empty()) { int fd = open(opt.slots.c_str(), O_RDWR); if (fd >= 0) { void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) g_slots = (std::atomic<int>*)p; close(fd); } }
	outf = fopen(opt.out.c_str(), "w"); if (!outf) { perror(opt.out.c_str()); exit(3); }
	State* s = new State(); s->E_ = this; s->id = nextStateId++; s->th.resize(1); s->th[0].vc = {1}; s->th[0].handle = 0x1000; s->sc.preempt = opt.preemptBound; s->sc.timeouts = opt.timeouts;
	load(); initGlobals(*s);
	// static constructors
	if (auto* G = M->getNamedGlobal("llvm.global_ctors")) {
		std::vector<std::pair<uint64_t, Function*>> cs;
		if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) cs.emplace_back(cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F); }
		std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
		for (auto& c : cs) {
			Func* f = getFunc(c.second); pushFrame(*s, f, {}, 0);
			try { while (!s->th[0].st.empty()) { Frame& fr = s->top(); Inst& I = fr.f->code[fr.pc]; ++s->steps; exec(*s, I); } }
			catch (PathEnd& p) { fprintf(stderr, "symex: static constructor failed: %s (%s)\n", f->name.c_str(), p.why.c_str()); finish(); fclose(outf); exit(4); }
		}
	}
	for (auto& p : funcs) p.second->executed = false;
	Function* EF = M->getFunction(opt.entry); if (!EF) { fprintf(stderr, "symex: no entry %s\n", opt.entry.c_str()); exit(3); }
	s->steps = 0; pushFrame(*s, getFunc(EF), {}, 0);
	pending.push_back(s);
	bool child = false;
	uint64_t n = 0;
	for (;;) {
		try {
			while (!pending.empty() && !timeUp()) {
				State* x = pending.back(); pending.pop_back();
				runState(x);
				if ((++n & 255) == 0 && rssMB() > opt.memLimitMB) { fprintf(stderr, "symex: memory limit\n"); break; }
			}
			break;
		} catch (int) { child = true; /* we are a freshly forked worker */ }
	}
	if (cur) { ++st.timeDrops; }
	finish();
	if (child) { if (g_slots) g_slots->fetch_add(1); }
	int status; int rc = 0; bool released = child;
	(void)released;
	if (!child && g_slots) { // main process: lend our own slot while waiting for workers
		g_slots->fetch_add(1); while (wait(&status) > 0) if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) rc = 5; g_slots->fetch_sub(1);
	} else while (wait(&status) > 0) if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) rc = 5;
	fclose(outf);
	if (rc) { fprintf(stderr, "symex: a worker failed\n"); }
	_exit(rc);
}

// ---------------------------------------------------------------- races and instrumentation
static bool isPoint(const Instruction* I) { auto* C = dyn_cast<CallBase>(I); return C && C->getCalledFunction() && C->getCalledFunction()->getName() == "__sx_sched_point"; }
static std::string instKey(const Instruction* I) {
	if (!I) return "?"; unsigned k = 0;
	for (auto& BB : *I->getFunction()) for (auto& J : BB) { if (isPoint(&J)) continue; if (&J == I) return I->getFunction()->getName().str() + "#" + std::to_string(k); ++k; }
	return "?";
}
void Engine::raceFound(State& s, const void* a, const void* b) {
	auto k = std::minmax(a, b); if (!racesSeen.insert({k.first, k.second}).second) return;
	auto* A = (const Instruction*)a; auto* B = (const Instruction*)b;
	std::string o = "{\"type\":\"race\",\"a\":\"" + jsonEsc(instKey(A)) + "\",\"b\":\"" + jsonEsc(instKey(B)) + "\",\"la\":\"" + jsonEsc(locOf(A)) + "\",\"lb\":\"" + jsonEsc(locOf(B)) + "\"}\n";
	fputs(o.c_str(), outf); fflush(outf);
	if (opt.verbose) fprintf(stderr, "RACE %s / %s\n%s", locOf(A).c_str(), locOf(B).c_str(), backtrace(s).c_str());
}
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <regex>
#include <fstream>
#include <iostream>
// inserts scheduling points before atomic operations located in files matching pattern, and before the listed instructions
int instrument(const std::string& in, const std::string& out, const std::string& pattern, const std::string& keysFile) {
	LLVMContext C; SMDiagnostic err; auto M = parseIRFile(in, err, C); if (!M) return 3;
	std::set<std::string> keys; { std::ifstream f(keysFile); std::string l; while (std::getline(f, l)) if (!l.empty()) keys.insert(l); }
	std::regex re(pattern.empty() ? "$^" : pattern); unsigned n = 0;
	auto FC = M->getOrInsertFunction("__sx_sched_point", FunctionType::get(Type::getVoidTy(C), false));
	for (auto& F : *M) {
		std::vector<Instruction*> at; unsigned k = 0;
		for (auto& BB : F) for (auto& I : BB) {
			if (isPoint(&I)) continue;
			bool hit = !keys.empty() && keys.count(F.getName().str() + "#" + std::to_string(k)); ++k;
			if (!hit && I.isAtomic() && !isa<FenceInst>(I)) { if (auto D = I.getDebugLoc()) for (const DILocation* L = D.get(); L && !hit; L = L->getInlinedAt()) hit = std::regex_search(L->getFilename().str(), re); }
			if (hit && !isa<PHINode>(I)) at.push_back(&I);
		}
		if (!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress);
		for (auto* I : at) { auto* CI = CallInst::Create(FC, "", I); CI->setDebugLoc(I->getDebugLoc()); ++n; }
	}
	std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 3; WriteBitcodeToFile(*M, os); os.flush(); printf("%u\n", n);
	return 0;
}
