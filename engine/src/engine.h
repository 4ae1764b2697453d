// Symbolic executor over LLVM bitcode: state, memory, decoded program.
#pragma once
#include "expr.h"
#include "solver.h"
#include "../include/sched_core.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>

namespace llvm { class Function; class Instruction; class Module; class Value; class Type; class GlobalVariable; class Constant; class BasicBlock; class DataLayout; class CallBase; }

struct Val { uint64_t c = 0; E e = nullptr; };
inline Val cv(uint64_t c) { Val v; v.c = c; return v; }

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OK_Malloc, OK_New, OK_NewArr, OK_Stack, OK_Global, OK_Const, OK_Func, OK_Exc };
struct Obj {
	uint32_t rc = 1; ObjKind kind; uint64_t size; const char* name;
	std::vector<uint8_t> d; std::vector<E> s; // s empty or size entries
	uint32_t raceIdx = 0;
};
struct Page { uint32_t rc = 1; uint32_t alive = 0; Obj* o[64] = {}; };
static const uint64_t ADDR_BASE = 0x100000000000ull;
static const unsigned SLOT_BITS = 20;
static const uint64_t OBJ_OFF = 64;

struct Mem {
	std::vector<Page*> pages; uint64_t nextSlot = 1;
	Mem() {}
	Mem(const Mem& o) : pages(o.pages), nextSlot(o.nextSlot) { for (auto p : pages) if (p) ++p->rc; }
	Mem& operator=(const Mem&) = delete;
	~Mem() { for (auto p : pages) relPage(p); }
	static void relObj(Obj* o) { if (o && o != cont() && --o->rc == 0) delete o; }
	static void relPage(Page* p) { if (p && --p->rc == 0) { for (auto o : p->o) relObj(o); delete p; } }
	static Obj* cont() { static Obj c; return &c; } // continuation slot of a large object
	uint64_t alloc(uint64_t size, ObjKind k, const char* name) {
		uint64_t n = (size + OBJ_OFF * 2) / (1ull << SLOT_BITS) + 1;
		uint64_t id = nextSlot; nextSlot += n;
		Obj* o = new Obj(); o->kind = k; o->size = size; o->name = name; o->d.assign(size, 0);
		setSlot(id, o);
		for (uint64_t i = 1; i < n; ++i) setSlot(id + i, cont());
		return ADDR_BASE + (id << SLOT_BITS) + OBJ_OFF;
	}
	void setSlot(uint64_t id, Obj* o) {
		size_t pi = id / 64;
		if (pages.size() <= pi) pages.resize(pi + 1, nullptr);
		if (!pages[pi]) pages[pi] = new Page();
		Page* p = wpage(pi);
		if (o && !p->o[id % 64]) ++p->alive;
		if (!o && p->o[id % 64]) --p->alive;
		p->o[id % 64] = o;
		if (p->alive == 0 && pi + 1 < pages.size()) { relPage(p); pages[pi] = nullptr; }
	}
	Page* wpage(size_t pi) {
		Page* p = pages[pi];
		if (p->rc > 1) { Page* q = new Page(); q->alive = p->alive; for (int i = 0; i < 64; ++i) { q->o[i] = p->o[i]; if (q->o[i] && q->o[i] != cont()) ++q->o[i]->rc; } --p->rc; pages[pi] = q; p = q; }
		return p;
	}
	// returns object and base; null if no live object
	Obj* find(uint64_t addr, uint64_t& base, uint64_t* idOut = nullptr) const {
		if (addr < ADDR_BASE) return nullptr;
		uint64_t id = (addr - ADDR_BASE) >> SLOT_BITS;
		size_t pi = id / 64;
		if (pi >= pages.size() || !pages[pi]) return nullptr;
		Obj* o = pages[pi]->o[id % 64];
		while (o == cont()) { --id; pi = id / 64; if (!pages[pi]) return nullptr; o = pages[pi]->o[id % 64]; }
		base = ADDR_BASE + (id << SLOT_BITS) + OBJ_OFF;
		if (idOut) *idOut = id;
		return o;
	}
	Obj* writable(uint64_t id) {
		size_t pi = id / 64; Page* p = wpage(pi); Obj*& o = p->o[id % 64];
		if (o->rc > 1) { Obj* n = new Obj(*o); n->rc = 1; --o->rc; o = n; }
		return o;
	}
	void free(uint64_t id) {
		Page* p = wpage(id / 64); Obj* o = p->o[id % 64];
		uint64_t n = (o->size + OBJ_OFF * 2) / (1ull << SLOT_BITS) + 1;
		relObj(o);
		for (uint64_t i = 0; i < n; ++i) setSlot(id + i, nullptr);
	}
	bool everAllocated(uint64_t addr) const { return addr >= ADDR_BASE && ((addr - ADDR_BASE) >> SLOT_BITS) < nextSlot; }
};

// ---------------------------------------------------------------- program
enum class Op : uint8_t {
	Bin, ICmpN /*negated*/, FBin, FCmp, FNeg, Cast, Copy, Select, Load, Store, Alloca, Gep, Br, CondBr, Switch, Ret, Call, Unreachable,
	Resume, LandingPad, ExtractVal, InsertVal, CmpXchg, AtomicRMW, Fence, ExtractElt, InsertElt, Shuffle, Nop, MemIntr, Intr, VecBin, VecCmp, VecCast, Bad
};
struct Leaf { uint32_t off; uint16_t w; };
struct TypeInfo { std::vector<Leaf> leaves; uint64_t size; };
struct Func;
struct Engine; struct State; struct Inst;
typedef void (*Builtin)(State&, Inst&, std::vector<Val>& args);
struct Edge { uint32_t pc; std::vector<std::pair<uint32_t, int32_t>> copies; std::vector<uint16_t> w; };
struct Inst {
	Op op = Op::Bad; uint8_t sub = 0; uint16_t w = 0, w2 = 0; uint32_t dst = 0; uint32_t n = 0;
	int32_t a = 0, b = 0, c = 0;
	uint64_t imm = 0;
	const TypeInfo* ty = nullptr;
	Edge* e1 = nullptr; Edge* e2 = nullptr;
	std::vector<int32_t> xs; std::vector<uint64_t> ys; std::vector<Edge*> es; std::vector<uint16_t> ws;
	Func* callee = nullptr; Builtin bi = nullptr; bool isInvoke = false;
	const llvm::Instruction* I = nullptr;
};
struct Func {
	const llvm::Function* F = nullptr; std::string name; bool decoded = false; bool isRepo = false;
	uint32_t nregs = 0; uint32_t nargs = 0; // argument leaf count
	std::vector<Inst> code; std::vector<Val> consts; std::vector<std::unique_ptr<Edge>> edges; std::unordered_map<const llvm::BasicBlock*, uint32_t> bbPc;
	Builtin bi = nullptr; bool unresolved = false; bool executed = false; uint64_t addr = 0; bool isVarArg = false, msgOnly = false;
};
struct Frame {
	uint32_t rc = 1; Func* f; uint32_t pc = 0; std::vector<Val> r; std::vector<uint64_t> allocas; // slot ids
	uint64_t vaObj = 0; uint64_t freeOnRet = 0; uint8_t onRet = 0, phase = 0; bool msg = false;
	Val& reg(uint32_t i) { return r[i]; }
};
struct ExcRec { uint64_t obj, tinfo, dtor, adj; int handlers; int refs; };
struct Thread {
	std::vector<Frame*> st; std::vector<uint64_t> caught; uint64_t inflight = 0; int uncaught = 0;
	int cancelState = 0;
	uint64_t retval = 0; bool detached = false; std::map<const llvm::GlobalVariable*, uint64_t> tls; std::vector<uint32_t> vc; uint64_t handle = 0;
	std::map<uint64_t, uint64_t> specific;
};
struct Input { std::string name; E e; };
struct RaceCell { int wt = -1; uint32_t wc = 0; std::vector<uint32_t> rd; const void* wi = nullptr; const void* ri = nullptr; };
struct State {
	Engine* E_; uint64_t id; Mem mem; std::vector<E> cs; Assign m; std::vector<char> fixed; // fixed: variables whose value the constraints determine
	 std::vector<Thread> th; int cur = 0;
	std::vector<Input> inputs; std::map<std::string, int> inputCount; std::vector<std::pair<E, uint64_t>> obs; // e null => constant
	std::vector<ExcRec> exc; uint64_t steps = 0; std::string note; std::vector<std::string> log;
	SchedCore sc; int curErrno = 0;
	std::map<uint64_t, std::vector<uint32_t>> syncVc; std::unordered_map<uint64_t, RaceCell> race; uint64_t heapLive = 0; std::map<std::string, int> curKnown; uint64_t forks = 0;
	std::map<uint64_t, uint64_t> keyDtor;
	State() {}
	State(const State& o);
	~State();
	Thread& t() { return th[cur]; }
	Frame& top() { Frame*& f = th[cur].st.back(); if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; --f->rc; f = n; } return *f; }
};
struct PathEnd { std::string why; };  // thrown to terminate the current path silently
struct Reexec {};                      // thrown to re-execute current instruction (state changed in place)
struct SwitchThread {};                // current thread blocked: pick another

struct Options {
	std::string bc, entry, out; double timeLimit = 600; uint64_t maxSteps = 20000000; int preemptBound = 2; unsigned sample = 16; bool verbose = false; std::string slots; int maxViol = 3; uint64_t memLimitMB = 3000; bool race = false; int maxThreadsSched = 100000; uint64_t seed = 1; bool traceCalls = false; bool leak = false; int timeouts = 2; int tier = 0; std::string replay;
};
struct Stats {
	uint64_t paths = 0, assumedAway = 0, violPaths = 0, unknownDrops = 0, limitDrops = 0, insts = 0, forks = 0, branches = 0, symBranches = 0, memRes = 0, concretized = 0, asserts = 0, schedPoints = 0, timeDrops = 0, knownDrops = 0;
};
struct Engine {
	Options opt; Stats st; llvm::Module* M = nullptr; const llvm::DataLayout* DL = nullptr;
	std::unordered_map<const llvm::Function*, Func*> funcs; std::unordered_map<uint64_t, Func*> funcByAddr; std::unordered_map<const llvm::GlobalVariable*, uint64_t> globals;
	std::unordered_map<std::string, uint64_t> dummyGlobals;
	std::map<llvm::Type*, TypeInfo*> types; std::vector<State*> pending; State* cur = nullptr; std::set<std::string> reach; std::map<std::string, int> violSeen; FILE* outf = nullptr; std::map<std::string, uint64_t> unresolvedHit; std::set<const llvm::Constant*> dataNoted; std::set<std::string> dataNeeded; void noteData(const llvm::Constant*);
	uint64_t nextStateId = 1; State* init0 = nullptr; std::vector<std::string> engineErrors; uint64_t samplesWritten = 0;

	void load(); void initGlobals(State& s);
	Func* getFunc(const llvm::Function* F); void decode(Func* f); const TypeInfo* typeInfo(llvm::Type* T);
	void writeConst(State& s, uint64_t addr, const llvm::Constant* C); uint64_t constScalar(const llvm::Constant* C, E* wide); void flattenConst(const llvm::Constant* C, std::vector<Val>& out);
	uint64_t globalAddr(State* s, const llvm::Value* G);
	void run(); void runState(State* s); void exec(State& s, Inst& I);
	State* clone(State& s);
	// symbolic helpers
	bool decide(State& s, E cond);                        // pick a side by forking; other side re-executes the instruction
	uint64_t conc(State& s, Val v, unsigned w);           // fork-concretise
	void assume(State& s, E cond);
	void addC(State& s, E c); void noteFixed(State& s, E c);
	static bool allFixed(const State& s, E e) { if (s.fixed.empty() || e->isConst()) return false; for (uint32_t v : e->vs->v) if (v >= s.fixed.size() || !s.fixed[v]) return false; return true; }
	static Val simp(const State& s, Val v) { if (v.e && !v.e->isConst() && v.e->w <= 64 && allFixed(s, v.e)) return cv((uint64_t)evalExpr(v.e, s.m)); return v; }
	bool mustBe(State& s, E cond);                        // valid?
	void violation(State& s, const std::string& kind, const std::string& msg, const Assign* m = nullptr);
	void checkOrViolate(State& s, E bad, const std::string& kind, const std::string& msg); // report if bad feasible; continue with !bad
	// memory
	struct Ref { Obj* o; uint64_t base, id; uint64_t off; E offE; };
	Ref resolve(State& s, Val addr, uint64_t n, bool write, const char* what);
	Val loadScalar(State& s, Val addr, unsigned w); void storeScalar(State& s, Val addr, Val v, unsigned w);
	Val loadAt(Obj* o, uint64_t off, unsigned w); void storeAt(Obj* o, uint64_t off, Val v, unsigned w);
	uint64_t rd(State& s, uint64_t addr, unsigned bytes); void wr(State& s, uint64_t addr, uint64_t v, unsigned bytes);
	std::string cstr(State& s, uint64_t addr, size_t max = 4096);
	void memcopy(State& s, uint64_t d, uint64_t sr, uint64_t n); void freeObj(State& s, Val p, ObjKind k, const char* what);
	// control
	Val anyValue(State& s, Val v); void call(State& s, Inst& I, Func* f, std::vector<Val>& args); void pushFrame(State& s, Func* f, const std::vector<Val>& args, uint32_t nfixed); void ret(State& s, const Val* v, uint32_t n); void takeEdge(State& s, Edge* e);
	void setResult(State& s, Inst& I, Val v); void finishCall(State& s, Inst& I);
	void throwExc(State& s, uint64_t obj); void unwind(State& s); ExcRec* excRec(State& s, uint64_t obj);
	bool catchMatch(State& s, uint64_t thrown, uint64_t catcher, uint64_t& adj); bool typeUpcast(State& s, uint64_t ti, uint64_t objAddr, uint64_t dstTi, uint64_t& out, bool haveObj);
	std::string where(State& s); std::string backtrace(State& s);
	void pathDone(State& s, const char* why); void emitInputs(std::string& o, State& s, const Assign& m);
	void maybeSplit(); bool timeUp();
	// threads
	void schedPoint(State& s, bool blocked); void raceAccess(State& s, uint64_t addr, unsigned n, bool write, bool atomic); bool threadExit(State& s); void raceFound(State& s, const void* a, const void* b); std::set<std::pair<const void*, const void*>> racesSeen; bool raceOn(State& s) { return opt.race && s.th.size() > 1; }
	E newInput(State& s, const std::string& name, unsigned w, uint64_t lo, uint64_t hi);
	void finish();
};
extern Engine* g_eng;
Builtin findBuiltin(const std::string& name);
Builtin findThreadBuiltin(const std::string& name);
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val fromE(E e) { Val v; if (e->isConst() && e->w <= 64) v.c = e->c64(); else v.e = e; return v; }
std::string jsonEsc(const std::string& s);
double nowSec();
