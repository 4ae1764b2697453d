// Engine-level implementations of externals: harness API, allocation, exceptions, libc leaves.
#include "engine.h"
#include <cmath>
#include <unordered_map>
#include <llvm/IR/Module.h>
#include <llvm/IR/GlobalVariable.h>

#define BI(name) static void name(State& s, Inst& I, std::vector<Val>& a)
#define EN (*s.E_)
static void retv(State& s, Inst& I, Val v) { if (I.n) s.top().r[I.dst] = v; s.E_->finishCall(s, I); }
static void retc(State& s, Inst& I, uint64_t c) { retv(s, I, cv(c)); }
static void done(State& s, Inst& I) { s.E_->finishCall(s, I); }

// ---- harness API
static void symIn(State& s, Inst& I, std::vector<Val>& a, unsigned w) {
	std::string n = EN.cstr(s, EN.conc(s, a[0], 64)); retv(s, I, fromE(EN.newInput(s, n, w, 0, mask64(w))));
}
BI(b_u8) { symIn(s, I, a, 8); }
BI(b_u16) { symIn(s, I, a, 16); }
BI(b_u32) { symIn(s, I, a, 32); }
BI(b_u64) { symIn(s, I, a, 64); }
BI(b_range) { // (name, lo, hi) signed 64-bit
	std::string n = EN.cstr(s, EN.conc(s, a[0], 64)); int64_t lo = (int64_t)EN.conc(s, a[1], 64), hi = (int64_t)EN.conc(s, a[2], 64);
	if (hi < lo) { ++EN.st.assumedAway; throw PathEnd{"assume"}; }
	uint64_t span = (uint64_t)hi - (uint64_t)lo; if (span == 0) { EN.newInput(s, n, 8, 0, 0); retc(s, I, (uint64_t)lo); return; }
	unsigned w = 64 - __builtin_clzll(span); if (w == 1) w = 2; if (w > 64) w = 64;
	E v = EN.newInput(s, n, w, 0, span); retv(s, I, fromE(mkBin(K::Add, mkZExt(v, 64), mkConst((uint64_t)lo, 64))));
}
BI(b_choose) { // (name, n): enumerated choice
	std::string n = EN.cstr(s, EN.conc(s, a[0], 64)); uint64_t k = EN.conc(s, a[1], 32);
	if (k == 0) { throw PathEnd{"assume"}; }
	unsigned w = 1; while ((1ull << w) < k) ++w; if (w == 1) w = 2;
	// the input must be created once even when the instruction is re-executed after a fork: fork eagerly here
	E v = EN.newInput(s, n, w, 0, k - 1);
	for (uint64_t i = 1; i < k; ++i) {
		State* c = EN.clone(s); c->m[v->aux] = i; EN.addC(*c, mkEq(v, mkConst(i, w)));
		c->top().r[I.dst] = cv(i); // deliver result in the clone
		s.E_->finishCall(*c, I);
		EN.pending.push_back(c);
	}
	s.m[v->aux] = 0; EN.addC(s, mkEq(v, mkConst(0, w))); retc(s, I, 0);
}
BI(b_bytes) { // (ptr, n, name)
	uint64_t p = EN.conc(s, a[0], 64), n = EN.conc(s, a[1], 64); std::string nm = EN.cstr(s, EN.conc(s, a[2], 64));
	for (uint64_t i = 0; i < n; ++i) EN.storeScalar(s, cv(p + i), fromE(EN.newInput(s, nm, 8, 0, 255)), 8);
	done(s, I);
}
BI(b_assume) { E e = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); EN.assume(s, e); done(s, I); }
BI(b_assert) { // (int cond, const char* msg)
	++EN.st.asserts;
	std::string m = a[1].e ? "?" : EN.cstr(s, a[1].c);
	EN.checkOrViolate(s, mkEq(toE(a[0], 32), mkConst(0, 32)), "assert", m); done(s, I);
}
BI(b_observe) { if (a[0].e) s.obs.emplace_back(a[0].e, 0); else s.obs.emplace_back(nullptr, a[0].c); done(s, I); }
BI(b_reach) { EN.reach.insert(EN.cstr(s, EN.conc(s, a[0], 64))); done(s, I); }
BI(b_conc) { retc(s, I, EN.conc(s, a[0], 64)); }
BI(b_fail) { EN.violation(s, "assert", EN.cstr(s, EN.conc(s, a[0], 64))); throw PathEnd{"violation"}; }
BI(b_known) { // (id): this path manifests a recorded finding: drop it
	++EN.st.knownDrops; EN.reach.insert("known:" + EN.cstr(s, EN.conc(s, a[0], 64))); throw PathEnd{"known"}; }
BI(b_live) { retc(s, I, s.heapLive); }
BI(b_issym) { retc(s, I, 1); }
BI(b_tier) { retc(s, I, EN.opt.tier); }
BI(b_end) { throw PathEnd{(++EN.st.paths, "end")}; }
BI(b_print) { if (EN.opt.verbose) fprintf(stderr, "sx_print: %s %s\n", EN.cstr(s, EN.conc(s, a[0], 64)).c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : std::to_string(a[1].c).c_str()); done(s, I); }

// ---- allocation
static uint64_t alloc(State& s, Val sz, ObjKind k, const char* n) {
	uint64_t c = EN.conc(s, sz, 64);
	if (c > (1ull << 28)) { EN.violation(s, "alloc", std::string("unreasonable allocation request in ") + n); throw PathEnd{"violation"}; }
	if (k != OK_Malloc) ++s.heapLive; return s.mem.alloc(c, k, n);
}
BI(b_malloc) { retc(s, I, alloc(s, a[0], OK_Malloc, "malloc")); }
BI(b_calloc) { uint64_t n = EN.conc(s, a[0], 64) * EN.conc(s, a[1], 64); retc(s, I, alloc(s, cv(n), OK_Malloc, "calloc")); }
BI(b_realloc) {
	uint64_t p = EN.conc(s, a[0], 64), n = EN.conc(s, a[1], 64);
	uint64_t q = alloc(s, cv(n), OK_Malloc, "realloc");
	if (p) { uint64_t b, id; Obj* o = s.mem.find(p, b, &id); if (!o || p != b) { EN.violation(s, "memory", "invalid realloc"); throw PathEnd{"violation"}; } uint64_t m = std::min<uint64_t>(o->size, n); EN.memcopy(s, q, p, m); s.mem.free(id); }
	retc(s, I, q);
}
BI(b_free) { EN.freeObj(s, a[0], OK_Malloc, "free"); done(s, I); }
BI(b_new) { retc(s, I, alloc(s, a[0], OK_New, "operator new")); }
BI(b_newarr) { retc(s, I, alloc(s, a[0], OK_NewArr, "operator new[]")); }
BI(b_del) { EN.freeObj(s, a[0], OK_New, "delete"); done(s, I); }
BI(b_delarr) { EN.freeObj(s, a[0], OK_NewArr, "delete[]"); done(s, I); }
BI(b_memalign) { uint64_t p = alloc(s, a[2], OK_Malloc, "posix_memalign"); EN.wr(s, EN.conc(s, a[0], 64), p, 8); retc(s, I, 0); }

// ---- memory functions
BI(b_memcpy) { uint64_t n = EN.conc(s, a[2], 64); uint64_t d = EN.conc(s, a[0], 64); if (n) { uint64_t sr = EN.conc(s, a[1], 64); EN.memcopy(s, d, sr, n); } retc(s, I, d); }
BI(b_memset) { uint64_t n = EN.conc(s, a[2], 64), d = EN.conc(s, a[0], 64); if (n) { Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; auto r = EN.resolve(s, cv(d), n, true, "memset"); if (EN.raceOn(s)) EN.raceAccess(s, d, n, true, false); for (uint64_t i = 0; i < n; ++i) EN.storeAt(r.o, r.off + i, v, 8); } retc(s, I, d); }
BI(b_memcmp) {
	uint64_t n = EN.conc(s, a[2], 64); if (!n) { retc(s, I, 0); return; }
	uint64_t x = EN.conc(s, a[0], 64), y = EN.conc(s, a[1], 64);
	auto r1 = EN.resolve(s, cv(x), n, false, "memcmp"); auto r2 = EN.resolve(s, cv(y), n, false, "memcmp");
	if (EN.raceOn(s)) { EN.raceAccess(s, x, n, false, false); EN.raceAccess(s, y, n, false, false); }
	E res = mkConst(0, 32);
	for (uint64_t i = n; i-- > 0;) {
		E p = toE(EN.loadAt(r1.o, r1.off + i, 8), 8), q = toE(EN.loadAt(r2.o, r2.off + i, 8), 8);
		res = mkIte(mkEq(p, q), res, mkIte(mkBin(K::Ult, p, q), mkConst(0xffffffffu, 32), mkConst(1, 32)));
	}
	retv(s, I, fromE(res));
}

// ---- C++ ABI
BI(b_cxa_alloc) { uint64_t n = EN.conc(s, a[0], 64); retc(s, I, s.mem.alloc(n ? n : 1, OK_Exc, "exception")); }
BI(b_cxa_free) { uint64_t p = EN.conc(s, a[0], 64), b, id; if (s.mem.find(p, b, &id)) s.mem.free(id); done(s, I); }
BI(b_cxa_throw) {
	uint64_t obj = EN.conc(s, a[0], 64), ti = EN.conc(s, a[1], 64), dt = EN.conc(s, a[2], 64);
	s.exc.push_back(ExcRec{obj, ti, dt, obj, 0, 1}); ++s.t().uncaught; EN.throwExc(s, obj);
}
static void relExc(State& s, uint64_t obj, bool advance, Inst* I) { // drop a reference; runs destructor when last
	ExcRec* r = EN.excRec(s, obj);
	if (!r) { if (advance) done(s, *I); return; }
	if (--r->refs > 0) { if (advance) done(s, *I); return; }
	uint64_t d = r->dtor; for (size_t i = 0; i < s.exc.size(); ++i) if (s.exc[i].obj == obj) { s.exc.erase(s.exc.begin() + i); break; }
	if (advance) done(s, *I);
	if (d) {
		auto it = EN.funcByAddr.find(d); Func* f = it == EN.funcByAddr.end() ? nullptr : it->second;
		if (f && !f->bi && !f->unresolved) { EN.pushFrame(s, f, {cv(obj)}, 1); Frame& fr = s.top(); fr.onRet = 1; fr.freeOnRet = obj; return; }
	}
	uint64_t b, id; if (s.mem.find(obj, b, &id)) s.mem.free(id);
}
BI(b_begin_catch) {
	uint64_t obj = EN.conc(s, a[0], 64); ExcRec* r = EN.excRec(s, obj); if (!r) { fprintf(stderr, "begin_catch of unknown exception\n"); abort(); }
	if (r->handlers < 0) r->handlers = -r->handlers + 1; else ++r->handlers;
	--s.t().uncaught; auto& c = s.t().caught; if (c.empty() || c.back() != obj) c.push_back(obj);
	retc(s, I, r->adj);
}
BI(b_get_exc) { uint64_t obj = EN.conc(s, a[0], 64); ExcRec* r = EN.excRec(s, obj); retc(s, I, r ? r->adj : obj); }
BI(b_end_catch) {
	auto& c = s.t().caught; if (c.empty()) { done(s, I); return; }
	uint64_t obj = c.back(); ExcRec* r = EN.excRec(s, obj); if (!r) { c.pop_back(); done(s, I); return; }
	if (r->handlers < 0) { if (++r->handlers == 0) c.pop_back(); done(s, I); return; }
	if (--r->handlers == 0) { c.pop_back(); relExc(s, obj, true, &I); return; }
	done(s, I);
}
BI(b_rethrow) {
	auto& c = s.t().caught; if (c.empty()) { EN.violation(s, "exception", "rethrow without active exception (terminate)"); throw PathEnd{"violation"}; }
	uint64_t obj = c.back(); ExcRec* r = EN.excRec(s, obj); r->handlers = -r->handlers; ++s.t().uncaught; EN.throwExc(s, obj);
}
BI(b_uncaught) { retc(s, I, s.t().uncaught > 0); }
BI(b_uncaughts) { retc(s, I, s.t().uncaught); }
// std::exception_ptr (single pointer member)
BI(b_current_exc) { // sret
	uint64_t p = EN.conc(s, a[0], 64); auto& c = s.t().caught; uint64_t o = c.empty() ? 0 : c.back(); if (o) ++EN.excRec(s, o)->refs; EN.wr(s, p, o, 8); done(s, I); }
BI(b_ep_addref) { uint64_t o = EN.rd(s, EN.conc(s, a[0], 64), 8); if (o) if (auto r = EN.excRec(s, o)) ++r->refs; done(s, I); }
BI(b_ep_release) { uint64_t o = EN.rd(s, EN.conc(s, a[0], 64), 8); if (o) { EN.wr(s, EN.conc(s, a[0], 64), 0, 8); relExc(s, o, true, &I); } else done(s, I); }
BI(b_rethrow_ep) { // by value class with non-trivial copy -> pointer to exception_ptr
	uint64_t o = EN.rd(s, EN.conc(s, a[0], 64), 8); ExcRec* r = EN.excRec(s, o); if (!r) { EN.violation(s, "exception", "rethrow_exception of null"); throw PathEnd{"violation"}; }
	++r->refs; // a dependent exception object in the real ABI; here the primary is thrown again
	r->adj = o; ++s.t().uncaught; EN.throwExc(s, o); }
BI(b_terminate) { EN.violation(s, "exception", "std::terminate called"); throw PathEnd{"violation"}; }
BI(b_abort) { EN.violation(s, "abort", "abort() called"); throw PathEnd{"violation"}; }
BI(b_assert_fail) { EN.violation(s, "abort", "assert failed: " + EN.cstr(s, EN.conc(s, a[0], 64))); throw PathEnd{"violation"}; }
BI(b_pure) { EN.violation(s, "memory", "pure virtual method called"); throw PathEnd{"violation"}; }
BI(b_exit) { throw PathEnd{"exit"}; }
BI(b_zero) { retc(s, I, 0); }
BI(b_minus1) { retc(s, I, ~0ull); }
BI(b_void) { if (I.n) s.top().r[I.dst] = cv(0); done(s, I); }
BI(b_ret0) { retc(s, I, EN.conc(s, a[0], 64)); }
BI(b_guard_acq) {
	uint64_t g = EN.conc(s, a[0], 64); uint64_t v = EN.rd(s, g, 1); retc(s, I, v ? 0 : 1);
}
BI(b_dyncast) {
	uint64_t p = EN.conc(s, a[0], 64), src = EN.conc(s, a[1], 64), dst = EN.conc(s, a[2], 64);
	uint64_t vt = EN.rd(s, p, 8); int64_t ott = (int64_t)EN.rd(s, vt - 16, 8); uint64_t ti = EN.rd(s, vt - 8, 8); uint64_t whole = p + ott;
	// all public dst subobjects of the complete object; prefer unique
	uint64_t out = 0; bool ok = false;
	if (ti == dst) { out = whole; ok = true; } else ok = EN.typeUpcast(s, ti, whole, dst, out, true);
	(void)src; retc(s, I, ok ? out : 0);
}
BI(b_dyncast_void) { retc(s, I, 0); }
static double dbl(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
static uint64_t ubl(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
template<double (*F)(double)> static void b_m1(State& s, Inst& I, std::vector<Val>& a) { retc(s, I, ubl(F(dbl(EN.conc(s, a[0], 64))))); }
template<double (*F)(double, double)> static void b_m2(State& s, Inst& I, std::vector<Val>& a) { retc(s, I, ubl(F(dbl(EN.conc(s, a[0], 64)), dbl(EN.conc(s, a[1], 64))))); }
template<int R> static void b_rint(State& s, Inst& I, std::vector<Val>& a) { retv(s, I, fromE(mkFp(K::FRint, toE(a[0], 64), nullptr, 64, R))); }
BI(b_getenv) { retc(s, I, 0); }

static const std::unordered_map<std::string, Builtin>& biMap() {
	static const std::unordered_map<std::string, Builtin> m = {
		{"sx_tier", b_tier}, {"sx_u8", b_u8}, {"sx_u16", b_u16}, {"sx_u32", b_u32}, {"sx_u64", b_u64}, {"sx_range", b_range}, {"sx_choose_", b_choose}, {"sx_bytes", b_bytes}, {"sx_assume_", b_assume}, {"sx_assert_", b_assert}, {"sx_observe", b_observe}, {"sx_reach", b_reach}, {"sx_conc", b_conc}, {"sx_fail", b_fail}, {"sx_known_", b_known}, {"sx_heap_live", b_live}, {"sx_is_symbolic", b_issym}, {"sx_print", b_print}, {"sx_end_path", b_end},
		{"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"_Znwm", b_new}, {"_Znam", b_newarr}, {"_ZnwmRKSt9nothrow_t", b_new}, {"_ZnamRKSt9nothrow_t", b_newarr}, {"_ZdlPv", b_del}, {"_ZdlPvm", b_del}, {"_ZdaPv", b_delarr}, {"_ZdaPvm", b_delarr}, {"posix_memalign", b_memalign},
		{"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp},
		{"__cxa_allocate_exception", b_cxa_alloc}, {"__cxa_free_exception", b_cxa_free}, {"__cxa_throw", b_cxa_throw}, {"__cxa_begin_catch", b_begin_catch}, {"__cxa_end_catch", b_end_catch}, {"__cxa_rethrow", b_rethrow}, {"__cxa_get_exception_ptr", b_get_exc}, {"_ZSt18uncaught_exceptionv", b_uncaught}, {"_ZSt19uncaught_exceptionsv", b_uncaughts},
		{"_ZSt17current_exceptionv", b_current_exc}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_ep_addref}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_ep_release}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_ep},
		{"_ZSt9terminatev", b_terminate}, {"__clang_call_terminate", b_terminate}, {"__cxa_call_unexpected", b_terminate}, {"_ZSt10unexpectedv", b_terminate}, {"abort", b_abort}, {"__assert_fail", b_assert_fail}, {"__cxa_pure_virtual", b_pure}, {"__cxa_deleted_virtual", b_pure}, {"exit", b_exit}, {"_exit", b_exit}, {"__stack_chk_fail", b_abort},
		{"__cxa_atexit", b_zero}, {"__cxa_thread_atexit", b_zero}, {"atexit", b_zero}, {"__dynamic_cast", b_dyncast},
		{"pow", b_m2<::pow>}, {"fmod", b_m2<::fmod>}, {"log", b_m1<::log>}, {"log10", b_m1<::log10>}, {"log2", b_m1<::log2>}, {"exp", b_m1<::exp>}, {"sin", b_m1<::sin>}, {"cos", b_m1<::cos>}, {"cbrt", b_m1<::cbrt>}, {"floor", b_rint<0>}, {"ceil", b_rint<1>}, {"trunc", b_rint<2>}, {"round", b_rint<3>}, {"rint", b_rint<4>}, {"__pow_finite", b_m2<::pow>},
		{"getenv", b_getenv}, {"secure_getenv", b_getenv}, 
		{"printf", b_void}, {"puts", b_void}, {"putchar", b_void}, {"fprintf", b_void}, {"fputs", b_void}, {"fwrite", b_void}, {"fflush", b_void}, {"perror", b_void}, {"syslog", b_void}, {"vfprintf", b_void},
	};
	return m;
}
Builtin findBuiltin(const std::string& n) { auto& m = biMap(); auto it = m.find(n); return it == m.end() ? nullptr : it->second; }
void listThreadBuiltins();
void listBuiltins() { listThreadBuiltins(); for (auto& p : biMap()) puts(p.first.c_str()); }
