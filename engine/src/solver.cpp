#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <unordered_set>

SolverStats g_sstats;
unsigned g_solverMs = 20000;

namespace {
Z3_context ctx = nullptr;
Z3_solver inc = nullptr;
size_t incCount = 0;
std::unordered_map<uint32_t, Z3_ast> trMemo;    // expr id -> ast
std::unordered_map<uint32_t, Z3_ast> litMemo;   // constraint id -> assumption literal in inc
std::unordered_set<uint32_t> incVars;           // vars whose range is asserted in inc
std::unordered_map<uint32_t, bool> fpMemo;
bool g_err = false;
void onErr(Z3_context c, Z3_error_code e) { g_err = true; const char* m = Z3_get_error_msg(c, e); if (!strstr(m, "canceled") && !strstr(m, "resource")) fprintf(stderr, "z3 error: %s\n", m); }

void ensureCtx() {
	if (ctx) return;
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
	Z3_set_error_handler(ctx, onErr);
}
void resetInc() {
	if (inc) Z3_solver_dec_ref(ctx, inc);
	inc = nullptr; litMemo.clear(); incVars.clear(); incCount = 0;
}
bool hasFp(E e) {
	if (e->nops == 0) return false;
	auto it = fpMemo.find(e->id); if (it != fpMemo.end()) return it->second;
	bool r = e->k >= K::FAdd;
	for (int i = 0; i < e->nops && !r; ++i) r = hasFp(e->op[i]);
	fpMemo[e->id] = r; return r;
}
Z3_ast bv(Z3_ast b1) { // bool -> bv1
	Z3_sort s = Z3_mk_bv_sort(ctx, 1);
	return Z3_mk_ite(ctx, b1, Z3_mk_int(ctx, 1, s), Z3_mk_int(ctx, 0, s));
}
Z3_ast trB(E e);
Z3_ast tr(E e);
Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
Z3_ast toFp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fpSort(e->w)); }
// 1-bit expressions are translated to Bool by trB and to BV1 by tr
Z3_ast trB(E e) {
	uint32_t key = e->id;
	static_assert(sizeof(key) == 4, "");
	if (e->w != 1) abort();
	auto it = trMemo.find(key); if (it != trMemo.end()) return it->second;
	Z3_ast r = nullptr;
	Z3_ast a2[2];
	switch (e->k) {
	case K::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case K::And: a2[0] = trB(e->op[0]); a2[1] = trB(e->op[1]); r = Z3_mk_and(ctx, 2, a2); break;
	case K::Or: a2[0] = trB(e->op[0]); a2[1] = trB(e->op[1]); r = Z3_mk_or(ctx, 2, a2); break;
	case K::Xor: case K::Add: case K::Sub: if (e->op[1]->isTrue()) r = Z3_mk_not(ctx, trB(e->op[0])); else r = Z3_mk_xor(ctx, trB(e->op[0]), trB(e->op[1])); break;
	case K::Mul: a2[0] = trB(e->op[0]); a2[1] = trB(e->op[1]); r = Z3_mk_and(ctx, 2, a2); break;
	case K::Ite: r = Z3_mk_ite(ctx, trB(e->op[0]), trB(e->op[1]), trB(e->op[2])); break;
	case K::Eq: if (e->op[0]->w == 1) r = Z3_mk_iff(ctx, trB(e->op[0]), trB(e->op[1])); else r = Z3_mk_eq(ctx, tr(e->op[0]), tr(e->op[1])); break;
	case K::Ult: r = Z3_mk_bvult(ctx, tr(e->op[0]), tr(e->op[1])); break;
	case K::Ule: r = Z3_mk_bvule(ctx, tr(e->op[0]), tr(e->op[1])); break;
	case K::Slt: r = Z3_mk_bvslt(ctx, tr(e->op[0]), tr(e->op[1])); break;
	case K::Sle: r = Z3_mk_bvsle(ctx, tr(e->op[0]), tr(e->op[1])); break;
	case K::FEq: r = Z3_mk_fpa_eq(ctx, toFp(e->op[0]), toFp(e->op[1])); break;
	case K::FLt: r = Z3_mk_fpa_lt(ctx, toFp(e->op[0]), toFp(e->op[1])); break;
	case K::FLe: r = Z3_mk_fpa_leq(ctx, toFp(e->op[0]), toFp(e->op[1])); break;
	case K::FUno: { a2[0] = Z3_mk_fpa_is_nan(ctx, toFp(e->op[0])); a2[1] = Z3_mk_fpa_is_nan(ctx, toFp(e->op[1])); r = Z3_mk_or(ctx, 2, a2); break; }
	case K::Extract: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->aux, e->aux, tr(e->op[0])), Z3_mk_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
	case K::Var: { char nm[32]; snprintf(nm, 32, "v%u", e->aux); r = Z3_mk_eq(ctx, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, 1)), Z3_mk_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break; }
	default: {
		// generic: via bit-vector of width 1
		Z3_ast x = tr(e->op[0]), y = e->op[1] ? tr(e->op[1]) : nullptr, t = nullptr;
		switch (e->k) {
		case K::UDiv: t = Z3_mk_bvudiv(ctx, x, y); break; case K::SDiv: t = Z3_mk_bvsdiv(ctx, x, y); break;
		case K::URem: t = Z3_mk_bvurem(ctx, x, y); break; case K::SRem: t = Z3_mk_bvsrem(ctx, x, y); break;
		case K::Shl: t = Z3_mk_bvshl(ctx, x, y); break; case K::LShr: t = Z3_mk_bvlshr(ctx, x, y); break; case K::AShr: t = Z3_mk_bvashr(ctx, x, y); break;
		default: fprintf(stderr, "trB: kind %d\n", (int)e->k); abort();
		}
		r = Z3_mk_eq(ctx, t, Z3_mk_int(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
	} }
	Z3_inc_ref(ctx, r); trMemo[key] = r; return r;
}
Z3_ast tr(E e) {
	if (e->w == 1) return bv(trB(e));
	auto it = trMemo.find(e->id); if (it != trMemo.end()) return it->second;
	Z3_ast r = nullptr;
	#define A tr(e->op[0])
	#define B tr(e->op[1])
	switch (e->k) {
	case K::Const:
		if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, e->w));
		else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(ctx, e->w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, 64)));
		break;
	case K::Var: { char nm[32]; snprintf(nm, 32, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)); break; }
	case K::Add: r = Z3_mk_bvadd(ctx, A, B); break;
	case K::Sub: r = Z3_mk_bvsub(ctx, A, B); break;
	case K::Mul: r = Z3_mk_bvmul(ctx, A, B); break;
	case K::UDiv: r = Z3_mk_bvudiv(ctx, A, B); break;
	case K::SDiv: r = Z3_mk_bvsdiv(ctx, A, B); break;
	case K::URem: r = Z3_mk_bvurem(ctx, A, B); break;
	case K::SRem: r = Z3_mk_bvsrem(ctx, A, B); break;
	case K::And: r = Z3_mk_bvand(ctx, A, B); break;
	case K::Or: r = Z3_mk_bvor(ctx, A, B); break;
	case K::Xor: r = Z3_mk_bvxor(ctx, A, B); break;
	case K::Shl: r = Z3_mk_bvshl(ctx, A, B); break;
	case K::LShr: r = Z3_mk_bvlshr(ctx, A, B); break;
	case K::AShr: r = Z3_mk_bvashr(ctx, A, B); break;
	case K::Ite: r = Z3_mk_ite(ctx, trB(e->op[0]), tr(e->op[1]), tr(e->op[2])); break;
	case K::Concat: r = Z3_mk_concat(ctx, A, B); break;
	case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, A); break;
	case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->op[0]->w, A); break;
	case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->op[0]->w, A); break;
	case K::FAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), toFp(e->op[0]), toFp(e->op[1]))); break;
	case K::FSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), toFp(e->op[0]), toFp(e->op[1]))); break;
	case K::FMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), toFp(e->op[0]), toFp(e->op[1]))); break;
	case K::FDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), toFp(e->op[0]), toFp(e->op[1]))); break;
	case K::SIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), A, fpSort(e->w))); break;
	case K::UIToFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), A, fpSort(e->w))); break;
	case K::FPToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toFp(e->op[0]), e->w); break;
	case K::FPToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toFp(e->op[0]), e->w); break;
	case K::FPExt: case K::FPTrunc: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), toFp(e->op[0]), fpSort(e->w))); break;
	case K::FSqrt: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), toFp(e->op[0]))); break;
	case K::FRint: { Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rna(ctx) : Z3_mk_fpa_rne(ctx);
		r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, toFp(e->op[0]))); break; }
	default: fprintf(stderr, "tr: kind %d\n", (int)e->k); abort();
	}
	#undef A
	#undef B
	Z3_inc_ref(ctx, r); trMemo[e->id] = r; return r;
}

void rangeCs(Z3_solver s, const VarSet* vs, std::unordered_set<uint32_t>* done) {
	for (uint32_t v : vs->v) {
		if (done && !done->insert(v).second) continue;
		const VarInfo& vi = g_vars[v];
		if (vi.w > 64 || vi.w == 1) continue;
		Z3_sort so = Z3_mk_bv_sort(ctx, vi.w);
		if (vi.lo > 0) Z3_solver_assert(ctx, s, Z3_mk_bvuge(ctx, tr(vi.e), Z3_mk_unsigned_int64(ctx, vi.lo, so)));
		if (vi.hi < mask64(vi.w)) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, tr(vi.e), Z3_mk_unsigned_int64(ctx, vi.hi, so)));
	}
}
void extractModel(Z3_solver s, const std::vector<uint32_t>& vars, Assign& m) {
	Z3_model mod = Z3_solver_get_model(ctx, s);
	if (!mod) { fprintf(stderr, "no model\n"); abort(); }
	Z3_model_inc_ref(ctx, mod);
	for (uint32_t v : vars) {
		if (m.size() <= v) { size_t o = m.size(); m.resize(v + 1); for (; o <= v; ++o) m[o] = g_vars[o].lo; }
		const VarInfo& vi = g_vars[v];
		char nm[32]; snprintf(nm, 32, "v%u", v);
		Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, vi.w));
		Z3_func_decl d = Z3_get_app_decl(ctx, Z3_to_app(ctx, c));
		Z3_ast val = Z3_model_get_const_interp(ctx, mod, d);
		u128 r = vi.lo;
		if (val) {
			if (vi.w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, val, &x); r = x; }
			else { const char* str = Z3_get_numeral_string(ctx, val); r = 0; for (; *str; ++str) r = r * 10 + (*str - '0'); }
		}
		m[v] = r;
	}
	Z3_model_dec_ref(ctx, mod);
}
struct CacheEntry { Sat r; std::vector<std::pair<uint32_t, u128>> model; };
std::unordered_map<uint64_t, std::pair<std::vector<uint32_t>, CacheEntry>> cache;
std::deque<std::vector<std::pair<uint32_t, u128>>> recent;
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
void applyModel(const std::vector<std::pair<uint32_t, u128>>& mv, Assign& m) {
	for (auto& p : mv) { if (m.size() <= p.first) { size_t o = m.size(); m.resize(p.first + 1); for (; o <= p.first; ++o) m[o] = g_vars[o].lo; } m[p.first] = p.second; }
}
}

void solverReset() {
	ctx = nullptr; inc = nullptr; trMemo.clear(); litMemo.clear(); incVars.clear(); incCount = 0; // old context is leaked on purpose (post-fork)
}

static Sat freshCheck(const std::vector<E>& slice, const std::vector<uint32_t>& vars, bool fp, Assign& m, unsigned rl, bool useSmt) {
	g_sstats.fresh++;
	Z3_solver s;
	if (fp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
	else if (useSmt) s = Z3_mk_simple_solver(ctx);
	else {
		Z3_tactic t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t);
		s = Z3_mk_solver_from_tactic(ctx, t);
		Z3_tactic_dec_ref(ctx, t);
	}
	Z3_solver_inc_ref(ctx, s);
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rl);
	Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
	VarSet vs; vs.v = vars;
	rangeCs(s, &vs, nullptr);
	for (E e : slice) Z3_solver_assert(ctx, s, trB(e));
	Z3_lbool r = Z3_solver_check(ctx, s);
	Sat res = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
	if (res == Sat::Yes) extractModel(s, vars, m);
	Z3_solver_dec_ref(ctx, s);
	return res;
}

Sat solverCheck(const std::vector<E>& cs, E cond, Assign& m, const std::vector<char>* fixed) {
	auto isFixed = [&](uint32_t v) { return fixed && v < fixed->size() && (*fixed)[v]; };
	if (cond->isFalse()) return Sat::No;
	if (cond->isTrue()) return Sat::Yes;
	g_sstats.queries++;
	// fast path: current model already works
	evalNewEpoch();
	if (evalExprE(cond, m)) { return Sat::Yes; }
	// slice
	std::vector<E> slice; slice.push_back(cond);
	std::vector<uint32_t> vars = cond->vs->v;
	{
		std::vector<char> used(cs.size(), 0);
		std::vector<char> inV(g_vars.size(), 0);
		bool anyFree = false;
		for (uint32_t v : vars) { inV[v] = 1; if (!isFixed(v)) anyFree = true; }
		if (!anyFree && !vars.empty()) return Sat::No; // the current model is the only value and it fails
		E neg = mkNot(cond);
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t i = 0; i < cs.size(); ++i) {
				if (used[i]) continue;
				E c = cs[i];
				bool hit = false;
				for (uint32_t v : c->vs->v) if (inV[v] && !isFixed(v)) { hit = true; break; }
				if (!hit) continue;
				if (c == cond) { /* implied: but model said false? impossible */ }
				if (c == neg) return Sat::No;
				used[i] = 1; slice.push_back(c);
				for (uint32_t v : c->vs->v) if (!inV[v]) { inV[v] = 1; vars.push_back(v); ch = true; }
			}
		}
		std::sort(vars.begin(), vars.end());
		for (uint32_t v : vars) if (isFixed(v)) slice.push_back(mkEq(g_vars[v].e, mkConst(v < m.size() ? m[v] : (u128)g_vars[v].lo, g_vars[v].w)));
	}
	std::sort(slice.begin() + 1, slice.end(), [](E a, E b) { return a->id < b->id; });
	slice.erase(std::unique(slice.begin() + 1, slice.end()), slice.end());
	std::vector<uint32_t> key; key.reserve(slice.size());
	for (E e : slice) key.push_back(e->id);
	std::sort(key.begin(), key.end());
	uint64_t h = 1469598103934665603ull; for (uint32_t k : key) h = mix(h, k);
	auto it = cache.find(h);
	if (it != cache.end() && it->second.first == key) {
		g_sstats.cacheHits++;
		if (it->second.second.r == Sat::Yes) applyModel(it->second.second.model, m);
		return it->second.second.r;
	}
	// try recent models
	{
		Assign t;
		for (auto& mv : recent) {
			t = m;
			bool any = false;
			for (auto& p : mv) if (std::binary_search(vars.begin(), vars.end(), p.first)) { any = true; if (t.size() <= p.first) { size_t o = t.size(); t.resize(p.first + 1); for (; o <= p.first; ++o) t[o] = g_vars[o].lo; } t[p.first] = p.second; }
			if (!any) continue;
			evalNewEpoch();
			bool ok = true;
			for (E e : slice) if (!evalExprE(e, t)) { ok = false; break; }
			if (ok) { g_sstats.modelHits++; m = t; return Sat::Yes; }
		}
	}
	ensureCtx();
	g_sstats.z3calls++;
	auto t0 = std::chrono::steady_clock::now();
	bool fp = false; for (E e : slice) if (hasFp(e)) { fp = true; break; }
	Sat res = Sat::Unknown;
	Assign nm = m;
	if (trMemo.size() > 400000) { for (auto& p : trMemo) Z3_dec_ref(ctx, p.second); trMemo.clear(); resetInc(); }
	if (!fp) {
		if (!inc || incCount > 100) {
			resetInc();
			inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FD"));
			Z3_solver_inc_ref(ctx, inc);
			Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
			Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 3000000);
			Z3_solver_set_params(ctx, inc, p); Z3_params_dec_ref(ctx, p);
		}
		std::vector<Z3_ast> as;
		for (E e : slice) {
			rangeCs(inc, e->vs, &incVars);
			auto li = litMemo.find(e->id);
			Z3_ast lit;
			if (li == litMemo.end()) {
				char nm2[32]; snprintf(nm2, 32, "p%u", e->id);
				lit = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm2), Z3_mk_bool_sort(ctx));
				Z3_inc_ref(ctx, lit);
				Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, lit, trB(e)));
				litMemo[e->id] = lit; ++incCount;
			} else lit = li->second;
			as.push_back(lit);
		}
		g_err = false;
		Z3_lbool r = Z3_solver_check_assumptions(ctx, inc, (unsigned)as.size(), as.data());
		if (!g_err) res = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
		if (res == Sat::Yes) extractModel(inc, vars, nm);
		double dtInc = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if (res == Sat::Unknown || dtInc > 0.1) incCount = 1000000; // force renewal next time
	}
	if (res == Sat::Unknown) {
		g_err = false;
		res = freshCheck(slice, vars, fp, nm, g_solverMs * 2000u, false);
		if (g_err) res = Sat::Unknown;
	}
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	{ static const char* sl = getenv("SX_SLOW"); if (sl && dt * 1000 > atof(sl)) { fprintf(stderr, "SLOW %.1fms res=%d n=%zu inc=%zu\n", dt * 1000, (int)res, slice.size(), incCount); for (E e : slice) fprintf(stderr, "   %s\n", exprStr(e, 20).c_str()); } }
	g_sstats.z3time += dt; if (dt > g_sstats.maxQuery) g_sstats.maxQuery = dt;
	if (res == Sat::Yes) {
		g_sstats.sat++;
		// paranoia: the model must satisfy the slice under our own evaluator
		evalNewEpoch();
		for (E e : slice) if (!evalExprE(e, nm)) {
			if (fp) { res = Sat::Unknown; break; }
			fprintf(stderr, "symex: solver model does not satisfy %s\n", exprStr(e).c_str()); abort();
		}
		if (res == Sat::Unknown) { g_sstats.unknown++; return res; }
		CacheEntry ce; ce.r = res;
		for (uint32_t v : vars) ce.model.emplace_back(v, v < nm.size() ? nm[v] : (u128)g_vars[v].lo);
		recent.push_front(ce.model); if (recent.size() > 12) recent.pop_back();
		if (cache.size() > 300000) cache.clear();
		cache[h] = {key, ce};
		m = nm;
	} else if (res == Sat::No) { g_sstats.unsat++; if (cache.size() > 300000) cache.clear(); cache[h] = {key, CacheEntry{res, {}}}; }
	else { g_sstats.unknown++; if (getenv("SX_DUMP_UNKNOWN")) for (E e : slice) fprintf(stderr, "UNK %s\n", exprStr(e, 20).c_str()); }
	return res;
}
