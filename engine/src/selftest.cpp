// Differential self-test of the expression simplifier, the evaluator and the Z3 translation:
// random operation sequences are built through the simplifying constructors while their values are computed
// independently on concrete inputs; every node must evaluate to the independent value, and Z3 must agree.
#include "expr.h"
#include "solver.h"
#include <random>
#include <cstdio>
int selfTest(uint64_t seed, int rounds) {
	std::mt19937_64 rng(seed); auto rnd = [&](uint64_t n) { return rng() % n; };
	std::vector<E> vars; unsigned ws[] = {8, 8, 16, 32, 64, 64, 8};
	for (unsigned i = 0; i < 7; ++i) vars.push_back(mkVar("st" + std::to_string(i), ws[i], 0, mask64(ws[i])));
	vars.push_back(mkVar("st7", 8, 3, 17)); vars.push_back(mkVar("st8", 64, 100, 5000)); vars.push_back(mkVar("st9", 8, 0, 59)); vars.push_back(mkVar("st10", 16, 0, 999));
	const int NA = 12; uint64_t z3n = 0, bad = 0, nodes = 0;
	uint64_t special[] = {0, 1, 2, 7, 8, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 10, 100, 3};
	for (int r = 0; r < rounds; ++r) {
		std::vector<Assign> as(NA);
		for (auto& a : as) for (size_t i = 0; i < g_vars.size(); ++i) { uint64_t v = rnd(3) ? special[rnd(20)] : rng(); v &= mask64(g_vars[i].w); if (v < g_vars[i].lo || v > g_vars[i].hi) v = g_vars[i].lo + (v % (g_vars[i].hi - g_vars[i].lo + (g_vars[i].hi - g_vars[i].lo == ~0ull ? 0 : 1))); a.push_back(v); }
		struct N { E e; std::vector<u128> v; };
		std::vector<N> pool;
		for (auto v : vars) { N n; n.e = v; for (auto& a : as) n.v.push_back(a[v->aux]); pool.push_back(n); }
		for (int k = 0; k < 6; ++k) { unsigned w = (unsigned[]){1, 8, 16, 32, 64}[rnd(5)]; u128 c = (rnd(2) ? special[rnd(20)] : rng()) & mask64(w); N n; n.e = mkConst(c, w); n.v.assign(NA, c); pool.push_back(n); }
		// Horner chains over small ranges and their quotients and remainders
		for (unsigned w : {32u, 64u}) {
			N h; h.e = mkConst(0, w); h.v.assign(NA, 0); uint64_t base = 2 + rnd(15);
			for (int d = 0; d < 5; ++d) { E x = mkZExt(vars[rnd(2) ? 7 : 0], w); N n; n.e = mkBin(K::Add, mkBin(K::Mul, h.e, mkConst(base, w)), rnd(3) ? x : mkBin(K::Add, x, mkConst(rnd(20), w))); n.v.resize(NA); for (int i = 0; i < NA; ++i) n.v[i] = evalExpr(n.e, as[i]); h = n; }
			for (K op : {K::UDiv, K::URem}) { uint64_t b = rnd(2) ? base : 1 + rnd(300); N n; n.e = mkBin(op, h.e, mkConst(b, w)); n.v.resize(NA); for (int i = 0; i < NA; ++i) n.v[i] = op == K::UDiv ? h.v[i] / b : h.v[i] % b; pool.push_back(n); for (int i = 0; i < NA; ++i) if (evalExpr(n.e, as[i]) != n.v[i]) { ++bad; fprintf(stderr, "selftest: quotient mismatch\n"); } }
		}
		// sums of multiples of small ranges, wrapping in between, and what is computed from them
		for (int chain = 0; chain < 4; ++chain) {
			unsigned w = (unsigned[]){16, 32, 64, 64}[rnd(4)]; N h; uint64_t ks[] = {1, 2, 10, 60, 1000, 3600, 86400, 60000, 3600000, (uint64_t)-1, (uint64_t)-60, (uint64_t)-1000, 7, 24, 12, 153};
			auto put = [&](N n) { for (int i = 0; i < NA; ++i) { u128 ev = evalExpr(n.e, as[i]); if (ev != n.v[i] || (n.e->w <= 64 && ((uint64_t)ev < n.e->umin || (uint64_t)ev > n.e->umax))) { ++bad; fprintf(stderr, "selftest: linear form mismatch: %s = %llx expected %llx\n", exprStr(n.e, 8).c_str(), (unsigned long long)ev, (unsigned long long)n.v[i]); return; } } pool.push_back(n); ++nodes; };
			auto cst = [&](uint64_t c, unsigned cw) { N n; n.e = mkConst(c, cw); n.v.assign(NA, c & mask64(cw)); return n; };
			auto bin = [&](K op, const N& a, const N& b) { N n; n.e = mkBin(op, a.e, b.e); n.v.resize(NA); unsigned cw = a.e->w; for (int i = 0; i < NA; ++i) { u128 x = a.v[i], y = b.v[i], o = 0; s128 sx = sextW(x, cw), sy = sextW(y, cw); switch (op) { case K::Add: o = x + y; break; case K::Sub: o = x - y; break; case K::Mul: o = x * y; break; case K::UDiv: o = x / y; break; case K::URem: o = x % y; break; case K::SDiv: o = (u128)(sx / sy); break; case K::SRem: o = (u128)(sx % sy); break; case K::Eq: o = x == y; break; case K::Ult: o = x < y; break; case K::Ule: o = x <= y; break; case K::Slt: o = sx < sy; break; default: o = sx <= sy; } n.v[i] = o & maskOf(op >= K::Eq ? 1 : cw); } return n; };
			auto ext = [&](const N& a, unsigned nw, bool sg) { N n; n.e = nw < a.e->w ? mkExtract(a.e, 0, nw) : sg ? mkSExt(a.e, nw) : mkZExt(a.e, nw); n.v.resize(NA); for (int i = 0; i < NA; ++i) n.v[i] = (sg ? (u128)sextW(a.v[i], a.e->w) : a.v[i]) & maskOf(nw); return n; };
			auto var = [&](unsigned cw) { size_t vi = 7 + rnd(4); N n; n.e = vars[vi]; for (auto& a : as) n.v.push_back(a[vars[vi]->aux]); N m = ext(n, cw, false); if (rnd(5) == 0) { uint64_t d = ks[rnd(4) + 1]; N q = bin(K::UDiv, m, cst(d, cw)), r = bin(K::URem, m, cst(d, cw)); return bin(K::Add, bin(K::Mul, q, cst(rnd(4) ? d : d + 1, cw)), r); } return m; };
			h = cst(rnd(2) ? special[rnd(20)] : (uint64_t)rnd(100000) - 50000, w);
			for (int d = 0; d < 5; ++d) {
				N t = bin(K::Mul, var(w), cst(ks[rnd(16)], w)); h = bin(rnd(3) ? K::Add : K::Sub, h, t); put(h);
				if (rnd(5) == 0) { unsigned nw = (unsigned[]){16, 32, 64}[rnd(3)]; if (nw != w) { h = ext(h, nw, rnd(2)); w = nw; put(h); } }
			}
			uint64_t ds[] = {2, 3, 10, 60, 1000, 3600, 86400, 12, 7, 400, 146097}; 
			N cur = h; for (int d = 0; d < 3; ++d) { uint64_t dv = ds[rnd(11)]; if (dv >= (1ull << (w - 1))) dv = 10; N c = cst(dv, w); K o1 = rnd(2) ? K::UDiv : K::SDiv; N q = bin(o1, cur, c), r = bin(o1 == K::UDiv ? K::URem : K::SRem, cur, c); put(q); put(r); N back = bin(K::Add, bin(K::Mul, q, c), r); put(back); put(bin(K::Eq, back, cur)); put(bin(K::Sub, back, h)); N oth = bin(K::Add, cur, bin(K::Mul, var(w), cst(ks[rnd(16)], w))); for (K op : {K::Eq, K::Ult, K::Ule, K::Slt, K::Sle}) { put(bin(op, oth, cur)); put(bin(op, cur, cst(rnd(2) ? special[rnd(20)] : rng() >> rnd(60), w))); put(bin(op, q, cst(rnd(100), w))); } cur = rnd(2) ? q : r; }
		}
		for (int k = 0; k < 60; ++k) {
			N n; n.v.resize(NA); N& a = pool[rnd(pool.size())]; int kind = rnd(10);
			if (kind < 6) {
				std::vector<int> same; for (size_t i = 0; i < pool.size(); ++i) if (pool[i].e->w == a.e->w) same.push_back(i);
				N& b = pool[same[rnd(same.size())]];
				K ks[] = {K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::And, K::Or, K::Xor, K::Shl, K::LShr, K::AShr, K::Eq, K::Ult, K::Ule, K::Slt, K::Sle, K::And, K::Or, K::Eq, K::Ult, K::Slt, K::Shl, K::LShr, K::Sub, K::Add};
				K op = ks[rnd(27)];
				bool ok = true; unsigned w = a.e->w;
				for (int i = 0; i < NA && ok; ++i) {
					u128 x = a.v[i], y = b.v[i], o = 0; s128 sx = sextW(x, w), sy = sextW(y, w);
					switch (op) {
					case K::Add: o = x + y; break; case K::Sub: o = x - y; break; case K::Mul: o = x * y; break;
					case K::UDiv: if (!y) ok = false; else o = x / y; break; case K::URem: if (!y) ok = false; else o = x % y; break;
					case K::SDiv: if (!y) ok = false; else o = (u128)(sx / sy); break; case K::SRem: if (!y) ok = false; else o = (u128)(sx % sy); break;
					case K::And: o = x & y; break; case K::Or: o = x | y; break; case K::Xor: o = x ^ y; break;
					case K::Shl: o = y >= w ? 0 : x << (unsigned)y; break; case K::LShr: o = y >= w ? 0 : x >> (unsigned)y; break; case K::AShr: o = y >= w ? (u128)(sx < 0 ? -1 : 0) : (u128)(sx >> (unsigned)y); break;
					case K::Eq: o = x == y; break; case K::Ult: o = x < y; break; case K::Ule: o = x <= y; break; case K::Slt: o = sx < sy; break; case K::Sle: o = sx <= sy; break; default: break;
					}
					n.v[i] = o & maskOf(op >= K::Eq ? 1 : w);
				}
				if (!ok) continue;
				n.e = mkBin(op, a.e, b.e);
			} else if (kind == 6) { unsigned nw = (unsigned[]){8, 16, 32, 64, 128}[rnd(5)]; if (nw <= a.e->w) continue; bool s = rnd(2); n.e = s ? mkSExt(a.e, nw) : mkZExt(a.e, nw); for (int i = 0; i < NA; ++i) n.v[i] = (s ? (u128)sextW(a.v[i], a.e->w) : a.v[i]) & maskOf(nw); }
			else if (kind == 7) { unsigned nw = 1 + rnd(a.e->w), lo = rnd(a.e->w - nw + 1); if (rnd(2)) { nw = 8; if (a.e->w < 8) continue; lo = 8 * rnd(a.e->w / 8); } n.e = mkExtract(a.e, lo, nw); for (int i = 0; i < NA; ++i) n.v[i] = (a.v[i] >> lo) & maskOf(nw); }
			else if (kind == 8) { N& b = pool[rnd(pool.size())]; if (a.e->w + b.e->w > 128) continue; n.e = mkConcat(a.e, b.e); for (int i = 0; i < NA; ++i) n.v[i] = (a.v[i] << b.e->w) | b.v[i]; }
			else { std::vector<int> bs, same; for (size_t i = 0; i < pool.size(); ++i) { if (pool[i].e->w == 1) bs.push_back(i); if (pool[i].e->w == a.e->w) same.push_back(i); } if (bs.empty()) continue; N& c = pool[bs[rnd(bs.size())]]; N& b = pool[same[rnd(same.size())]]; n.e = mkIte(c.e, a.e, b.e); for (int i = 0; i < NA; ++i) n.v[i] = c.v[i] ? a.v[i] : b.v[i]; }
			if (n.e->w > 128) continue;
			++nodes;
			for (int i = 0; i < NA; ++i) {
				u128 ev = evalExpr(n.e, as[i]);
				if (ev != n.v[i]) { ++bad; fprintf(stderr, "selftest: evaluator/simplifier mismatch: %s = %llx expected %llx\n", exprStr(n.e, 6).c_str(), (unsigned long long)ev, (unsigned long long)n.v[i]); if (bad > 5) return 1; }
				if (n.e->w <= 64 && ((uint64_t)ev < n.e->umin || (uint64_t)ev > n.e->umax)) { ++bad; fprintf(stderr, "selftest: range mismatch: %s\n", exprStr(n.e, 6).c_str()); if (bad > 5) return 1; }
			}
			pool.push_back(n);
		}
		// ask Z3: fixing the variables, the last nodes cannot differ from their value
		for (int q = 0; q < 3; ++q) {
			N& n = pool[pool.size() - 1 - rnd(pool.size() / 2)]; if (n.e->isConst()) continue;
			int i = rnd(NA); std::vector<E> cs; for (auto v : vars) cs.push_back(mkEq(v, mkConst(as[i][v->aux], v->w)));
			Assign m; for (auto& v : g_vars) m.push_back(v.lo);
			// current model must satisfy cs
			m = as[i];
			Sat s = solverCheck(cs, mkNot(mkEq(n.e, mkConst(n.v[i], n.e->w))), m); ++z3n;
			if (s == Sat::Yes) { ++bad; fprintf(stderr, "selftest: Z3 disagrees on %s\n", exprStr(n.e, 6).c_str()); }
			// and without fixing variables: ask for a different value; the model is checked by solverCheck itself
			Assign m2 = as[i]; std::vector<E> none; solverCheck(none, mkNot(mkEq(n.e, mkConst(n.v[i], n.e->w))), m2); ++z3n;
		}
	}
	printf("selftest: %d rounds, %llu nodes, %llu z3 queries, %llu mismatches\n", rounds, (unsigned long long)nodes, (unsigned long long)z3n, (unsigned long long)bad);
	return bad ? 1 : 0;
}
