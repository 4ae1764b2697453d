#include "expr.h"
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <algorithm>

std::vector<VarInfo> g_vars;
uint64_t g_numExprs = 0;

namespace {
struct Key {
	K k; uint16_t w; uint32_t aux; E op[3]; u128 val;
	bool operator==(const Key& o) const { return k == o.k && w == o.w && aux == o.aux && op[0] == o.op[0] && op[1] == o.op[1] && op[2] == o.op[2] && val == o.val; }
};
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
uint64_t hashKey(const Key& k) {
	uint64_t h = (uint64_t)k.k * 1315423911u + k.w;
	h = mix(h, k.aux);
	for (int i = 0; i < 3; ++i) h = mix(h, k.op[i] ? k.op[i]->id + 1 : 0);
	h = mix(h, (uint64_t)k.val); h = mix(h, (uint64_t)(k.val >> 64));
	return h;
}
// open addressing table
std::vector<Expr*> g_table(1 << 16, nullptr);
size_t g_count = 0;

struct Arena {
	char* cur = nullptr; size_t left = 0;
	Expr* alloc() {
		if (left < sizeof(Expr)) { left = sizeof(Expr) * 4096; cur = (char*)aligned_alloc(16, (left + 15) / 16 * 16); }
		Expr* r = new (cur) Expr(); cur += sizeof(Expr); left -= sizeof(Expr); return r;
	}
} g_arena;

std::map<std::vector<uint32_t>, VarSet*> g_vsets;
std::unordered_map<uint64_t, const VarSet*> g_vsUnion;
const VarSet* internVS(std::vector<uint32_t>&& v) {
	auto it = g_vsets.find(v);
	if (it != g_vsets.end()) return it->second;
	VarSet* s = new VarSet{v, (uint32_t)g_vsets.size()};
	g_vsets.emplace(std::move(v), s);
	return s;
}
const VarSet* emptyVS() { static const VarSet* s = internVS({}); return s; }
const VarSet* unionVS(const VarSet* a, const VarSet* b) {
	if (a == b || b->v.empty()) return a;
	if (a->v.empty()) return b;
	uint32_t x = a->id, y = b->id; if (x > y) std::swap(x, y);
	uint64_t key = ((uint64_t)x << 32) | y;
	auto it = g_vsUnion.find(key);
	if (it != g_vsUnion.end()) return it->second;
	std::vector<uint32_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
	const VarSet* s = internVS(std::move(r));
	g_vsUnion[key] = s;
	return s;
}

void computeRange(Expr* e) {
	if (e->w > 64) { e->umin = 0; e->umax = ~0ull; return; }
	uint64_t M = mask64(e->w); e->umin = 0; e->umax = M;
	E a = e->op[0], b = e->op[1];
	switch (e->k) {
	case K::Const: e->umin = e->umax = (uint64_t)e->val; break;
	case K::ZExt: e->umin = a->umin; e->umax = a->umax; break;
	case K::SExt: if (a->umax < (1ull << (a->w - 1))) { e->umin = a->umin; e->umax = a->umax; } else if (a->umin >= (1ull << (a->w - 1))) { e->umin = a->umin + (M - mask64(a->w)); e->umax = a->umax + (M - mask64(a->w)); } break;
	case K::Ite: e->umin = std::min(b->umin, e->op[2]->umin); e->umax = std::max(b->umax, e->op[2]->umax); break;
	case K::And: e->umax = std::min(a->umax, b->umax); break;
	case K::Or: {
		e->umin = std::max(a->umin, b->umin);
		uint64_t m = a->umax | b->umax; // upper bound: all bits up to highest set
		if (m) { int hb = 63 - __builtin_clzll(m); m = hb >= 63 ? ~0ull : ((2ull << hb) - 1); }
		e->umax = std::min(M, m); break; }
	case K::Xor: {
		uint64_t m = a->umax | b->umax;
		if (m) { int hb = 63 - __builtin_clzll(m); m = hb >= 63 ? ~0ull : ((2ull << hb) - 1); }
		e->umax = std::min(M, m); break; }
	case K::Add: { u128 hi = (u128)a->umax + b->umax; if (hi <= M) { e->umin = a->umin + b->umin; e->umax = (uint64_t)hi; }
		else { u128 lo = (u128)a->umin + b->umin; if (lo > M) { e->umin = (uint64_t)(lo - M - 1); e->umax = (uint64_t)(hi - M - 1); } } break; }
	case K::Sub: if (a->umin >= b->umax || a->umax < b->umin) { e->umin = (a->umin - b->umax) & M; e->umax = (a->umax - b->umin) & M; } break;
	case K::Mul: { u128 hi = (u128)a->umax * b->umax; if (hi <= M) { e->umin = a->umin * b->umin; e->umax = (uint64_t)hi; } break; }
	case K::UDiv: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
	case K::URem: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) e->umin = a->umin; } break;
	case K::LShr: if (b->isConst()) { if (b->val < e->w) { e->umin = a->umin >> b->c64(); e->umax = a->umax >> b->c64(); } else e->umax = 0; } else e->umax = a->umax; break;
	case K::Shl: if (b->isConst() && b->val < e->w) { u128 hi = (u128)a->umax << b->c64(); if (hi <= M) { e->umin = a->umin << b->c64(); e->umax = (uint64_t)hi; } } break;
	case K::Concat: if (a->w + b->w <= 64) { e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; } break;
	case K::Extract:
		if (a->w <= 64) {
			if (e->aux + e->w >= a->w) { e->umin = a->umin >> e->aux; e->umax = a->umax >> e->aux; }
			else if (e->aux < 64 && (a->umin >> e->aux) / (M + (u128)1) == (a->umax >> e->aux) / (M + (u128)1)) { e->umin = (a->umin >> e->aux) & M; e->umax = (a->umax >> e->aux) & M; }
		}
		break;
	default: break;
	}
}

E intern(K k, unsigned w, uint32_t aux, E a, E b, E c, u128 val) {
	Key key{k, (uint16_t)w, aux, {a, b, c}, val};
	uint64_t h = hashKey(key);
	size_t m = g_table.size() - 1, i = h & m;
	while (Expr* p = g_table[i]) {
		if (p->hash == h && p->k == k && p->w == w && p->aux == aux && p->op[0] == a && p->op[1] == b && p->op[2] == c && p->val == val) return p;
		i = (i + 1) & m;
	}
	Expr* e = g_arena.alloc();
	e->k = k; e->w = w; e->aux = aux; e->op[0] = a; e->op[1] = b; e->op[2] = c; e->val = val; e->hash = h;
	e->nops = c ? 3 : b ? 2 : a ? 1 : 0;
	e->id = (uint32_t)g_numExprs++;
	e->vs = emptyVS();
	for (int j = 0; j < e->nops; ++j) e->vs = unionVS(e->vs, e->op[j]->vs);
	computeRange(e);
	if (k != K::Const && k != K::Var && w <= 64 && e->umin == e->umax && k != K::FAdd) {
		// range collapses to a constant: caller handles (we return node, mk* wraps)
	}
	g_table[i] = e;
	if (++g_count * 2 > g_table.size()) {
		std::vector<Expr*> old(g_table.size() * 2, nullptr); old.swap(g_table);
		size_t mm = g_table.size() - 1;
		for (Expr* p : old) if (p) { size_t j = p->hash & mm; while (g_table[j]) j = (j + 1) & mm; g_table[j] = p; }
	}
	return e;
}
E fin(K k, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
	E e = intern(k, w, aux, a, b, c, 0);
	if (w <= 64 && e->umin == e->umax && k < K::FAdd) return mkConst(e->umin, w);
	return e;
}
bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }
}

E mkConst(u128 v, unsigned w) { return intern(K::Const, w, 0, nullptr, nullptr, nullptr, v & maskOf(w)); }

E mkVar(const std::string& name, unsigned w, uint64_t lo, uint64_t hi) {
	static std::unordered_map<std::string, uint32_t> idx;
	std::string key = name + "#" + std::to_string(w) + "#" + std::to_string(lo) + "#" + std::to_string(hi);
	auto it = idx.find(key);
	if (it != idx.end()) return g_vars[it->second].e;
	uint32_t vi = (uint32_t)g_vars.size();
	Expr* e = const_cast<Expr*>(intern(K::Var, w, vi, nullptr, nullptr, nullptr, 0));
	e->vs = internVS({vi});
	if (w <= 64) { e->umin = lo; e->umax = std::min(hi, mask64(w)); }
	g_vars.push_back(VarInfo{name, (uint16_t)w, lo, hi, e});
	idx[key] = vi;
	return e;
}

bool foldBin(K k, u128 a, u128 b, unsigned w, u128& r) {
	u128 M = maskOf(w);
	switch (k) {
	case K::Add: r = (a + b) & M; return true;
	case K::Sub: r = (a - b) & M; return true;
	case K::Mul: r = (a * b) & M; return true;
	case K::UDiv: if (!b) { r = M; return false; } r = a / b; return true;
	case K::URem: if (!b) { r = a; return false; } r = a % b; return true;
	case K::SDiv: { if (!b) { r = (a >> (w - 1)) & 1 ? 1 : M; return false; } s128 x = sextW(a, w), y = sextW(b, w); r = (y == -1 ? (u128)0 - a : (u128)(x / y)) & M; return true; }
	case K::SRem: { if (!b) { r = a; return false; } s128 x = sextW(a, w), y = sextW(b, w); r = (y == -1 ? 0 : (u128)(x % y)) & M; return true; }
	case K::And: r = a & b; return true;
	case K::Or: r = a | b; return true;
	case K::Xor: r = a ^ b; return true;
	case K::Shl: r = b >= w ? 0 : (a << (unsigned)b) & M; return true;
	case K::LShr: r = b >= w ? 0 : a >> (unsigned)b; return true;
	case K::AShr: { s128 x = sextW(a, w); r = (u128)(x >> (b >= w ? (w - 1) : (unsigned)b)) & M; return true; }
	case K::Eq: r = a == b; return true;
	case K::Ult: r = a < b; return true;
	case K::Ule: r = a <= b; return true;
	case K::Slt: r = sextW(a, w) < sextW(b, w); return true;
	case K::Sle: r = sextW(a, w) <= sextW(b, w); return true;
	default: abort();
	}
}

static double asD(u128 v, unsigned w) { if (w == 64) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; } if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; } abort(); }
static u128 fromD(double d, unsigned w) { if (w == 64) { uint64_t x; memcpy(&x, &d, 8); return x; } if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } abort(); }
bool foldFp(K k, u128 a, u128 b, unsigned ow, unsigned w, uint32_t aux, u128& r) {
	switch (k) {
	case K::FAdd: if (w == 32) { float x = (float)asD(a, 32) + (float)asD(b, 32); r = fromD(x, 32); } else r = fromD(asD(a, ow) + asD(b, ow), w); return true;
	case K::FSub: if (w == 32) { float x = (float)asD(a, 32) - (float)asD(b, 32); r = fromD(x, 32); } else r = fromD(asD(a, ow) - asD(b, ow), w); return true;
	case K::FMul: if (w == 32) { float x = (float)asD(a, 32) * (float)asD(b, 32); r = fromD(x, 32); } else r = fromD(asD(a, ow) * asD(b, ow), w); return true;
	case K::FDiv: if (w == 32) { float x = (float)asD(a, 32) / (float)asD(b, 32); r = fromD(x, 32); } else r = fromD(asD(a, ow) / asD(b, ow), w); return true;
	case K::FEq: r = asD(a, ow) == asD(b, ow); return true;
	case K::FLt: r = asD(a, ow) < asD(b, ow); return true;
	case K::FLe: r = asD(a, ow) <= asD(b, ow); return true;
	case K::FUno: r = std::isnan(asD(a, ow)) || std::isnan(asD(b, ow)); return true;
	case K::SIToFP: { s128 x = sextW(a, ow); r = w == 32 ? fromD((float)(int64_t)x, 32) : fromD((double)(int64_t)x, w); return true; }
	case K::UIToFP: { r = w == 32 ? fromD((float)(uint64_t)a, 32) : fromD((double)(uint64_t)a, w); return true; }
	case K::FPToSI: { double d = asD(a, ow); r = (u128)(s128)(int64_t)d & maskOf(w); return true; }
	case K::FPToUI: { double d = asD(a, ow); r = (d < 0 ? (u128)(s128)(int64_t)d : (u128)(uint64_t)d) & maskOf(w); return true; }
	case K::FPExt: r = fromD(asD(a, ow), w); return true;
	case K::FPTrunc: r = fromD(asD(a, ow), w); return true;
	case K::FSqrt: r = w == 32 ? fromD(sqrtf((float)asD(a, 32)), 32) : fromD(sqrt(asD(a, ow)), w); return true;
	case K::FRint: { double d = asD(a, ow); switch (aux) { case 0: d = floor(d); break; case 1: d = ceil(d); break; case 2: d = trunc(d); break; case 3: d = round(d); break; default: d = nearbyint(d); } r = fromD(d, w); return true; }
	default: return false;
	}
}
E mkFp(K k, E a, E b, unsigned w, uint32_t aux) {
	if (a->isConst() && (!b || b->isConst())) { u128 r; if (foldFp(k, a->val, b ? b->val : 0, a->w, w, aux, r)) return mkConst(r, w); }
	return intern(k, w, aux, a, b, nullptr, 0);
}

E mkNot(E a) {
	if (a->isConst()) return mkConst(~a->val, a->w);
	if (a->w == 1) {
		if (a->k == K::Ult) return mkBin(K::Ule, a->op[1], a->op[0]);
		if (a->k == K::Ule) return mkBin(K::Ult, a->op[1], a->op[0]);
		if (a->k == K::Slt) return mkBin(K::Sle, a->op[1], a->op[0]);
		if (a->k == K::Sle) return mkBin(K::Slt, a->op[1], a->op[0]);
	}
	return mkBin(K::Xor, a, mkConst(maskOf(a->w), a->w));
}
E mkNeg(E a) { return mkBin(K::Sub, mkConst(0, a->w), a); }

static bool isLowMask(u128 v, unsigned& n) { if (v == 0) return false; if ((v & (v + 1)) != 0) return false; n = 0; while (v) { ++n; v >>= 1; } return true; }
static bool isNotOf(E a, E b) { return a->k == K::Xor && a->op[1]->isConst() && a->op[1]->val == maskOf(a->w) && a->op[0] == b; }
static bool cheapIte(E e) { return e->k == K::Ite && e->op[1]->isConst() && e->op[2]->isConst(); }

// Linear forms: value = sum of coefficient * (unsigned value of a term) + constant, exact over the integers
// (ranges show where nothing wraps) or, for equality, modulo 2^W at the outermost width W.
namespace {
s128 gcdS(s128 a, s128 b) { while (b) { s128 t = a % b; a = b; b = t; } return a; }
struct Lin { std::vector<std::pair<E, s128>> t; s128 c = 0; int n = 0; };
const s128 LIN_MAX = (s128)1 << 62;
bool linExact(E e, Lin& L, bool sgn, int n);
bool linMerge(const Lin& S, s128 k, Lin& L) {
	const s128 m = k > 0 ? k : -k; if (S.c && m > ((s128)1 << 118) / (S.c > 0 ? S.c : -S.c)) return false;
	for (auto& x : S.t) if (m > LIN_MAX / (x.second > 0 ? x.second : -x.second)) return false;
	L.n = std::max(L.n, S.n); L.c += k * S.c;
	for (auto& x : S.t) { bool f = false; for (auto& y : L.t) if (y.first == x.first) { y.second += k * x.second; f = true; break; } if (!f) L.t.emplace_back(x.first, k * x.second); }
	return true;
}
bool linAdd(E e, s128 k, Lin& L, unsigned W) {
	if (e->w > 64 || ++L.n > 120 || k > LIN_MAX || k < -LIN_MAX) return false;
	const u128 M = maskOf(e->w); const bool mod = e->w == W; E a = e->op[0], b = e->op[1]; bool stuck = false;
	switch (e->k) {
	case K::Const: if (e->val && (k > 0 ? k : -k) > ((s128)1 << 118) / (s128)e->val) return false; L.c += k * (mod ? sextW(e->val, e->w) : (s128)e->val); return true;
	case K::ZExt: return linAdd(a, k, L, 0);
	case K::SExt: {
		if (!mod) { if (a->umin >= (1ull << (a->w - 1))) { if ((k > 0 ? k : -k) > ((s128)1 << 50)) return false; L.c += k * (s128)(M - maskOf(a->w)); return linAdd(a, k, L, 0); } break; }
		if (a->w < 8) break; Lin S; if (linExact(a, S, true, L.n)) return linMerge(S, k, L); break; }
	case K::Concat: if (b->w < 62 && k < ((s128)1 << (62 - b->w)) && k > -((s128)1 << (62 - b->w))) return linAdd(a, k * ((s128)1 << b->w), L, 0) && linAdd(b, k, L, 0); return false;
	case K::Extract: if (e->aux == 0 && a->w <= 64 && e->w < 64 && (a->umin >> e->w) == (a->umax >> e->w)) { L.c -= k * (s128)((u128)(a->umin >> e->w) << e->w); return linAdd(a, k, L, 0); } break;
	case K::Add: {
		s128 wrap = 0; if (!mod) { if ((u128)a->umin + b->umin > M) wrap = (s128)M + 1; else if ((u128)a->umax + b->umax > M) { stuck = true; break; } }
		L.c -= k * wrap; return linAdd(a, k, L, W) && linAdd(b, k, L, W); }
	case K::Sub: {
		s128 wrap = 0; if (!mod) { if (a->umax < b->umin) wrap = (s128)M + 1; else if (a->umin < b->umax) { stuck = true; break; } }
		L.c += k * wrap; return linAdd(a, k, L, W) && linAdd(b, -k, L, W); }
	case K::Mul: if (b->isConst()) {
		if (!mod) { if ((u128)a->umax * b->val > M) { stuck = true; break; } if (b->val > (u128)LIN_MAX || (k > 0 ? k : -k) > LIN_MAX / (s128)b->val) return false; return linAdd(a, k * (s128)b->val, L, W); }
		s128 m = sextW(b->val, e->w); if (m == 0 || (m > 0 ? m : -m) > LIN_MAX || (k > 0 ? k : -k) > LIN_MAX / (m > 0 ? m : -m)) return false; return linAdd(a, k * m, L, W); } break;
	case K::Or: if (b->isConst() && b->val && a->umax) { const uint64_t m = a->umax | (a->umax >> 1); uint64_t f = m | (m >> 2); f |= f >> 4; f |= f >> 8; f |= f >> 16; f |= f >> 32; if (!(f & (uint64_t)b->val) && (k > 0 ? k : -k) < ((s128)1 << 54)) { L.c += k * (s128)b->val; return linAdd(a, k, L, 0); } } break;
	default: break;
	}
	if (stuck && e->w >= 8) { Lin S; if (linExact(e, S, false, L.n)) return linMerge(S, k, L); }
	for (auto& x : L.t) if (x.first == e) { x.second += k; return true; }
	L.t.emplace_back(e, k); return true;
}
E linCore(E e) { for (;;) { if (e->k == K::ZExt) e = e->op[0]; else if (e->k == K::Extract && e->aux == 0 && e->op[0]->w <= 64 && e->w < 64 && !(e->op[0]->umax >> e->w)) e = e->op[0]; else return e; } }
void linNorm(Lin& L) {
	for (bool again = true; again;) { // pieces of one value put together again
		again = false;
		for (size_t i = 0; i < L.t.size() && !again; ++i) { E lo = L.t[i].first; if (L.t[i].second == 0) continue;
			if (lo->k == K::URem && lo->op[1]->isConst()) { // d * (x / d) + x % d
				E x = linCore(lo->op[0]); const u128 d = lo->op[1]->val;
				for (size_t j = 0; j < L.t.size(); ++j) { E hi = L.t[j].first; if (i == j || hi->k != K::UDiv || !hi->op[1]->isConst() || hi->op[1]->val != d || d > ((u128)1 << 40)) continue;
					E y = linCore(hi->op[0]); if (L.t[j].second != L.t[i].second * (s128)d) continue;
					if (y != x && !(y->k == K::URem && y->op[1]->isConst() && y->op[1]->val % d == 0 && linCore(y->op[0]) == x)) continue;
					s128 k = L.t[i].second; L.t.erase(L.t.begin() + std::max(i, j)); L.t.erase(L.t.begin() + std::min(i, j)); int n = L.n; L.n = 60; linAdd(y, k, L, 0); L.n = n; again = true; break; }
				continue; }
			if (lo->k != K::Extract) continue;
			for (size_t j = 0; j < L.t.size(); ++j) { E hi = L.t[j].first; if (i == j || hi->k != K::Extract || hi->op[0] != lo->op[0] || hi->aux != lo->aux + lo->w || lo->w > 60 || L.t[j].second != L.t[i].second * ((s128)1 << lo->w)) continue;
				s128 k = L.t[i].second; E m = mkExtract(lo->op[0], lo->aux, lo->w + hi->w); L.t.erase(L.t.begin() + std::max(i, j)); L.t.erase(L.t.begin() + std::min(i, j)); int n = L.n; L.n = 0; linAdd(m, k, L, 0); L.n = n; again = true; break; } }
	}
	L.t.erase(std::remove_if(L.t.begin(), L.t.end(), [](const std::pair<E, s128>& x) { return x.second == 0; }), L.t.end());
	std::sort(L.t.begin(), L.t.end(), [](const std::pair<E, s128>& x, const std::pair<E, s128>& y) { return x.first->id < y.first->id; });
}
// the least and the greatest value of a linear form
bool linRange(const Lin& L, s128& lo, s128& hi) {
	lo = hi = L.c; const s128 B = (s128)1 << 119; if (lo > B || lo < -B) return false;
	for (auto& x : L.t) { const s128 m = x.second < 0 ? -x.second : x.second; if (x.first->umax && m > ((s128)1 << 110) / (s128)x.first->umax) return false; const s128 p = x.second * (s128)x.first->umin, q = x.second * (s128)x.first->umax; lo += std::min(p, q); hi += std::max(p, q); }
	return true;
}
s128 floorDiv(s128 a, s128 b) { s128 q = a / b; return a % b < 0 ? q - 1 : q; }
// the value of e (unsigned, or signed) as a linear form over the integers, from its form modulo 2^w
bool linExact(E e, Lin& L, bool sgn, int n) {
	L.n = n; if (!linAdd(e, 1, L, e->w)) return false; linNorm(L);
	s128 lo, hi; if (!linRange(L, lo, hi)) return false;
	const s128 P = (s128)1 << e->w, off = sgn ? P / 2 : 0; const s128 k = floorDiv(lo + off, P); if (floorDiv(hi + off, P) != k) return false;
	L.c -= k * P; return true;
}
E linBuild(const Lin& L, unsigned w) { // modulo 2^w
	E r = nullptr;
	for (auto& x : L.t) if (x.second > 0) { E t = mkBin(K::Mul, mkZExt(x.first, w), mkConst((u128)x.second, w)); r = r ? mkBin(K::Add, r, t) : t; }
	for (auto& x : L.t) if (x.second < 0) { E t = mkBin(K::Mul, mkZExt(x.first, w), mkConst((u128)-x.second, w)); r = mkBin(K::Sub, r ? r : mkConst(0, w), t); }
	E c = mkConst((u128)L.c, w); return r ? mkBin(K::Add, r, c) : c;
}
void tighten(E e, uint64_t lo, uint64_t hi) { Expr* x = const_cast<Expr*>(e); if (x->isConst() || x->w > 64) return; if (lo > x->umin && lo <= x->umax) x->umin = lo; if (hi < x->umax && hi >= x->umin) x->umax = hi; }
bool linMax(const Lin& L, u128 limit, u128& hi) { hi = 0; for (auto& x : L.t) { if (x.second < 0) return false; hi += (u128)x.second * x.first->umax; if (hi > limit) return false; } if (L.c < 0) return false; hi += (u128)L.c; return hi <= limit; }
// quotient rounded down and remainder modulo 2^w when at most two quotients are left, with remainders nearest to zero
bool linFloor(const Lin& L, unsigned w, s128 d, E& quo, E& rem) {
	Lin Q, R; for (auto& x : L.t) { const s128 q = floorDiv(x.second + d / 2, d); if (q) Q.t.emplace_back(x.first, q); if (x.second - q * d) R.t.emplace_back(x.first, x.second - q * d); }
	R.c = L.c; s128 lo, hi; if (!linRange(R, lo, hi)) return false;
	const s128 q = floorDiv(lo, d); Q.c = q; R.c -= q * d; lo -= q * d; hi -= q * d;
	if (hi < d) { quo = linBuild(Q, w); rem = linBuild(R, w); tighten(rem, (uint64_t)lo, (uint64_t)hi); return true; }
	if (hi >= 2 * d || (u128)hi > maskOf(w)) return false;
	E r = linBuild(R, w); tighten(r, (uint64_t)lo, (uint64_t)hi); E c = mkBin(K::Ule, mkConst((u128)d, w), r);
	quo = mkBin(K::Add, linBuild(Q, w), mkZExt(c, w)); rem = mkIte(c, mkBin(K::Sub, r, mkConst((u128)d, w)), r); tighten(rem, 0, (uint64_t)(d - 1)); return true;
}
bool linSDivide(E a, u128 dv, E* quo, E* rem) { // towards zero
	const unsigned w = a->w; if (w > 64 || w < 16 || dv > (u128)LIN_MAX || dv >= ((u128)1 << (w - 1)) || a->k == K::Var) return false;
	Lin L; if (!linExact(a, L, true, 0)) return false;
	if (L.t.size() == 1 && L.t[0].first == a && !L.c) return false;
	E q, r; if (!linFloor(L, w, (s128)dv, q, r)) return false;
	s128 lo, hi; if (!linRange(L, lo, hi)) return false;
	E t = lo >= 0 ? mkFalse() : mkNot(mkEq(r, mkConst(0, w))); if (lo < 0 && hi >= 0) t = mkAnd(t, mkBin(K::Slt, q, mkConst(0, w)));
	if (quo) *quo = mkBin(K::Add, q, mkZExt(t, w));
	if (rem) *rem = mkIte(t, mkBin(K::Sub, r, mkConst(dv, w)), r);
	return true;
}
// a / d and a % d for a linear form a = d * Q + R with small R
bool linDivide(E a, u128 dv, E* quo, E* rem) {
	const unsigned w = a->w; if (w > 64 || w < 8 || dv > (u128)LIN_MAX) return false;
	if (a->k != K::Add && a->k != K::Mul && a->k != K::Sub && a->k != K::Concat && a->k != K::ZExt) return false;
	Lin L; if (!linExact(a, L, false, 0)) { L = Lin(); if (!linAdd(a, 1, L, 0)) return false; linNorm(L); }
	if (rem && !quo) { // remainders of the same divisor count as what they are remainders of
		Lin T; T.c = L.c; T.n = L.n; bool ch = false, ok = true;
		for (auto& x : L.t) { E y = linCore(x.first); Lin S; if (y->k == K::URem && y->op[1]->isConst() && y->op[1]->val % dv == 0 && linAdd(y->op[0], 1, S, 0)) { ch = true; ok = ok && linMerge(S, x.second, T); } else { Lin S1; S1.t.push_back(x); ok = ok && linMerge(S1, 1, T); } }
		if (ch && ok) { linNorm(T); for (auto& x : T.t) x.second -= floorDiv(x.second, (s128)dv) * (s128)dv; T.c -= floorDiv(T.c, (s128)dv) * (s128)dv; T.t.erase(std::remove_if(T.t.begin(), T.t.end(), [](const std::pair<E, s128>& x) { return x.second == 0; }), T.t.end());
			s128 lo, hi; if (linRange(T, lo, hi) && (u128)hi <= maskOf(w)) { *rem = mkBin(K::URem, linBuild(T, w), mkConst(dv, w)); return true; } } }
	{ E q, r; if (linFloor(L, w, (s128)dv, q, r)) { if (quo) *quo = q; if (rem) *rem = r; return true; } }
	const s128 d = (s128)dv; Lin Q, R; auto fl = [&](s128 x) { s128 q = x / d; if (x % d < 0) --q; return q; };
	for (auto& x : L.t) { s128 q = fl(x.second); if (q) Q.t.emplace_back(x.first, q); if (x.second - q * d) R.t.emplace_back(x.first, x.second - q * d); }
	Q.c = fl(L.c); R.c = L.c - Q.c * d;
	u128 hi; if (!linMax(R, maskOf(w), hi)) return false;
	bool changed = !Q.t.empty() || Q.c;
	if (hi < dv) { if (!changed && a->umax >= dv && quo) { *quo = mkConst(0, w); return true; } if (!changed) return false; if (quo) *quo = linBuild(Q, w); if (rem) *rem = linBuild(R, w); return true; }
	// R = g * X + S with S < g and g dividing d
	std::vector<std::pair<E, s128>> ts(R.t); std::sort(ts.begin(), ts.end(), [](const std::pair<E, s128>& x, const std::pair<E, s128>& y) { return x.second > y.second; });
	s128 g = d;
	for (size_t j = 0; j < ts.size(); ++j) {
		g = gcdS(g, ts[j].second); if (g <= 1) break;
		Lin S; S.t.assign(ts.begin() + j + 1, ts.end()); S.c = R.c % g; u128 sh; if (!linMax(S, (u128)g - 1, sh)) continue;
		Lin X; for (size_t i = 0; i <= j; ++i) X.t.emplace_back(ts[i].first, ts[i].second / g); X.c = R.c / g;
		std::sort(X.t.begin(), X.t.end(), [](const std::pair<E, s128>& x, const std::pair<E, s128>& y) { return x.first->id < y.first->id; });
		std::sort(S.t.begin(), S.t.end(), [](const std::pair<E, s128>& x, const std::pair<E, s128>& y) { return x.first->id < y.first->id; });
		E x = linBuild(X, w), dd = mkConst((u128)(d / g), w);
		if (quo) { E q = mkBin(K::UDiv, x, dd); *quo = changed ? mkBin(K::Add, linBuild(Q, w), q) : q; }
		if (rem) *rem = mkBin(K::Add, mkBin(K::Mul, mkBin(K::URem, x, dd), mkConst((u128)g, w)), linBuild(S, w));
		return true;
	}
	if (!changed) return false;
	E r = linBuild(R, w), dd = mkConst(dv, w);
	if (quo) *quo = mkBin(K::Add, linBuild(Q, w), mkBin(K::UDiv, r, dd));
	if (rem) *rem = mkBin(K::URem, r, dd);
	return true;
}
bool linLike(E e);
// -1: always a < b, 1: always a >= b, 0: not known from ranges
int linOrder(E a, E b, bool sgn = false) {
	if (a->w > 64 || a->w < 8 || !(linLike(a) || linLike(b)) || (!sgn && (a->isConst() || b->isConst()))) return 0;
	Lin A, L; if (sgn) { if (!linExact(a, L, true, 0) || !linExact(b, A, true, L.n) || !linMerge(A, -1, L)) return 0; } else if (!linAdd(a, 1, L, 0) || !linAdd(b, -1, L, 0)) return 0;
	linNorm(L); s128 lo, hi; if (!linRange(L, lo, hi)) return 0;
	return hi < 0 ? -1 : lo >= 0 ? 1 : 0;
}
// c1 <= m * x + c0 (or the other way round) as a bound on x; null when a is not of that form
E linBound(E a, u128 v, bool lower) { // lower: a >= v, else a <= v
	if (a->w > 64 || a->w < 8 || !linLike(a)) return nullptr;
	Lin L; if (!linExact(a, L, false, 0) || L.t.size() != 1 || L.t[0].first == a) return nullptr;
	E x = L.t[0].first; const s128 m = L.t[0].second, t = (s128)v - L.c; bool ge = lower == (m > 0); const s128 am = m > 0 ? m : -m, tt = m > 0 ? t : -t;
	const s128 q = ge ? -floorDiv(-tt, am) : floorDiv(tt, am); // x >= q or x <= q
	if (ge) { if (q <= (s128)x->umin) return mkTrue(); if (q > (s128)x->umax) return mkFalse(); return mkBin(K::Ule, mkConst((u128)q, x->w), x); }
	if (q >= (s128)x->umax) return mkTrue(); if (q < (s128)x->umin) return mkFalse(); return mkBin(K::Ule, x, mkConst((u128)q, x->w));
}
bool linLike(E e) { return e->k == K::Add || e->k == K::Sub || e->k == K::Mul || (e->k == K::ZExt && linLike(e->op[0])) || (e->k == K::Concat && (linLike(e->op[1]) || linLike(e->op[0]))) || (e->k == K::Extract && e->aux == 0 && linLike(e->op[0])); }
}

E mkBin(K k, E a, E b) {
	unsigned w = a->w;
	bool cmp = k >= K::Eq && k <= K::Sle;
	unsigned rw = cmp ? 1 : w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d op %d\n", a->w, b->w, (int)k); abort(); }
	if (a->isConst() && b->isConst()) { u128 r; foldBin(k, a->val, b->val, w, r); return mkConst(r, rw); }
	if (commut(k)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); } // const goes right
	const bool bc = b->isConst(), ac = a->isConst();
	const u128 M = maskOf(w);
	// push through ite-of-consts when the other is const
	if (bc && cheapIte(a)) { u128 r1, r2; foldBin(k, a->op[1]->val, b->val, w, r1); foldBin(k, a->op[2]->val, b->val, w, r2); return mkIte(a->op[0], mkConst(r1, rw), mkConst(r2, rw)); }
	if (ac && cheapIte(b)) { u128 r1, r2; foldBin(k, a->val, b->op[1]->val, w, r1); foldBin(k, a->val, b->op[2]->val, w, r2); return mkIte(b->op[0], mkConst(r1, rw), mkConst(r2, rw)); }
	switch (k) {
	case K::Add:
		if (bc && b->val == 0) return a;
		if (w == 1) return mkBin(K::Xor, a, b);
		if (bc && a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Add, a->op[0], mkConst(a->op[1]->val + b->val, w));
		if (bc && a->k == K::Sub && a->op[0]->isConst()) return mkBin(K::Sub, mkConst(a->op[0]->val + b->val, w), a->op[1]);
		if (a->k == K::Sub && a->op[1] == b) return a->op[0];
		if (b->k == K::Sub && b->op[1] == a) return b->op[0];
		// move constants outward: (x + c) + y -> (x + y) + c
		if (a->k == K::Add && a->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Add, a->op[0], b), a->op[1]);
		if (b->k == K::Add && b->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Add, a, b->op[0]), b->op[1]);
		break;
	case K::Sub:
		if (bc) { if (b->val == 0) return a; return mkBin(K::Add, a, mkConst(0 - b->val, w)); }
		if (a == b) return mkConst(0, w);
		if (a->k == K::Add) {
			if (a->op[0] == b) return a->op[1];
			if (a->op[1] == b) return a->op[0];
			if (a->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a->op[0], b), a->op[1]);
		}
		if (b->k == K::Add) {
			if (b->op[0] == a) return mkNeg(b->op[1]);
			if (b->op[1] == a) return mkNeg(b->op[0]);
			if (b->op[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a, b->op[0]), mkConst(0 - b->op[1]->val, w));
		}
		if (b->k == K::Sub && b->op[0] == a) return b->op[1];
		break;
	case K::Mul:
		if (bc) { if (b->val == 0) return b; if (b->val == 1) return a;
			if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; u128 v = b->val; while (v > 1) { v >>= 1; ++s; } return mkBin(K::Shl, a, mkConst(s, w)); }
			if (a->k == K::Mul && a->op[1]->isConst()) return mkBin(K::Mul, a->op[0], mkConst(a->op[1]->val * b->val, w)); }
		break;
	case K::UDiv:
		if (bc) { if (b->val == 1) return a;
			if (b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; u128 v = b->val; while (v > 1) { v >>= 1; ++s; } return mkBin(K::LShr, a, mkConst(s, w)); }
			if (a->k == K::ZExt && b->val > maskOf(a->op[0]->w)) return mkConst(0, w);
			if (a->k == K::ZExt) return mkZExt(mkBin(K::UDiv, a->op[0], mkConst(b->val, a->op[0]->w)), w); }
		if (bc && b->val) { E q = nullptr; if (w <= 64 && a->umax < b->val) return mkConst(0, w); if (linDivide(a, b->val, &q, nullptr)) return q; if (w <= 64 && a->umax < b->val) return mkConst(0, w); if (a->k == K::Mul && a->op[1]->isConst() && a->op[1]->val % b->val == 0 && w <= 64 && (u128)a->op[0]->umax * a->op[1]->val <= M) return mkBin(K::Mul, a->op[0], mkConst(a->op[1]->val / b->val, w)); }
		// narrow when both fit
		if (w <= 64 && w > 8) { uint64_t m = std::max(a->umax, b->umax); unsigned nw = m ? 64 - __builtin_clzll(m) : 1; nw = (nw + 7) / 8 * 8; if (nw < w && b->umin > 0) return mkZExt(mkBin(K::UDiv, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w); }
		break;
	case K::URem:
		if (bc) { if (b->val == 1) return mkConst(0, w); unsigned n;
			if (b->val && (b->val & (b->val - 1)) == 0 && isLowMask(b->val - 1, n)) return mkBin(K::And, a, mkConst(b->val - 1, w));
			if (w <= 64 && a->umax < b->val) return a;
			if (b->val) { E r = nullptr; if (linDivide(a, b->val, nullptr, &r)) return r; }
			if (a->k == K::ZExt && b->val <= maskOf(a->op[0]->w)) return mkZExt(mkBin(K::URem, a->op[0], mkConst(b->val, a->op[0]->w)), w); }
		if (w <= 64 && w > 8) { uint64_t m = std::max(a->umax, b->umax); unsigned nw = m ? 64 - __builtin_clzll(m) : 1; nw = (nw + 7) / 8 * 8; if (nw < w && b->umin > 0) return mkZExt(mkBin(K::URem, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w); }
		break;
	case K::SDiv:
		if (bc && b->val == 1) return a;
		if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1)) && b->umin > 0) return mkBin(K::UDiv, a, b);
		if (bc && b->val) { E q = nullptr; if (linSDivide(a, b->val, &q, nullptr)) return q; }
		if (bc && w <= 64 && b->val && b->umax < (1ull << (w - 1)) && a->umin > (1ull << (w - 1))) return mkNeg(mkBin(K::UDiv, mkNeg(a), b));
		break;
	case K::SRem:
		if (bc && b->val == 1) return mkConst(0, w);
		if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1)) && b->umin > 0) return mkBin(K::URem, a, b);
		if (bc && b->val) { E r = nullptr; if (linSDivide(a, b->val, nullptr, &r)) return r; }
		if (bc && w <= 64 && b->val && b->umax < (1ull << (w - 1)) && a->umin > (1ull << (w - 1))) return mkNeg(mkBin(K::URem, mkNeg(a), b));
		break;
	case K::And:
		if (a == b) return a;
		if (bc) {
			if (b->val == 0) return b;
			if (b->val == M) return a;
			unsigned n;
			if (isLowMask(b->val, n)) { if (w <= 64 && a->umax <= (uint64_t)b->val) return a; return mkZExt(mkExtract(a, 0, n), w); }
			if (a->k == K::And && a->op[1]->isConst()) return mkBin(K::And, a->op[0], mkConst(a->op[1]->val & b->val, w));
			if (a->k == K::ZExt) { u128 m2 = b->val & maskOf(a->op[0]->w); return mkZExt(mkBin(K::And, a->op[0], mkConst(m2, a->op[0]->w)), w); }
			// single contiguous mask: zext(extract) << lo
			{ u128 v = b->val; unsigned lo = 0; while (!(v & 1)) { v >>= 1; ++lo; } if (lo && isLowMask(v, n)) { E mid = mkExtract(a, lo, n); E r = mkConcat(mid, mkConst(0, lo)); return mkZExt(r, w); } }
		}
		if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkFalse();
		if (a->k == K::And && (a->op[0] == b || a->op[1] == b)) return a;
		if (b->k == K::And && (b->op[0] == a || b->op[1] == a)) return b;
		break;
	case K::Or:
		if (a == b) return a;
		if (bc) { if (b->val == 0) return a; if (b->val == M) return b;
			if (a->k == K::Or && a->op[1]->isConst()) return mkBin(K::Or, a->op[0], mkConst(a->op[1]->val | b->val, w)); }
		if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkTrue();
		if (a->k == K::Or && (a->op[0] == b || a->op[1] == b)) return a;
		if (b->k == K::Or && (b->op[0] == a || b->op[1] == a)) return b;
		// disjoint combination via zext/concat: zext(x) | (y << c) where x fits below c
		for (int t = 0; t < 2; ++t) {
			E x = t ? b : a, y = t ? a : b;
			if (x->k == K::ZExt) {
				unsigned xw = x->op[0]->w;
				if (y->k == K::Concat && y->op[1]->isConst() && y->op[1]->val == 0 && y->op[1]->w >= xw) return mkConcat(y->op[0], mkZExt(x->op[0], y->op[1]->w));
				if (y->k == K::ZExt && y->op[0]->k == K::Concat && y->op[0]->op[1]->isConst() && y->op[0]->op[1]->val == 0 && y->op[0]->op[1]->w >= xw) return mkZExt(mkConcat(y->op[0]->op[0], mkZExt(x->op[0], y->op[0]->op[1]->w)), w);
			}
		}
		break;
	case K::Xor:
		if (a == b) return mkConst(0, w);
		if (bc) { if (b->val == 0) return a;
			if (a->k == K::Xor && a->op[1]->isConst()) return mkBin(K::Xor, a->op[0], mkConst(a->op[1]->val ^ b->val, w));
			if (w == 1 && b->val == 1) {
				if (a->k == K::Ult || a->k == K::Ule || a->k == K::Slt || a->k == K::Sle) return mkNot(a);
				if (a->k == K::Ite) return mkIte(a->op[0], mkNot(a->op[1]), mkNot(a->op[2]));
			} }
		break;
	case K::Shl:
		if (bc) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
			unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
		if (ac && a->val == 0) return a;
		break;
	case K::LShr:
		if (bc) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
			unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
		if (ac && a->val == 0) return a;
		break;
	case K::AShr:
		if (bc) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
		if (ac && a->val == 0) return a;
		break;
	case K::Eq:
		if (a == b) return mkTrue();
		if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkFalse();
		if (w == 1 && bc) return b->val ? a : mkNot(a);
		if (w >= 8 && w <= 64 && (linLike(a) || linLike(b))) {
			Lin L; if (linAdd(a, 1, L, w) && linAdd(b, -1, L, w)) {
				const size_t before = L.n; linNorm(L); (void)before;
				for (auto& x : L.t) x.second = sextW((u128)x.second & M, w); L.c = sextW((u128)L.c & M, w);
				L.t.erase(std::remove_if(L.t.begin(), L.t.end(), [](const std::pair<E, s128>& x) { return x.second == 0; }), L.t.end());
				if (L.t.empty()) return mkConst(L.c == 0, 1);
				{ s128 lo, hi; const s128 P = (s128)M + 1; if (linRange(L, lo, hi) && hi - lo < P) { // over the integers: the sum is one multiple of 2^w or none
					const s128 k = floorDiv(hi, P) * P; if (k < lo) return mkFalse();
					L.c -= k; s128 g = 0; for (auto& x : L.t) g = gcdS(g, x.second > 0 ? x.second : -x.second); if (g > 1) { if (L.c % g) return mkFalse(); L.c /= g; for (auto& x : L.t) x.second /= g; } } }
				if (L.t.size() == 1 && (L.t[0].second == 1 || L.t[0].second == -1)) { E x = L.t[0].first; const u128 v = (u128)(L.t[0].second == 1 ? -L.c : L.c) & M; if (x->w < w && (v >> x->w)) return mkFalse(); if (x != a && x != b) return mkEq(x, mkConst(v, x->w)); }
				Lin P, N; for (auto& x : L.t) if (x.second > 0) P.t.push_back(x); else N.t.emplace_back(x.first, -x.second); if (L.c > 0) P.c = L.c; else N.c = -L.c;
				E p = linBuild(P, w), n = linBuild(N, w); if (commut(K::Eq) && (p->isConst() || (!n->isConst() && p->id > n->id))) std::swap(p, n);
				if (n->isConst() && p->k == K::Add && p->op[1]->isConst()) { n = mkConst(n->val - p->op[1]->val, w); p = p->op[0]; }
				if (w <= 64 && (p->umax < n->umin || n->umax < p->umin)) return mkFalse();
				if (n->isConst() && p->k == K::Concat && n->w == p->w) { unsigned lw = p->op[1]->w; return mkAnd(mkEq(p->op[1], mkConst(n->val, lw)), mkEq(p->op[0], mkConst(n->val >> lw, p->op[0]->w))); }
				return fin(K::Eq, 1, p, n);
			}
		}
		if (bc) {
			if (a->k == K::ZExt) { unsigned nw = a->op[0]->w; if (b->val >> nw) return mkFalse(); return mkEq(a->op[0], mkConst(b->val, nw)); }
			if (a->k == K::SExt) { unsigned nw = a->op[0]->w; E t = mkConst(b->val, nw); if (((u128)sextW(t->val, nw) & M) != b->val) return mkFalse(); return mkEq(a->op[0], t); }
			if (a->k == K::Add && a->op[1]->isConst()) return mkEq(a->op[0], mkConst(b->val - a->op[1]->val, w));
			if (a->k == K::Sub && a->op[0]->isConst()) return mkEq(a->op[1], mkConst(a->op[0]->val - b->val, w));
			if (a->k == K::Xor && a->op[1]->isConst()) return mkEq(a->op[0], mkConst(b->val ^ a->op[1]->val, w));
			if (a->k == K::Sub && b->val == 0) return mkEq(a->op[0], a->op[1]);
			if (a->k == K::Xor && b->val == 0) return mkEq(a->op[0], a->op[1]);
			if (a->k == K::Concat) { unsigned lw = a->op[1]->w; return mkAnd(mkEq(a->op[1], mkConst(b->val, lw)), mkEq(a->op[0], mkConst(b->val >> lw, a->op[0]->w))); }
			if (a->k == K::Ite) {
				if (a->op[1]->isConst() || a->op[2]->isConst()) {
					E t = mkEq(a->op[1], b), f = mkEq(a->op[2], b);
					if (t->isConst() || f->isConst()) return mkIte(a->op[0], t, f);
				}
			}
		}
		else {
			if (a->k == K::ZExt && b->k == K::ZExt) { unsigned nw = std::max(a->op[0]->w, b->op[0]->w); return mkEq(mkZExt(a->op[0], nw), mkZExt(b->op[0], nw)); }
			if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return mkEq(a->op[0], b->op[0]);
			if (a->k == K::Add && a->op[1]->isConst() && b->k == K::Add && b->op[1]->isConst()) return mkEq(a->op[0], mkBin(K::Add, b->op[0], mkConst(b->op[1]->val - a->op[1]->val, w)));
			if (a->k == K::Concat && b->k == K::Concat && a->op[1]->w == b->op[1]->w) return mkAnd(mkEq(a->op[0], b->op[0]), mkEq(a->op[1], b->op[1]));
			if (a->k == K::Add && (a->op[0] == b)) return mkEq(a->op[1], mkConst(0, w));
			if (a->k == K::Add && (a->op[1] == b)) return mkEq(a->op[0], mkConst(0, w));
			if (b->k == K::Add && (b->op[0] == a)) return mkEq(b->op[1], mkConst(0, w));
			if (b->k == K::Add && (b->op[1] == a)) return mkEq(b->op[0], mkConst(0, w));
		}
		break;
	case K::Ult:
		if (a == b) return mkFalse();
		if (w <= 64) { if (a->umax < b->umin) return mkTrue(); if (a->umin >= b->umax) return mkFalse(); }
		{ int o = linOrder(a, b); if (o) return mkConst(o < 0, 1); }
		if (bc && b->val) { E r = linBound(a, b->val - 1, false); if (r) return r; } if (ac && a->val < M) { E r = linBound(b, a->val + 1, true); if (r) return r; }
		if (bc && b->val == 1) return mkEq(a, mkConst(0, w));
		if (w == 1) return mkAnd(mkNot(a), b);
		if (a->k == K::ZExt && b->k == K::ZExt) { unsigned nw = std::max(a->op[0]->w, b->op[0]->w); return mkBin(K::Ult, mkZExt(a->op[0], nw), mkZExt(b->op[0], nw)); }
		if (a->k == K::ZExt && bc && w <= 64) { unsigned nw = a->op[0]->w; if (b->c64() <= mask64(nw)) return mkBin(K::Ult, a->op[0], mkConst(b->val, nw)); }
		if (b->k == K::ZExt && ac && w <= 64) { unsigned nw = b->op[0]->w; if (a->c64() <= mask64(nw)) return mkBin(K::Ult, mkConst(a->val, nw), b->op[0]); }
		break;
	case K::Ule:
		if (a == b) return mkTrue();
		if (w <= 64) { if (a->umax <= b->umin) return mkTrue(); if (a->umin > b->umax) return mkFalse(); }
		{ int o = linOrder(b, a); if (o) return mkConst(o > 0, 1); }
		if (bc) { E r = linBound(a, b->val, false); if (r) return r; } if (ac) { E r = linBound(b, a->val, true); if (r) return r; }
		if (bc && b->val == 0) return mkEq(a, b);
		if (w == 1) return mkOr(mkNot(a), b);
		if (a->k == K::ZExt && b->k == K::ZExt) { unsigned nw = std::max(a->op[0]->w, b->op[0]->w); return mkBin(K::Ule, mkZExt(a->op[0], nw), mkZExt(b->op[0], nw)); }
		if (a->k == K::ZExt && bc && w <= 64) { unsigned nw = a->op[0]->w; if (b->c64() <= mask64(nw)) return mkBin(K::Ule, a->op[0], mkConst(b->val, nw)); }
		if (b->k == K::ZExt && ac && w <= 64) { unsigned nw = b->op[0]->w; if (a->c64() <= mask64(nw)) return mkBin(K::Ule, mkConst(a->val, nw), b->op[0]); }
		if (ac && !bc) { if (a->val == 0) return mkTrue(); return mkBin(K::Ult, mkConst(a->val - 1, w), b); } // c <= b  ->  c-1 < b (c > 0 as umin check covers c == 0)
		break;
	case K::Slt: case K::Sle: {
		if (a == b) return k == K::Sle ? mkTrue() : mkFalse();
		if (w == 1) return k == K::Slt ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b));
		if (w <= 64) {
			uint64_t H = 1ull << (w - 1);
			bool an = a->umin >= H, ap = a->umax < H, bn = b->umin >= H, bp = b->umax < H;
			if (an && bp) return mkTrue();
			if (ap && bn) return mkFalse();
			if ((ap && bp) || (an && bn)) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
			if (k == K::Slt) { int o = linOrder(a, b, true); if (o) return mkConst(o < 0, 1); } else { int o = linOrder(b, a, true); if (o) return mkConst(o > 0, 1); }
		}
		if (a->k == K::SExt && b->k == K::SExt && a->op[0]->w == b->op[0]->w) return mkBin(k, a->op[0], b->op[0]);
		if (bc && a->k == K::SExt) { unsigned nw = a->op[0]->w; s128 bv = sextW(b->val, w), mx = sextW(maskOf(nw) >> 1, 128), mn = -mx - 1; if (bv > mx) return mkTrue(); if (bv < mn) return mkFalse(); return mkBin(k, a->op[0], mkConst((u128)bv, nw)); }
		if (ac && b->k == K::SExt) { unsigned nw = b->op[0]->w; s128 av = sextW(a->val, w), mx = sextW(maskOf(nw) >> 1, 128), mn = -mx - 1; if (av > mx) return mkFalse(); if (av < mn) return mkTrue(); return mkBin(k, mkConst((u128)av, nw), b->op[0]); }
		if (bc && b->val == 0 && k == K::Slt) return mkExtract(a, w - 1, 1);
		if (ac && a->val == M && k == K::Slt) return mkNot(mkExtract(b, w - 1, 1));
		if (ac && a->val == 0 && k == K::Sle) return mkNot(mkExtract(b, w - 1, 1));
		if (bc && b->val == M && k == K::Sle) return mkExtract(a, w - 1, 1);
		break; }
	default: break;
	}
	E r = fin(k, rw, a, b);
	if ((k == K::Add || k == K::Sub || (k == K::Mul && bc)) && w >= 8 && w <= 64 && !r->isConst() && r->umin == 0 && r->umax == (uint64_t)M) {
		Lin L; s128 lo, hi; if (linExact(r, L, false, 60) && linRange(L, lo, hi) && hi - lo < (s128)M) { if (lo == hi) return mkConst((u128)lo, w); tighten(r, (uint64_t)lo, (uint64_t)hi); } }
	return r;
}

E mkIte(E c, E a, E b) {
	if (c->isConst()) return c->val ? a : b;
	if (a == b) return a;
	if (a->w == 1) {
		if (a->isTrue()) return mkOr(c, b);
		if (a->isFalse()) return mkAnd(mkNot(c), b);
		if (b->isTrue()) return mkOr(mkNot(c), a);
		if (b->isFalse()) return mkAnd(c, a);
	}
	if (c->k == K::Xor && c->op[1]->isTrue()) return mkIte(c->op[0], b, a);
	if (a->k == K::Ite && a->op[0] == c) a = a->op[1];
	if (b->k == K::Ite && b->op[0] == c) b = b->op[2];
	if (a == b) return a;
	if (a->k == K::ZExt && b->k == K::ZExt && a->op[0]->w == b->op[0]->w) return mkZExt(mkIte(c, a->op[0], b->op[0]), a->w);
	return fin(K::Ite, a->w, c, a, b);
}
E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
	if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
	if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
	if (hi->k == K::Extract && lo->k == K::Extract && hi->op[0] == lo->op[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->op[0], lo->aux, w);
	if (lo->k == K::Concat && hi->k == K::Extract && lo->op[0]->k == K::Extract && lo->op[0]->op[0] == hi->op[0] && hi->aux == lo->op[0]->aux + lo->op[0]->w)
		return mkConcat(mkExtract(hi->op[0], lo->op[0]->aux, hi->w + lo->op[0]->w), lo->op[1]);
	{ E t = hi->k == K::SExt ? hi->op[0] : hi; if (t->w == 1 && (t->k == K::Extract) && w <= 64 && t == mkExtract(lo, lo->w - 1, 1)) return mkSExt(lo, w); }
	if (hi->k == K::Extract && hi->aux == lo->w && lo == mkExtract(hi->op[0], 0, lo->w)) return mkExtract(hi->op[0], 0, w); // the low part was rewritten
	// right-nest: concat(concat(a,b),c) -> concat(a, concat(b,c))
	if (hi->k == K::Concat) return mkConcat(hi->op[0], mkConcat(hi->op[1], lo));
	if (lo->k == K::Concat && hi->isConst() && lo->op[0]->isConst()) return mkConcat(mkConst((hi->val << lo->op[0]->w) | lo->op[0]->val, hi->w + lo->op[0]->w), lo->op[1]);
	if (lo->k == K::ZExt && hi->isConst()) {}
	// ite with same condition
	if (lo->k == K::Concat && hi->k == K::Ite && lo->op[0]->k == K::Ite && hi->op[0] == lo->op[0]->op[0]) return mkConcat(mkConcat(hi, lo->op[0]), lo->op[1]);
	if (hi->k == K::Ite && lo->k == K::Ite && hi->op[0] == lo->op[0]) return mkIte(hi->op[0], mkConcat(hi->op[1], lo->op[1]), mkConcat(hi->op[2], lo->op[2]));
	return fin(K::Concat, w, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (a->isConst()) return mkConst(a->val >> lo, w);
	switch (a->k) {
	case K::Extract: return mkExtract(a->op[0], a->aux + lo, w);
	case K::Concat: { unsigned lw = a->op[1]->w; if (lo + w <= lw) return mkExtract(a->op[1], lo, w); if (lo >= lw) return mkExtract(a->op[0], lo - lw, w);
		return mkConcat(mkExtract(a->op[0], 0, lo + w - lw), mkExtract(a->op[1], lo, lw - lo)); }
	case K::ZExt: { unsigned nw = a->op[0]->w; if (lo >= nw) return mkConst(0, w); if (lo + w <= nw) return mkExtract(a->op[0], lo, w); return mkZExt(mkExtract(a->op[0], lo, nw - lo), w); }
	case K::SExt: { unsigned nw = a->op[0]->w; if (lo + w <= nw) return mkExtract(a->op[0], lo, w); if (lo < nw) return mkSExt(mkExtract(a->op[0], lo, nw - lo), w); { E s = mkExtract(a->op[0], nw - 1, 1); return mkSExt(s, w); } }
	case K::And: case K::Or: case K::Xor: return mkBin(a->k, mkExtract(a->op[0], lo, w), mkExtract(a->op[1], lo, w));
	case K::Add: case K::Sub: case K::Mul: if (lo == 0) return mkBin(a->k, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w)); break;
	case K::Ite: if (a->op[1]->isConst() || a->op[2]->isConst() || (a->op[1]->k == K::ZExt) || (a->op[2]->k == K::ZExt) || a->op[1]->k == K::Ite || a->op[2]->k == K::Ite || a->op[1]->k == K::Concat || a->op[2]->k == K::Concat) return mkIte(a->op[0], mkExtract(a->op[1], lo, w), mkExtract(a->op[2], lo, w)); break;
	default: break;
	}
	if (a->w <= 64 && (lo >= 64 || (a->umax >> lo) == 0)) return mkConst(0, w);
	return fin(K::Extract, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w) {
	if (w == a->w) return a;
	if (w < a->w) return mkExtract(a, 0, w);
	if (a->isConst()) return mkConst(a->val, w);
	if (a->k == K::ZExt) return mkZExt(a->op[0], w);
	if (cheapIte(a)) return mkIte(a->op[0], mkConst(a->op[1]->val, w), mkConst(a->op[2]->val, w));
	return fin(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
	if (w == a->w) return a;
	if (w < a->w) return mkExtract(a, 0, w);
	if (a->isConst()) return mkConst((u128)sextW(a->val, a->w), w);
	if (a->w <= 64 && a->umax < (1ull << (a->w - 1))) return mkZExt(a, w);
	if (a->k == K::SExt) return mkSExt(a->op[0], w);
	if (cheapIte(a)) return mkIte(a->op[0], mkSExt(a->op[1], w), mkSExt(a->op[2], w));
	return fin(K::SExt, w, a);
}

static uint64_t g_epoch = 1;
void evalNewEpoch() { ++g_epoch; }
static u128 evalRec(E e, const Assign& m) {
	if (e->k == K::Const) return e->val;
	if (e->evEpoch == g_epoch) return e->evVal;
	u128 r = 0;
	switch (e->k) {
	case K::Var: r = e->aux < m.size() ? m[e->aux] : (u128)g_vars[e->aux].lo; break;
	case K::Ite: r = evalRec(e->op[0], m) ? evalRec(e->op[1], m) : evalRec(e->op[2], m); break;
	case K::Concat: r = (evalRec(e->op[0], m) << e->op[1]->w) | evalRec(e->op[1], m); break;
	case K::Extract: r = (evalRec(e->op[0], m) >> e->aux) & maskOf(e->w); break;
	case K::ZExt: r = evalRec(e->op[0], m); break;
	case K::SExt: r = (u128)sextW(evalRec(e->op[0], m), e->op[0]->w) & maskOf(e->w); break;
	default:
		if (e->k >= K::FAdd) { u128 a = evalRec(e->op[0], m), b = e->op[1] ? evalRec(e->op[1], m) : 0; foldFp(e->k, a, b, e->op[0]->w, e->w, e->aux, r); }
		else { u128 a = evalRec(e->op[0], m), b = evalRec(e->op[1], m); foldBin(e->k, a, b, e->op[0]->w, r); }
	}
	e->evEpoch = g_epoch; e->evVal = r;
	return r;
}
u128 evalExprE(E e, const Assign& m) { return evalRec(e, m); }
u128 evalExpr(E e, const Assign& m) { ++g_epoch; return evalRec(e, m); }

static const char* kn[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx", "f+", "f-", "f*", "f/", "f==", "f<", "f<=", "funo", "si2f", "ui2f", "f2si", "f2ui", "fext", "ftrunc", "fsqrt", "frint"};
std::string exprStr(E e, int d) {
	char buf[64];
	if (e->k == K::Const) { snprintf(buf, 64, "%llu:%d", (unsigned long long)e->val, e->w); return buf; }
	if (e->k == K::Var) return g_vars[e->aux].name;
	if (d <= 0) return "...";
	std::string s = "("; s += kn[(int)e->k]; if (e->k == K::Extract || e->k == K::ZExt || e->k == K::SExt) { snprintf(buf, 64, "[%d:%d]", e->aux, e->w); s += buf; }
	for (int i = 0; i < e->nops; ++i) s += " " + exprStr(e->op[i], d - 1);
	return s + ")";
}
