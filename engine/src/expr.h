// Hash-consed bit-vector expression DAG with simplifying constructors.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t {
	Const, Var,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle,
	Ite, Concat, Extract, ZExt, SExt,
	// floating point on IEEE bit patterns; width is result width (1 for predicates)
	FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FUno, SIToFP, UIToFP, FPToSI, FPToUI, FPExt, FPTrunc, FSqrt, FRint /*aux: rounding mode*/
};

struct VarSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
	K k;
	uint8_t nops;
	uint16_t w;       // result width in bits (1..128)
	uint32_t id;
	uint32_t aux;     // Extract: low bit; Var: variable index
	const Expr* op[3];
	u128 val;         // Const value
	uint64_t umin, umax; // unsigned range (valid when w <= 64)
	const VarSet* vs;
	uint64_t hash;
	// evaluation memo
	mutable uint64_t evEpoch = 0;
	mutable u128 evVal = 0;
	bool isConst() const { return k == K::Const; }
	bool isTrue() const { return k == K::Const && w == 1 && val == 1; }
	bool isFalse() const { return k == K::Const && w == 1 && val == 0; }
	uint64_t c64() const { return (uint64_t)val; }
};
typedef const Expr* E;

struct VarInfo { std::string name; uint16_t w; uint64_t lo, hi; E e; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_numExprs;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
inline s128 sextW(u128 v, unsigned w) { return w >= 128 ? (s128)v : (s128)(v << (128 - w)) >> (128 - w); }

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, uint64_t lo, uint64_t hi);
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);            // logical/bitwise not
E mkNeg(E a);
E mkFp(K k, E a, E b, unsigned w, uint32_t aux = 0);
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K::Or, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }

// fold helper used by interpreter and evaluator. Returns false for undefined ops (division by zero)
bool foldBin(K k, u128 a, u128 b, unsigned w, u128& out);
bool foldFp(K k, u128 a, u128 b, unsigned opw, unsigned w, uint32_t aux, u128& out);

typedef std::vector<u128> Assign; // indexed by var index, missing = lo
u128 evalExpr(E e, const Assign& m);   // uses fresh epoch
void evalNewEpoch();
u128 evalExprE(E e, const Assign& m);  // within the current epoch

std::string exprStr(E e, int depth = 6);
