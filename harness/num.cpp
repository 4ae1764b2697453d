// Big integers, decimals, fixed-point numbers and integer helpers against plain wide arithmetic.
#include "sx.h"
#include <stingraykit/BigNum.h>
#include <stingraykit/Decimal.h>
#include <stingraykit/fixed_point.h>
#include <stingraykit/math.h>
#include <stingraykit/BitwiseOperations.h>
#include <stingraykit/NumericRange.h>
#include <stingraykit/Average.h>
#include <stingraykit/Accumulators.h>
using namespace stingray;
typedef unsigned __int128 U; typedef BigUnsignedInteger B;
namespace {
int K(int q, int t) { return sx_tier() ? t : q; }
B Make(u64 hi, u64 lo) { return (B(hi) << 64) | B(lo); }
u64 Word(const B& b, int i) { return ((b >> (64 * i)) & B(~0ull)).ToPrimitive<u64>(); }
void Is(const B& b, U v, u64 top, const char* msg) { SX_ASSERT(Word(b, 0) == (u64)v, msg); SX_ASSERT(Word(b, 1) == (u64)(v >> 64), msg); SX_ASSERT(Word(b, 2) == top, msg); SX_ASSERT((b >> 192) == B(), msg); }
u64 AnyU64(const char* n) { return sx_choose("zero", 2) ? sx_u64(n) : 0; }
}
SX_ENTRY(big_add)
{
	const u64 a1 = AnyU64("a1"), a0 = sx_u64("a0"), b1 = AnyU64("b1"), b0 = sx_u64("b0"); const B a = Make(a1, a0), b = Make(b1, b0); const U x = (U)a1 << 64 | a0, y = (U)b1 << 64 | b0;
	switch (sx_choose("op", 3))
	{
	case 0: { U s = x + y; Is(a + b, s, s < x ? 1 : 0, "sum"); break; }
	case 1: { B c(a); c += b; U s = x + y; Is(c, s, s < x ? 1 : 0, "sum in place"); B d(a); d += d; Is(d, x + x, x >> 127 ? 1 : 0, "doubling in place"); break; }
	default: { B c; const bool th = SX_THROWS(c = a - b); SX_ASSERT(th == (x < y), "difference of unsigned numbers"); if (!th) { Is(c, x - y, 0, "difference"); B d(a); d -= b; SX_ASSERT(d == c, "difference in place"); SX_ASSERT(c + b == a, "difference and sum"); } break; }
	}
	sx_reach("add");
}
SX_ENTRY(big_compare)
{
	const u64 a1 = AnyU64("a1"), a0 = sx_u64("a0"), b1 = AnyU64("b1"), b0 = sx_u64("b0"); const B a = Make(a1, a0), b = Make(b1, b0); const U x = (U)a1 << 64 | a0, y = (U)b1 << 64 | b0;
	SX_ASSERT((a < b) == (x < y), "less"); SX_ASSERT((a == b) == (x == y), "equal"); SX_ASSERT((a > b) == (x > y), "greater"); SX_ASSERT((a <= b) == (x <= y), "less or equal"); SX_ASSERT((a >= b) == (x >= y), "greater or equal"); SX_ASSERT((a != b) == (x != y), "not equal"); sx_reach("compare");
}
SX_ENTRY(big_bits)
{
	const u64 a1 = AnyU64("a1"), a0 = sx_u64("a0"), b1 = AnyU64("b1"), b0 = sx_u64("b0"); B a = Make(a1, a0), b = Make(b1, b0); const U x = (U)a1 << 64 | a0, y = (U)b1 << 64 | b0;
	switch (sx_choose("op", 4))
	{
	case 0: Is(a & b, x & y, 0, "and"); a &= b; Is(a, x & y, 0, "and in place"); break;
	case 1: Is(a | b, x | y, 0, "or"); a |= b; Is(a, x | y, 0, "or in place"); break;
	case 2: Is(a ^ b, x ^ y, 0, "exclusive or"); a ^= b; Is(a, x ^ y, 0, "exclusive or in place"); SX_ASSERT((a ^ a) == B(0), "exclusive or with itself"); break;
	default: {
		static const u8 sh[] = {0, 1, 13, 63, 64, 65, 127, 128, 130, 200}; const int s = sh[sx_choose("sh", 10)]; const bool neg = sx_choose("neg", 2); const B l = neg ? a >> -s : a << s, r = neg ? a << -s : a >> s;
		Is(r, s >= 128 ? 0 : x >> s, 0, "right shift"); const U lv = s >= 128 ? 0 : x << s; SX_ASSERT(Word(l, 0) == (u64)lv && Word(l, 1) == (u64)(lv >> 64), "left shift"); const U hv = s == 0 ? 0 : s >= 128 ? (s - 128 ? x << (s - 128) : x) : x >> (128 - s); SX_ASSERT(Word(l, 2) == (u64)hv && Word(l, 3) == (u64)(hv >> 64), "left shift, high part");
		B c(a); if (neg) { c >>= -s; } else { c <<= s; } SX_ASSERT(c == l, "left shift in place"); B d(a); if (neg) d <<= -s; else d >>= s; SX_ASSERT(d == r, "right shift in place"); break; }
	}
	sx_reach("bits");
}
SX_ENTRY(big_mul)
{

	static const u64 ext[] = {0, 1, 0xFFFFFFFF, 0x100000000ull, 1ull << 63, ~0ull, 0x123456789ABCDEFull}; static const u8 pos[] = {0, 1, 31, 62, 63}; const int n = K(1, 2); u64 a1 = 0, a0 = 0; const bool extremes = sx_choose("extremes", 2); if (!extremes) { for (int i = 0; i < n; ++i) a0 |= 1ull << pos[sx_choose("bit", 5)]; if (sx_tier() && sx_choose("high", 2)) a1 = 1ull << pos[sx_choose("hbit", 5)]; else if (sx_choose("shift", 2)) { a1 = a0; a0 = 0; } } else { a1 = ext[sx_choose("x1", 7)]; a0 = ext[sx_choose("x0", 7)]; }
	const u64 b1 = extremes ? ext[sx_choose("y1", 7)] : AnyU64("b1"), b0 = extremes ? ext[sx_choose("y0", 7)] : sx_u64("b0"); const B a = Make(a1, a0), b = Make(b1, b0); const bool swap = sx_tier() && sx_choose("swap", 2); const B p = a * b;
	U w[4] = {0, 0, 0, 0}; const u64 x[2] = {a0, a1}, y[2] = {b0, b1}; for (int i = 0; i < 2; ++i) for (int bit = 0; bit < 64; ++bit) if (x[i] >> bit & 1) { u64 s[3] = {y[0] << bit, bit ? y[1] << bit | y[0] >> (64 - bit) : y[1], bit ? y[1] >> (64 - bit) : 0}; U c = 0; for (int j = 0; j < 4 - i; ++j) { c += w[i + j] + (j < 3 ? s[j] : 0); w[i + j] = (u64)c; c >>= 64; } }
	for (int i = 0; i < 4; ++i) SX_ASSERT(Word(p, i) == (u64)w[i], "product"); SX_ASSERT((p >> 256) == B(), "product too long"); if (swap) SX_ASSERT(B(b0) * B(a0) == B(a0) * B(b0), "product is not commutative"); SX_ASSERT(a * B(0) == B() && B() * a == B(), "product with zero"); sx_reach("mul");
}
SX_ENTRY(big_div)
{
	static const u64 qs[] = {0, 1, 2, 3, 10, 1ull << 63, ~0ull}; const u64 q = qs[sx_choose("q", K(5, 7))]; const bool wide = sx_choose("wide", 2);
	static const u64 ds[] = {1, 7, 0xFFFFFFF, 0x100000000ull}; const u64 dt = ds[sx_choose("dt", K(3, 4))]; const U d = wide ? (U)dt << 64 | (sx_choose("dl", 2) ? ~0ull : 0) : sx_tier() ? (U)(u64)sx_range("d", 1, 0xFFFF) * dt : (U)dt * 1000003; const U r = (U)(wide ? sx_u64("r1") : 0) << 64 | sx_u64("r0"); SX_ASSUME(r < d); SX_ASSUME(!wide || q < 16); const U n = d * q + r;
	const B a = Make((u64)(n >> 64), (u64)n), b = Make((u64)(d >> 64), (u64)d); Is(a / b, q, 0, "quotient"); Is(a % b, r, 0, "remainder"); B c(a); c /= b; Is(c, q, 0, "quotient in place"); B e(a); e %= b; Is(e, r, 0, "remainder in place"); sx_reach("div");
}
// dividends of up to five words: the upper words of the quotient from a small set, the remainder one word of any value
SX_ENTRY(big_div_long)
{
	static const u64 pick[] = {0, ~0ull, 1, 1ull << 63}; static const u64 dpick[] = {9, 1ull << 63, 1, ~0ull, 0x100000001ull}; const int P = K(2, 4);
	u64 q[3] = {0, 0, 0}, d[2]; for (int i = 1; i < 3; ++i) q[i] = pick[sx_choose("q", P)]; d[1] = sx_choose("wide", 2) ? pick[1 + sx_choose("d1", P - 1)] : 0; d[0] = dpick[sx_choose("d0", K(2, 5))]; 
	const u64 r0 = sx_u64("r"); SX_ASSUME(d[1] || r0 < d[0]); u64 n[5] = {r0, 0, 0, 0, 0};
	for (int i = 0; i < 3; ++i) { U c = 0; for (int j = 0; j < 2; ++j) { c += (U)q[i] * d[j] + n[i + j]; n[i + j] = (u64)c; c >>= 64; } for (int k = i + 2; k < 5; ++k) { c += n[k]; n[k] = (u64)c; c >>= 64; } }
	const B a = (B(n[4]) << 256) | (Make(n[3], n[2]) << 128) | Make(n[1], n[0]), b = Make(d[1], d[0]); const B x = a / b, y = a % b;
	for (int i = 0; i < 3; ++i) SX_ASSERT(Word(x, i) == q[i], "quotient of long numbers"); SX_ASSERT((x >> 192) == B(), "no more words"); Is(y, r0, 0, "remainder of long numbers");
	sx_reach("div_long");
}
SX_ENTRY(big_div_small)
{
	const u64 n = sx_range("n", 0, 63), d = sx_range("d", 0, 15); const B a(n), b(d); B q, r; const bool tq = SX_THROWS(q = a / b), tr = SX_THROWS(r = a % b); SX_ASSERT(tq == (d == 0) && tr == (d == 0), "division by zero, and only that, is refused");
	if (!tq) { SX_ASSERT(q.ToPrimitive<u64>() == n / d && r.ToPrimitive<u64>() == n % d, "quotient and remainder"); SX_ASSERT(q * b + r == a, "division identity"); } sx_reach("div_small");
}
SX_ENTRY(big_text)
{
	switch (sx_choose("kind", 5))
	{
	case 0: {
		static const u8 bases[] = {2, 10, 16, 36}; const u32 base = bases[sx_choose("base", 4)]; const size_t len = sx_choose("len", K(3, 4)); std::string s; u64 v = 0; bool ok = true;
		for (size_t i = 0; i < len; ++i) { const char c = (char)sx_u8("c"); const int g = sx_conc(c >= '0' && c <= '9' ? 0 : c >= 'A' && c <= 'Z' ? 1 : c >= 'a' && c <= 'z' ? 2 : 3); const u32 d = (u8)(g == 0 ? c - '0' : g == 1 ? c - 'A' + 10 : c - 'a' + 10); if (g == 3 || d >= base) { s += c; ok = false; for (size_t k = i + 1; k < len; ++k) s += '0'; break; } s += (char)sx_conc((u8)c); v = v * base + sx_conc(d); }
		B b; const bool th = SX_THROWS(b = B(s, base)); SX_ASSERT(th == !ok, "digits accepted by the base"); if (!th) { SX_ASSERT(b.ToPrimitive<u64>() == v && b == B(v), "parsed value"); } break; }
	case 1: {
		static const u8 bases[] = {2, 10, 16, 3}; const u32 base = bases[sx_choose("base", 4)]; const u64 v = sx_conc((u64)sx_range("v", 0, K(80, 400))); const std::string s = B(v).ToString(base); u64 w = 0; for (size_t i = 0; i < s.size(); ++i) { const u32 d = s[i] <= '9' ? s[i] - '0' : s[i] - 'A' + 10; SX_ASSERT(d < base, "digit out of range"); w = w * base + d; } SX_ASSERT(w == v && (s.size() == 1 || s[0] != '0'), "printed value"); SX_ASSERT(B(s, base) == B(v), "printing and parsing"); break; }
	case 2: { const u64 v = 10 + sx_choose("v", 90); std::string t = "0b", h = "0x"; for (int i = 6; i >= 0; --i) t += (char)('0' + (v >> i & 1)); h += "0123456789abcdef"[v >> 4]; h += "0123456789ABCDEF"[v & 15]; SX_ASSERT(B(t) == B(v) && B(h.c_str()) == B(v) && B(std::string() + (char)('0' + v / 10) + (char)('0' + v % 10)) == B(v), "prefixes"); break; }
	case 3: { u8 d[3]; sx_bytes(d, 3, "d"); const size_t n = sx_choose("n", K(3, 4)); for (size_t i = 0; i < n; ++i) d[i] &= 0x83; u64 v = 0; for (size_t i = 0; i < n; ++i) v = v << 8 | sx_conc(d[i]); const B b{ConstByteData(d, n)}; SX_ASSERT(b == B(v), "from bytes"); ConstByteArray o = b.ToByteArray(); u64 w = 0; for (size_t i = 0; i < o.size(); ++i) w = w << 8 | o[i]; SX_ASSERT(w == v && (o.size() == 0 || o[0] != 0), "to bytes"); break; }
	default: { const u64 v = sx_u64("v"); u8 p = 0; const bool th = SX_THROWS(p = B(v).ToPrimitive<u8>()); SX_ASSERT(th == (v > 255), "conversion that does not fit"); if (!th) SX_ASSERT(p == v, "converted value"); SX_ASSERT(SX_THROWS(B(sx_range("neg", INT32_MIN, -1))), "negative number"); SX_ASSERT(B(0) == B() && B(0).ToString() == "0" && B().ToPrimitive<int>() == 0, "zero"); break; }
	}
	sx_reach("text");
}
namespace {
const s64 P10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000};
}
SX_ENTRY(dec_arith) // results that fit in 64 bits are exact
{
	const u16 ea = sx_choose("ea", K(4, 6)), eb = sx_choose("eb", K(4, 6)), m = std::max(ea, eb); const s64 lim = INT64_MAX / P10[m] / 2; const s64 a = sx_range("a", -lim, lim), b = sx_range("b", -lim, lim); const Decimal x(a, ea), y(b, eb); const s64 sa = a * P10[m - ea], sb = b * P10[m - eb];
	const Decimal s = x + y, d = x - y; SX_ASSERT(s.GetExponent() == m && s.GetMantissa() == sa + sb, "sum"); SX_ASSERT(d.GetExponent() == m && d.GetMantissa() == sa - sb, "difference"); const Decimal n = -x; SX_ASSERT(n.GetMantissa() == -a && n.GetExponent() == ea, "negation"); sx_reach("arith");
}
SX_ENTRY(dec_mul)
{
	const u16 ea = sx_choose("ea", 3), eb = sx_choose("eb", 3), m = std::max(ea, eb); const s64 a = sx_range("a", -K(500, 30000), K(500, 30000)), b = K(0, 1) ? (s64)sx_choose("b", 7) * 499 - 900 : (s64)sx_choose("b", 6) * 4 - 9; const Decimal p = Decimal(a, ea) * Decimal(b, eb); const int pe = p.GetExponent(), we = ea + eb; (void)m; if (pe >= we) SX_ASSERT(p.GetMantissa() == a * b * P10[pe - we], "product"); else SX_ASSERT(p.GetMantissa() * P10[we - pe] == a * b, "product"); sx_reach("dmul");
}
SX_ENTRY(dec_compare) // any mantissas, exponents far apart
{
	static const u16 ds[] = {0, 1, 2, 3, 18, 19, 20, 40}; const u16 e = sx_choose("e", 2) * 7, k = ds[sx_choose("k", K(4, 8))]; static const s64 bs[] = {INT64_MAX, INT64_MIN, 0, -1, 1, 999999999999999999, 1000000000000000000, -1000000000000000001, 1844674407370955161}; const int bk = sx_choose("bk", 9 + (k == 0)); const s64 a = sx_s64("a"), b = bk == 9 ? sx_s64("b") : bs[bk]; const Decimal x(a, e), y(b, e + k);
	bool less, eq; if (k <= 18) { const __int128 sa = (__int128)a * P10[k]; less = sa < b; eq = sa == b; } else { less = a < 0 || (a == 0 && b > 0); eq = a == 0 && b == 0; }
	if (sx_choose("swap", 2)) { SX_ASSERT((y < x) == (!less && !eq), "order of decimals"); SX_ASSERT((y == x) == eq, "equality of decimals"); } else { SX_ASSERT((x < y) == less, "order of decimals"); SX_ASSERT((x == y) == eq, "equality of decimals"); } sx_reach("dcmp");
}
SX_ENTRY(dec_text)
{
	static const char alphabet[] = "0019.-+x"; const size_t len = 1 + sx_choose("len", K(4, 5)); std::string s; for (size_t i = 0; i < len; ++i) s += alphabet[1 + sx_choose("c", 7)];
	// grammar: [sign] digits [ . digits ], at least one digit part or sign handling left open
	size_t p = 0; bool neg = false, sign = false; if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; sign = true; ++p; } s64 v = 0; u16 e = 0; size_t digits = 0, fdigits = 0; bool ok = true, point = false;
	for (; p < len; ++p) { if (s[p] >= '0' && s[p] <= '9') { v = v * 10 + (s[p] - '0'); (point ? fdigits : digits)++; if (point) ++e; } else if (s[p] == '.' && !point) point = true; else ok = false; }
	if (digits == 0 && (sign || fdigits == 0)) ok = false, v = -1; // "-.5", "-", "." are not decided here
	Decimal d; const bool th = SX_THROWS(d = Decimal::FromString(s)); if (v >= 0 && ok) { SX_ASSERT(!th, "decimal text refused"); SX_ASSERT(d == Decimal(neg ? -v : v, e), "value of the decimal text"); SX_ASSERT(Decimal::FromString(d.ToString()) == d, "printing and parsing"); }
	else if (v >= 0) SX_ASSERT(th, "malformed decimal accepted"); sx_reach("dtext");
}
SX_ENTRY(dec_print)
{
	const u16 e = sx_choose("e", 4); const s64 m = sx_range("m", -120, 120); const std::string s = Decimal(sx_conc(m), e).ToString(); // the text, read digit by digit, is the number
	size_t p = 0; bool neg = s[0] == '-'; if (neg) ++p; s64 v = 0; u16 f = 0; bool point = false; size_t before = 0; for (; p < s.size(); ++p) { if (s[p] == '.') { SX_ASSERT(!point, "two points"); point = true; } else { SX_ASSERT(s[p] >= '0' && s[p] <= '9', "character in a decimal"); v = v * 10 + (s[p] - '0'); if (point) ++f; else ++before; } }
	SX_ASSERT(before > 0 && f <= e && (!point || s.back() != '0') && (before == 1 || s[neg] != '0') && (!point || f > 0), "shape of the printed decimal"); SX_ASSERT((neg ? -v : v) * P10[e - f] == m, "value of the printed decimal"); SX_ASSERT(!neg || v, "negative zero"); sx_reach("dprint");
}
SX_ENTRY(fixed_ops)
{
	typedef fixed_point<8, s16> F; typedef fixed_point<16, int> G; const s16 a = (s16)sx_u16("a"), b = (s16)sx_u16("b"); const F x = F::FromRawValue(a), y = F::FromRawValue(b); const s32 A = a, Bv = b;
	switch (sx_choose("op", 6))
	{
	case 0: SX_ASSUME(A + Bv >= INT16_MIN && A + Bv <= INT16_MAX); SX_ASSERT((x + y).GetValue() == A + Bv, "sum"); break;
	case 1: SX_ASSUME(A - Bv >= INT16_MIN && A - Bv <= INT16_MAX); SX_ASSERT((x - y).GetValue() == A - Bv, "difference"); break;
	case 2: { const s32 p = (A * Bv) >> 8; SX_ASSUME(p >= INT16_MIN && p <= INT16_MAX); SX_ASSERT((x * y).GetValue() == p, "product"); break; }
	case 3: { const s32 bv = (s32)sx_choose("b", 5) * 113 - 200; const s32 q = (A * 256) / bv; SX_ASSUME(q >= INT16_MIN && q <= INT16_MAX); SX_ASSERT((x / F::FromRawValue(bv)).GetValue() == q, "quotient"); break; }
	case 4: { const s16 i = (s16)sx_range("i", -128, 127); SX_ASSERT(F(i).to_int() == i && F(i).GetValue() == i * 256, "conversion from and to integers"); SX_ASSERT(x.to_int() == (A >> 8), "floor"); SX_ASSERT(G(x).GetValue() == A * 256 && F(G(x)) == x, "conversion between precisions"); break; }
	default: SX_ASSERT((x < y) == (A < Bv) && (x == y) == (A == Bv) && (x <= y) == (A <= Bv) && (x > y) == (A > Bv) && (x >= y) == (A >= Bv) && (x != y) == (A != Bv), "comparison"); break;
	}
	sx_reach("fixed");
}
SX_ENTRY(fixed_text)
{
	typedef fixed_point<16, int> G; const int i = sx_choose("i", 3), f = sx_choose("f", 8) * 125; const bool neg = sx_choose("neg", 2); std::string s = std::string(neg ? "-" : "") + ToString(i) + "." + (char)('0' + f / 100) + (char)('0' + f / 10 % 10) + (char)('0' + f % 10);
	const int raw = (neg ? -1 : 1) * (i * 65536 + f / 125 * 8192); SX_ASSERT(G::FromRawValue(raw).ToString() == (raw ? s : "0.000"), "printed fixed-point number"); const int got = G::FromString(s).GetValue(); SX_ASSERT(got - raw <= 1 && raw - got <= 1, "parsed fixed-point number"); sx_reach("ftext");
}
SX_ENTRY(int_helpers)
{
	switch (sx_choose("op", 10))
	{
	case 6: { typedef SimpleNumericRange<s32> R; const s32 a = sx_s32("a"), b = sx_s32("b"), c = sx_s32("c"), d = sx_s32("d"), t = sx_s32("t"); SX_ASSERT(SX_THROWS(R(a, b)) == (a > b), "inverted range"); if (a > b || c > d) break; const R x(a, b), y(c, d); const bool ex = a == b, ey = c == d;
		SX_ASSERT(x.Contains(t) == sx_and(!ex, sx_and(a <= t, t <= b)) && x.ContainsStrict(t) == sx_and(a < t, t < b) && x.IsEmpty() == ex, "range membership"); SX_ASSERT(x.Clamp(t) == (t < a ? a : t > b ? b : t), "clamping"); const bool in = sx_and(sx_and(!ex, !ey), sx_and(a < d, c < b)); SX_ASSERT(x.IsIntersecting(y) == in, "ranges intersect"); const R i = x.Intersect(y), u = x.Union(y); if (in) SX_ASSERT(i.GetStart() == (a > c ? a : c) && i.GetEnd() == (b < d ? b : d), "intersection"); else SX_ASSERT(i.IsEmpty(), "intersection of disjoint ranges"); if (!ex && !ey) SX_ASSERT(u.GetStart() == (a < c ? a : c) && u.GetEnd() == (b > d ? b : d), "union"); else SX_ASSERT(ex ? u == y : u == x, "union with an empty range"); break; }
	case 7: { const u8 v = sx_u8("v"); u8 r = 0; for (int i = 0; i < 8; ++i) r |= (v >> i & 1) << (7 - i); SX_ASSERT(ReverseBits(v) == r, "reversed bits"); const u64 w = sx_u64("w"); SX_ASSERT(TestBit<63>(w) == (w >> 63 == 1) && TestBit<0>(w) == ((w & 1) == 1) && TestBit<33>(w) == ((w >> 33 & 1) == 1), "bit test"); SX_ASSERT(SetBit<40>(w) == (w | 1ull << 40) && ResetBit<40>(w) == (w & ~(1ull << 40)) && FlipBit<63>(w) == (w ^ 1ull << 63), "bit change"); SX_ASSERT(SetBit<7>(v) == (v | 0x80) && ResetBit<0>(v) == (v & 0xFE) && FlipBit<3>(v) == (v ^ 8), "byte bit change"); break; }
	case 8: { Average<s64> m; s64 sum = 0; const int n = sx_choose("n", 4); for (int i = 0; i < n; ++i) { const s64 v = sx_range("v", -100000, 100000); m.Accumulate(v); sum += v; } SX_ASSERT(m.Get() == (n ? sum / n : 0), "average"); break; }
	case 9: { Accumulators<s64>::Mean m; s64 v = 0; const int n = 1 + sx_choose("n", 3); const s64 c = sx_range("c", -1000, 1000); for (int i = 0; i < n; ++i) m.Process(c, [&](s64 x) { v += x; }); SX_ASSERT(m.Get() == c && v == c * n, "mean of equal values"); m.Reset(); SX_ASSERT(m.Get() == 0, "reset"); break; }
	case 0: { static const u32 bs[] = {1, 2, 3, 7, 8, 188, 4096}; const u32 b = bs[sx_choose("b", 7)]; const u32 v = (u32)sx_range("v", 0, 70000) + (sx_choose("top", 2) ? 0xFFFFFFFF - 80000 : 0); const u32 d = AlignDown<u32>(v, b), u = AlignUp<u32>(v, b); SX_ASSERT(d <= v && v - d < b && d % b == 0, "align down"); SX_ASSERT(u >= v && u - v < b && u % b == 0, "align up"); SX_ASSERT(SX_THROWS(AlignUp<u32>(v, 0)) && SX_THROWS(AlignDown<u32>(v, 0)), "zero boundary"); break; }
	case 1: { const size_t a = sx_choose("a", 25), b = sx_choose("b", 25), g = Gcd(a, b); if (a || b) { SX_ASSERT(g && a % g == 0 && b % g == 0, "common divisor"); for (size_t k = g + 1; k <= 25; ++k) SX_ASSERT(a % k || b % k, "greatest common divisor"); const size_t l = Lcm(a, b); SX_ASSERT(l * g == a * b, "least common multiple"); } break; }
	case 2: { const u64 v = sx_u64("v"); const u32 k = sx_choose("k", 2); const bool p = k ? IsPowerOfNumber<10>(v) : IsPowerOfNumber<2>(v); u64 x = 1; bool is = false; for (int i = 0; i < (k ? 20 : 64); ++i) { is |= x == v; x *= k ? 10 : 2; } SX_ASSERT(p == is, "power"); break; }
	case 3: { // rounding half up, digit by digit from the last one
		const u64 div = 1 + sx_choose("div", K(12, 40)), n = sx_choose("n", K(12, 40)); const unsigned prec = sx_choose("prec", 4); const FractionInfo f = CalculateFractionRemainder(n, div, prec); u64 r = n % div, p = 0; const u64 mx = ~0ull / 10; if (!r) { SX_ASSERT(f.Fraction == 0 && !f.IsOverflow, "no remainder"); break; } for (; r <= mx; ++p) r *= 10; r /= div; bool over = false; for (; p > prec; --p) r = r / 10 + (r % 10 >= 5); u64 base = 1; for (u64 i = 0; i < p; ++i) base *= 10; if (r >= base) { over = true; r -= base; } SX_ASSERT(f.IsOverflow == over, "carry out of the fraction"); u64 fv = f.Fraction; for (unsigned i = f.Precision; i < p; ++i) fv *= 10; SX_ASSERT(f.Precision <= prec && fv == r, "rounded fraction"); break; }
	case 4: { const s64 v = sx_s64("v"); SX_ASSUME(v != INT64_MIN); SX_ASSERT(Abs(v) == (v < 0 ? -v : v) && Abs(v) >= 0, "absolute value"); break; }
	default: { const unsigned prec = sx_choose("prec", 4); const size_t len = 1 + sx_choose("len", 3); std::string s; u64 v = 0; for (size_t i = 0; i < len; ++i) { const u32 d = sx_choose("d", 4) * 3; s += (char)('0' + d); v = v * 10 + d; } const FractionInfo f = ParseDecimalFraction(s, prec); size_t p = len; for (; p < prec; ++p) v *= 10; for (; p > prec; --p) v = v / 10 + (v % 10 >= 5); u64 base = 1; for (size_t i = 0; i < p; ++i) base *= 10; const bool over = v >= base; if (over) v -= base; u64 fv = f.Fraction; for (unsigned i = f.Precision; i < p; ++i) fv *= 10; SX_ASSERT(f.IsOverflow == over && f.Precision <= prec && fv == v, "parsed fraction"); break; }
	}
	sx_reach("helpers");
}
