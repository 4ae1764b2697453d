// Numbers, hexadecimal text, UUIDs, versions, formatting and parsing against digit-by-digit definitions.
#include "sx.h"
#include <stingraykit/string/Hex.h>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/StringFormat.h>
#include <stingraykit/string/StringParse.h>
#include <stingraykit/string/StringReader.h>
#include <stingraykit/UUID.h>
#include <stingraykit/Version.h>
#include <stingraykit/IntegerBuilder.h>
using namespace stingray;
namespace {
int K(int q, int t) { return sx_tier() ? t : q; }
template <typename T> u8 Top(size_t fromEnd) { u64 m = std::numeric_limits<T>::max(); while (--fromEnd) m /= 10; return m % 10; } // digit of the largest value
template <typename T> void Parse(size_t maxDigits)
{
	typedef std::numeric_limits<T> L; const int sign = sx_choose("sign", 3); const size_t n = 1 + sx_choose("n", maxDigits); std::string s(sign == 1 ? "-" : sign == 2 ? "+" : ""); u64 v64 = 0, head = 0, tail = 0; const bool over = n > (size_t)L::digits10 + 1; // longer than any value of T: leading zeros then
	for (size_t i = 0; i < n; ++i) { const bool mid = n > 5 && i > 0 && i + 2 < n; const u8 d = mid ? Top<T>(n - i) : over && i == 0 ? (u8)sx_choose("lead", 2) : sx_range("d", 0, 9); s += (char)('0' + d); if (i + 2 < n) head = head * 10 + d; else tail = tail * 10 + d; v64 = v64 * 10 + d; }
	const u64 limit = sign == 1 ? (L::is_signed ? (u64)L::max() + 1 : 0) : (u64)L::max(); const bool fits = sx_or(head < limit / 100, sx_and(head == limit / 100, tail <= limit % 100)); T got = 0; const bool th = SX_THROWS(got = FromString<T>(s));
	if (sign == 1 && !L::is_signed) SX_ASSERT(th || v64 == 0, "negative number accepted as unsigned"); else { SX_ASSERT(th == !fits, "range of parsed numbers"); if (!th) SX_ASSERT(got == (T)(sign == 1 ? 0 - v64 : v64), "parsed value"); }
	T g2 = 0; const bool th2 = SX_THROWS(g2 = FromString<T>(string_view(s))); SX_ASSERT(th2 == th && g2 == got, "strings and views parse alike"); optional<T> o = TryFromString<T>(s); SX_ASSERT((bool)o == !th && (th || *o == got), "TryFromString agrees with FromString"); sx_reach("parse");
}
template <typename T> void Print() // every value, built from its digits
{
	typedef std::numeric_limits<T> L; const bool neg = L::is_signed && sx_choose("neg", 2); const size_t n = 1 + sx_choose("n", L::digits10 + 1); const bool top = n > (size_t)L::digits10; u64 v = 0; std::string e; for (size_t i = 0; i < n; ++i) { const u8 d = (top && i + 2 < n) || (neg && n > 5 && i > 1 && i + 3 < n) ? Top<T>(n - i) : sx_range("d", i == 0 && n > 1 ? 1 : 0, 9); if (top && i + 2 == n) SX_ASSUME(d <= Top<T>(2)); if (top && i + 1 == n) SX_ASSUME(v < (u64)L::max() / 10 || d <= Top<T>(1) + neg); v = v * 10 + d; e += (char)('0' + d); }
	const std::string s = ToString((T)(neg ? 0 - v : v)); if (neg && n == 1) { if (sx_conc(v == 0)) { SX_ASSERT(s == "0", "printed zero"); return; } } if (neg) e = "-" + e; SX_ASSERT(s.size() == e.size(), "length of the printed number"); for (size_t i = 0; i < e.size(); ++i) SX_ASSERT(s[i] == e[i], "printed digit"); sx_reach("print");
}
bool IsHex(u8 c) { return sx_or(sx_and(c >= '0', c <= '9'), sx_or(sx_and(c >= 'a', c <= 'f'), sx_and(c >= 'A', c <= 'F'))); }
u8 HexVal(u8 c) { return (c & 0x40) ? (c & 0xF) + 9 : c & 0xF; }
u8 HexChar(const char* n) { return sx_choose("hk", 3) == 0 ? '0' + sx_range(n, 0, 9) : sx_choose("hu", 2) ? 'A' + sx_range(n, 0, 5) : 'a' + sx_range(n, 0, 5); }
char Digit(u8 v, bool cap) { return v < 10 ? '0' + v : (cap ? 'A' : 'a') + v - 10; }
template <typename T> void HexPrint()
{
	const T v = (T)sx_u64("v"); const size_t w = sizeof(T) * 2; const size_t width = sx_choose("width", w + 3); const bool cap = sx_choose("cap", 2), pre = sx_choose("pre", 2); const std::string s = ToHex(v, width, cap, pre); size_t p = 0; if (pre) { SX_ASSERT(s.size() > 2 && s[0] == '0' && s[1] == 'x', "prefix"); p = 2; } const size_t n = s.size() - p; size_t need = 1; for (size_t k = 1; k < w; ++k) if ((typename IntType<sizeof(T) * 8, false>::ValueT)v >> (4 * k)) need = k + 1; need = sx_conc(need);
	SX_ASSERT(n == (width > need ? width : need), "width of the hexadecimal text"); for (size_t i = 0; i < n; ++i) { const size_t k = n - 1 - i; const u8 d = k < w ? (v >> (4 * k)) & 0xF : 0; SX_ASSERT(s[p + i] == Digit(d, cap), "hexadecimal digit"); } if (sizeof(T) == 1 && n <= w) SX_ASSERT(FromHex<T>(s.substr(p)) == v, "printing and parsing hexadecimal"); sx_reach("hexprint");
}
template <typename T> void HexParse()
{
	const size_t w = sizeof(T) * 2, n = sx_choose("n", w + 2); std::string s; T v = 0; bool over = false; for (size_t i = 0; i < n; ++i) { const u8 c = i == 0 ? HexChar("c") : 'a' + sx_range("x", 0, 5); s += (char)c; if (v >> (sizeof(T) * 8 - 4)) over = true; v = (T)(v << 4 | HexVal(c)); }
	T got = 0; const bool th = SX_THROWS(got = FromHex<T>(s)); SX_ASSERT(th == (n == 0 || over), "hexadecimal text accepted"); if (!th) SX_ASSERT(got == v, "hexadecimal value"); sx_reach("hexparse");
}
}
SX_ENTRY(int_parse) { switch (sx_choose("type", 8)) { case 0: Parse<u8>(4); break; case 1: Parse<s8>(4); break; case 2: Parse<u16>(6); break; case 3: Parse<s16>(6); break; case 4: Parse<u32>(11); break; case 5: Parse<s32>(11); break; case 6: Parse<u64>(21); break; default: Parse<s64>(20); break; } }
SX_ENTRY(int_bad) // one character that is not a digit, anywhere
{
	const size_t n = 1 + sx_choose("n", 4), at = sx_choose("at", n); std::string s; for (size_t i = 0; i < n; ++i) if (i == at) { const u8 c = sx_u8("bad"); SX_ASSUME(c < '0' || c > '9'); SX_ASSUME(i > 0 || (c != '-' && c != '+')); s += (char)c; } else s += (char)('0' + sx_range("d", 0, 9));
	SX_ASSERT(SX_THROWS(FromString<u32>(s)) && SX_THROWS(FromString<s64>(s)) && SX_THROWS(FromString<u8>(string_view(s))) && !TryFromString<int>(s), "malformed number accepted"); SX_ASSERT(SX_THROWS(FromString<int>(std::string())), "empty number accepted"); sx_reach("bad");
}
SX_ENTRY(int_print)
{
	switch (sx_choose("type", 9))
	{
	case 0: Print<u8>(); break; case 1: Print<s16>(); break; case 2: Print<u16>(); break; case 3: Print<s32>(); break; case 4: Print<u32>(); break; case 5: Print<s64>(); break; case 6: Print<u64>(); break; case 7: Print<long>(); break;
	default: SX_ASSERT(ToString(INT64_MIN) == "-9223372036854775808" && ToString(UINT64_MAX) == "18446744073709551615" && ToString(INT64_MAX) == "9223372036854775807" && ToString(INT32_MIN) == "-2147483648" && ToString(true) == "true" && ToString(false) == "false", "extremes"); break;
	}
}
SX_ENTRY(hex_print) { switch (sx_choose("type", 5)) { case 0: HexPrint<u8>(); break; case 1: HexPrint<u16>(); break; case 2: HexPrint<u32>(); break; case 3: HexPrint<u64>(); break; default: HexPrint<s32>(); break; } }
SX_ENTRY(hex_parse)
{
	switch (sx_choose("type", 5)) { case 0: HexParse<u8>(); break; case 1: HexParse<u16>(); break; case 2: HexParse<u32>(); break; case 3: HexParse<u64>(); break;
	default: { const size_t n = 1 + sx_choose("n", 3), at = sx_choose("at", n); std::string s; for (size_t i = 0; i < n; ++i) if (i == at) { const u8 c = sx_u8("bad"); SX_ASSUME(!IsHex(c)); s += (char)c; } else s += 'a'; SX_ASSERT(SX_THROWS(FromHex<u32>(s)), "malformed hexadecimal accepted"); SX_ASSERT(SX_THROWS(FromHex<ByteArray>(s)) || s == "0x", "malformed hexadecimal bytes accepted"); break; } }
}
SX_ENTRY(hex_bytes)
{
	const size_t n = sx_choose("n", 4); const bool odd = n && sx_choose("odd", 2), pre = sx_choose("pre", 2); u8 d[4]; sx_bytes(d, 4, "data"); if (odd) SX_ASSUME(d[0] < 16); const ByteArray a(n); for (size_t i = 0; i < n; ++i) const_cast<ByteArray&>(a)[i] = d[i]; std::string s = ToHex(ConstByteArray(a)); SX_ASSERT(s.size() == 2 * n, "length of the hexadecimal text"); for (size_t i = 0; i < n; ++i) SX_ASSERT(s[2 * i] == Digit(d[i] >> 4, false) && s[2 * i + 1] == Digit(d[i] & 15, false), "hexadecimal bytes");
	if (odd) s = s.substr(1); if (sx_choose("upper", 2)) for (size_t i = 0; i < s.size(); ++i) s[i] = (char)((s[i] & 0x40) ? s[i] & ~0x20 : s[i]); if (pre) s = "0x" + s; const ByteArray b = FromHex<ByteArray>(s); SX_ASSERT(b.size() == n, "number of bytes"); for (size_t i = 0; i < n; ++i) SX_ASSERT(b[i] == d[i], "parsed byte"); sx_reach("hexbytes");
}
SX_ENTRY(hex_dump)
{
	const size_t n = sx_choose("n", K(5, 7)), w = 1 + sx_choose("w", 4); u8* d = new u8[n]; sx_bytes(d, n, "data"); const std::string s = ToString(HexDump(d, n, w)); std::string e; for (size_t o = 0; o < n; o += w) { e += "0000000"; e += Digit(o, false); e += ": "; for (size_t i = 0; i < w; ++i) if (o + i < n) { e += Digit(d[o + i] >> 4, false); e += Digit(d[o + i] & 15, false); e += ' '; } else e += "   "; for (size_t i = 0; i < w && o + i < n; ++i) { const u8 c = d[o + i]; e += (char)(sx_and(c >= 0x20, c < 0x7F) ? c : '.'); } if (o + w < n) e += '\n'; }
	SX_ASSERT(s.size() == e.size(), "length of the dump"); for (size_t i = 0; i < s.size(); ++i) SX_ASSERT(s[i] == e[i], "dump"); const size_t lim = sx_choose("lim", 4); const std::string t = ToString(ShortHexDump(d, n, lim)); std::string f = "{ "; for (size_t i = 0; i < n && i < lim; ++i) { f += Digit(d[i] >> 4, false); f += Digit(d[i] & 15, false); f += ' '; } if (lim < n) f += "... "; f += "}"; SX_ASSERT(t.size() == f.size(), "length of the short dump"); for (size_t i = 0; i < t.size(); ++i) SX_ASSERT(t[i] == f[i], "short dump"); delete[] d; sx_reach("dump");
}
SX_ENTRY(uuid)
{
	const int op = sx_choose("op", 4); u8 d[16], e[16]; if (op == 3) sx_bytes(d, 16, "uuid"); else { for (int i = 0; i < 16; ++i) d[i] = 37 * i + 0xA5; if (op != 1) { const int at = sx_choose("byte", 16); d[at] = sx_u8("b"); } } const UUID u(ConstByteData(d, 16)); const std::string s = op == 3 ? std::string(36, '-') : u.ToString(); SX_ASSERT(s.size() == 36, "length of a UUID"); size_t k = 0; if (op != 3) for (size_t i = 0; i < 36; ++i) if (i == 8 || i == 13 || i == 18 || i == 23) SX_ASSERT(s[i] == '-', "dash"); else { SX_ASSERT(s[i] == Digit(k % 2 ? d[k / 2] & 15 : d[k / 2] >> 4, false), "UUID digit"); ++k; }
	switch (op)
	{
	case 0: SX_ASSERT(UUID::FromString(s) == u, "printing and parsing a UUID"); break;
	case 1: { const size_t at = sx_choose("at", 36); const u8 c = sx_u8("c"); std::string t(s); t[at] = (char)c; const bool dash = at == 8 || at == 13 || at == 18 || at == 23; UUID v; const bool th = SX_THROWS(v = UUID::FromString(t)); SX_ASSERT(th == !(dash ? c == '-' : IsHex(c)), "UUID syntax"); break; }
	case 2: { const size_t cut = sx_choose("cut", 4); SX_ASSERT(SX_THROWS(UUID::FromString(cut == 3 ? s + "0" : s.substr(0, cut * 12))), "UUID length"); SX_ASSERT(SX_THROWS(UUID(ConstByteData(d, cut * 5))), "UUID bytes"); const UUID v(ConstByteData(d, 16), true); std::string t = v.ToString(); SX_ASSERT(t[14] == '4' && (t[19] == '8' || t[19] == '9' || t[19] == 'a' || t[19] == 'b'), "version and variant"); for (size_t i = 0; i < 36; ++i) if (i != 14 && i != 19) SX_ASSERT(t[i] == s[i], "other digits"); break; }
	default: { sx_bytes(e, 16, "other"); const int same = sx_choose("same", 4) * 5; for (int i = 0; i < same; ++i) e[i] = d[i]; const UUID v(ConstByteData(e, 16)); const u8 x = d[same], y = e[same]; SX_ASSUME(x != y); SX_ASSERT((u < v) == (x < y) && (v < u) == (y < x) && u != v && (u > v) == (x > y), "order of UUIDs"); break; }
	}
	sx_reach("uuid");
}
SX_ENTRY(version)
{
	if (sx_choose("kind", 2))
	{
		static const char alphabet[] = "19.+-x"; const size_t n = sx_choose("n", K(6, 7)); std::string s; for (size_t i = 0; i < n; ++i) s += alphabet[sx_choose("c", 4 + sx_tier())]; unsigned v[4] = {0, 0, 0, 0}; size_t part = 0, digits = 0; bool ok = true, signs = false; for (size_t i = 0; i < n && ok; ++i) if (s[i] >= '0' && s[i] <= '9') { v[part] = v[part] * 10 + (s[i] - '0'); ++digits; } else if (s[i] == '.') { if (!digits || ++part > 2) ok = false; digits = 0; } else signs = true;
		if (signs) return; if (!digits || part == 0) ok = false; Version r; const bool th = SX_THROWS(r = Version::FromString(s)); SX_ASSERT(th == !ok, "version syntax"); if (ok) { SX_ASSERT(r.GetMajor() == v[0] && r.GetMinor() == v[1] && (bool)r.GetBuild() == (part == 2) && (part < 2 || *r.GetBuild() == v[2]), "parsed version"); SX_ASSERT(Version::FromString(r.ToString()) == r && r.ToString() == s, "printing and parsing a version"); }
	}
	else
	{
		const u32 a = sx_u32("a"), b = sx_u32("b"), c = sx_u32("c"), d = sx_u32("d"), e = sx_u32("e"), f = sx_u32("f"); const bool p = sx_choose("p", 2), q = sx_choose("q", 2); const Version x(a, b, p ? optional<unsigned>(c) : optional<unsigned>()), y(d, e, q ? optional<unsigned>(f) : optional<unsigned>()); const bool bl = p ? q && c < f : q; const bool less = sx_or(a < d, sx_and(a == d, sx_or(b < e, sx_and(b == e, bl)))); SX_ASSERT((x < y) == less, "order of versions"); const bool eq = sx_and(sx_and(a == d, b == e), p == q && (!p || c == f)); SX_ASSERT((x == y) == eq && (x > y) == !sx_or(less, eq) && (x <= y) == sx_or(less, eq), "version comparison");
	}
	sx_reach("version");
}
SX_ENTRY(format)
{
	const int v = (int)sx_range("v", 0, 999); const std::string t("ab"); static const char* pieces[] = {"x", "%1%", "%2%", "%1$4%", "%%", "%3%", "%0%", "%a%", "%", "%1$%", "%$2%"}; const size_t n = sx_choose("n", 4); std::string f, e; bool bad = false; size_t open = 0; std::string vs = ToString(v);
	for (size_t i = 0; i < n; ++i) { const int k = sx_choose("piece", i == 0 || i + 1 == n ? 11 : 5); f += pieces[k]; switch (k) { case 0: e += "x"; break; case 1: e += vs; break; case 2: e += t; break; case 3: e += std::string(vs.size() < 4 ? 4 - vs.size() : 0, '0') + vs; break; case 4: e += "%"; break; default: if (k == 8 && i + 1 < n) ++open; bad = true; break; } }
	if (open) return; std::string r; const bool th = SX_THROWS(r = StringFormat(f, v, t)); SX_ASSERT(th == bad, "format string accepted"); if (!th) { SX_ASSERT(r.size() == e.size(), "length of the formatted string"); for (size_t i = 0; i < r.size(); ++i) SX_ASSERT(r[i] == e[i], "formatted string"); } sx_reach("format");
}
SX_ENTRY(parse) // what was formatted with separators is parsed back
{
	switch (sx_choose("kind", 4))
	{
	case 0: { const u32 a = sx_range("a", 0, 9999), b = sx_range("b", 0, 99); u32 x = 0, y = 0; const bool swap = sx_choose("swap", 2); const std::string s = StringFormat(swap ? "<%2%:%1%>" : "<%1%:%2%>", a, b); SX_ASSERT(StringParse(s, swap ? "<%2%:%1%>" : "<%1%:%2%>", x, y) && x == a && y == b, "formatting and parsing"); SX_ASSERT(!StringParse(s, "<%1%;%2%>", x, y) && !StringParse(s, "(%1%:%2%>", x, y) && !StringParse(s + "!", "<%1%:%2%>", x, y), "mismatched format"); u32 z = 0; SX_ASSERT(StringParse(s, swap ? "<%_%:%1%>" : "<%1%:%_%>", z) && z == a, "ignored field"); break; }
	case 1: { u8 c[3]; sx_bytes(c, 3, "c"); for (int i = 0; i < 3; ++i) SX_ASSUME(c[i] != ','); const size_t n = 1 + sx_choose("n", 3); std::string s((const char*)c, n), x, y; SX_ASSERT(StringParse(s + "," + "z", "%1%,%2%", x, y) && x.size() == n && y == "z", "text fields"); for (size_t i = 0; i < n; ++i) SX_ASSERT(x[i] == s[i], "text field"); char ch = 0; SX_ASSERT(StringParse(s, "%1%", ch) == (n == 1) && (n != 1 || ch == s[0]), "single character"); break; }
	case 2: { int v = 0; std::string s; const size_t n = 1 + sx_choose("n", 3); u32 e = 0; bool ok = true; for (size_t i = 0; i < n; ++i) { const u8 c = sx_u8("c"); SX_ASSUME(c != ']' && c != '-' && c != '+'); if (sx_conc(sx_or(c < '0', c > '9'))) ok = false; e = e * 10 + (c - '0'); s += (char)c; } SX_ASSERT(StringParse("[" + s + "]", "[%1%]", v) == ok, "number in a field"); if (ok) SX_ASSERT(v == (int)e, "value of a field"); break; }
	default: { const u32 a = sx_range("a", 0, 300); optional<u8> o; u8 p = 7; const std::string s = ToString(a); SX_ASSERT(StringParse(s, "%1%", o) == (a < 256) && (bool)o == (a < 256), "optional field"); if (a < 256) SX_ASSERT(*o == a, "optional value"); SX_ASSERT(StringParse(s, "%1%", p) == (a < 256) && p == (a < 256 ? a : 7), "field out of range"); break; }
	}
	sx_reach("parse");
}
SX_ENTRY(builder) // fields are packed most significant first
{
	switch (sx_choose("kind", 2))
	{
	case 0: { const u8 a = sx_u8("a"); const u16 b = sx_u16("b"); const u32 c = sx_u32("c"); const size_t wa = 1 + sx_choose("wa", 8), wb = 1 + sx_choose("wb", 4) * 5, wc = 1 + sx_choose("wc", 4) * 10; const bool bit = sx_choose("bit", 2); IntegerBuilder<u64> i; i.Append(a, wa).Append(b, wb).Append(bit).Append(c, wc); const u64 e = (((((u64)a & ((1u << wa) - 1)) << wb | (b & ((1u << wb) - 1))) << 1 | bit) << wc) | (c & ((1ull << wc) - 1)); SX_ASSERT(i.GetResult() == e, "packed fields"); break; }
	default: { const u8 a = sx_u8("a"), b = sx_u8("b"); IntegerBuilder<u16> i; i.Append(a, 8); i.Append(b, 8); SX_ASSERT(i.GetResult() == (a << 8 | b), "packed bytes"); break; }
	}
	sx_reach("builder");
}
