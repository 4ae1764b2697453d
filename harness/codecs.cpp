// Encoded texts, pattern searches and names against decoders, tables and searches written from the definitions.
#include "sx.h"
#include <stingraykit/collection/Range.h>
#include <stingraykit/locale/LangCode.h>
#include <stingraykit/locale/StringCodec.h>
#include <stingraykit/locale/Translit.h>
#include <stingraykit/string/AhoCorasick.h>
#include <stingraykit/string/HumanReadableSize.h>
#include <stingraykit/string/RegexUtils.h>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/Utf8StringUtils.h>
#include "codec_tables.h"
using namespace stingray;
namespace {
int K(int q, int t) { return sx_tier() ? t : q; }
bool Same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int e = 1; for (size_t i = 0; i < a.size(); ++i) e &= a[i] == b[i]; return e; }
// a scalar value of the given UTF-8 length class (1-4, the three-byte class in two pieces around the surrogates)
u32 Scalar(const char* name, int cls) { switch (cls) { case 0: return sx_range(name, 0, 0x7f); case 1: return sx_range(name, 0x80, 0x7ff); case 2: return sx_range(name, 0x800, 0xd7ff); case 3: return sx_range(name, 0xe000, 0xffff); default: return sx_range(name, 0x10000, 0x10ffff); } }
std::string Utf8(u32 c) { std::string r; if (sx_conc(c < 0x80)) r += (char)c; else if (sx_conc(c < 0x800)) { r += (char)(0xc0 + c / 64); r += (char)(0x80 + c % 64); } else if (sx_conc(c < 0x10000)) { r += (char)(0xe0 + c / 4096); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); } else { r += (char)(0xf0 + c / 262144); r += (char)(0x80 + c / 4096 % 64); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); } return r; }
std::string Unit(u32 v, int n, bool le) { std::string r; for (int i = 0; i < n; ++i) r += (char)(v >> 8 * (le ? i : n - 1 - i)); return r; }
std::string Utf16(u32 c, bool le) { if (sx_conc(c < 0x10000)) return Unit(c, 2, le); const u32 d = c - 0x10000; return Unit(0xd800 + d / 1024, 2, le) + Unit(0xdc00 + d % 1024, 2, le); }
const Encoding::Enum Single[] = {Encoding::CP1251, Encoding::ISO_8859_1, Encoding::ISO_8859_2, Encoding::ISO_8859_3, Encoding::ISO_8859_4, Encoding::ISO_8859_5, Encoding::ISO_8859_6, Encoding::ISO_8859_7, Encoding::ISO_8859_8, Encoding::ISO_8859_9, Encoding::ISO_8859_10, Encoding::ISO_8859_11, Encoding::ISO_8859_13, Encoding::ISO_8859_14, Encoding::ISO_8859_15, Encoding::ISO_8859_16};
}
SX_ENTRY(utf8_walk) // well-formed texts, forwards, backwards and by index
{
	const size_t n = sx_choose("n", K(4, 5)); std::vector<u32> c; std::vector<size_t> at; std::string s; for (size_t i = 0; i < n; ++i) { c.push_back(Scalar("c", sx_choose("class", 5))); at.push_back(s.size()); s += Utf8(c.back()); } at.push_back(s.size()); const string_view v(s); Utf8IteratorRange<string_view> r(v);
	switch (sx_choose("op", 3))
	{
	case 0: for (size_t i = 0; i < n; ++i) { SX_ASSERT(r.Valid() && r.Get() == c[i], "code point"); SX_ASSERT((size_t)(r.GetIterator() - v.begin()) == at[i], "position of a code point"); r.Next(); } SX_ASSERT(!r.Valid() && SX_THROWS(r.Get()) && SX_THROWS(r.Next()), "end of the text"); for (size_t i = n; i-- > 0; ) { r.Prev(); SX_ASSERT(r.Get() == c[i] && (size_t)(r.GetIterator() - v.begin()) == at[i], "code point before"); } SX_ASSERT(SX_THROWS(r.Prev()), "before the first"); r.Last(); SX_ASSERT(n == 0 ? !r.Valid() : r.Get() == c[n - 1], "last code point"); r.First(); SX_ASSERT(n == 0 ? !r.Valid() : r.Get() == c[0], "first code point"); break;
	case 1: SX_ASSERT(Utf8Strlen(v) == n && Utf8Validate(v), "length and validity"); break;
	default: { const size_t p = sx_choose("p", n + 2), k = sx_choose("k", n + 3); std::string g; const bool th = SX_THROWS(g = Utf8Substring<true>(v, p, k == n + 2 ? string_view::npos : k)); SX_ASSERT(th == (p > n), "substring position"); if (!th) SX_ASSERT(Same(g, s.substr(at[p], at[p + k < n ? p + k : n] - at[p])), "substring by code points"); break; }
	}
	sx_reach("utf8walk");
}
SX_ENTRY(utf8_malformed) // any bytes: structurally malformed ones are refused, the others decode
{
	const size_t n = 1 + sx_choose("n", K(4, 5)); std::string s; u8 b[8]; for (size_t i = 0; i < n; ++i) { b[i] = sx_u8("b"); s += (char)b[i]; } size_t p = 0, count = 0; bool bad = false; u32 first = 0;
	while (p < n && !bad) { const u8 c = b[p]; size_t len = 0; u32 v = 0; if (c < 0x80) { len = 1; v = c; } else if (c >= 0xc2 && c <= 0xdf) { len = 2; v = c - 0xc0; } else if (c >= 0xe0 && c <= 0xef) { len = 3; v = c - 0xe0; } else if (c >= 0xf0 && c <= 0xf4) { len = 4; v = c - 0xf0; } else bad = true; if (p + len > n) bad = true; for (size_t i = 1; i < len && !bad; ++i) { if (sx_or(b[p + i] < 0x80, b[p + i] > 0xbf)) bad = true; v = v * 64 + b[p + i] % 64; } if (!bad) { if (p == 0) first = v; p += len; ++count; } }
	SX_ASSERT(Utf8Validate(s) == !bad, "validity of any bytes"); size_t got = 0; const bool th = SX_THROWS(got = Utf8Strlen(s)); SX_ASSERT(th == bad && (th || got == count), "length of any bytes"); if (count) { const string_view v(s); Utf8IteratorRange<string_view> r(v); SX_ASSERT(r.Get() == first, "first code point"); } sx_reach("utf8bad");
}
SX_ENTRY(single_byte) // tables of the single-byte encodings
{
	const int e = sx_choose("encoding", 16); const u8 b = sx_u8("b"); const u32 c = b < 0x80 ? b : codec_tables[e][b - 0x80]; SX_ASSUME(sx_or(b == 0, c != 0)); const std::string g = StringCodec::ToUtf8(LocaleString(Single[e], std::string(1, (char)b))); SX_ASSERT(Same(g, Utf8(c)), "character of a single-byte encoding"); if (e == 0) SX_ASSERT(Same(StringCodec::FromCodePage(std::string(1, (char)b), 1251).Text, g), "character of a code page"); sx_reach("single");
}
SX_ENTRY(unicode) // UTF-16 and UTF-32 with and without byte order marks
{
	const bool le = sx_choose("le", 2), wide = sx_choose("wide", 2); const int mark = sx_choose("mark", 2); const size_t n = sx_choose("n", K(3, 4)); std::string s, e; if (mark) s = wide ? Unit(0xfeff, 4, le) : Unit(0xfeff, 2, le); for (size_t i = 0; i < n; ++i) { const u32 c = Scalar("c", sx_choose("class", 5)); if (mark && i == 0 && !wide) SX_ASSUME(c != 0); s += wide ? Unit(c, 4, le) : Utf16(c, le); e += Utf8(c); }
	const int cut = sx_choose("cut", 2); if (cut && n) { const u32 last = wide ? 4 : (u8)0; (void)last; s.resize(s.size() - 1); } // the last unit is truncated
	const Encoding enc = mark ? Encoding::ISO_10646 : wide ? (le ? Encoding::ISO_10646_utf32LE : Encoding::ISO_10646_utf32BE) : le ? Encoding::ISO_10646_utf16LE : Encoding::ISO_10646_utf16BE; if (mark) { size_t bom = 9; const optional<Encoding> d = StringCodec::GetEncoding(s, bom); if (!(cut && n == 0)) SX_ASSERT(d && *d == (wide ? (le ? Encoding::ISO_10646_utf32LE : Encoding::ISO_10646_utf32BE) : le ? Encoding::ISO_10646_utf16LE : Encoding::ISO_10646_utf16BE) && bom == (wide ? 4u : 2u), "encoding by its mark"); }
	const std::string g = StringCodec::ToUtf8(LocaleString(enc, s), '?'); if (cut && n) { SX_ASSERT(!g.empty() && g[g.size() - 1] == '?', "truncated character"); size_t k = e.size(); while (k && ((u8)e[k - 1] & 0xc0) == 0x80) --k; if (k) --k; SX_ASSERT(g.size() == k + 1 && Same(g.substr(0, k), e.substr(0, k)), "characters before a truncated one"); } else SX_ASSERT(Same(g, e), "decoded text"); sx_reach("unicode");
}
SX_ENTRY(surrogates)
{
	const bool le = sx_choose("le", 2); const u32 a = sx_range("a", 0xd800, 0xdfff), b = sx_u16("b"); const std::string g = StringCodec::ToUtf8(LocaleString(le ? Encoding::ISO_10646_utf16LE : Encoding::ISO_10646_utf16BE, Unit(a, 2, le) + Unit(b, 2, le)), '?'); if (a >= 0xdc00) SX_ASSERT(g[0] == '?', "second surrogate first"); else if (sx_and(b >= 0xdc00, b <= 0xdfff)) SX_ASSERT(Same(g, Utf8(0x10000 + (a - 0xd800) * 1024 + (b - 0xdc00))), "surrogate pair"); else SX_ASSERT(g[0] == '?', "unpaired surrogate"); const u32 v = sx_u32("v"); const std::string w = StringCodec::ToUtf8(LocaleString(le ? Encoding::ISO_10646_utf32LE : Encoding::ISO_10646_utf32BE, Unit(v, 4, le)), '?'); if (v > 0x10ffff) SX_ASSERT(w == "?", "code point out of range"); sx_reach("surrogates");
}
SX_ENTRY(code_page) // CP866 there and back
{
	const u8 b = sx_u8("b"); SX_ASSUME(sx_or(b < 0xb0, b >= 0xe0)); const LocaleString u = StringCodec::FromCodePage(std::string(1, (char)b), 866); static const u16 f0[] = {0x401, 0x451, 0x404, 0x454, 0x407, 0x457, 0x40e, 0x45e, 0xb0, 0x2219, 0xb7, 0x221a, 0x2116, 0xa4, 0x25a0, 0xa0}; const u32 c = b < 0x80 ? b : b < 0xb0 ? 0x410 + b - 0x80 : b < 0xf0 ? 0x440 + b - 0xe0 : f0[b - 0xf0]; SX_ASSERT(Same(u.Text, Utf8(c)), "character of a code page"); SX_ASSERT(StringCodec::ToCodePage(u, 866) == std::string(1, (char)b), "code page there and back"); const u32 x = Scalar("x", sx_choose("class", 5)); const std::string a = StringCodec::ToCodePage(LocaleString(Encoding::ISO_10646_utf8, Utf8(x)), 20127); SX_ASSERT(a.size() == 1 && a[0] == (x < 0x80 ? (char)x : '?'), "ASCII text"); sx_reach("codepage");
}
SX_ENTRY(locale_compare) // order by code points whatever the encodings
{
	std::string t[2]; LocaleString l[2]; std::vector<u32> c[2]; for (int k = 0; k < 2; ++k) { const size_t n = sx_choose("n", 3); const int e = sx_choose("encoding", 4); for (size_t i = 0; i < n; ++i) { const u32 x = e == 0 ? sx_range("x", 1, 0xff) : Scalar("x", e == 2 ? 1 + 3 * sx_choose("class", 2) : 1); c[k].push_back(x); t[k] += e == 0 ? std::string(1, (char)x) : e == 1 ? Utf8(x) : e == 2 ? Utf16(x, false) : Unit(x, 4, true); } l[k] = LocaleString(e == 0 ? Encoding::ISO_8859_1 : e == 1 ? Encoding::ISO_10646_utf8 : e == 2 ? Encoding::ISO_10646_utf16BE : Encoding::ISO_10646_utf32LE, t[k]); }
	int less = 0, eq = 1; for (size_t i = 0; i < c[0].size() && i < c[1].size(); ++i) { less |= eq & (c[0][i] < c[1][i]); eq &= c[0][i] == c[1][i]; } less |= eq & (c[0].size() < c[1].size()); eq &= c[0].size() == c[1].size(); const int r = l[0].Compare(l[1]); SX_ASSERT((r < 0) == (less != 0) && (r == 0) == (eq != 0), "comparison of texts"); SX_ASSERT((l[0] < l[1]) == (less != 0) && (l[0] == l[1]) == (eq != 0) && (l[0] != l[1]) == (eq == 0), "comparison operators of texts"); sx_reach("localecmp");
}
namespace { struct Found { std::vector<std::pair<size_t, size_t> >& v; void operator()(const std::string& p, size_t i, size_t o) const { SX_ASSERT(p.size() > 0, "pattern"); v.push_back(std::make_pair(i, o)); } }; }
SX_ENTRY(pattern_search) // every occurrence of every pattern, once
{
	static const char* ps[] = {"a", "b", "aa", "ab", "ba", "bb", "aba", "abb", "bab", "aab", "baa", "abab", "bbab"}; const size_t np = 1 + sx_choose("patterns", 3), of = 13; std::vector<std::string> p; size_t used = 0; for (size_t k = 0; k < np; ++k) { const size_t i = sx_choose("p", of); if (used >> i & 1) return; used |= 1u << i; p.push_back(ps[i]); }
	AhoCorasick a; for (size_t k = 0; k < np; ++k) SX_ASSERT(a.Add(p[k]) == k, "pattern index"); std::string none; std::vector<std::pair<size_t, size_t> > got; Found f = {got}; SX_ASSERT(SX_THROWS(a.Search(none, f)), "search before the patterns are built"); a.Build(); SX_ASSERT(SX_THROWS(a.Add("q")), "pattern added late"); const size_t n = np == 3 ? K(5, 6) : sx_choose("n", K(6, 7)); std::string t; for (size_t i = 0; i < n; ++i) t += (char)('a' + sx_range("t", 0, 1)); if (n && np < 3 && sx_choose("odd", 2)) t[n / 2] = (char)200; a.Search(t, f);
	size_t count = 0; for (size_t k = 0; k < np; ++k) for (size_t o = 0; o + p[k].size() <= n; ++o) { int m = 1; for (size_t i = 0; i < p[k].size(); ++i) m &= t[o + i] == p[k][i]; size_t c = 0; for (size_t i = 0; i < got.size(); ++i) c += got[i].first == k && got[i].second == o; SX_ASSERT(c == (size_t)m, "occurrences of a pattern"); count += c; } SX_ASSERT(count == got.size(), "reported matches"); sx_reach("aho");
}
SX_ENTRY(range_regex) // the expression matches exactly the decimal texts of the numbers of the range
{
	static const u64 at[] = {0, 1, 7, 9, 10, 11, 19, 42, 99, 100, 101, 190, 199, 200, 999, 1000, 1005, 12345, 99999, 4294967295ull, 9999999999999999999ull, 10000000000000000000ull, 18446744073709551614ull, 18446744073709551615ull}; const size_t na = 24, i = sx_choose("a", na), j = i + sx_choose("b", na - i); const u64 lo = at[i], hi = at[j]; const std::string re = GenerateNumericRangeRegex(lo, hi, sx_choose("match", 2)); const std::regex r(re); SX_ASSERT(SX_THROWS(GenerateNumericRangeRegex(hi + 1, hi, false)) == (hi + 1 != 0), "empty range");
	const bool big = sx_choose("big", 2); size_t n = 1 + sx_choose("n", 4); std::string t; u64 v = 0; bool lead = false; if (big) { t = sx_choose("base", 2) ? "1844674407370955161" : "999999999999999999"; for (size_t k = 0; k < t.size(); ++k) v = v * 10 + (t[k] - '0'); n = 1; if (hi < 100000) return; } for (size_t k = 0; k < n; ++k) { const u8 d = sx_range("d", 0, big && t.size() == 19 ? 5 : 9); if (k == 0 && !big && n > 1) lead = d == 0; t += (char)('0' + d); v = v * 10 + d; }
	SX_ASSERT(std::regex_match(t, r) == (!lead && v >= lo && v <= hi), "numbers the expression matches"); sx_reach("rangere");
}
SX_ENTRY(human_size)
{
	static const char suf[] = {'k', 'M', 'G', 'T', 'P', 'E'}; const int u = sx_choose("unit", 8); const size_t n = 1 + sx_choose("n", K(4, 6)); std::string t; u64 v = 0; for (size_t i = 0; i < n; ++i) { const u8 d = sx_range("d", 0, 9); t += (char)('0' + d); v = v * 10 + d; } u64 g = 0; bool th; u8 c = 0; if (u == 6) th = SX_THROWS(g = FromHumanReadableSize(t)); else { if (u < 6) c = suf[u]; else { c = sx_u8("c"); SX_ASSUME(sx_or(c < '0', c > '9')); for (int i = 0; i < 6; ++i) SX_ASSUME(c != suf[i]); } th = SX_THROWS(g = FromHumanReadableSize(t + (char)c)); }
	if (u == 7) SX_ASSERT(th, "unknown unit accepted"); else { const int sh = u == 6 ? 0 : 10 * (u + 1); const bool over = v > UINT64_MAX >> sh; SX_ASSERT(th == over, "size that does not fit"); if (!th) SX_ASSERT(g == v << sh, "parsed size"); } SX_ASSERT(SX_THROWS(FromHumanReadableSize("")) && SX_THROWS(FromHumanReadableSize("k")) && SX_THROWS(FromHumanReadableSize("1kk")), "malformed size accepted"); static const u64 at[] = {0, 1, 1000, 1024, 1536, 1 << 20, 1234567, 1ull << 40, 3ull << 62, UINT64_MAX - 5, UINT64_MAX}; const u64 p = at[sx_choose("print", 11)]; std::string h; SX_ASSERT(!SX_THROWS(h = ToHumanReadableSize(p)), "size cannot be printed"); const u64 q = FromHumanReadableSize(h); SX_ASSERT((q > p ? q - p : p - q) <= p / 100 + 1, "printed size"); sx_reach("human");
}
namespace {
struct Flag { STINGRAYKIT_ENUM_VALUES(A = 1, Bee = 2, C4 = 4, AC = 5, Big = 0x40000000, Top = 0x40000008); STINGRAYKIT_DECLARE_ENUM_CLASS(Flag); };
struct Seq { STINGRAYKIT_ENUM_VALUES(Low = -3, Next, Zero = 0, One, Ten = 10, Eleven); STINGRAYKIT_DECLARE_ENUM_CLASS(Seq); };
}
SX_ENTRY(enum_names)
{
	switch (sx_choose("op", 4))
	{
	case 0: { static const int vals[] = {-3, -2, 0, 1, 10, 11}; static const char* names[] = {"Low", "Next", "Zero", "One", "Ten", "Eleven"}; const int i = sx_choose("i", 6); SX_ASSERT(Seq((Seq::Enum)vals[i]).ToString() == names[i] && Seq::FromString(names[i]) == (Seq::Enum)vals[i], "name of a value"); SX_ASSERT((int)Seq().val() == -3, "default value"); int k = 0; for (Seq::const_iterator it = Seq::begin(); it != Seq::end(); ++it, ++k) SX_ASSERT(k < 6 && (int)(*it).val() == vals[k], "listed values"); SX_ASSERT(k == 6, "number of values"); break; }
	case 1: { const int v = (int)sx_range("v", 1, 7) + (sx_choose("big", 2) ? 0x40000000 : 0) + (sx_choose("top", 2) ? 0x40000008 : 0); if (v < 0) return; const std::string t = Flag((Flag::Enum)v).ToString(); SX_ASSERT(!t.empty() && (int)Flag::FromString(t).val() == v, "flags there and back"); break; }
	case 2: { const int v = sx_range("v", 16, 99); SX_ASSERT(Flag((Flag::Enum)(v / 16 * 16)).ToString() == ToString(v / 16 * 16), "unnamed value"); break; }
	default: { static const char* bad[] = {"", " ", "a", "Bees", "A|x", "A|Bee|AD", "B"}; SX_ASSERT(SX_THROWS(Flag::FromString(bad[sx_choose("bad", 7)])), "unknown name accepted"); SX_ASSERT((int)Flag::FromString(" A | Bee ").val() == 3 && (int)Flag::FromString("AC|Big").val() == 0x40000005, "flags with blanks"); break; }
	}
	sx_reach("enum");
}
SX_ENTRY(lang_code)
{
	std::string s; u32 code = 0, up = 0; for (int i = 0; i < 3; ++i) { const u8 c = sx_range("c", 1, 255); s += (char)c; code = code * 256 + c; up = up * 256 + (sx_and(c >= 'a', c <= 'z') ? c - 32 : c); } std::string e; for (int i = 2; i >= 0; --i) e += (char)(up >> 8 * i); const LangCode a(s), b(code); SX_ASSERT(a == b && !(a < b) && Same(a.ToString(), e), "language code"); SX_ASSERT(LangCode::FromString(s) == a, "language code from text"); SX_ASSERT(SX_THROWS(LangCode(s + "x")) && SX_THROWS(LangCode(std::string("ab"))) && SX_THROWS(LangCode(code + 0x1000000u)), "malformed language code"); const u32 d = sx_range("d", 0, 0xffffff); const LangCode f(d); SX_ASSERT(LangCode(LangCode::Any).ToString().empty() && LangCode() == LangCode(LangCode::Any), "any language"); SX_ASSERT((f < a) == !(f >= a) && (f == a) == !(f != a), "order of language codes"); const char p[3] = {(char)(sx_choose("R", 2) ? 'r' : 'R'), (char)(sx_choose("U", 2) ? 'u' : 'U'), 0}; SX_ASSERT(LangCode::FromString(p) == LangCode::Rus() && LangCode::FromString("eN") == LangCode::Eng() && LangCode::Rus().To2LetterString() == "ru", "two-letter codes"); sx_reach("lang");
}
