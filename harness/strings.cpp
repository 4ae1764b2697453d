// String views and string utilities against character-by-character definitions.
#include "sx.h"
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/StringReader.h>
#include <stingraykit/string/Comparers.h>
#include <stingraykit/collection/Range.h>
using namespace stingray;
namespace {
int K(int q, int t) { return sx_tier() ? t : q; }
const size_t N = string_view::npos;
struct Text { char d[8]; size_t n; Text(const char* name, size_t max, bool free = true) : n(sx_choose(name, max + 1)) { for (size_t i = 0; i < n; ++i) d[i] = free ? (char)sx_u8(name) : (char)('a' + sx_range(name, 0, 1)); } string_view View() const { return string_view(d, n); } std::string Str() const { return std::string(d, n); } };
bool Same(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
bool At(const Text& t, const Text& p, size_t i) { if (i + p.n > t.n) return false; for (size_t k = 0; k < p.n; ++k) if (t.d[i + k] != p.d[k]) return false; return true; }
bool In(char c, const Text& set) { int r = 0; for (size_t k = 0; k < set.n; ++k) r |= c == set.d[k]; return r; }
size_t Pos(const char* name, size_t n) { const size_t k = sx_choose(name, n + 4); return k <= n + 1 ? k : k == n + 2 ? N - 1 : N; }
}
SX_ENTRY(view_find)
{
	const Text t("t", K(6, 8)), p("p", K(2, 3)); const string_view v = t.View(), w = p.View(); const size_t pos = Pos("pos", t.n); size_t e = N;
	switch (sx_choose("op", 2))
	{
	case 0: for (size_t i = pos; i <= t.n && pos <= t.n; ++i) if (At(t, p, i)) { e = i; break; } SX_ASSERT(v.find(w, pos) == e, "find"); if (p.n == 1) SX_ASSERT(v.find(p.d[0], pos) == e, "find character"); break;
	default: for (size_t i = t.n + 1; i-- > 0; ) if (i <= pos && At(t, p, i)) { e = i; break; } SX_ASSERT(v.rfind(w, pos) == e, "find backwards"); if (p.n == 1) SX_ASSERT(v.rfind(p.d[0], pos) == e, "find character backwards"); break;
	}
	sx_reach("find");
}
SX_ENTRY(view_find_set)
{
	const Text t("t", K(5, 6)), p("p", 2); const string_view v = t.View(), w = p.View(); const size_t pos = Pos("pos", t.n); const int op = sx_choose("op", 4); size_t e = N; const bool fwd = op % 2 == 0, in = op < 2; if (p.n == 0 && !in) return; // an empty set is not decided for the negative searches
	if (fwd) { for (size_t i = pos; i < t.n; ++i) if (In(t.d[i], p) == in) { e = i; break; } } else for (size_t i = t.n; i-- > 0; ) if (i <= pos && In(t.d[i], p) == in) { e = i; break; }
	const size_t r = op == 0 ? v.find_first_of(w, pos) : op == 1 ? v.find_last_of(w, pos) : op == 2 ? v.find_first_not_of(w, pos) : v.find_last_not_of(w, pos); SX_ASSERT(r == e, "search for a set of characters"); if (p.n == 1) { const char c = p.d[0]; SX_ASSERT((op == 0 ? v.find_first_of(c, pos) : op == 1 ? v.find_last_of(c, pos) : op == 2 ? v.find_first_not_of(c, pos) : v.find_last_not_of(c, pos)) == e, "search for one character"); } sx_reach("findset");
}
SX_ENTRY(view_slice) // any position and count
{
	const Text t("t", 4); const string_view v = t.View(); const u64 pos = sx_u64("pos"), cnt = sx_u64("cnt");
	switch (sx_choose("op", 5))
	{
	case 0: { string_view s; const bool th = SX_THROWS(s = v.substr(pos, cnt)); SX_ASSERT(th == (pos > t.n), "substring position"); if (!th) { SX_ASSERT(s.size() == (cnt < t.n - pos ? cnt : t.n - pos) && s.data() == v.data() + pos, "substring"); SX_ASSERT(v.substr(pos).size() == t.n - pos, "rest of the view"); } break; }
	case 1: { string_view s(v); const bool th = SX_THROWS(s.remove_prefix(pos)); SX_ASSERT(th == (pos > t.n), "prefix size"); SX_ASSERT(s.size() == (th ? t.n : t.n - pos) && s.data() == v.data() + (th ? 0 : pos), "view without prefix"); break; }
	case 2: { string_view s(v); const bool th = SX_THROWS(s.remove_suffix(pos)); SX_ASSERT(th == (pos > t.n), "suffix size"); SX_ASSERT(s.size() == (th ? t.n : t.n - pos) && s.data() == v.data(), "view without suffix"); break; }
	case 3: { char c = 0; const bool th = SX_THROWS(c = v.at(pos)); SX_ASSERT(th == (pos >= t.n), "character position"); if (!th) SX_ASSERT(c == t.d[sx_conc(pos)], "character"); break; }
	default: { const string_view a(t.d, 0), b(t.d, pos); SX_ASSERT((a < b) == (pos > 0) && (b < a) == false && (a == b) == (pos == 0) && (b > a) == (pos > 0), "an empty view is less than any other"); break; }
	}
	sx_reach("slice");
}
SX_ENTRY(view_compare)
{
	const Text t("t", K(5, 6)), p("p", K(4, 5)); const string_view v = t.View(), w = p.View(); int c = 0; const size_t m = t.n < p.n ? t.n : p.n; int less = 0, eq = 1; for (size_t i = 0; i < m; ++i) { less |= eq & ((u8)t.d[i] < (u8)p.d[i]); eq &= t.d[i] == p.d[i]; } less |= eq & (t.n < p.n); const int pre = eq & (p.n <= t.n); eq &= t.n == p.n; c = v.compare(w);
	SX_ASSERT((c < 0) == (less != 0) && (c == 0) == (eq != 0), "comparison"); SX_ASSERT((v < w) == (less != 0) && (v == w) == (eq != 0) && (v != w) == !eq && (v <= w) == (less || eq) && (v > w) == !(less || eq) && (v >= w) == !less, "comparison operators"); SX_ASSERT(v.starts_with(w) == (pre != 0) && StartsWith(v, w) == (pre != 0), "prefix"); const bool suf = p.n <= t.n && At(t, p, t.n - p.n); SX_ASSERT(v.ends_with(w) == suf && EndsWith(v, w) == suf, "suffix"); bool any = false; for (size_t i = 0; i + p.n <= t.n && !any; ++i) any = At(t, p, i); SX_ASSERT(Contains(v, w) == any, "contains"); sx_reach("compare");
}
SX_ENTRY(replace)
{
	const Text t("t", K(6, 7), false), f("f", K(2, 3), false), r("r", 2); if (f.n == 0) return; std::string e; for (size_t i = 0; i < t.n; ) if (At(t, f, i)) { e += r.Str(); i += f.n; } else e += t.d[i++]; SX_ASSERT(Same(ReplaceAll(t.View(), f.View(), r.View()), e), "every occurrence is replaced once, from left to right"); if (f.n == 1 && r.n == 1) SX_ASSERT(Same(ReplaceAll(t.View(), f.d[0], r.d[0]), e), "every character is replaced"); sx_reach("replace");
}
SX_ENTRY(filter_strip)
{
	const Text t("t", K(5, 6)), f("f", 2); std::string e; for (size_t i = 0; i < t.n; ++i) if (!In(t.d[i], f)) e += t.d[i];
	switch (sx_choose("op", 4))
	{
	case 0: SX_ASSERT(Same(Filter(t.View(), f.View()), e), "filtered text"); if (f.n == 1) SX_ASSERT(Same(Remove(t.View(), f.d[0]), e), "text without a character"); break;
	case 1: { size_t b = 0, n = t.n; while (b < n && In(t.d[b], f)) ++b; SX_ASSERT(Same(LeftStrip(t.Str(), f.Str()), std::string(t.d + b, n - b)), "left strip"); while (n > b && In(t.d[n - 1], f)) --n; SX_ASSERT(Same(Strip(t.Str(), f.Str()), std::string(t.d + b, n - b)), "strip"); size_t m = t.n; while (m > 0 && In(t.d[m - 1], f)) --m; SX_ASSERT(Same(RightStrip(t.Str(), f.Str()), std::string(t.d, m)), "right strip"); break; }
	case 2: { const bool pre = At(t, f, 0), suf = f.n <= t.n && At(t, f, t.n - f.n); SX_ASSERT(Same(RemovePrefix(t.Str(), f.Str()), pre ? t.Str().substr(f.n) : t.Str()), "without prefix"); SX_ASSERT(Same(RemoveSuffix(t.Str(), f.Str()), suf ? t.Str().substr(0, t.n - f.n) : t.Str()), "without suffix"); const size_t k = sx_choose("k", 7); SX_ASSERT(Same(ExtractPrefix(t.Str(), k), std::string(t.d, k < t.n ? k : t.n)), "prefix"); SX_ASSERT(Same(ExtractSuffix(t.Str(), k), std::string(t.d + (k < t.n ? t.n - k : 0), k < t.n ? k : t.n)), "suffix"); break; }
	default: { const size_t w = sx_choose("w", 7); const std::string pad(w > t.n ? w - t.n : 0, '*'); SX_ASSERT(Same(LeftJustify(t.View(), w, '*'), t.Str() + pad) && Same(RightJustify(t.View(), w, '*'), pad + t.Str()), "justified text"); SX_ASSERT(Same(StringBuilder() % RightJustify(t.View(), w, '*'), pad + t.Str()), "justified text in a builder"); break; }
	}
	sx_reach("strip");
}
SX_ENTRY(letters)
{
	const Text t("t", 3); const std::string lo = ToLower(t.View()), up = ToUpper(t.View()), ca = Capitalize(t.View()), un = Uncapitalize(t.View()); SX_ASSERT(lo.size() == t.n && up.size() == t.n && ca.size() == t.n && un.size() == t.n, "length"); int eq = 1; for (size_t i = 0; i < t.n; ++i) { const char c = t.d[i]; const bool U = sx_and(c >= 'A', c <= 'Z'), L = sx_and(c >= 'a', c <= 'z'); const char l = U ? c + 32 : c, u = L ? c - 32 : c; SX_ASSERT(lo[i] == l && up[i] == u, "case conversion"); SX_ASSERT(ca[i] == (i ? c : u) && un[i] == (i ? c : l), "capitalisation"); eq &= l == (char)('A' <= t.d[i] && t.d[i] <= 'Z' ? t.d[i] + 32 : t.d[i]); }
	SX_ASSERT(eq && CaseInsensitiveEquals()(lo, up), "texts that differ only in case"); SX_ASSERT(!CaseInsensitiveLess()(lo, up) && !CaseInsensitiveLess()(up, lo), "texts that differ only in case are not ordered");
	const Text p("p", 2); int less = 0, e2 = 1; for (size_t i = 0; i < t.n && i < p.n; ++i) { int a = t.d[i], b = p.d[i]; if (sx_and(a >= 'A', a <= 'Z')) a += 32; if (sx_and(b >= 'A', b <= 'Z')) b += 32; less |= e2 & (a < b); e2 &= a == b; } less |= e2 & (t.n < p.n); e2 &= t.n == p.n; SX_ASSERT(CaseInsensitiveLess()(t.View(), p.View()) == (less != 0) && CaseInsensitiveEquals()(t.View(), p.View()) == (e2 != 0), "comparison without case"); sx_reach("letters");
}
SX_ENTRY(split_join)
{
	const Text t("t", K(6, 7), false), d("d", 2, false); if (d.n == 0) return; const size_t limit = sx_choose("limit", 4); const bool any = sx_choose("any", 2); std::vector<std::string> e(1); size_t cuts = 0; for (size_t i = 0; i < t.n; ) { const bool cut = any ? In(t.d[i], d) : At(t, d, i); if (sx_conc(cut) && (limit == 0 || cuts < limit)) { ++cuts; e.push_back(std::string()); i += any ? 1 : d.n; } else e.back() += t.d[i++]; }
	const std::string s = t.Str(), ds = d.Str(); std::vector<std::string> got; if (any) { auto r = Split(s, IsAnyOf(ds), limit); const bool again = sx_choose("again", 2); if (again) { if (r.Valid()) r.Next(); r.First(); } for (; r.Valid(); r.Next()) got.push_back(r.Get()); } else { auto r = Split(s, ds, limit); const bool again = sx_choose("again", 2); if (again) { if (r.Valid()) r.Next(); r.First(); } for (; r.Valid(); r.Next()) got.push_back(r.Get()); }
	SX_ASSERT(got.size() == e.size(), "number of pieces"); for (size_t i = 0; i < e.size(); ++i) SX_ASSERT(Same(got[i], e[i]), "piece"); if (!any) SX_ASSERT(Same(Join(ds, got.begin(), got.end()), s), "splitting and joining"); SX_ASSERT(Same(Join(", ", std::vector<std::string>().begin(), std::vector<std::string>().begin()), ""), "joining nothing"); sx_reach("split");
}
SX_ENTRY(joiner)
{
	const size_t n = sx_choose("n", 4); StringJoiner j(", "), k("-", "<", ">"); std::string e, f; for (size_t i = 0; i < n; ++i) { const u8 d = sx_range("d", 0, 9); j % (int)d; k % (int)d; if (i) { e += ", "; f += "-"; } e += (char)('0' + d); f += (char)('0' + d); } SX_ASSERT(Same(j, e) && Same(k, "<" + f + ">"), "joined text"); SX_ASSERT(j.empty() == (n == 0), "empty joiner"); sx_reach("joiner");
}
SX_ENTRY(string_ref)
{
	const Text o("o", 5, false), p("p", 2, false); const std::string s = o.Str(); const size_t b = sx_choose("b", o.n + 1), e = b + sx_choose("e", o.n - b + 1); const StringRef r(s, b, e); const std::string v = s.substr(b, e - b); SX_ASSERT(r.size() == v.size() && r.empty() == v.empty() && Same(r.str(), v) && r.view().size() == v.size(), "referenced text");
	Text q("none", 0); q.n = v.size(); for (size_t i = 0; i < q.n; ++i) q.d[i] = v[i]; const size_t pos = sx_choose("pos", v.size() + 1), n = sx_choose("cnt", 4) ? sx_choose("c", 5) : StringRef::npos;
	if (p.n) { size_t f = N; for (size_t i = pos; i < q.n; ++i) if (At(q, p, i)) { f = i; break; } SX_ASSERT(r.find(p.Str(), pos) == f, "find in the referenced text"); if (p.n == 1) SX_ASSERT(r.find(p.d[0], pos) == f, "find a character in the referenced text"); } else { const StringRef x = r.substr(pos, n); SX_ASSERT(Same(x.str(), v.substr(pos, n)) && Same(x.view().copy(), v.substr(pos, n)), "part of the referenced text"); } sx_reach("ref");
}
SX_ENTRY(lines)
{
	const size_t n = sx_choose("n", K(7, 9)); std::string s; for (size_t i = 0; i < n; ++i) s += (char)sx_u8("c"); StringReader r(s); size_t p = 0; for (size_t k = 0; k <= n; ++k) { if (p == n) break; SX_ASSERT(!r.IsEndOfString() && r.Peek() == s[p], "next character"); size_t e = p; while (e < n && s[e] != '\n' && s[e] != '\r') ++e; SX_ASSERT(Same(r.ReadLine(), s.substr(p, e - p)), "line"); p = e; if (p < n) p += s[p] == '\r' && p + 1 < n && s[p + 1] == '\n' ? 2 : 1; } SX_ASSERT(r.IsEndOfString() && SX_THROWS(r.Peek()), "end of the text"); sx_reach("lines");
}
SX_ENTRY(edit_distance)
{
	const Text a("a", K(4, 5), false), b("b", 3); size_t m[6][6]; for (size_t i = 0; i <= a.n; ++i) for (size_t j = 0; j <= b.n; ++j) m[i][j] = i == 0 ? j : j == 0 ? i : std::min(std::min(m[i - 1][j] + 1, m[i][j - 1] + 1), m[i - 1][j - 1] + (a.d[i - 1] != b.d[j - 1])); SX_ASSERT(EditDistance(a.View(), b.View()) == m[a.n][b.n] && EditDistance(b.View(), a.View()) == m[a.n][b.n], "edit distance"); sx_reach("edit");
}
SX_ENTRY(ostream_growth) // the in-place buffer holds 256 characters
{
	string_ostream o; const size_t a = 250 + sx_choose("a", 10), b = sx_choose("b", 3) * 200; std::string e; const char c = (char)sx_u8("c"), d = (char)sx_u8("d"); o << std::string(a, c); e = std::string(a, c); o << d << "xy"; e += d; e += "xy"; o << std::string(b, d) << (int)77; e += std::string(b, d) + "77"; const std::string s = o.str(); SX_ASSERT(s.size() == e.size(), "length"); SX_ASSERT(Same(s, e), "contents"); o.clear(); SX_ASSERT(o.empty() && o.str().empty(), "cleared"); o << 'z'; SX_ASSERT(o.str() == "z", "after clear"); sx_reach("ostream");
}
