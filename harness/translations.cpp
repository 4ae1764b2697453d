// S04: texts in several languages keep, select, compare, store and build the translations given; transliterated search finds exactly the texts it spells.
#include "valuetree.h"
#include <stingraykit/locale/Translit.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/string/TranslatedStringUtils.h>
#include <map>
#include <string>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::map<int, std::string> Model; // the languages in their order
	const LangCode& lang(int k) { static const LangCode l[3] = { LangCode("ang"), LangCode("bul"), LangCode("rus") }; return l[k]; }
	std::string letters(const char* n, int len) { std::string s; for (int i = 0; i < len; ++i) s.push_back((char)sx_u8(n)); return s; }
	bool same(const std::string& a, const std::string& b) { bool r = a.size() == b.size(); if (!r) return false; for (size_t i = 0; i < a.size(); ++i) r = sx_and(r, a[i] == b[i]); return r; }
	void check(const TranslatedString& t, const Model& m)
	{
		SX_ASSERT(t.IsEmpty() == m.empty() && t.HasTranslation(LangCode::Any) == !m.empty(), "whether there are translations");
		for (int k = 0; k < 3; ++k)
		{
			const Model::const_iterator i = m.find(k); SX_ASSERT(t.HasTranslation(lang(k)) == (i != m.end()), "whether there is a translation"); const optional<std::string> r = t.TryGetTranslation(lang(k)); SX_ASSERT(r.is_initialized() == (i != m.end()) && (!r || same(*r, i->second)), "a translation"); if (r) SX_ASSERT(same(t.GetTranslation(lang(k)), i->second), "a translation asked for"); else SX_ASSERT(SX_THROWS(t.GetTranslation(lang(k))), "a translation that is not there");
			const int o = (k + 1) % 3; const Model::const_iterator j = m.find(o); const std::string first = m.empty() ? std::string() : m.begin()->second, want = i != m.end() ? i->second : first; SX_ASSERT(same(t.SelectTranslation(lang(k)), want), "a translation or any other"); SX_ASSERT(same(t.SelectTranslation(lang(k), lang(o)), i == m.end() && j != m.end() ? j->second : want), "the first translation there is"); std::vector<LangCode> l; l.push_back(lang(k)); l.push_back(lang(o)); SX_ASSERT(same(t.SelectTranslation(l), i != m.end() ? i->second : j != m.end() ? j->second : std::string()), "a translation out of a list");
		}
		const optional<std::string> any = t.TryGetTranslation(LangCode::Any); SX_ASSERT(any.is_initialized() == !m.empty() && (!any || same(*any, m.begin()->second)), "any translation"); if (m.empty()) SX_ASSERT(SX_THROWS(t.GetTranslation(LangCode::Any)), "any translation of none"); Model::const_iterator i = m.begin(); FOR_EACH(const TranslatedString::Dictionary::PairType p IN t.GetTranslations()) { SX_ASSERT(i != m.end() && p.Key == lang(i->first) && same(p.Value, i->second), "all translations"); ++i; } SX_ASSERT(i == m.end(), "a translation is missing");
	}
	int order(const Model& a, const Model& b) { Model::const_iterator i = a.begin(), j = b.begin(); for (; i != a.end() && j != b.end(); ++i, ++j) { if (i->first != j->first) return i->first < j->first ? -1 : 1; const int c = i->second.compare(j->second); if (c) return c < 0 ? -1 : 1; } return i != a.end() ? 1 : j != b.end() ? -1 : 0; }
}
SX_ENTRY(histories)
{
	TranslatedString t[2]; Model m[2]; const int steps = sx_tier() ? 4 : 3;
	for (int i = 0; i < steps; ++i)
	{
		const int op = sx_choose("op", 6), x = sx_choose("x", 2), y = 1 - x;
		switch (op)
		{
		case 0: { const int k = sx_choose("lang", 3); const std::string s = letters("s", 1); t[x] = TranslatedString(lang(k), s); m[x].clear(); m[x][k] = s; break; }
		case 1: t[x] = t[y]; m[x] = m[y]; break;
		case 2: { const int k = sx_choose("lang", 3); const std::string s = letters("s", 1); t[x] = TranslatedString::Builder(t[x]).AddTranslation(lang(k), s); m[x][k] = s; break; }
		case 3: { const int k = sx_choose("lang", 3); const std::string s = letters("s", 2); TranslatedString::Builder b(t[y]); b.AddTranslation(lang(k), "old"); b.AddTranslation(lang(k), s); t[x] = b.Get(); m[x] = m[y]; m[x][k] = s; break; }
		case 4: { Load(Save(t[y]), t[x]); m[x] = m[y]; break; }
		default: { TranslatedString::Builder b; b.AddTranslation(lang(2), "x").AddTranslation(lang(0), "y"); t[x] = b.Get(); m[x].clear(); m[x][2] = "x"; m[x][0] = "y"; break; }
		}
		check(t[0], m[0]); check(t[1], m[1]);
	}
	const int c = t[0].Compare(t[1]), d = order(m[0], m[1]); SX_ASSERT((c > 0) - (c < 0) == d && (t[0] == t[1]) == !d && (t[0] < t[1]) == (d < 0) && (t[1] < t[0]) == (d > 0), "order of translated texts"); sx_reach("histories");
}
SX_ENTRY(order_of)
{
	// any two texts with any letters
	TranslatedString t[2]; Model m[2]; for (int x = 0; x < 2; ++x) { TranslatedString::Builder b; for (int k = 0; k < 3; ++k) if (sx_choose("has", 2)) { const std::string s = letters("s", sx_choose("len", 2)); b.AddTranslation(lang(k), s); m[x][k] = s; } t[x] = b; }
	const int c = t[0].Compare(t[1]), d = order(m[0], m[1]); SX_ASSERT((c > 0) - (c < 0) == d && (t[0] == t[1]) == !d && (t[0] < t[1]) == (d < 0), "order of translated texts"); sx_reach("order");
}
SX_ENTRY(formats)
{
	// every language gets its own text with its own arguments
	TranslatedString f, a; Model mf, ma; { TranslatedString::Builder b; static const char* const text[3] = { "<%1%|%2%>", "%2%%1%%1%", "%2%" }; for (int k = 0; k < 3; ++k) if (sx_choose("format", 2)) { b.AddTranslation(lang(k), text[k]); mf[k] = text[k]; } f = b; } { TranslatedString::Builder b; for (int k = 0; k < 3; ++k) if (sx_choose("argument", 2)) { std::string s = letters("s", 1); SX_ASSUME(s[0] != '%'); b.AddTranslation(lang(k), s); ma[k] = s; } a = b; }
	const u32 n = sx_u8("n"); SX_ASSUME(n < 10); const std::string num(1, (char)('0' + n)); std::string val[3]; for (int k = 0; k < 3; ++k) { const Model::const_iterator i = ma.find(k); val[k] = i != ma.end() ? i->second : ma.empty() ? std::string() : ma.begin()->second; }
	Model want; for (Model::const_iterator i = mf.begin(); i != mf.end(); ++i) { const std::string& v = val[i->first]; want[i->first] = i->first == 0 ? "<" + v + "|" + num + ">" : i->first == 1 ? num + v + v : num; } check(TranslatedStringFormat(f, a, n), want);
	Model built; built[0] = val[0] + "-" + num; built[2] = val[2] + "-" + num; TranslatedStringBuilder b(lang(0), lang(2)); b % a % "-" % n; check(b, built); std::vector<LangCode> ls; ls.push_back(lang(2)); ls.push_back(lang(0)); check((TranslatedStringBuilder(ls) % a % std::string("-") % n).Get(), built);
	std::vector<TranslatedString> items; const int k = sx_choose("items", 3); Model joined; std::string j[2]; for (int i = 0; i < k; ++i) { items.push_back(i ? TranslatedString(lang(2), "z") : a); for (int l = 0; l < 2; ++l) { if (i) j[l] += ", "; j[l] += i ? std::string("z") : val[l ? 2 : 0]; } } joined[0] = j[0]; joined[2] = j[1]; check(Join(ls, ", ", items), joined); sx_reach("formats");
}
namespace
{
	struct Spelling { const char *Latin, *Text; };
	const Spelling SPELL[] = { { "zh", "ж" }, { "ch", "ч" }, { "sh", "ш" }, { "sch", "щ" }, { "yu", "ю" }, { "ya", "я" }, { "a", "а" }, { "b", "б" }, { "c", "ц" }, { "d", "д" }, { "e", "е" }, { "e", "э" }, { "f", "ф" }, { "g", "г" }, { "h", "х" }, { "i", "и" }, { "j", "й" }, { "j", "ж" }, { "k", "к" }, { "l", "л" }, { "m", "м" }, { "n", "н" }, { "o", "о" }, { "p", "п" }, { "q", "ку" }, { "r", "р" }, { "s", "с" }, { "t", "т" }, { "u", "у" }, { "v", "в" }, { "w", "в" }, { "x", "кс" }, { "y", "ы" }, { "z", "з" } };
	const int SPELLS = sizeof(SPELL) / sizeof(SPELL[0]);
	bool at(const std::string& s, size_t p, const char* k) { bool r = true; for (size_t i = 0; k[i]; ++i) { if (p + i >= s.size()) return false; r = sx_and(r, s[p + i] == k[i]); } return r; }
	// whether what follows in the text can be spelled by what follows in the pattern
	bool spelled(const std::string& pattern, const std::string& text)
	{
		std::vector<std::vector<bool> > dummy; const size_t n = pattern.size(), m = text.size(); bool r[5][9]; for (size_t j = 0; j <= m; ++j) r[n][j] = true;
		for (size_t i = n; i-- > 0; ) for (size_t j = m + 1; j-- > 0; ) { bool b = false; if (j < m) b = sx_and(pattern[i] == text[j], r[i + 1][j + 1]); for (int k = 0; k < SPELLS; ++k) { const size_t l = strlen(SPELL[k].Latin), t = strlen(SPELL[k].Text); if (i + l <= n && j + t <= m) b = sx_or(b, sx_and(sx_and(at(pattern, i, SPELL[k].Latin), at(text, j, SPELL[k].Text)), r[i + l][j + t])); } r[i][j] = b; }
		bool any = false; for (size_t j = 0; j <= m; ++j) any = sx_or(any, r[0][j]); return any;
	}
}
SX_ENTRY(translit_any)
{
	// any short pattern in any short text
	const std::string p = letters("p", sx_choose("pattern", sx_tier() ? 4 : 3)), t = letters("t", sx_choose("text", sx_tier() ? 6 : 5)); const bool want = spelled(p, t); SX_ASSERT(TranslitMatchSubstr(p, t) == want, "a transliterated pattern in a text"); sx_reach(want ? "found" : "not found");
}
SX_ENTRY(translit_words)
{
	// words of two letters, somewhere in a text
	const int a = sx_choose("a", SPELLS), b = sx_choose("b", SPELLS + 1); const std::string p = std::string(SPELL[a].Latin) + (b < SPELLS ? SPELL[b].Latin : ""), w = std::string(SPELL[a].Text) + (b < SPELLS ? SPELL[b].Text : ""); const int before = sx_choose("before", 2), after = sx_choose("after", 2); const std::string t = letters("t", before) + w + letters("t", after); SX_ASSERT(TranslitMatchSubstr(p, t), "a word that is in the text"); SX_ASSERT(TranslitMatchSubstr(w, t), "a word as it is written");
	const std::string c = std::string(w) ; SX_ASSERT(!TranslitMatchSubstr(p + "!", w) && !TranslitMatchSubstr(std::string("!") + p, w), "a word with something more"); std::string cut = w; cut.resize(w.size() - 1); SX_ASSERT(!TranslitMatchSubstr(p, cut), "a word whose end is missing"); sx_reach("words");
}
