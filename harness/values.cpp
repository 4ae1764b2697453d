// Value holders (optional, variant, any, tuple) against a model of what they contain.
#include "sx.h"
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/VariantMultidispatch.h>
#include <stingraykit/any.h>
#include <stingraykit/Tuple.h>
#include <stingraykit/string/ToString.h>
using namespace stingray;
static int alive, bomb; // bomb: the n-th copy from now throws
struct V
{
	int v; const V* self;
	void born() { self = this; ++alive; }
	V(int v_ = 0) : v(v_) { born(); }
	V(const V& o) : v(o.v) { SX_ASSERT(o.self == &o, "copied from a dead value"); if (bomb && --bomb == 0) throw std::runtime_error("copy"); born(); }
	V(V&& o) : v(o.v) { SX_ASSERT(o.self == &o, "moved from a dead value"); o.v = -1; born(); }
	~V() { SX_ASSERT(self == this, "value destroyed twice"); self = 0; --alive; }
	V& operator = (const V& o) { SX_ASSERT(self == this && o.self == &o, "assignment of a dead value"); if (bomb && --bomb == 0) throw std::runtime_error("copy"); v = o.v; return *this; }
	V& operator = (V&& o) { SX_ASSERT(self == this && o.self == &o, "assignment of a dead value"); if (this != &o) { v = o.v; o.v = -1; } return *this; }
	bool operator == (const V& o) const { return v == o.v; } bool operator < (const V& o) const { return v < o.v; }
};
static void Begin() { alive = 0; bomb = 0; }
struct M { bool has; int v; };
SX_ENTRY(optional_history)
{
	Begin(); const u64 heap = sx_heap_live();
	{
		optional<V> s[2]; M m[2] = { { false, 0 }, { false, 0 } };
		auto check = [&]() { int n = 0; for (int i = 0; i < 2; ++i) { SX_ASSERT(s[i].is_initialized() == m[i].has && (bool)s[i] == m[i].has && (s[i] == null) == !m[i].has && (s[i] != null) == m[i].has, "presence"); if (m[i].has) { ++n; SX_ASSERT(s[i]->v == m[i].v && (*s[i]).v == m[i].v && s[i].get().self == &*s[i], "value"); } else SX_ASSERT(SX_THROWS(s[i].get()) && SX_THROWS(s[i]->v), "value of an empty optional"); } SX_ASSERT(alive == n, "number of live values"); };
		for (int i = 0; i < 2; ++i) if (sx_choose("has", 2)) { m[i].v = (int)sx_u32("x"); m[i].has = true; s[i] = V(m[i].v); } check(); const int n = sx_tier() ? 4 : 3;
		for (int q = 0; q < n; ++q)
		{
			const int i = (int)sx_choose("i", 2), j = 1 - i; const int x = (int)sx_u32("y"); bool thrown = false; const bool boom = false; (void)boom;
			switch (sx_choose("op", 14))
			{
			case 0: s[i] = V(x); m[i].has = true; m[i].v = x; break;
			case 1: { const V c(x); bomb = (int)sx_choose("bomb", 2); const bool b = bomb != 0; try { s[i] = c; } catch (const std::exception&) { thrown = true; } SX_ASSERT(thrown == b, "exception of the copy lost"); if (!thrown) { m[i].has = true; m[i].v = x; } bomb = 0; break; }
			case 2: s[i] = null; m[i].has = false; break;
			case 3: s[i].reset(); m[i].has = false; break;
			case 4: bomb = (int)sx_choose("bomb", 2); try { s[i] = s[j]; m[i] = m[j]; } catch (const std::exception&) { SX_ASSERT(m[j].has, "exception without a copy"); } bomb = 0; break;
			case 5: s[i] = std::move(s[j]); m[i] = m[j]; if (m[j].has) m[j].v = -1; break;
			case 6: s[i].swap(s[j]); std::swap(m[i], m[j]); break;
			case 7: { optional<V>& r = s[i]; s[i] = r; break; }
			case 8: if (m[i].has) { s[i] = *s[i]; } break;
			case 9: s[i].emplace(x); m[i].has = true; m[i].v = x; break;
			case 10: { const V c(x); bomb = 1; try { s[i].emplace(c); sx_fail("exception of the constructor lost"); } catch (const std::exception&) { } m[i].has = false; bomb = 0; break; }
			case 11: { optional<V> c(s[i]), d(std::move(c)); SX_ASSERT(d.is_initialized() == m[i].has && (!m[i].has || d->v == m[i].v), "copied and moved optional"); optional<V> e(InPlace, x); SX_ASSERT(e->v == x, "in-place construction"); break; }
			case 12: { const V d(x); SX_ASSERT(s[i].get_value_or(d).v == (m[i].has ? m[i].v : x), "value or default"); break; }
			default: { V got = m[i].has ? std::move(s[i]).get() : V(0); if (m[i].has) { SX_ASSERT(got.v == m[i].v, "moved-out value"); m[i].v = -1; } break; }
			}
			check();
		}
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "value leaked");
}
struct Half : public function_info<optional<int> (int)> { optional<int> operator () (int x) const { return x & 1 ? optional<int>() : optional<int>(x / 2); } };
struct Inc : public function_info<int (int)> { int operator () (int x) const { return x + 1; } };
struct Alt : public function_info<optional<int> ()> { optional<int> operator () () const { return 77; } };
SX_ENTRY(optional_compare)
{
	const bool ha = sx_choose("ha", 2), hb = sx_choose("hb", 2); const int x = (int)sx_u32("x"), y = (int)sx_u32("y"); optional<int> a, b; if (ha) a = x; if (hb) b = y;
	const int c = ha && hb ? (x < y ? -1 : x > y) : (int)ha - (int)hb;
	SX_ASSERT((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0), "order of optionals");
	const int d = ha ? (x < y ? -1 : x > y) : -1; SX_ASSERT((a < y) == (d < 0) && (a > y) == (d > 0) && (a <= y) == (d <= 0) && (a >= y) == (d >= 0) && (a == y) == (d == 0) && (a != y) == (d != 0), "order of an optional and a value");
	SX_ASSERT((y < a) == (d > 0) && (y > a) == (d < 0) && (y <= a) == (d >= 0) && (y >= a) == (d <= 0) && (y == a) == (d == 0), "order of a value and an optional");
	SX_ASSERT((a < null) == false && (null < a) == ha && (a <= null) == !ha && (a > null) == ha && (a >= null) && (null <= a) && (null >= a) == !ha, "order of an optional and null");
	auto sg = [](int v) { return v < 0 ? -1 : v > 0; }; SX_ASSERT(sg(a.Compare(b)) == c && sg(a.Compare(y)) == d && a.Compare(null) == (int)ha, "comparison"); SX_ASSERT(sg(MakeOptionalCmp(comparers::Cmp())(a, b)) == c && sg(OptionalCmp<comparers::Cmp>()(y, a)) == -d && sg(OptionalCmp<comparers::Cmp>()(null, a)) == -(int)ha, "optional comparer");
	const int z = (int)sx_range("z", -100, 100); optional<int> o; if (ha) o = z; const optional<int> h = o.and_then(Half()); SX_ASSERT(h.is_initialized() == (ha && !(z & 1)) && (!h || *h == z / 2), "and_then"); const optional<int> t = o.transform(Inc()); SX_ASSERT(t.is_initialized() == ha && (!ha || *t == z + 1), "transform"); SX_ASSERT(*o.or_else(Alt()) == (ha ? z : 77), "or_else");
	optional<s64> w(o); SX_ASSERT(w.is_initialized() == ha && (!ha || *w == z), "converted optional"); w = b; SX_ASSERT(w.is_initialized() == hb && (!hb || *w == y), "assignment of a convertible optional");
}

// variants
typedef TypeList<int, V, std::string> NTypes; typedef TypeList<EmptyType, int, V, std::string> ETypes;
struct W { int k; int v; }; // kind 0 int, 1 V, 2 string, 3 empty
struct Kind : public static_visitor<int> { int operator () (int) const { return 0; } int operator () (const V&) const { return 1; } int operator () (const std::string&) const { return 2; } int operator () (const EmptyType&) const { return 3; } };
static std::string Str(int v) { return std::string(20, (char)('a' + (v & 7))); }
template <typename Var> static void CheckVar(const Var& s, const W& m, int base)
{
	SX_ASSERT(s.which() == (size_t)(m.k == 3 ? 0 : m.k + base), "type index"); SX_ASSERT(apply_visitor(Kind(), s) == m.k, "visited type"); SX_ASSERT(s.empty() == (m.k == 3), "emptiness");
	SX_ASSERT(s.template contains<int>() == (m.k == 0) && s.template contains<V>() == (m.k == 1) && s.template contains<std::string>() == (m.k == 2), "contained type");
	switch (m.k) { case 0: SX_ASSERT(s.template get<int>() == m.v, "integer"); break; case 1: SX_ASSERT(s.template get<V>().v == m.v && s.template get<V>().self == s.template get_ptr<V>(), "value"); break; case 2: SX_ASSERT(s.template get<std::string>() == Str(m.v), "string"); break; default: break; }
	SX_ASSERT(m.k == 0 || SX_THROWS(s.template get<int>()), "wrong type accepted"); SX_ASSERT((s.template get_ptr<V>() != 0) == (m.k == 1), "pointer to the value");
}
static void MakeEmpty(variant<NTypes>&) { }
static void MakeEmpty(variant<ETypes>& v) { v = EmptyType(); }
template <typename Var, bool CanBeEmpty> static void VariantRun(int ops)
{
	Begin(); const u64 heap = sx_heap_live();
	{
		const int base = CanBeEmpty ? 1 : 0; Var s[2]; W m[2]; for (int i = 0; i < 2; ++i) { m[i].k = CanBeEmpty ? 3 : 0; m[i].v = 0; CheckVar(s[i], m[i], base); }
		auto put = [&](int i, unsigned k, int x) { if (k == 0) s[i] = x; else if (k == 1) s[i] = V(x); else s[i] = Str(x); m[i].k = (int)k; m[i].v = x; };
		for (int i = 0; i < 2; ++i) put(i, sx_choose("init", 3), i + 1);
		auto check = [&]() { int n = 0; for (int i = 0; i < 2; ++i) { CheckVar(s[i], m[i], base); n += m[i].k == 1; } SX_ASSERT(alive == n, "number of live values"); };
		check();
		for (int q = 0; q < ops; ++q)
		{
			const int i = (int)sx_choose("i", 2), j = 1 - i; const int x = 3 + q;
			switch (sx_choose("op", CanBeEmpty ? 10 : 8))
			{
			case 0: put(i, sx_choose("k", 3), x); break;
			case 1: s[i] = s[j]; m[i] = m[j]; break;
			case 2: s[i] = std::move(s[j]); m[i] = m[j]; if (m[j].k == 1) m[j].v = -1; if (m[j].k == 2) { SX_ASSERT(s[j].which() == (size_t)(2 + base), "moved-from variant"); put(j, 0, 9); } break;
			case 3: { Var& r = s[i]; s[i] = r; break; }
			case 4: if (m[i].k == 2) s[i] = s[i].template get<std::string>(); else if (m[i].k == 1) s[i] = s[i].template get<V>(); else if (m[i].k == 0) s[i] = s[i].template get<int>(); break;
			case 5: { const unsigned k = sx_choose("k", 3); if (k == 0) s[i].template emplace<int>(x); else if (k == 1) s[i].template emplace<V>(x); else s[i].template emplace<std::string>(Str(x)); m[i].k = (int)k; m[i].v = x; break; }
			case 6: { Var c(s[i]); CheckVar(c, m[i], base); Var d(std::move(c)); CheckVar(d, m[i], base); Var e; e = d; CheckVar(e, m[i], base); break; }
			case 7: { Var& r = s[i]; s[i] = std::move(r); if (m[i].k == 2) { SX_ASSERT(s[i].which() == (size_t)(2 + base), "type after self-move"); put(i, 0, 8); } else if (m[i].k == 1) { m[i].v = s[i].template get<V>().v; } break; }
			case 8: MakeEmpty(s[i]); m[i].k = 3; m[i].v = 0; break;
			default: { const V c(x); bomb = 1; bool t = false; try { if (sx_choose("how", 2)) s[i] = c; else s[i].template emplace<V>(c); } catch (const std::exception&) { t = true; } bomb = 0; SX_ASSERT(t, "exception of the copy lost"); SX_ASSERT(s[i].empty() || (int)apply_visitor(Kind(), s[i]) == m[i].k, "variant after a failed assignment"); if (s[i].empty()) { m[i].k = 3; m[i].v = 0; } break; }
			}
			check();
		}
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "value leaked");
}
SX_ENTRY(variant_history) { VariantRun<variant<NTypes>, false>(sx_tier() ? 3 : 2); }
SX_ENTRY(variant_empty) { VariantRun<variant<ETypes>, true>(sx_tier() ? 3 : 2); }
struct Pair2 : public static_visitor<int> { int operator () (int a, int b) const { return 0; } int operator () (int a, const std::string& b) const { return 1; } int operator () (const std::string& a, int b) const { return 2; } int operator () (const std::string&, const std::string&) const { return 3; } };
SX_ENTRY(variant_compare)
{
	typedef variant<TypeList<int, std::string> > T; const bool sa = sx_choose("sa", 2), sb = sx_choose("sb", 2); const int x = (int)sx_u32("x"), y = (int)sx_u32("y"); char c[2], d[2]; sx_bytes(c, 2, "c"); sx_bytes(d, 2, "d"); const std::string p(c, 2), q(d, 2); T a, b; if (sa) a = p; else a = x; if (sb) b = q; else b = y;
	const int e = sa != sb ? (int)sa - (int)sb : sa ? (p < q ? -1 : q < p) : (x < y ? -1 : x > y); SX_ASSERT((a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) && (a >= b) == (e >= 0) && (a == b) == (e == 0) && (a != b) == (e != 0), "order of variants");
	SX_ASSERT(Multidispatch(Pair2(), a, b) == (int)sa * 2 + (int)sb, "double dispatch"); SX_ASSERT((a.type() == typeid(std::string)) == sa, "type of the value"); SX_ASSERT(a.ToString() == (sa ? p : ToString(x & 0) ) || !sa, "text of the value");
}

// any
struct Plain { V v; Plain(int x = 0) : v(x) { } };
static void CheckAny(const any& a, const W& m) // kinds: 0 int, 1 V-holding object, 2 string, 3 empty, 4 u64, 5 bool
{
	SX_ASSERT(a.empty() == (m.k == 3), "emptiness"); const int* i = any_cast<int>(&a); const Plain* p = any_cast<Plain>(&a); const std::string* s = any_cast<std::string>(&a); const u64* u = any_cast<u64>(&a); const bool* b = any_cast<bool>(&a);
	SX_ASSERT((i != 0) == (m.k == 0) && (p != 0) == (m.k == 1) && (s != 0) == (m.k == 2) && (u != 0) == (m.k == 4) && (b != 0) == (m.k == 5), "contained type");
	SX_ASSERT(!any_cast<long long>(&a) && !any_cast<s16>(&a) && !any_cast<V>(&a), "another type reported"); SX_ASSERT(m.k == 0 || SX_THROWS(any_cast<int>(a)), "wrong type accepted");
	if (i) SX_ASSERT(*i == m.v, "integer"); if (p) SX_ASSERT(p->v.v == m.v && p->v.self == &p->v, "object"); if (s) SX_ASSERT(*s == Str(m.v), "string"); if (u) SX_ASSERT(*u == (u64)(s64)m.v * 3, "64-bit integer"); if (b) SX_ASSERT(*b == (m.v & 1), "boolean");
}
SX_ENTRY(any_history)
{
	Begin(); { const any w(1); SX_ASSERT(SX_THROWS(any_cast<bool>(w)), "wrong type accepted"); } const u64 heap = sx_heap_live();
	{
		any s[2]; W m[2] = { { 3, 0 }, { 3, 0 } };
		auto put = [&](int i, unsigned k, int x) { switch (k) { case 0: s[i] = x; break; case 1: s[i] = Plain(x); break; case 2: s[i] = Str(x); break; case 3: s[i] = any(); break; case 4: s[i] = (u64)(s64)x * 3; break; default: s[i] = (bool)(x & 1); break; } m[i].k = (int)k; m[i].v = x; };
		auto check = [&]() { int n = 0; for (int i = 0; i < 2; ++i) { CheckAny(s[i], m[i]); n += m[i].k == 1; } SX_ASSERT(alive == n, "number of live values"); };
		for (int i = 0; i < 2; ++i) put(i, sx_choose("init", 4), i + 1); check(); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			const int i = (int)sx_choose("i", 2), j = 1 - i; const int x = 3 + q;
			switch (sx_choose("op", 7))
			{
			case 0: put(i, sx_choose("k", 6), x); break;
			case 1: s[i] = s[j]; m[i] = m[j]; break;
			case 2: s[i] = std::move(s[j]); m[i] = m[j]; if (i != j) { SX_ASSERT(s[j].empty(), "moved-from any"); m[j].k = 3; } break;
			case 3: { any& r = s[i]; s[i] = r; break; }
			case 4: if (m[i].k == 2) s[i] = any_cast<std::string>(s[i]); else if (m[i].k == 1) s[i] = any_cast<Plain>(s[i]); break;
			case 5: { any c(s[i]); CheckAny(c, m[i]); any d(std::move(c)); CheckAny(d, m[i]); SX_ASSERT(c.empty(), "moved-from any"); any e; e = d; CheckAny(e, m[i]); break; }
			default: if (m[i].k == 1) { bomb = 1; bool t = false; try { s[j] = s[i]; } catch (const std::exception&) { t = true; } SX_ASSERT(t, "exception of the copy lost"); bomb = 0; if (s[j].empty()) m[j].k = 3; } break;
			}
			check();
		}
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "value leaked");
}
SX_ENTRY(any_types)
{
	const u64 v = sx_u64("v"); 
#define ANYT(T) { any a((T)v); SX_ASSERT(any_cast<T>(a) == (T)v, "value of " #T); any b(a); SX_ASSERT(any_cast<T>(b) == (T)v, "copy of " #T); any c(std::move(b)); SX_ASSERT(*any_cast<T>(&c) == (T)v, "moved " #T); any_cast<T>(c) = (T)(v + 1); SX_ASSERT(any_cast<T>(c) == (T)(v + 1) && any_cast<T>(a) == (T)v, "changed " #T); }
	ANYT(char) ANYT(unsigned char) ANYT(short) ANYT(unsigned short) ANYT(int) ANYT(unsigned) ANYT(long) ANYT(unsigned long) ANYT(long long) ANYT(unsigned long long)
	{ any a((bool)(v & 1)); any b(a); SX_ASSERT(any_cast<bool>(b) == (bool)(v & 1), "boolean"); }
	{ const s64 small = sx_range("t", -9, 9); any a((int)small); SX_ASSERT(a.ToString() == ToString((int)small), "text"); any e; SX_ASSERT(e.ToString() == "<empty>", "text of empty"); any s(std::string("ab")); SX_ASSERT(s.ToString() == "ab", "text of a string"); SX_ASSERT(s.IsSerializable() && !any(Plain(1)).IsSerializable(), "serializability"); }
}
SX_ENTRY(tuples)
{
	Begin(); const int x = (int)sx_u32("x"); const u64 y = sx_u64("y"); typedef TypeList<int, V, u64> Types;
	{ Tuple<Types> t(x, V(x), y); SX_ASSERT(t.Get<0>() == x && t.Get<1>().v == x && t.Get<2>() == y, "items"); Tuple<Types> u(t); u.Get<0>() = 5; SX_ASSERT(t.Get<0>() == x && u.Get<0>() == 5 && u.Get<2>() == y, "copy is separate"); Tuple<Types> w(std::move(u)); SX_ASSERT(w.Get<1>().v == x && w.Get<0>() == 5, "moved tuple"); w = t; SX_ASSERT(w.Get<0>() == x, "assigned tuple"); SX_ASSERT(alive == 3, "values in tuples"); Tuple<TypeList<s64, int, u64> > z(Tuple<TypeList<int, int, u64> >(x, 7, y)); SX_ASSERT(z.Get<0>() == x && z.Get<1>() == 7 && z.Get<2>() == y, "converted tuple"); }
	SX_ASSERT(alive == 0, "tuple items leaked");
}
