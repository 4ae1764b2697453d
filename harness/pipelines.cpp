// Lazy ranges, enumerables and joined data against the same computation done eagerly.
#include "sx.h"
#include <stingraykit/collection/DataJoiner.h>
#include <stingraykit/collection/EnumerableBuilder.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/FuncEnumerator.h>
#include <stingraykit/collection/KeyValueEnumerableHelpers.h>
#include <stingraykit/collection/MakeCollection.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>
#include <stingraykit/collection/CollectionBuilder.h>
#include <stingraykit/collection/ToRange.h>
#include <vector>
#include <map>
#include <list>
#include <set>
#include <iterator>
using namespace stingray;

typedef std::vector<int> V;
struct M { int e[20]; int n; M() : n(0) { } void add(int v) { e[n++] = v; } };
struct Odd : public function_info<bool (int)> { bool operator () (int v) const { return v & 1; } };
struct Mul : public function_info<int (int)> { int operator () (int v) const { return v ^ 0x155; } };
struct Mix : public function_info<int (int, int)> { int operator () (int a, int b) const { return a * 512 + b; } };
static V gen(int n) { V v; for (int i = 0; i < n; ++i) v.push_back(sx_u8("e")); return v; }
static M all(const V& v) { M m; for (size_t i = 0; i < v.size(); ++i) m.add(v[i]); return m; }
static M mFilter(const M& a) { M m; for (int i = 0; i < a.n; ++i) if (a.e[i] & 1) m.add(a.e[i]); return m; }
static M mReverse(const M& a) { M m; for (int i = a.n; i--; ) m.add(a.e[i]); return m; }
static M mMul(const M& a) { M m; for (int i = 0; i < a.n; ++i) m.add(a.e[i] ^ 0x155); return m; }
static M mDrop(const M& a, size_t k) { M m; for (int i = 0; i < a.n; ++i) if ((size_t)i >= k) m.add(a.e[i]); return m; }
static M mTake(const M& a, size_t k) { M m; for (int i = 0; i < a.n; ++i) if ((size_t)i < k) m.add(a.e[i]); return m; }
static M mConcat(const M& a, const M& b) { M m = a; for (int i = 0; i < b.n; ++i) m.add(b.e[i]); return m; }
static M mZip(const M& a, const M& b) { M m; for (int i = 0; i < a.n && i < b.n; ++i) m.add(a.e[i] * 512 + b.e[i]); return m; }

// what a range can do: positions and jumps, a step back from its end, refusing to go or look past its end
template < bool R, bool B, bool T = true > struct Can { };
template < typename R, bool B, bool T > static void place(const R& r, int p, int n, Can<true, B, T>) { SX_ASSERT((int)r.GetPosition() == p && (int)r.GetSize() == n, "position and size"); }
template < typename R, bool B, bool T > static void place(const R&, int, int, Can<false, B, T>) { }
template < typename R, bool B, bool T > static bool jump(R& r, int& p, int n, Can<true, B, T>) { const int q = (int)sx_choose("to", n + 3) - 1; if (q < 0 || q > n) { SX_ASSERT(SX_THROWS(r.Move(q - p)), "a jump outside is refused"); return true; } r.Move(q - p); p = q; return true; }
template < typename R, bool B, bool T > static bool jump(R&, int&, int, Can<false, B, T>) { return false; }
template < typename R, bool Rnd, bool B, bool T > static void look(const R& r, const M& m, int p, Can<Rnd, B, T> c)
{
	SX_ASSERT(r.Valid() == (p < m.n) && (bool)r == (p < m.n), "valid exactly at elements"); if (p < m.n) { SX_ASSERT(r.Get() == m.e[p], "its element"); SX_ASSERT(*r == m.e[p], "its element again"); } place(r, p, m.n, c);
}
template < typename R, bool Rnd, bool B, bool T > static void walk(R r, const M& m, Can<Rnd, B, T> can, int steps)
{
	look(r, m, 0, can); int p = 0;
	if (!steps)
	{
		int i = 0; for (R q(r); q.Valid(); q.Next(), ++i) { SX_ASSERT(i < m.n, "no more elements"); look(q, m, i, can); } SX_ASSERT(i == m.n, "every element");
		i = 0; const R e = r.end(); for (R q = r.begin(); q != e; ++q, ++i) { SX_ASSERT(i < m.n, "no more elements"); SX_ASSERT(*q == m.e[i], "element between begin and end"); } SX_ASSERT(i == m.n, "every element between begin and end");
		if (m.n) { R q(r); q.Last(); for (i = m.n - 1; ; --i) { look(q, m, i, can); if (!i) break; q.Prev(); } q.First(); look(q, m, 0, can); } else { R q(r); q.Last(); look(q, m, 0, can); }
		return;
	}
	for (int s = 0; s < steps; ++s)
	{
		const R before(r); const int was = p;
		switch (sx_choose("op", 5))
		{
		case 0: if (p < m.n) { r.Next(); ++p; } else if (T) SX_ASSERT(SX_THROWS(r.Next()), "no step past the end"); else return; break;
		case 1: r.First(); p = 0; break;
		case 2: r.Last(); p = m.n ? m.n - 1 : 0; break;
		case 3: if (p == 0 || (p == m.n && !B)) return; r.Prev(); --p; break;
		default: if (!jump(r, p, m.n, can)) return; break;
		}
		look(r, m, p, can); look(before, m, was, can); SX_ASSERT((r == before) == (p == was) && (r != before) == (p != was), "equal exactly at the same place");
	}
	sx_reach("walked");
}
typedef Range::IteratorRange<V::const_iterator> BR;
static BR base(const V& v) { return BR(v.begin(), v.begin(), v.end()); }
template < typename R, bool Rnd, bool B, bool T > static void outer(const R& r, const M& m, Can<Rnd, B, T> can, int steps, unsigned o)
{
	switch (o)
	{
	case 0: walk(r, m, can, steps); break;
	case 1: walk(Range::Filter(r, Odd()), mFilter(m), Can<false, B, T>(), steps); break;
	case 2: walk(Range::Reverse(r), mReverse(m), Can<Rnd, true, false>(), steps); break;
	case 3: walk(Range::Transform(r, Mul()), mMul(m), can, steps); break;
	case 4: { const size_t k = sx_choose("k", 4); walk(Range::Drop(r, k), mDrop(m, k), can, steps); break; }
	default: { const size_t k = sx_choose("k", 4); walk(Range::Take(r, k), mTake(m, k), Can<Rnd, B, true>(), steps); break; }
	}
}
static void inner(int steps, unsigned o, unsigned i)
{
	const V v = gen((int)sx_choose("n", 4)); const BR b = base(v); const M m = all(v); Can<true, true> rnd; Can<false, true> bidi; Can<false, false> fwd;
	switch (i)
	{
	case 0: outer(b, m, rnd, steps, o); break;
	case 1: outer(Range::Filter(b, Odd()), mFilter(m), bidi, steps, o); break;
	case 2: outer(Range::Reverse(b), mReverse(m), Can<true, true, false>(), steps, o); break;
	case 3: outer(Range::Transform(b, Mul()), mMul(m), rnd, steps, o); break;
	case 4: { const size_t k = sx_choose("j", 4); outer(Range::Drop(b, k), mDrop(m, k), rnd, steps, o); break; }
	case 5: { const size_t k = sx_choose("j", 4); outer(Range::Take(b, k), mTake(m, k), rnd, steps, o); break; }
	case 6: { const V w = gen((int)sx_choose("m", 3)), e; outer(Range::Concat(b, base(e), base(w)), mConcat(m, all(w)), fwd, steps, o); break; }
	case 7: { const int k = (int)sx_choose("m", 3); std::vector<V> vv; vv.push_back(V(v.begin(), v.begin() + std::min<size_t>(k, v.size()))); vv.push_back(V()); vv.push_back(V(v.begin() + std::min<size_t>(k, v.size()), v.end())); if (sx_choose("empty", 2)) vv.push_back(V()); outer(Range::Flatten(ToRange(vv)), m, fwd, steps, o); break; }
	default: { const V w = gen((int)sx_choose("m", 4)); outer(Range::Zip(Mix(), b, base(w)), mZip(m, all(w)), Can<false, true, false>(), steps, o); break; }
	}
}
SX_ENTRY(range_walk) { inner(sx_tier() ? 4 : 3, 0, sx_choose("kind", 9)); sx_reach("end"); }
SX_ENTRY(range_compose) { const unsigned o = 1 + sx_choose("outer", 5); inner(0, o, sx_choose("inner", 9)); sx_reach("end"); }
SX_ENTRY(range_compose_walk) { const unsigned o = 2 + sx_choose("outer", 4); inner(sx_tier() ? 3 : 2, o, 2 + sx_choose("inner", 7)); sx_reach("end"); }
// a range that has already been advanced: what is taken or dropped counts from there, and First returns there
template < typename R, bool Rnd, bool B, bool T > static void advanced(R r, const M& m, Can<Rnd, B, T> can)
{
	const size_t a = sx_choose("advanced", m.n + 1); for (size_t i = 0; i < a; ++i) r.Next(); const M rest = mDrop(m, a); const size_t k = sx_choose("k", 5);
	if (sx_choose("take", 2)) walk(Range::Take(r, k), mTake(rest, k), Can<Rnd, B, true>(), 2); else walk(Range::Drop(r, k), mDrop(rest, k), can, 2);
}
SX_ENTRY(range_advanced)
{
	const V v = gen((int)sx_choose("n", 4)); const BR b = base(v); const M m = all(v);
	switch (sx_choose("inner", 4)) { case 0: advanced(b, m, Can<true, true>()); break; case 1: advanced(Range::Reverse(b), mReverse(m), Can<true, true, false>()); break; case 2: advanced(Range::Transform(b, Mul()), mMul(m), Can<true, true>()); break; default: { const size_t j = sx_choose("j", 4); advanced(Range::Drop(b, j), mDrop(m, j), Can<true, true>()); break; } } sx_reach("end");
}

static void seq(const Range::IteratorRange<V::const_iterator>& r, const V& v, size_t from, size_t to) { size_t i = from; for (Range::IteratorRange<V::const_iterator> q(r); q.Valid(); q.Next(), ++i) { SX_ASSERT(i < to, "fragment too long"); SX_ASSERT(q.Get() == v[i], "fragment's element"); } SX_ASSERT(i == to, "fragment too short"); }
SX_ENTRY(range_split)
{
	const V v = gen((int)sx_choose("n", 6)); const size_t f = 1 + sx_choose("fragment", 3), n = v.size(), cnt = (n + f - 1) / f; auto r = Range::Split(v, f); size_t i = 0;
	for (auto q = r; q.Valid(); q.Next(), ++i) { SX_ASSERT(i < cnt, "too many fragments"); seq(q.Get(), v, i * f, std::min(n, i * f + f)); } SX_ASSERT(i == cnt, "too few fragments");
	{ auto q = r; q.Last(); SX_ASSERT(q.Valid() == (n > 0), "the last fragment"); if (n) { i = cnt - 1; for (; ; --i) { seq(q.Get(), v, i * f, std::min(n, i * f + f)); if (!i) break; q.Prev(); } SX_ASSERT(q == r, "back at the first"); } }
	{ auto q = r; while (q.Valid()) q.Next(); SX_ASSERT(SX_THROWS(q.Next()) && SX_THROWS(q.Get()), "the end"); if (n) { q.Prev(); seq(q.Get(), v, (cnt - 1) * f, n); } q.First(); SX_ASSERT(q == r, "first"); }
	i = 0; for (auto q = r.begin(), e = r.end(); q != e; ++q, ++i) SX_ASSERT(i < cnt, "between begin and end"); SX_ASSERT(i == cnt, "between begin and end"); sx_reach("end");
}
SX_ENTRY(range_cycle)
{
	const V v = gen((int)sx_choose("n", 4)); const int n = (int)v.size(); if (!n) { SX_ASSERT(SX_THROWS(Range::Cycle(base(v))), "nothing to cycle"); sx_reach("empty"); return; }
	auto r = Range::Cycle(base(v)); int p = 0; for (int s = 0; s < 5; ++s) { switch (sx_choose("op", s < 3 ? 4 : 2)) { case 0: r.Next(); p = (p + 1) % n; break; case 1: r.Prev(); p = (p + n - 1) % n; break; case 2: r.First(); p = 0; break; default: r.Last(); p = n - 1; break; } SX_ASSERT(r.Valid() && r.Get() == v[p], "round and round"); } sx_reach("end");
}
struct A { virtual ~A() { } int v; A(int x = 0) : v(x) { } }; struct D : public A { D(int x) : A(x) { } };
SX_ENTRY(range_types)
{
	const int n = (int)sx_choose("n", 4); std::vector<A*> v; A plain[4]; D derived[4] = { D(0), D(1), D(2), D(3) }; M m; for (int i = 0; i < n; ++i) { const bool d = sx_choose("derived", 2); v.push_back(d ? &derived[i] : &plain[i]); if (d) m.add(i); }
	auto r = Range::OfType<D*>(ToRange(v)); int p = 0;
	for (int s = 0; s < 3; ++s)
	{
		switch (sx_choose("op", 4)) { case 0: if (p == m.n) return; r.Next(); ++p; break; case 1: r.First(); p = 0; break; case 2: r.Last(); p = m.n ? m.n - 1 : 0; break; default: if (p == 0) return; r.Prev(); --p; break; }
		SX_ASSERT(r.Valid() == (p < m.n), "at an element of the type"); if (p < m.n) SX_ASSERT(r.Get() == &derived[m.e[p]], "the element of the type");
	}
	if (m.n == n) { int i = 0; for (auto q = ToRange(v) | Cast<D*>(); q.Valid(); q.Next(), ++i) SX_ASSERT(q.Get() == &derived[i] && q.Get() == &derived[i], "cast"); SX_ASSERT(i == n, "every element"); }
	else { bool t = false; try { for (auto q = ToRange(v) | Cast<D*>(); q.Valid(); q.Next()) q.Get(); } catch (const std::exception&) { t = true; } SX_ASSERT(t, "a bad cast is reported"); sx_reach("bad"); }
	// the same over enumerables
	const auto e = EnumerableFromStlContainer(v); int i = 0; for (auto q = Enumerable::OfType<D*>(e)->GetEnumerator(); q->Valid(); q->Next(), ++i) SX_ASSERT(i < m.n && q->Get() == &derived[m.e[i]] && q->Get() == &derived[m.e[i]], "of the type"); SX_ASSERT(i == m.n, "every one of the type"); sx_reach("end");
}

// questions about a range or an enumerable, compared with a plain loop over the elements
struct Is : public function_info<bool (int)> { int x; explicit Is(int v) : x(v) { } bool operator () (int v) const { return v == x; } };
struct Fwd : public function_info<int (int, int)> { int operator () (int a, int b) const { return a * 3 + b; } };
struct Inc : public function_info<void (int)> { int* s; explicit Inc(int* p) : s(p) { } void operator () (int v) const { *s = *s * 3 + v; } };
SX_ENTRY(queries)
{
	const int n = (int)sx_choose("n", 4); const V v = gen(n); const BR r = base(v); const auto e = EnumerableFromStlContainer(v); const int x = sx_u8("x"); const unsigned q = sx_choose("query", 8);
	int at = -1, cnt = 0, lastAt = -1, mn = 256, mx = -1, sum = 0, fold = 0, fold7 = 7; for (int i = 0; i < n; ++i) { if (v[i] == x) { if (at < 0) at = i; lastAt = i; ++cnt; } if (v[i] < mn) mn = v[i]; if (v[i] > mx) mx = v[i]; sum += v[i]; fold = i ? fold * 3 + v[i] : v[i]; fold7 = fold7 * 3 + v[i]; }
	switch (q)
	{
	case 0: SX_ASSERT(Range::Count(r) == (size_t)n && Enumerable::Count(e) == (size_t)n && Enumerable::Count(e, Is(x)) == (size_t)cnt && (r | Count()) == (size_t)n && (e | Count()) == (size_t)n && Enumerable::Any(e) == (n > 0) && (r | Any()) == (n > 0) && (e | Any()) == (n > 0), "count"); break;
	case 1: SX_ASSERT(Range::Contains(r, x) == (cnt > 0) && Range::Contains(r, Is(x)) == (cnt > 0) && Enumerable::Contains(e, x) == (cnt > 0) && Enumerable::Contains(e, Is(x)) == (cnt > 0) && Enumerable::Any(e, Is(x)) == (cnt > 0) && Range::AnyOf(r, Is(x)) == (cnt > 0) && Range::NoneOf(r, Is(x)) == (cnt == 0) && Range::AllOf(r, Is(x)) == (cnt == n) && Enumerable::All(e, Is(x)) == (cnt == n), "contains"); break;
	case 2: { const optional<size_t> i = Range::IndexOf(r, x), j = Range::IndexOf(r, Is(x)), k = Enumerable::IndexOf(e, x), l = Enumerable::IndexOf(e, Is(x)); SX_ASSERT((bool)i == (at >= 0) && i == j && i == k && i == l, "index"); if (at >= 0) SX_ASSERT(*i == (size_t)at, "the first index"); break; }
	case 3: { const optional<int> a = Range::MinElement(r), b = Range::MaxElement(r), c = Range::Fold(r, Fwd()); const auto d = Enumerable::Aggregate(e, Fwd()); SX_ASSERT((bool)a == (n > 0) && (bool)b == (n > 0) && (bool)c == (n > 0) && (bool)d == (n > 0), "of something"); if (n) SX_ASSERT(*a == mn && *b == mx && *c == fold && *d == fold, "least, greatest and folded"); SX_ASSERT(Range::Sum(r) == sum && Range::Fold(r, 7, Fwd()) == fold7 && Enumerable::Aggregate(e, 7, Fwd()) == fold7, "sum"); break; }
	case 4: { const size_t i = sx_choose("index", 4); if (i < (size_t)n) SX_ASSERT(Range::ElementAt(r, i) == v[i] && Enumerable::ElementAt(e, i) == v[i], "element"); else SX_ASSERT(SX_THROWS(Range::ElementAt(r, i)) && SX_THROWS(Enumerable::ElementAt(e, i)), "no element"); const optional<int> a = Range::ElementAtOrDefault(r, i), b = Enumerable::ElementAtOrDefault(e, i); SX_ASSERT((bool)a == (i < (size_t)n) && (bool)b == (bool)a, "element or none"); if (a) SX_ASSERT(*a == v[i] && *b == v[i], "element"); SX_ASSERT(Range::ElementAtOrDefault(r, i, 300) == (i < (size_t)n ? v[i] : 300) && Enumerable::ElementAtOrDefault(e, i, 300) == (i < (size_t)n ? v[i] : 300), "element or default"); break; }
	case 5: { if (n) SX_ASSERT(Range::First(r) == v[0] && Enumerable::First(e) == v[0] && Enumerable::Last(e) == v[n - 1] && (r | First()) == v[0] && (e | First()) == v[0], "first and last"); else SX_ASSERT(SX_THROWS(Range::First(r)) && SX_THROWS(Enumerable::First(e)) && SX_THROWS(Enumerable::Last(e)), "nothing is first"); const optional<int> a = Range::FirstOrDefault(r), b = Enumerable::FirstOrDefault(e), c = Enumerable::LastOrDefault(e), d = e | FirstOrDefault(); SX_ASSERT((bool)a == (n > 0) && a == b && a == d && (bool)c == (n > 0), "first or none"); if (n) SX_ASSERT(*a == v[0] && *c == v[n - 1], "first and last"); SX_ASSERT(Range::FirstOrDefault(r, 300) == (n ? v[0] : 300) && Enumerable::FirstOrDefault(e, 300) == (n ? v[0] : 300) && Enumerable::LastOrDefault(e, 300) == (n ? v[n - 1] : 300), "first or default"); break; }
	case 6: { const M m = mFilter(all(v)); const bool some = m.n > 0; if (some) SX_ASSERT(Enumerable::First(e, Odd()) == m.e[0] && Enumerable::Last(e, Odd()) == m.e[m.n - 1], "first and last odd"); else SX_ASSERT(SX_THROWS(Enumerable::First(e, Odd())) && SX_THROWS(Enumerable::Last(e, Odd())), "none odd"); const optional<int> a = Enumerable::FirstOrDefault(e, Odd()), b = Enumerable::LastOrDefault(e, Odd()); SX_ASSERT((bool)a == some && (bool)b == some, "first or none"); if (some) SX_ASSERT(*a == m.e[0] && *b == m.e[m.n - 1], "first and last odd"); SX_ASSERT(Enumerable::FirstOrDefault(e, Odd(), 300) == (some ? m.e[0] : 300) && Enumerable::LastOrDefault(e, Odd(), 300) == (some ? m.e[m.n - 1] : 300), "first or default"); break; }
	default: { int s = 0, t = 0, f = 0; Range::ForEach(r, Inc(&s)); Enumerable::ForEach(e, Inc(&t)); FOR_EACH(int i IN e) f = f * 3 + i; fold7 = 0; for (int i = 0; i < n; ++i) fold7 = fold7 * 3 + v[i]; SX_ASSERT(s == fold7 && t == fold7 && f == fold7, "each in order"); if (n == 1) SX_ASSERT(Enumerable::Single(e) == v[0], "single"); else SX_ASSERT(SX_THROWS(Enumerable::Single(e)), "not single"); V w(n + 1, -1); const auto o = Range::Copy(r, w.begin()); SX_ASSERT(o == w.begin() + n && w[n] == -1, "copied so many"); for (int i = 0; i < n; ++i) SX_ASSERT(w[i] == v[i], "copied"); if (n) { V z(n - 1); SX_ASSERT(SX_THROWS(Range::Copy(r, ToRange(z))), "no room"); } break; }
	}
	sx_reach("end");
}

// lazily composed enumerables: enumerated any number of times, interleaved, and past the end
typedef shared_ptr<IEnumerable<int>> EP; typedef shared_ptr<IEnumerator<int>> RP;
static EP make(unsigned k, const EP& s, const M& m, M& o, const V& w)
{
	switch (k)
	{
	case 0: o = mFilter(m); return Enumerable::Where(s, Odd());
	case 1: o = mMul(m); return Enumerable::Transform(s, Mul());
	case 2: { const size_t c = sx_choose("c", 4); o = mDrop(m, c); return Enumerable::Skip(s, c); }
	case 3: { const size_t c = sx_choose("c", 4); o = mTake(m, c); return Enumerable::Take(s, c); }
	case 4: o = mReverse(m); return Enumerable::Reverse(s);
	case 5: o = mConcat(m, all(w)); return Enumerable::Concat(s, EP(EnumerableFromStlContainer(w)));
	case 6: o = m; if (!m.n) o.add(300); return Enumerable::DefaultIfEmpty(s, 300);
	case 7: o = m; return Enumerable::Clone(s);
	case 8: { o = mConcat(m, all(w)); EP a(s), b(EnumerableFromStlContainer(w)); return EnumerableJoiner<int>() % EP(MakeEmptyEnumerable()) % a % b % EP(MakeEmptyEnumerable()); }
	case 9: { o = mConcat(m, mConcat(all(w), m)); shared_ptr<std::vector<EP>> vv = make_shared_ptr<std::vector<EP>>(); vv->push_back(EP(MakeEmptyEnumerable())); vv->push_back(s); vv->push_back(EnumerableFromStlContainer(w)); vv->push_back(s); return Enumerable::Flatten(EnumerableFromStlContainer(*vv, vv)); }
	case 10: o = mTake(mDrop(mMul(mReverse(m)), 1), 2); return s | Reverse() | Transform(Mul()) | Drop(1) | Take(2) | Clone();
	case 11: { o = m; o.add(77); return JoinEnumerables(s, EP(MakeOneItemEnumerable(77))); }
	default: { o = m; EnumerableBuilder<int> b; for (int i = 0; i < m.n; ++i) b % m.e[i]; return b; }
	}
}
static void enumerate(const EP& e, const M& m)
{
	RP a = e->GetEnumerator(); int i = 0; for (; a->Valid(); a->Next(), ++i) { SX_ASSERT(i < m.n, "no more elements"); SX_ASSERT(a->Get() == m.e[i] && a->Get() == m.e[i], "its element"); } SX_ASSERT(i == m.n && !a->Valid(), "every element"); SX_ASSERT(SX_THROWS(a->Get()), "no element at the end");
	RP x = e->GetEnumerator(), y = e->GetEnumerator(); for (i = 0; i < m.n; ++i) { SX_ASSERT(x->Get() == m.e[i], "interleaved"); x->Next(); if (i & 1) { SX_ASSERT(y->Get() == m.e[i / 2], "interleaved"); y->Next(); } } SX_ASSERT(!x->Valid() && y->Valid() == (m.n > 0 && m.n / 2 < m.n), "each at its place");
}
SX_ENTRY(enumerables)
{
	const u64 heap = sx_heap_live(); { const V v = gen((int)sx_choose("n", 4)), w = gen((int)sx_choose("m", 2) * 2); M m = all(v), o; const EP s = EnumerableFromStlContainer(v); enumerate(s, m); enumerate(make(sx_choose("kind", 13), s, m, o, w), o); } SX_ASSERT(sx_heap_live() == heap, "nothing is kept"); sx_reach("end");
}
SX_ENTRY(enumerables_compose)
{
	const u64 heap = sx_heap_live(); { const V v = gen((int)sx_choose("n", 3)), w = gen(1); M m = all(v), o, p; EP s; { s = make(sx_choose("inner", 13), EnumerableFromStlContainer(v), m, o, w); } enumerate(make(sx_choose("outer", 13), s, o, p, w), p); } SX_ASSERT(sx_heap_live() == heap, "nothing is kept"); sx_reach("end");
}
SX_ENTRY(enumerators)
{
	const V v = gen((int)sx_choose("n", 4)), w = gen(1); const M m = all(v); M o; RP a = EnumeratorFromStlContainer(v), b;
	switch (sx_choose("kind", 8))
	{
	case 0: b = Enumerable::Where(a, Odd()); o = mFilter(m); break;
	case 1: b = Enumerable::Transform(a, Mul()); o = mMul(m); break;
	case 2: b = Enumerable::Skip(a, 1); o = mDrop(m, 1); break;
	case 3: b = Enumerable::Take(a, 1); o = mTake(m, 1); break;
	case 4: b = Enumerable::Reverse(a); o = mReverse(m); break;
	case 5: b = Enumerable::Concat(a, RP(EnumeratorFromStlContainer(w))); o = mConcat(m, all(w)); break;
	case 6: b = EnumeratorJoiner<int>() % a % RP(EnumeratorFromStlContainer(w)) % RP(MakeOneItemEnumerator(5)); o = mConcat(m, all(w)); o.add(5); break;
	default: b = Enumerable::DefaultIfEmpty(a, 9); o = m; if (!m.n) o.add(9); break;
	}
	for (int i = 0; i < o.n; ++i) { SX_ASSERT(b->Valid() && b->Get() == o.e[i], "element"); b->Next(); } SX_ASSERT(!b->Valid() && SX_THROWS(b->Get()), "the end"); sx_reach("end");
}
struct By : public function_info<int (int, int)>, public comparers::CmpComparerInfo { int operator () (int a, int b) const { return a < b ? -1 : b < a; } };
SX_ENTRY(diff_equal)
{
	const V v = gen((int)sx_choose("n", 4)), w = gen((int)sx_choose("m", 4)); const auto a = EnumerableFromStlContainer(v), b = EnumerableFromStlContainer(w);
	bool eq = v.size() == w.size(); for (size_t i = 0; i < v.size() && i < w.size(); ++i) eq = sx_and(eq, v[i] == w[i]); SX_ASSERT(Enumerable::SequenceEqual(a, b) == eq && Enumerable::SequenceEqual(b, a) == eq, "equal sequences"); sx_reach("end");
}
SX_ENTRY(diff_sorted)
{
	const V v = gen((int)sx_choose("n", 3)), w = gen((int)sx_choose("m", 3)); for (size_t i = 1; i < v.size(); ++i) SX_ASSUME(v[i - 1] < v[i]); for (size_t i = 1; i < w.size(); ++i) SX_ASSUME(w[i - 1] < w[i]);
	V x(v); size_t pos = 0; int last = -1; const auto d = Enumerable::Diff(EnumerableFromStlContainer(v), EnumerableFromStlContainer(w), comparers::Cmp()); const auto e = d->GetEnumerator();
	for (; e->Valid(); e->Next()) { const DiffEntry<int> c = e->Get(); SX_ASSERT(c.Item > last, "in order, each once"); last = c.Item; bool inV = false, inW = false; for (int i : v) inV = sx_or(inV, i == c.Item); for (int i : w) inW = sx_or(inW, i == c.Item); if (c.Op == CollectionOp::Added) SX_ASSERT(!inV && inW, "added"); else { SX_ASSERT(c.Op == CollectionOp::Removed, "added or removed"); SX_ASSERT(inV && !inW, "removed"); } ++pos; }
	int n = 0; for (int i : v) { bool in = false; for (int j : w) in = sx_or(in, i == j); if (!in) ++n; } for (int i : w) { bool in = false; for (int j : v) in = sx_or(in, i == j); if (!in) ++n; } SX_ASSERT((int)pos == n, "every difference"); SX_ASSERT(SX_THROWS(e->Get()) && SX_THROWS(e->Next()), "the end"); sx_reach("end");
}
// enumerables in range-based loops and standard algorithms; collections built from their elements
SX_ENTRY(stl_adapter)
{
	const u64 heap = sx_heap_live();
	{
		const V v = gen((int)sx_choose("n", 4)); const M m = all(v); const EP e = EnumerableFromStlContainer(v); const RP r = e->GetEnumerator(); int i = 0;
		switch (sx_choose("kind", 5))
		{
		case 0: for (int k = 0; k < 2; ++k) { i = 0; for (int x : IterableEnumerable(e)) { SX_ASSERT(i < m.n && x == m.e[i], "element"); ++i; } SX_ASSERT(i == m.n, "every element, each time"); } break;
		case 1: if (m.n) { r->Next(); i = 1; } for (int x : IterableEnumerable(r)) { SX_ASSERT(i < m.n && x == m.e[i], "element"); ++i; } SX_ASSERT(i == m.n && !r->Valid(), "the rest"); break;
		case 2: { V c; std::copy(Wrap(e), WrapEnd(e), std::back_inserter(c)); SX_ASSERT((int)c.size() == m.n, "every element"); for (; i < m.n; ++i) SX_ASSERT(c[i] == m.e[i], "element"); break; }
		case 3: { StlEnumeratorAdapter<int> it = Wrap(r), end = WrapEnd(r); for (; i < m.n; ++i, ++it) { SX_ASSERT(it != end && !(end == it) && *it == m.e[i], "element"); } SX_ASSERT(it == end && !(it != end) && end == end, "the end"); SX_ASSERT(SX_THROWS(*it) && SX_THROWS(*end) && SX_THROWS(++end), "nothing after the end"); SX_ASSERT(SX_THROWS((void)(it == it)), "no comparison inside"); break; }
		default:
		{
			const int a = (int)sx_u32("a"), b = (int)sx_u32("b"), c = (int)sx_u32("c"); const std::vector<int> w = VectorBuilder<int>(a, b, c); SX_ASSERT(w.size() == 3 && w[0] == a && w[1] == b && w[2] == c, "in order"); const std::vector<int> x = VectorBuilder<int>() % c % a; SX_ASSERT(x.size() == 2 && x[0] == c && x[1] == a, "in order");
			const std::set<int> s = SetBuilder<int>(a, b) % a; SX_ASSERT(s.size() == (a == b ? 1u : 2u) && s.count(a) && s.count(b), "set"); const std::map<int, int> d = MapBuilder<int, int>() % std::make_pair(1, a) % std::make_pair(2, b) % std::make_pair(1, c); SX_ASSERT(d.size() == 2 && d.at(1) == a && d.at(2) == b, "the first of a key"); break;
		}
		}
	}
	SX_ASSERT(sx_heap_live() == heap, "nothing is kept"); sx_reach("end");
}
SX_ENTRY(from_enumerable)
{
	const V v = gen((int)sx_choose("n", 4)); const M m = all(v); ArrayList<int> l; for (int i : v) l.Add(i); const IEnumerable<int>& e = l; auto r = ToRange(e); int p = 0;
	for (int s = 0; s < 3; ++s)
	{
		const auto before(r); const int was = p; switch (sx_choose("op", 3)) { case 0: if (p == m.n) return; r.Next(); ++p; break; case 1: r.First(); p = 0; break; default: r.Last(); p = m.n ? m.n - 1 : 0; break; }
		SX_ASSERT(r.Valid() == (p < m.n) && before.Valid() == (was < m.n), "valid"); if (p < m.n) SX_ASSERT(r.Get() == m.e[p], "element"); if (was < m.n) SX_ASSERT(before.Get() == m.e[was], "element of the copy"); SX_ASSERT((r == before) == (p == was), "equal at the same place");
	}
	int i = 0; for (int x : IterableRange(base(v))) SX_ASSERT(x == v[i++], "in a for loop"); SX_ASSERT(i == m.n, "every one");
	shared_ptr<MapDictionary<int, int>> d = make_shared_ptr<MapDictionary<int, int>>(); for (i = 0; i < m.n; ++i) d->Set(i, v[i]); i = 0; for (auto k = KeysEnumerable(d)->GetEnumerator(); k->Valid(); k->Next()) SX_ASSERT(k->Get() == i++, "keys"); SX_ASSERT(i == m.n, "every key"); i = 0; for (auto k = ValuesEnumerable(d)->GetEnumerator(); k->Valid(); k->Next()) SX_ASSERT(k->Get() == v[i++], "values"); SX_ASSERT(i == m.n, "every value"); sx_reach("end");
}

// several containers of bytes as one
typedef std::vector<u8> Bytes; typedef TypeList<Bytes, Bytes, Bytes> BL;
struct Visit { const u8* d; int* at; int end; template < typename It > void operator () (It a, It b) const { SX_ASSERT(a != b, "not empty"); for (; a != b; ++a) { SX_ASSERT(*at < end, "inside"); SX_ASSERT(*a == d[(*at)++], "its bytes in order"); } } };
SX_ENTRY(data_joiner)
{
	Bytes c[3]; u8 d[8]; int n = 0; for (int i = 0; i < 3; ++i) for (int k = (int)sx_choose("size", 3); k--; ) { d[n] = sx_u8("b"); c[i].push_back(d[n++]); }
	const DataJoiner<BL> j(MakeTuple(&c[0], &c[1], &c[2])); typedef DataJoiner<BL>::iterator It; SX_ASSERT((int)j.size() == n && j.end() - j.begin() == n, "size"); int p = 0; It it = j.begin();
	for (int s = 0; s < 2; ++s)
	{
		switch (sx_choose("op", 4)) { case 0: if (p == n) return; ++it; ++p; break; case 1: if (!p) return; --it; --p; break; case 2: { const int q = (int)sx_choose("to", n + 1); it += q - p; p = q; break; } default: it = j.end(); p = n; break; }
		SX_ASSERT(it - j.begin() == p && j.end() - it == n - p && (it == j.end()) == (p == n) && (it == j.begin()) == (p == 0), "its place"); if (p < n) SX_ASSERT(*it == d[p], "its byte");
	}
	const int q = (int)sx_choose("until", n + 1); if (q < p) return; int at = p; DataJoiner<BL>::ApplyToIntervals(it, j.begin() + q, Visit{d, &at, q}); SX_ASSERT(at == q, "every byte up to the end"); sx_reach("end");
}
