// Containers (flat and ordered maps and sets, bimap, in-place vector, intrusive list) against a plain model of their contents.
#include "sx.h"
#include <stingraykit/algorithm.h>
#include <list>
#include <map>
#include <set>
#include <vector>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/collection/IntrusiveList.h>
#include <map>
#include <vector>
using namespace stingray;

struct Cmp : public function_info<bool (int, int)> { bool desc; explicit Cmp(bool d = false) : desc(d) { } bool operator () (int a, int b) const { return desc ? b < a : a < b; } };
struct E { int k, v; };
struct Model
{
	E e[12]; int n; bool desc, sorted; Model(bool s = true) : n(0), desc(false), sorted(s) { }
	bool less(int a, int b) const { return desc ? b < a : a < b; }
	int find(int k) const { for (int i = 0; i < n; ++i) if (e[i].k == k) return i; return -1; }
	int lower(int k) const { int i = 0; while (i < n && less(e[i].k, k)) ++i; return i; }
	// returns the place of the key
	int insert(int k, int v, int hint, bool& fresh) { const int f = find(k); fresh = f < 0; if (!fresh) return f; const int p = sorted ? lower(k) : hint; for (int i = n; i > p; --i) e[i] = e[i - 1]; e[p].k = k; e[p].v = v; ++n; return p; }
	void erase(int i, int j) { const int d = j - i; for (int q = j; q < n; ++q) e[q - d] = e[q]; n -= d; }
};
template < typename M > static typename M::iterator At(M& m, int i) { typename M::iterator it = m.begin(); while (i--) ++it; return it; }
template < typename M > static int Index(M& m, typename M::const_iterator it) { int i = 0; for (typename M::const_iterator q = m.cbegin(); q != it; ++q, ++i) SX_ASSERT(i < 12, "iterator not reached"); return i; }
template < typename M > static void CheckMap(M& m, const Model& o)
{
	const M& c = m; SX_ASSERT((int)m.size() == o.n && c.empty() == (o.n == 0), "size"); int i = 0;
	for (typename M::const_iterator it = c.begin(); it != c.end(); ++it, ++i) { SX_ASSERT(i < o.n, "too many elements"); SX_ASSERT(it->first == o.e[i].k, "key in iteration order"); SX_ASSERT(it->second == o.e[i].v, "value"); }
	SX_ASSERT(i == o.n, "too few elements");
	for (typename M::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { --i; SX_ASSERT(i >= 0 && it->first == o.e[i].k, "reverse iteration"); } SX_ASSERT(i == 0, "reverse iteration length");
	for (i = 0; i < o.n; ++i) { SX_ASSERT(m.find(o.e[i].k) == At(m, i), "find"); SX_ASSERT(c.find(o.e[i].k) != c.end() && c.count(o.e[i].k) == 1 && c.at(o.e[i].k) == o.e[i].v && m.at(o.e[i].k) == o.e[i].v, "lookup"); }
}
template < typename M > static void CheckSet(M& m, const Model& o)
{
	const M& c = m; SX_ASSERT((int)m.size() == o.n && c.empty() == (o.n == 0), "size"); int i = 0;
	for (typename M::const_iterator it = c.begin(); it != c.end(); ++it, ++i) { SX_ASSERT(i < o.n, "too many elements"); SX_ASSERT(*it == o.e[i].k, "element in iteration order"); }
	SX_ASSERT(i == o.n, "too few elements");
	for (typename M::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { --i; SX_ASSERT(i >= 0 && *it == o.e[i].k, "reverse iteration"); } SX_ASSERT(i == 0, "reverse iteration length");
	for (i = 0; i < o.n; ++i) SX_ASSERT(m.find(o.e[i].k) == At(m, i) && c.find(o.e[i].k) != c.end() && c.count(o.e[i].k) == 1, "find");
}
static int Key() { return 5 + 5 * (int)sx_choose("key", 7); } // every place relative to the elements 10, 20, 30
static int Key3() { static const int k[3] = { 5, 20, 25 }; return k[sx_choose("key", 3)]; }
static const int start_[3] = { 20, 10, 30 };
static bool desc_;
template < typename M > static void MapHistory(bool sorted)
{
	const u64 heap = sx_heap_live();
	{
		const bool desc = sx_choose("descending", 2); M m{Cmp(desc)}; Model o(sorted); o.desc = desc; bool fresh;
		const int have = (int)sx_choose("elements", 4); for (int i = 0; i < have; ++i) { const int v = (int)sx_u32("v"); m[start_[i]] = v; o.insert(start_[i], v, o.n, fresh); }
		CheckMap(m, o); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			const unsigned op = sx_choose("op", 15); const int v = (int)sx_u32("w"); typedef typename M::value_type P;
			switch (op)
			{
			case 0: { const int k = Key(); const P p(k, v); const std::pair<typename M::iterator, bool> r = m.insert(p); const int i = o.insert(k, v, o.n, fresh); SX_ASSERT(r.second == fresh && Index(m, r.first) == i, "result of insert"); break; }
			case 1: { const int k = Key3(); const std::pair<typename M::iterator, bool> r = m.emplace(k, v); const int i = o.insert(k, v, o.n, fresh); SX_ASSERT(r.second == fresh && Index(m, r.first) == i, "result of emplace"); break; }
			case 2: { const int k = Key(); m[k] = v; const int i = o.insert(k, v, o.n, fresh); o.e[i].v = v; break; }
			case 3: { const int k = Key(); const int f = o.find(k); SX_ASSERT((int)m.erase(k) == (f >= 0 ? 1 : 0), "result of erase"); if (f >= 0) o.erase(f, f + 1); break; }
			case 4: { if (!o.n) break; const int i = (int)sx_choose("at", o.n); const bool c = sx_choose("const", 2); const typename M::iterator r = c ? m.erase(typename M::const_iterator(At(m, i))) : m.erase(At(m, i)); o.erase(i, i + 1); SX_ASSERT(Index(m, r) == i, "iterator after an erased element"); break; }
			case 5: { const int i = (int)sx_choose("from", o.n + 1), j = i + (int)sx_choose("len", o.n + 1 - i); const typename M::iterator r = m.erase(typename M::const_iterator(At(m, i)), typename M::const_iterator(At(m, j))); o.erase(i, j); SX_ASSERT(Index(m, r) == i, "iterator after an erased range"); break; }
			case 6: { const int k = Key3(), i = (int)sx_choose("hint", o.n + 1); const P p(k, v); const typename M::iterator r = m.insert(typename M::const_iterator(At(m, i)), p); SX_ASSERT(Index(m, r) == o.insert(k, v, i, fresh), "result of hinted insert"); break; }
			case 7: { const int k = Key3(), i = (int)sx_choose("hint", o.n + 1); const typename M::iterator r = m.emplace_hint(typename M::const_iterator(At(m, i)), k, v); SX_ASSERT(Index(m, r) == o.insert(k, v, i, fresh), "result of hinted emplace"); break; }
			case 8: { M c(m); CheckMap(c, o); M d; d[99] = 1; d = c; CheckMap(d, o); M e(c, std::allocator<P>()); CheckMap(e, o); const int k = Key3(); Model oc(o); c[k] = v; d[k] = v; e[k] = v; const int i = oc.insert(k, v, oc.n, fresh); oc.e[i].v = v; CheckMap(c, oc); CheckMap(d, oc); CheckMap(e, oc); SX_ASSERT((c == m) == (!fresh && o.e[i].v == v) && c == d && d == e, "equality"); break; }
			case 9: { M& r = m; m = r; break; }
			case 10: { M c(std::move(m)); CheckMap(c, o); M d; d[99] = 1; d = std::move(c); CheckMap(d, o); M e(std::move(d), std::allocator<P>()); CheckMap(e, o); m = std::move(e); break; }
			case 11: { M c{Cmp(!desc)}; Model oc(sorted); oc.desc = !desc; for (int i = 0; i < 2; ++i) { c[i * 15 + 5] = v; oc.insert(i * 15 + 5, v, oc.n, fresh); } m.swap(c); CheckMap(m, oc); CheckMap(c, o); m.swap(c); break; }
			case 12: { const int a = Key3(), b = Key3(); m = { P(a, v), P(b, 2) }; o.n = 0; o.insert(a, v, o.n, fresh); o.insert(b, 2, o.n, fresh); break; }
			case 13: { const int a = Key3(); const P list[2] = { P(a, v), P(20, 3) }; m.insert(list, list + 2); o.insert(a, v, o.n, fresh); o.insert(20, 3, o.n, fresh); break; }
			default: m.clear(); o.n = 0; break;
			}
			CheckMap(m, o);
		}
		const int k = Key(); const int f = o.find(k); const M& c = m; SX_ASSERT((c.find(k) != c.end()) == (f >= 0) && (int)c.count(k) == (f >= 0 ? 1 : 0) && (m.find(k) == m.end()) == (f < 0), "key found"); SX_ASSERT(SX_THROWS(c.at(k)) == (f < 0) && SX_THROWS(m.at(k)) == (f < 0), "value of an absent key");
		SX_ASSERT(c.key_comp()(1, 2) == !desc, "comparison of keys"); SX_ASSERT(c.value_comp()(typename M::value_type(1, 9), typename M::value_type(2, 0)) == !desc, "comparison of elements");
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
template < typename M > static void SetHistory(bool sorted)
{
	const u64 heap = sx_heap_live();
	{
		const bool desc = sx_choose("descending", 2); M m{Cmp(desc)}; Model o(sorted); o.desc = desc; bool fresh;
		const int have = (int)sx_choose("elements", 4); for (int i = 0; i < have; ++i) { m.insert(start_[i]); o.insert(start_[i], 0, o.n, fresh); }
		CheckSet(m, o); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			switch (sx_choose("op", 14))
			{
			case 0: { const int k = Key(); const std::pair<typename M::iterator, bool> r = m.insert(k); const int i = o.insert(k, 0, o.n, fresh); SX_ASSERT(r.second == fresh && Index(m, r.first) == i, "result of insert"); break; }
			case 1: { const int k = Key3(); const std::pair<typename M::iterator, bool> r = m.emplace(k); const int i = o.insert(k, 0, o.n, fresh); SX_ASSERT(r.second == fresh && Index(m, r.first) == i, "result of emplace"); break; }
			case 2: { const int k = Key(); const int f = o.find(k); SX_ASSERT((int)m.erase(k) == (f >= 0 ? 1 : 0), "result of erase"); if (f >= 0) o.erase(f, f + 1); break; }
			case 3: { if (!o.n) break; const int i = (int)sx_choose("at", o.n); const typename M::iterator r = m.erase(At(m, i)); o.erase(i, i + 1); SX_ASSERT(Index(m, r) == i, "iterator after an erased element"); break; }
			case 4: { const int i = (int)sx_choose("from", o.n + 1), j = i + (int)sx_choose("len", o.n + 1 - i); const typename M::iterator r = m.erase(typename M::const_iterator(At(m, i)), typename M::const_iterator(At(m, j))); o.erase(i, j); SX_ASSERT(Index(m, r) == i, "iterator after an erased range"); break; }
			case 5: { const int k = Key3(), i = (int)sx_choose("hint", o.n + 1); const typename M::iterator r = m.insert(typename M::const_iterator(At(m, i)), k); SX_ASSERT(Index(m, r) == o.insert(k, 0, i, fresh), "result of hinted insert"); break; }
			case 6: { const int k = Key3(), i = (int)sx_choose("hint", o.n + 1); const typename M::iterator r = m.emplace_hint(typename M::const_iterator(At(m, i)), k); SX_ASSERT(Index(m, r) == o.insert(k, 0, i, fresh), "result of hinted emplace"); break; }
			case 7: { M c(m); CheckSet(c, o); M d; d.insert(99); d = c; CheckSet(d, o); M e(c, std::allocator<int>()); CheckSet(e, o); const int k = Key3(); Model oc(o); c.insert(k); d.insert(k); e.insert(k); oc.insert(k, 0, oc.n, fresh); CheckSet(c, oc); CheckSet(d, oc); CheckSet(e, oc); SX_ASSERT((c == m) == !fresh && c == d && d == e, "equality"); break; }
			case 8: { M& r = m; m = r; break; }
			case 9: { M c(std::move(m)); CheckSet(c, o); M d; d.insert(99); d = std::move(c); CheckSet(d, o); M e(std::move(d), std::allocator<int>()); CheckSet(e, o); m = std::move(e); break; }
			case 10: { M c{Cmp(!desc)}; Model oc(sorted); oc.desc = !desc; for (int i = 0; i < 2; ++i) { c.insert(i * 15 + 5); oc.insert(i * 15 + 5, 0, oc.n, fresh); } m.swap(c); CheckSet(m, oc); CheckSet(c, o); m.swap(c); break; }
			case 11: { const int a = Key3(), b = Key3(); m = { a, b }; o.n = 0; o.insert(a, 0, o.n, fresh); o.insert(b, 0, o.n, fresh); break; }
			case 12: { const int a = Key3(); const int list[2] = { a, 20 }; m.insert(list, list + 2); o.insert(a, 0, o.n, fresh); o.insert(20, 0, o.n, fresh); break; }
			default: m.clear(); o.n = 0; break;
			}
			CheckSet(m, o);
		}
		const int k = Key(); const int f = o.find(k); const M& c = m; SX_ASSERT((c.find(k) != c.end()) == (f >= 0) && (int)c.count(k) == (f >= 0 ? 1 : 0), "element found"); SX_ASSERT(c.key_comp()(1, 2) == !desc && c.value_comp()(1, 2) == !desc, "comparison of elements");
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(flat_map_history) { MapHistory<flat_map<int, int, Cmp> >(true); }
SX_ENTRY(flat_set_history) { SetHistory<flat_set<int, Cmp> >(true); }
SX_ENTRY(ordered_map_history) { MapHistory<ordered_map<int, int, Cmp> >(false); }
SX_ENTRY(ordered_set_history) { SetHistory<ordered_set<int, Cmp> >(false); }
// searches and comparisons of any contents
SX_ENTRY(flat_search)
{
	const bool desc = sx_choose("descending", 2); const int n = (int)sx_choose("n", sx_tier() ? 5 : 4); flat_map<int, int, Cmp> m{Cmp(desc)}; flat_set<int, Cmp> s{Cmp(desc)}; ordered_map<int, int, Cmp> om{Cmp(desc)}; Model o, oo(false); o.desc = oo.desc = desc; bool fresh;
	for (int i = 0; i < n; ++i) { const int k = (int)sx_u8("k"); m.insert(std::make_pair(k, i)); s.insert(k); om.insert(std::make_pair(k, i)); o.insert(k, i, o.n, fresh); oo.insert(k, i, oo.n, fresh); }
	CheckMap(m, o); CheckSet(s, o); CheckMap(om, oo); const int k = (int)sx_u8("key"); const int lo = o.lower(k), hi = lo + (o.find(k) >= 0); const flat_map<int, int, Cmp>& c = m; const flat_set<int, Cmp>& cs = s;
	SX_ASSERT(m.lower_bound(k) - m.begin() == lo && c.lower_bound(k) - c.begin() == lo && s.lower_bound(k) - s.begin() == lo && cs.lower_bound(k) - cs.begin() == lo, "lower bound");
	SX_ASSERT(m.upper_bound(k) - m.begin() == hi && c.upper_bound(k) - c.begin() == hi && cs.upper_bound(k) - cs.begin() == hi, "upper bound");
	SX_ASSERT(m.equal_range(k).first - m.begin() == lo && c.equal_range(k).second - c.begin() == hi && cs.equal_range(k).first - cs.begin() == lo && cs.equal_range(k).second - cs.begin() == hi, "equal range");
	SX_ASSERT((om.find(k) != om.end()) == (hi > lo) && (c.find(k) != c.end()) == (hi > lo) && (cs.find(k) != cs.end()) == (hi > lo), "found");
}
SX_ENTRY(map_compare)
{
	typedef flat_map<int, int> FM; typedef flat_set<int> FS; typedef ordered_map<int, int> OM; typedef ordered_set<int> OS; FM fm[2]; FS fs[2]; OM om[2]; OS os[2]; std::vector<std::pair<int, int> > v[2], w[2];
	for (int t = 0; t < 2; ++t) { const int n = (int)sx_choose("n", 3); for (int i = 0; i < n; ++i) { const int k = (signed char)sx_u8("k"), x = (signed char)sx_u8("x"); if (i && k == w[t][0].first) sx_end_path(); fm[t][k] = x; fs[t].insert(k); om[t][k] = x; os[t].insert(k); w[t].push_back(std::make_pair(k, x)); } v[t] = w[t]; if (n == 2 && v[t][1].first < v[t][0].first) std::swap(v[t][0], v[t][1]); }
	std::vector<int> ks[2], kw[2]; for (int t = 0; t < 2; ++t) for (size_t i = 0; i < v[t].size(); ++i) { ks[t].push_back(v[t][i].first); kw[t].push_back(w[t][i].first); }
	SX_ASSERT((fm[0] == fm[1]) == (v[0] == v[1]) && (fm[0] != fm[1]) == (v[0] != v[1]), "equality of flat maps"); SX_ASSERT((fm[0] < fm[1]) == (v[0] < v[1]) && (fm[0] > fm[1]) == (v[1] < v[0]) && (fm[0] <= fm[1]) == !(v[1] < v[0]), "order of flat maps");
	SX_ASSERT((fs[0] == fs[1]) == (ks[0] == ks[1]) && (fs[0] < fs[1]) == (ks[0] < ks[1]), "comparison of flat sets");
	SX_ASSERT((om[0] == om[1]) == (w[0] == w[1]) && (om[0] < om[1]) == (w[0] < w[1]), "comparison of ordered maps"); SX_ASSERT((os[0] == os[1]) == (kw[0] == kw[1]) && (os[0] < os[1]) == (kw[0] < kw[1]), "comparison of ordered sets");
}
SX_ENTRY(bimap_history)
{
	typedef bimap<std::map<int, int>, std::map<int, int> > B; B b; int l[4], r[4], n = 0; const int q_ = sx_tier() ? 4 : 3;
	for (int q = 0; q < q_; ++q)
	{
		const bool side = sx_choose("side", 2);
		switch (sx_choose("op", 3))
		{
		case 0: { const int k = (int)sx_choose("l", 3), v = (int)sx_choose("r", 3); if (side) b.right_insert(v, k); else b.left_insert(k, v); bool taken = false; for (int i = 0; i < n; ++i) taken = taken || l[i] == k || r[i] == v; if (!taken) { l[n] = k; r[n] = v; ++n; } break; }
		case 1: { const int k = (int)sx_choose("k", 3); if (side) b.right_erase(k); else b.left_erase(k); for (int i = 0; i < n; ++i) if ((side ? r[i] : l[i]) == k) { --n; l[i] = l[n]; r[i] = r[n]; break; } break; }
		default: { const int k = (int)sx_choose("k", 3); if (side) b.right_erase(b.right_find(k)); else b.left_erase(b.left_find(k)); for (int i = 0; i < n; ++i) if ((side ? r[i] : l[i]) == k) { --n; l[i] = l[n]; r[i] = r[n]; break; } break; }
		}
		SX_ASSERT((int)b.size() == n && b.empty() == (n == 0), "number of pairs"); int ln = 0, rn = 0;
		for (B::left_iterator it = b.left_begin(); it != b.left_end(); ++it) { ++ln; const B::right_iterator o = b.right_find(it->second); SX_ASSERT(o != b.right_end() && o->second == it->first, "left pair is missing on the right"); }
		for (B::right_iterator it = b.right_begin(); it != b.right_end(); ++it) { ++rn; const B::left_iterator o = b.left_find(it->second); SX_ASSERT(o != b.left_end() && o->second == it->first, "right pair is missing on the left"); }
		SX_ASSERT(ln == n && rn == n, "number of pairs on each side"); for (int i = 0; i < n; ++i) { const B::left_iterator it = b.left_find(l[i]); SX_ASSERT(it != b.left_end() && it->second == r[i], "pair"); }
	}
	b.clear(); SX_ASSERT(b.empty() && b.left_begin() == b.left_end() && b.right_begin() == b.right_end(), "cleared");
}
static int alive, bomb;
struct V
{
	int v; const V* self; void born() { self = this; ++alive; }
	V(int v_ = 0) : v(v_) { born(); }
	V(const V& o) : v(o.v) { SX_ASSERT(o.self == &o, "copied from a dead value"); if (bomb && --bomb == 0) throw std::runtime_error("copy"); born(); }
	V(V&& o) noexcept : v(o.v) { SX_ASSERT(o.self == &o, "moved from a dead value"); o.v = -1; born(); }
	~V() { SX_ASSERT(self == this, "value destroyed twice"); self = 0; --alive; }
	V& operator = (const V& o) { SX_ASSERT(self == this && o.self == &o, "assignment of a dead value"); if (bomb && --bomb == 0) throw std::runtime_error("copy"); v = o.v; return *this; }
	V& operator = (V&& o) { SX_ASSERT(self == this && o.self == &o, "assignment of a dead value"); if (this != &o) { v = o.v; o.v = -1; } return *this; }
};
typedef inplace_vector<V, 2> IV;
struct VM { int v[16]; int n; VM() : n(0) { } };
static int Bomb(int n) { return n ? (int)sx_choose("bomb", 2) * (n > 1 && sx_choose("last", 2) ? n : 1) : 0; }
static void CheckIV(IV& x, const VM& o)
{
	const IV& c = x; SX_ASSERT((int)x.size() == o.n && c.empty() == (o.n == 0) && (int)c.capacity() >= o.n, "size"); int i = 0;
	for (IV::const_iterator it = c.begin(); it != c.end(); ++it, ++i) { SX_ASSERT(i < o.n, "too many elements"); SX_ASSERT(it->v == o.v[i] && it->self == &*it, "element"); SX_ASSERT(&c[i] == &*it && &x.at(i) == &*it, "indexing"); } SX_ASSERT(i == o.n, "too few elements");
	for (IV::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) { --i; SX_ASSERT(i >= 0 && it->v == o.v[i], "reverse iteration"); }
	SX_ASSERT(SX_THROWS(c.at(o.n)) && SX_THROWS(x[(size_t)-1]), "access past the end"); if (o.n) SX_ASSERT(x.front().v == o.v[0] && c.back().v == o.v[o.n - 1], "front and back"); SX_ASSERT(c.end() - c.begin() == o.n, "distance");
}
SX_ENTRY(inplace_history)
{
	alive = bomb = 0; const u64 heap = sx_heap_live();
	{
		IV x; VM o; const int have = (int)sx_choose("elements", 5); for (int i = 0; i < have; ++i) { o.v[o.n] = (int)sx_u32("e"); x.push_back(V(o.v[o.n++])); } CheckIV(x, o); const int n = sx_tier() ? 4 : 3;
		for (int q = 0; q < n; ++q)
		{
			const int v = (int)sx_u32("v"); int left = 0;
			switch (sx_choose("op", 13))
			{
			case 0: { const V c(v); bomb = (int)sx_choose("bomb", 2); const bool b = bomb != 0; try { x.push_back(c); SX_ASSERT(!b, "exception of the copy lost"); o.v[o.n++] = v; } catch (const std::exception&) { SX_ASSERT(b, "exception"); } bomb = 0; break; }
			case 1: x.push_back(V(v)); o.v[o.n++] = v; break;
			case 2: x.emplace_back(v); o.v[o.n++] = v; break;
			case 3: { if (o.n) { const int i = (int)sx_choose("at", o.n); x.push_back(x[i]); o.v[o.n] = o.v[i]; ++o.n; } break; }
			case 4: x.clear(); o.n = 0; break;
			case 5: { const int r = (int)sx_choose("reserve", 5); x.reserve(r); SX_ASSERT((int)x.capacity() >= r, "capacity"); break; }
			case 6: { IV c(x); CheckIV(c, o); c.push_back(V(1)); VM oc(o); oc.v[oc.n++] = 1; CheckIV(c, oc); break; }
			case 7: { IV y; const int m = 3 * (int)sx_choose("other", 2); VM oy; for (int i = 0; i < m; ++i) { y.push_back(V(i)); oy.v[oy.n++] = i; } bomb = Bomb(o.n); left = bomb; try { y = x; SX_ASSERT(!left, "exception of the copy lost"); CheckIV(y, o); } catch (const std::exception&) { SX_ASSERT(left, "exception"); y.clear(); y.push_back(V(3)); SX_ASSERT(y.size() == 1 && y[0].v == 3, "usable after a failed assignment"); } bomb = 0; break; }
			case 8: { IV& r = x; x = r; break; }
			case 9: { IV y(std::move(x)); CheckIV(y, o); x.push_back(V(5)); x = std::move(y); CheckIV(x, o); y = x; CheckIV(y, o); break; }
			case 10: { if (!o.n) break; const int i = (int)sx_choose("at", o.n); x[i].v = v; o.v[i] = v; IV::iterator it = x.begin(); it += i; SX_ASSERT(it->v == v && (it - x.begin()) == i && (x.begin() + i) == it, "iterator arithmetic"); break; }
			case 11: { const V a[3] = { V(v), V(7), V(8) }; const int m = 3 * (int)sx_choose("other", 2); x.assign(a, a + m); o.n = 0; for (int i = 0; i < m; ++i) o.v[o.n++] = a[i].v; break; }
			default: { bomb = Bomb(o.n); left = bomb; try { IV y(x); SX_ASSERT(!left, "exception of the copy lost"); } catch (const std::exception&) { SX_ASSERT(left, "exception"); } bomb = 0; break; }
			}
			CheckIV(x, o); SX_ASSERT(alive == o.n, "number of live elements");
		}
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "element leaked");
}
struct Node : public IntrusiveListNode<Node> { int v; };
SX_ENTRY(intrusive_list)
{
	Node node[4]; IntrusiveList<Node> l; const IntrusiveList<Node>& c = l; int in[4], n = 0; for (int i = 0; i < 4; ++i) node[i].v = (int)sx_u32("v"); const int q_ = sx_tier() ? 7 : 5;
	for (int q = 0; q < q_; ++q)
	{
		const int i = (int)sx_choose("node", 4); int at = -1; for (int k = 0; k < n; ++k) if (in[k] == i) at = k;
		if (at < 0) { l.push_back(node[i]); in[n++] = i; } else { l.erase(node[i]); for (int k = at; k + 1 < n; ++k) in[k] = in[k + 1]; --n; }
		SX_ASSERT(l.empty() == (n == 0) && (int)c.size() == n, "size"); int k = 0; for (IntrusiveList<Node>::const_iterator it = c.begin(); it != c.end(); ++it, ++k) SX_ASSERT(k < n && &*it == &node[in[k]] && it->v == node[in[k]].v, "element"); SX_ASSERT(k == n, "length"); IntrusiveList<Node>::iterator it = l.end(); while (k) { --it; --k; SX_ASSERT(&*it == &node[in[k]], "backwards"); } SX_ASSERT(it == l.begin(), "start");
	}
	while (n) l.erase(node[in[--n]]);
}
// erase_if removes exactly the elements that match and keeps the others in order
static bool gkill[5];
struct Kills { bool operator () (int k) const { return gkill[k]; } template < typename P > bool operator () (const P& p) const { return gkill[p.first]; } };
template < typename C > static void eraseMatching(const C& from) { C c(from); erase_if(c, Kills()); typename C::const_iterator it = c.begin(); for (typename C::const_iterator f = from.begin(); f != from.end(); ++f) { if (!Kills()(*f)) { SX_ASSERT(it != c.end() && *it == *f, "the others stay, in order"); ++it; } } SX_ASSERT(it == c.end(), "no matching one is left"); }
SX_ENTRY(erase_matching)
{
	const int n = (int)sx_choose("n", 5); for (int i = 0; i < n; ++i) gkill[i] = sx_choose("kill", 2); int at[5]; for (int i = 0; i < n; ++i) at[i] = (i * 3 + 2) % n; if (n == 3) { at[0] = 2; at[1] = 0; at[2] = 1; }
	std::vector<int> v; std::list<int> l; std::set<int> s; flat_set<int> fs; ordered_set<int> os; std::map<int, u32> m; flat_map<int, u32> fm; ordered_map<int, u32> om;
	for (int i = 0; i < n; ++i) { const int k = at[i]; const u32 x = sx_u32("v"); v.push_back(k); l.push_back(k); s.insert(k); fs.insert(k); os.insert(k); m.emplace(k, x); fm.emplace(k, x); om.emplace(k, x); }
	switch (sx_choose("kind", 8)) { case 0: eraseMatching(v); break; case 1: eraseMatching(l); break; case 2: eraseMatching(s); break; case 3: eraseMatching(fs); break; case 4: eraseMatching(os); break; case 5: eraseMatching(m); break; case 6: eraseMatching(fm); break; default: eraseMatching(om); } sx_reach("end");
}
SX_ENTRY(arrays)
{
	array<int, 3> a, b; for (int i = 0; i < 3; ++i) { SX_ASSERT(a[i] == 0, "value-initialized"); a[i] = sx_s32("a"); b[i] = sx_s32("b"); } const array<int, 3> ca(a); const u64 i = sx_u64("i");
	SX_ASSERT(ca == a, "copy"); const bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; SX_ASSERT((a == b) == eq && (a != b) == !eq, "equality"); const bool lt = a[0] != b[0] ? a[0] < b[0] : a[1] != b[1] ? a[1] < b[1] : a[2] < b[2]; SX_ASSERT((a < b) == lt && (b > a) == lt && (b <= a) == !lt, "order");
	bool thrown = false; int got = 0; try { got = ca.at((size_t)i); } catch (const std::exception&) { thrown = true; } SX_ASSERT(thrown == (i >= 3), "range check of at"); if (!thrown) SX_ASSERT(got == ca[(size_t)i], "element");
	array<int, 3> s(a), t(b); s.swap(t); SX_ASSERT(s == b && t == a, "swap"); t = b; SX_ASSERT(t == b, "assignment"); t.fill(a[0]); SX_ASSERT(t[0] == a[0] && t[1] == a[0] && t[2] == a[0] && t.front() == a[0] && t.back() == a[0] && t.size() == 3 && !t.empty() && t.end() - t.begin() == 3 && t.data() == t.begin(), "fill");
}
