// Caches against plain queues with sizes; counted maps, sets and values against plain counts.
#include "sx.h"
#include <stingraykit/collection/TwoQueueCache.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
#include <stingraykit/collection/RefCounter.h>
#include <vector>
using namespace stingray;
struct Val { u8 v; size_t size; };
struct ValSize { size_t operator()(const Val& v) const { return v.size; } };
struct Item { int k; Val v; };
struct OnEv : public function_info<void (int, const Val&)> { std::vector<Item>* log; OnEv(std::vector<Item>* l) : log(l) { } void operator()(int k, const Val& v) const { Item e = { k, v }; log->push_back(e); } };
// a queue of entries, oldest first
struct Model
{
	std::vector<Item> q; size_t cap; bool lru; Model(size_t c, bool l) : cap(c), lru(l) { }
	int find(int k) const { for (size_t i = 0; i < q.size(); ++i) if (q[i].k == k) return (int)i; return -1; }
	size_t size() const { size_t s = 0; for (size_t i = 0; i < q.size(); ++i) s += q[i].v.size; return s; }
	bool get(int k, Val& v) { const int i = find(k); if (i < 0) return false; v = q[i].v; if (lru) { const Item e = q[i]; q.erase(q.begin() + i); q.push_back(e); } return true; }
	bool remove(int k) { const int i = find(k); if (i < 0) return false; q.erase(q.begin() + i); return true; }
	void set(int k, const Val& v, std::vector<Item>& out) { remove(k); Item e = { k, v }; q.push_back(e); while (size() > cap) { out.push_back(q[0]); q.erase(q.begin()); } }
};
static Val any() { Val v; v.v = sx_u8("v"); v.size = (size_t)sx_range("size", 0, 255); return v; }
static u8 diff(const Val& a, const Val& b) { return a.v ^ b.v; }
static void SameLog(std::vector<Item>& a, std::vector<Item>& b) { SX_ASSERT(a.size() == b.size(), "number of evictions told"); for (size_t i = 0; i < a.size(); ++i) SX_ASSERT(sx_and(a[i].k == b[i].k && a[i].v.size == b[i].v.size, diff(a[i].v, b[i].v) == 0), "another entry was evicted than the oldest one"); a.clear(); b.clear(); }
template <typename Cache_> static void QueueRun(bool lru, int ops)
{
	const size_t cap = (size_t)sx_range("cap", 0, 600); Cache_ c(cap); Model m(cap, lru); std::vector<Item> log, want; Token t(c.OnEvicted().connect(OnEv(&log)));
	const int pre = sx_choose("pre", 4); for (int i = 0; i < pre; ++i) { const Val v = any(); c.Set(i, v); m.set(i, v, want); }
	SameLog(log, want);
	for (int i = 0; i < ops; ++i)
	{
		const int op = sx_choose("op", 4), k = op == 3 ? 0 : sx_choose("k", 3);
		switch (op)
		{
		case 0: { const Val v = any(); c.Set(k, v); m.set(k, v, want); break; }
		case 1: { Val a = { 7, 9 }, b = { 7, 9 }; const bool r = c.TryGet(k, a); SX_ASSERT(r == m.get(k, b), "found what is not there, or missed what is"); SX_ASSERT(sx_and(a.size == b.size, diff(a, b) == 0), "another value was got than was set"); break; }
		case 2: { const bool r = c.Remove(k); SX_ASSERT(r == m.remove(k), "result of removal"); break; }
		default: c.Clear(); m.q.clear(); break;
		}
		SX_ASSERT(c.GetSize() == m.size(), "size differs from the sum of the entries"); SX_ASSERT(c.GetSize() <= cap, "more is kept than the capacity"); SameLog(log, want);
	}
	// what is left comes out in the order of the queue
	{ Val v = { 0, cap + 1 }; c.Set(9, v); m.set(9, v, want); SameLog(log, want); SX_ASSERT(c.GetSize() == 0, "an entry beyond the capacity pushes everything out"); }
	for (int k = 0; k < 4; ++k) { Val a; SX_ASSERT(!c.TryGet(k, a), "an evicted entry is found"); }
	sx_observe(c.GetSize()); sx_reach("queue");
}
SX_ENTRY(cache_fifo) { QueueRun<FifoCache<int, Val, ValSize> >(false, sx_tier() ? 3 : 2); }
SX_ENTRY(cache_lru) { QueueRun<LruCache<int, Val, ValSize> >(true, sx_tier() ? 3 : 2); }
SX_ENTRY(cache_two_queues)
{
	const size_t ci = sx_choose("in", 3), co = sx_choose("out", 3), ch = sx_choose("hot", 3); TwoQueueCache<int, Val, ValSize> c(ci, co, ch); Model in(ci, false), out(co, false), hot(ch, true); std::vector<Item> log, want; Token t(c.OnEvicted().connect(OnEv(&log)));
	const int ops = sx_tier() ? 5 : 3, pre = sx_choose("pre", 4); u8 n = 0;
	for (int i = -pre; i < ops; ++i)
	{
		const int op = i < 0 ? 0 : sx_choose("op", 4), k = i < 0 ? i + pre : op == 3 ? 0 : sx_choose("k", 3);
		switch (op)
		{
		case 0: { Val v; v.v = n++; v.size = i == ops - 1 ? sx_choose("size", 3) : 1; c.Set(k, v); hot.remove(k); out.remove(k); std::vector<Item> o; in.set(k, v, o); for (size_t j = 0; j < o.size(); ++j) out.set(o[j].k, o[j].v, want); break; }
		case 1: { Val a = { 77, 9 }, b = { 77, 9 }; const bool r = c.TryGet(k, a); bool w = hot.get(k, b) || in.get(k, b); if (!w && out.get(k, b)) { w = true; out.remove(k); hot.set(k, b, want); } SX_ASSERT(r == w, "found what is not there, or missed what is"); SX_ASSERT(a.v == b.v && a.size == b.size, "another value was got than was set"); break; }
		case 2: { const bool r = c.Remove(k); const bool w = hot.remove(k) | out.remove(k) | in.remove(k); SX_ASSERT(r == w, "result of removal"); Val a; SX_ASSERT(!c.TryGet(k, a), "a removed entry is found"); break; }
		default: c.Clear(); in.q.clear(); out.q.clear(); hot.q.clear(); break;
		}
		SX_ASSERT(c.GetSize() == in.size() + out.size() + hot.size(), "size differs from the sum of the entries"); SameLog(log, want);
	}
	sx_observe(c.GetSize()); sx_reach("two queues");
}
struct Boom : public std::exception { };
static bool boom; static int adds, removes, lastKey; static u8 lastValue, nextValue;
struct Add { u8 operator()(int k) const { if (boom) throw Boom(); ++adds; lastKey = k; return nextValue; } };
struct AddSet { void operator()(int k) const { if (boom) throw Boom(); ++adds; lastKey = k; } };
struct Del { void operator()(int k, u8 v) const { ++removes; lastKey = k; lastValue = v; } };
struct DelSet { void operator()(int k) const { ++removes; lastKey = k; } };
SX_ENTRY(counted_map)
{
	typedef RefCountingMap<int, u8> Map; Map m; size_t n[3] = { 0, 0, 0 }; u8 v[3]; const int ops = sx_tier() ? 5 : 4;
	const int pre = sx_choose("pre", 3); nextValue = sx_u8("v"); for (int i = 0; i < pre; ++i) m.add(1, Add()); n[1] = pre; v[1] = nextValue;
	for (int i = 0; i < ops; ++i)
	{
		adds = removes = 0; boom = false; const int op = sx_choose("op", 5), k = op == 3 ? 0 : sx_choose("k", 3);
		switch (op)
		{
		case 0: { nextValue = sx_u8("v"); boom = sx_choose("boom", 2) != 0; if (boom && n[k] == 0) { SX_ASSERT(SX_THROWS(m.add(k, Add())), "failure is not reported"); break; }
			Map::iterator it = m.add(k, Add()); SX_ASSERT(adds == (n[k] == 0 ? 1 : 0) && (!adds || lastKey == k), "the first reference runs the action, others do not"); if (!n[k]++) v[k] = nextValue; SX_ASSERT(sx_and((*it).first == k, (*it).second == v[k]), "added entry"); SX_ASSERT(it == m.find(k), "place of the added entry"); break; }
		case 1: { const size_t r = m.erase(k, Del()); SX_ASSERT(r == (n[k] ? 1u : 0u), "result of erase"); if (n[k] && !--n[k]) SX_ASSERT(sx_and(removes == 1 && lastKey == k, lastValue == v[k]), "the last reference runs the action with its value"); else SX_ASSERT(removes == 0, "action without the last reference"); break; }
		case 2: { if (!n[k]) { SX_ASSERT(m.find(k) == m.end(), "found what is not there"); break; } m.erase(m.find(k), Del()); if (!--n[k]) SX_ASSERT(sx_and(removes == 1 && lastKey == k, lastValue == v[k]), "the last reference runs the action with its value"); else SX_ASSERT(removes == 0, "action without the last reference"); break; }
		case 3: { int w = 0; for (int j = 0; j < 3; ++j) { w += n[j] != 0; n[j] = 0; } m.clear(Del()); SX_ASSERT(removes == w, "clearing runs the action once for every entry"); break; }
		default: if (n[k]) { const u8 x = sx_u8("x"); (*m.find(k)).second = x; v[k] = x; } break;
		}
		size_t live = 0; for (int j = 0; j < 3; ++j) { SX_ASSERT(m.count(j) == n[j], "count differs from the references held"); if (n[j]) ++live; } SX_ASSERT(m.size() == live && m.empty() == (live == 0), "number of entries");
		int last = -1; size_t seen = 0; const Map& cm = m; for (Map::const_iterator it = cm.begin(); it != cm.end(); ++it, ++seen) { SX_ASSERT(it->first > last && n[it->first], "order of entries"); last = it->first; SX_ASSERT(it->second == v[last], "value of an entry"); } SX_ASSERT(seen == live, "entries seen");
		Map::iterator a = m.begin(), b = m.end(); for (int j = 0; j < 3; ++j) if (n[j]) { SX_ASSERT(a->first == j, "iterator"); b = a; SX_ASSERT(b == a && b->first == j, "copied iterator"); ++a; if (a != m.end()) SX_ASSERT(b->first == j && a->first > j, "a copied iterator moves with its original"); b = a; }
	}
	sx_reach("map");
}
SX_ENTRY(counted_set)
{
	typedef RefCountingSet<int> Set; Set m; size_t n[3] = { 0, 0, 0 }; const int ops = sx_tier() ? 5 : 4; const int pre = sx_choose("pre", 3); boom = false; for (int i = 0; i < pre; ++i) m.add(1, AddSet()); n[1] = pre;
	for (int i = 0; i < ops; ++i)
	{
		adds = removes = 0; boom = false; const int op = sx_choose("op", 4), k = op == 3 ? 0 : sx_choose("k", 3);
		switch (op)
		{
		case 0: { boom = sx_choose("boom", 2) != 0; if (boom && n[k] == 0) { SX_ASSERT(SX_THROWS(m.add(k, AddSet())), "failure is not reported"); break; } Set::iterator it = m.add(k, AddSet()); SX_ASSERT(adds == (n[k] == 0 ? 1 : 0) && *it == k, "the first reference runs the action, others do not"); ++n[k]; break; }
		case 1: { const size_t r = m.erase(k, DelSet()); SX_ASSERT(r == (n[k] ? 1u : 0u), "result of erase"); const bool last = n[k] == 1; if (n[k]) --n[k]; SX_ASSERT(removes == last && (!last || lastKey == k), "the last reference runs the action"); break; }
		case 2: { if (!n[k]) { SX_ASSERT(m.find(k) == m.end(), "found what is not there"); break; } m.erase(m.find(k), DelSet()); const bool last = n[k]-- == 1; SX_ASSERT(removes == last && (!last || lastKey == k), "the last reference runs the action"); break; }
		default: { int w = 0; for (int j = 0; j < 3; ++j) { w += n[j] != 0; n[j] = 0; } m.clear(DelSet()); SX_ASSERT(removes == w, "clearing runs the action once for every entry"); break; }
		}
		size_t live = 0; for (int j = 0; j < 3; ++j) { SX_ASSERT(m.count(j) == n[j], "count differs from the references held"); if (n[j]) ++live; } SX_ASSERT(m.size() == live && m.empty() == (live == 0), "number of entries");
		int last = -1; size_t seen = 0; const Set& cm = m; for (Set::const_iterator it = cm.begin(); it != cm.end(); ++it, ++seen) { SX_ASSERT(*it > last && n[*it], "order of entries"); last = *it; } SX_ASSERT(seen == live, "entries seen");
	}
	sx_reach("set");
}
struct Make { u8 operator()() const { if (boom) throw Boom(); ++adds; return nextValue; } };
struct Drop { void operator()(u8 v) const { ++removes; lastValue = v; } };
struct Up { void operator()() const { if (boom) throw Boom(); ++adds; } };
struct Down { void operator()() const { ++removes; } };
SX_ENTRY(counted_value)
{
	RefCountingValue<u8> r; RefCounter c; size_t n = 0; u8 v = 0;
	for (int i = 0; i < (sx_tier() ? 7 : 6); ++i)
	{
		adds = removes = 0; boom = false; nextValue = sx_u8("v");
		switch (sx_choose("op", 4))
		{
		case 0: { u8& x = r.set(Make()); c.set(Up()); SX_ASSERT(adds == (n == 0 ? 2 : 0), "the first reference runs the action, others do not"); if (!n++) v = nextValue; SX_ASSERT(x == v, "value set"); break; }
		case 1: boom = true; if (n == 0) { SX_ASSERT(SX_THROWS(r.set(Make())) && SX_THROWS(c.set(Up())), "failure is not reported"); } else { r.set(Make()); c.set(Up()); ++n; } break;
		case 2: { const bool a = r.release(Drop()), b = c.release(Down()); SX_ASSERT(a == (n != 0) && b == a, "result of release"); SX_ASSERT(removes == (n == 1 ? 2 : 0), "the last reference runs the action"); if (n == 1) SX_ASSERT(lastValue == v, "value released"); if (n) --n; break; }
		default: r.reset(Drop()); c.reset(Down()); SX_ASSERT(removes == (n ? 2 : 0), "reset runs the action once if there are references"); if (n) SX_ASSERT(lastValue == v, "value released"); n = 0; break;
		}
		SX_ASSERT(r.count() == n && c.count() == n && (bool)r.get() == (n != 0), "references held"); if (n) SX_ASSERT(*r.get() == v, "value held");
	}
	sx_reach("value");
}
