// Lists, sets, dictionaries and their observable forms: contents against a model, enumerators as snapshots, notifications that replay the contents.
#include "sx.h"
#include "threads.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/SortedMultiSet.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/DictionaryCaster.h>
#include <stingraykit/collection/ListCaster.h>
#include <stingraykit/collection/SetCaster.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <vector>
using namespace stingray;

// values are equal by id, the tag tells them apart
struct T { int id; u32 tag; T(int i = 0, u32 t = 0) : id(i), tag(t) { } bool operator == (const T& o) const { return id == o.id; } bool operator != (const T& o) const { return id != o.id; } bool operator < (const T& o) const { return id < o.id; } };
struct P { int k; u32 v; };
typedef std::vector<P> VP;
static P MkP(int k, u32 v) { P p; p.k = k; p.v = v; return p; }
static P ToP(const T& t) { return MkP(t.id, t.tag); }
template < typename A, typename B > static P ToP(const KeyValuePair<A, B>& p) { return MkP(p.Key, p.Value.tag); }
static bool SameP(const P& a, const P& b) { return a.k == b.k && a.v == b.v; }
static VP Rev(const VP& v) { return VP(v.rbegin(), v.rend()); }
template < typename En > static void Reads(const En& e, const VP& o, size_t from, const char* what) { size_t i = from; for (; e->Valid(); e->Next(), ++i) { SX_ASSERT(i < o.size(), what); SX_ASSERT(SameP(ToP(e->Get()), o[i]), what); } SX_ASSERT(i == o.size(), what); }
struct Snap
{
	template < typename C > void take(const C& c, const VP& now, unsigned kind, unsigned steps)
	{
		typedef decltype(c.GetEnumerator()) EnP; typedef decltype(c.Reverse()) RevP;
		if (kind == 0) { EnP e = c.GetEnumerator(); for (unsigned i = 0; i < steps && e->Valid(); ++i) e->Next(); const size_t from = std::min<size_t>(steps, now.size()); const VP o = now; done = [=]() { Reads(e, o, from, "enumerator changed under its reader"); }; }
		else { RevP r = c.Reverse(); const VP o = Rev(now); done = [=]() { Reads(r->GetEnumerator(), o, 0, "reversed view changed under its reader"); Reads(r->GetEnumerator(), o, 0, "reversed view changed under its reader"); }; }
	}
	void end() { if (done) done(); done = nullptr; }
	std::function<void ()> done;
};
static bool Odd(u32 tag) { return tag & 1; }
template < typename C > static void Warm() { const shared_ptr<C> c = make_shared_ptr<C>(); c->GetEnumerator(); c->Reverse()->GetEnumerator(); }
static u32 Tag() { return sx_u32("tag"); }

// ---- observers
template < bool On > struct ListWatch { template < typename L > ListWatch(L&) { } void check(const VP&) { } template < typename L > static void late(L&, const VP&) { } };
template < > struct ListWatch<true>
{
	VP seen; Token t; template < typename L > ListWatch(L& l) { t = l.OnChanged().connect(Bind(&ListWatch::on, this, _1, _2, _3)); }
	void on(CollectionOp op, size_t i, const T& v)
	{
		if (op == CollectionOp::Added) { SX_ASSERT(i <= seen.size(), "index of an added element"); seen.insert(seen.begin() + i, ToP(v)); }
		else if (op == CollectionOp::Removed) { SX_ASSERT(i < seen.size() && SameP(seen[i], ToP(v)), "removed element"); seen.erase(seen.begin() + i); }
		else { SX_ASSERT(i < seen.size(), "index of an updated element"); seen[i] = ToP(v); }
	}
	void check(const VP& o) { SX_ASSERT(seen.size() == o.size(), "number of elements told to the observer"); for (size_t i = 0; i < o.size(); ++i) SX_ASSERT(SameP(seen[i], o[i]), "elements told to the observer"); }
	template < typename L > static void late(L& l, const VP& o) { ListWatch w(l); w.check(o); }
};
// sets and dictionaries: the observer keeps a bag
struct Bag
{
	VP seen;
	void add(P p) { seen.push_back(p); }
	void remove(P p) { for (size_t i = 0; i < seen.size(); ++i) if (SameP(seen[i], p)) { seen.erase(seen.begin() + i); return; } sx_fail("told of the removal of an element that was not there"); }
	int find(int k) { for (size_t i = 0; i < seen.size(); ++i) if (seen[i].k == k) return (int)i; return -1; }
	void check(const VP& o) { SX_ASSERT(seen.size() == o.size(), "number of elements told to the observer"); std::vector<char> used(o.size(), 0); for (size_t i = 0; i < o.size(); ++i) { bool f = false; for (size_t j = 0; j < seen.size() && !f; ++j) if (!used[j] && SameP(seen[j], o[i])) { used[j] = 1; f = true; } SX_ASSERT(f, "elements told to the observer"); } }
};
template < bool On, bool Unique > struct SetWatch { template < typename S > SetWatch(S&) { } void check(const VP&) { } template < typename S > static void late(S&, const VP&) { } };
template < bool Unique > struct SetWatch<true, Unique> : public Bag
{
	Token t; template < typename S > SetWatch(S& s) { t = s.OnChanged().connect(Bind(&SetWatch::on, this, _1, _2)); }
	void on(CollectionOp op, const T& v) { if (op == CollectionOp::Added) { SX_ASSERT(!Unique || this->find(v.id) < 0, "element added twice"); this->add(ToP(v)); } else { SX_ASSERT(op == CollectionOp::Removed, "operation"); const int i = this->find(v.id); SX_ASSERT(i >= 0, "told of the removal of an element that was not there"); if (Unique) this->seen.erase(this->seen.begin() + i); else this->remove(ToP(v)); } }
	template < typename S > static void late(S& s, const VP& o) { SetWatch w(s); w.check(o); }
};
template < bool On, bool Unique > struct DictWatch { template < typename D > DictWatch(D&) { } void check(const VP&) { } template < typename D > static void late(D&, const VP&) { } };
template < bool Unique > struct DictWatch<true, Unique> : public Bag
{
	Token t; template < typename D > DictWatch(D& d) { t = d.OnChanged().connect(Bind(&DictWatch::on, this, _1, _2, _3)); }
	void on(CollectionOp op, int k, const T& v)
	{
		const P p = MkP(k, v.tag); const int i = this->find(k);
		if (op == CollectionOp::Added) { SX_ASSERT(!Unique || i < 0, "key added twice"); this->add(p); }
		else if (op == CollectionOp::Removed) this->remove(p);
		else { SX_ASSERT(Unique && i >= 0, "update of an absent key"); this->seen[i] = p; }
	}
	template < typename D > static void late(D& d, const VP& o) { DictWatch w(d); w.check(o); }
};
struct OddT : public function_info<bool (const T&)> { bool operator () (const T& t) const { return Odd(t.tag); } };
struct OddKV : public function_info<bool (int, const T&)> { bool operator () (int, const T& t) const { return Odd(t.tag); } };
// elements with an odd tag are removed; the choice is made when the tag is drawn
template < typename F > static size_t RemoveOdd(VP& o, F odd) { size_t n = 0; for (size_t i = 0; i < o.size(); ) if (odd(o[i])) { o.erase(o.begin() + i); ++n; } else ++i; return n; }
static bool OddP(const P& p) { return Odd(p.v); }

// ---- lists
template < typename L > static void CheckList(L& l, const VP& o)
{
	const L& c = l; SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
	for (size_t i = 0; i < o.size(); ++i) { SX_ASSERT(SameP(ToP(c.Get(i)), o[i]), "element by index"); T v; SX_ASSERT(c.TryGet(i, v) && SameP(ToP(v), o[i]), "element by index"); }
	T v; SX_ASSERT(!c.TryGet(o.size(), v) && SX_THROWS(c.Get(o.size())), "index past the end");
	for (int k = 0; k < 3; ++k) { int at = -1; for (size_t i = 0; i < o.size() && at < 0; ++i) if (o[i].k == k) at = (int)i; const optional<size_t> r = c.IndexOf(T(k)); SX_ASSERT(c.Contains(T(k)) == (at >= 0) && r.is_initialized() == (at >= 0), "presence"); if (at >= 0) SX_ASSERT((int)*r == at, "index of a value"); }
}
template < typename L, bool Obs > static void ListHistory()
{
	Warm<L>(); { L w; ListWatch<Obs> q(w); w.Add(T()); try { w.Get(9); } catch (const std::exception&) { } } const u64 heap = sx_heap_live();
	{
		L l; ListWatch<Obs> w(l); VP o; Snap s[2]; const int have = (int)sx_choose("elements", 4); for (int i = 0; i < have; ++i) { const T v(i == 2 ? 0 : i, i == 1 ? Tag() : Tag() & ~1u); l.Add(v); o.push_back(ToP(v)); }
		CheckList(l, o); w.check(o); const unsigned sn = sx_choose("snapshot", 4); if (sn & 1) s[0].take(l, o, 0, have > 1 ? 1 : 0); if (sn & 2) s[1].take(l, o, 1, 0); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			switch (sx_choose("op", 11))
			{
			case 0: { const T v((int)sx_choose("id", 2), Tag() & ~1u); l.Add(v); o.push_back(ToP(v)); break; }
			case 1: { const size_t i = sx_choose("at", o.size() + 1); const T v(2, Tag() & ~1u); const bool t = SX_THROWS(l.Set(i, v)); SX_ASSERT(t == (i >= o.size()), "range check of Set"); if (!t) o[i] = ToP(v); break; }
			case 2: { const size_t i = sx_choose("at", o.size() + 2); const T v(1, Tag() & ~1u); const bool t = SX_THROWS(l.Insert(i, v)); SX_ASSERT(t == (i > o.size()), "range check of Insert"); if (!t) o.insert(o.begin() + i, ToP(v)); break; }
			case 3: { const size_t i = sx_choose("at", o.size() + 1); const bool t = SX_THROWS(l.RemoveAt(i)); SX_ASSERT(t == (i >= o.size()), "range check of RemoveAt"); if (!t) o.erase(o.begin() + i); break; }
			case 4: { const int k = (int)sx_choose("id", 3); size_t at = 0; while (at < o.size() && o[at].k != k) ++at; SX_ASSERT(l.Remove(T(k)) == (at < o.size()), "result of Remove"); if (at < o.size()) o.erase(o.begin() + at); break; }
			case 5: { const size_t r = l.RemoveAll(OddT()); SX_ASSERT(r == RemoveOdd(o, OddP), "result of RemoveAll"); break; }
			case 6: l.Clear(); o.clear(); break;
			case 7: s[0].end(); s[0].take(l, o, 0, sx_choose("steps", 2)); break;
			case 8: s[1].end(); s[1].take(l, o, 1, 0); break;
			case 9: s[0].end(); s[1].end(); break;
			default: { L c(l.GetEnumerator()); VP oc(o); CheckList(c, oc); c.Add(T(1, 2)); oc.push_back(MkP(1, 2)); CheckList(c, oc); break; }
			}
			CheckList(l, o); w.check(o);
		}
		ListWatch<Obs>::late(l, o); s[0].end(); s[1].end(); CheckList(l, o);
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(array_list) { ListHistory<ArrayList<T>, false>(); }
SX_ENTRY(observable_list) { ListHistory<ArrayObservableList<T>, true>(); }
SX_ENTRY(list_copies)
{
	ArrayList<T> a; VP o; const int have = (int)sx_choose("elements", 3); for (int i = 0; i < have; ++i) { const T v(i, Tag()); a.Add(v); o.push_back(ToP(v)); } const shared_ptr<IEnumerator<T> > e = a.GetEnumerator();
	ArrayList<T> b(a), c; c.Add(T(2)); const shared_ptr<IEnumerator<T> > ec = c.GetEnumerator(); c = a; CheckList(b, o); CheckList(c, o); VP ob(o); b.Add(T(1, 7)); ob.push_back(MkP(1, 7)); a.Clear(); CheckList(a, VP()); CheckList(b, ob); CheckList(c, o); Reads(e, o, 0, "enumerator changed under its reader"); ArrayList<T>& r = b; b = r; CheckList(b, ob); SX_ASSERT(ec->Valid() && ec->Get().id == 2, "enumerator of an assigned list");
}

// ---- sets
static bool gins; // elements keep the order they were added in
static size_t Lower(const VP& o, int k) { size_t i = 0; while (i < o.size() && (gins ? o[i].k != k : o[i].k < k)) ++i; return i; }
static size_t Upper(const VP& o, int k) { if (gins) { const size_t i = Lower(o, k); return i + (i < o.size()); } size_t i = 0; while (i < o.size() && o[i].k <= k) ++i; return i; }
template < typename S > static void CheckSet(S& s, const VP& o)
{
	const S& c = s; SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
	for (int k = 0; k < 4; ++k)
	{
		const size_t lo = Lower(o, k), hi = Upper(o, k); const bool is = hi > lo; SX_ASSERT(c.Contains(T(k)) == is, "presence");
		Reads(c.Find(T(k)), is ? VP(o.begin() + lo, o.end()) : VP(), 0, "elements from the found one on"); Reads(c.ReverseFind(T(k)), is ? Rev(VP(o.begin(), o.begin() + hi)) : VP(), 0, "elements from the found one back");
	}
}
template < typename S, bool Obs > static void SetHistory()
{
	Warm<S>(); { S w; SetWatch<Obs, true> q(w); w.Add(T()); } const u64 heap = sx_heap_live();
	{
		S l; SetWatch<Obs, true> w(l); VP o; Snap s[2]; const int have = (int)sx_choose("elements", 4); for (int i = 0; i < have; ++i) { const T v(gins ? have - 1 - i : i, i == 1 ? Tag() : Tag() & ~1u); SX_ASSERT(l.Add(v), "new element"); o.push_back(ToP(v)); }
		CheckSet(l, o); w.check(o); const unsigned sn = sx_choose("snapshot", 4); if (sn & 1) s[0].take(l, o, 0, have > 1 ? 1 : 0); if (sn & 2) s[1].take(l, o, 1, 0); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			switch (sx_choose("op", 8))
			{
			case 0: { const T v((int)sx_choose("id", 4), Tag() & ~1u); const size_t lo = Lower(o, v.id); const bool fresh = Upper(o, v.id) == lo; SX_ASSERT(l.Add(v) == fresh, "result of Add"); if (fresh) o.insert(o.begin() + lo, ToP(v)); break; }
			case 1: { const int k = (int)sx_choose("id", 4); const size_t lo = Lower(o, k); const bool is = Upper(o, k) > lo; SX_ASSERT(l.Remove(T(k)) == is, "result of Remove"); if (is) o.erase(o.begin() + lo); break; }
			case 2: { const size_t r = l.RemoveWhere(OddT()); SX_ASSERT(r == RemoveOdd(o, OddP), "result of RemoveWhere"); break; }
			case 3: l.Clear(); o.clear(); break;
			case 4: s[0].end(); s[0].take(l, o, 0, sx_choose("steps", 2)); break;
			case 5: s[1].end(); s[1].take(l, o, 1, 0); break;
			case 6: s[0].end(); s[1].end(); break;
			default: { S c(l.GetEnumerator()); VP oc(o); CheckSet(c, oc); c.Clear(); CheckSet(c, VP()); break; }
			}
			CheckSet(l, o); w.check(o);
		}
		SetWatch<Obs, true>::late(l, o); s[0].end(); s[1].end(); CheckSet(l, o);
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(sorted_set) { SetHistory<SortedSet<T>, false>(); }
SX_ENTRY(observable_set) { SetHistory<SortedObservableSet<T>, true>(); }
// the same over flat storage and in the order of insertion
SX_ENTRY(set_flavours)
{
	switch (sx_choose("flavour", 4))
	{
	case 0: SetHistory<FlatSortedSet<T>, false>(); break;
	case 1: SetHistory<FlatSortedObservableSet<T>, true>(); break;
	case 2: gins = true; SetHistory<OrderedSet<T>, false>(); break;
	default: gins = true; SetHistory<OrderedObservableSet<T>, true>(); break;
	}
	sx_reach("end");
}
template < typename S, bool Obs > static void MultiSetHistory()
{
	Warm<S>(); { S w; SetWatch<Obs, false> q(w); w.Add(T()); } const u64 heap = sx_heap_live();
	{
		S l; SetWatch<Obs, false> w(l); VP o; Snap s[2]; const int have = (int)sx_choose("elements", 4); static const int ids[3] = { 1, 0, 1 }; for (int i = 0; i < have; ++i) { const u32 t = i == 1 ? Tag() : 2u * ids[i]; const T v(ids[i], i == 1 ? t : 2u * ids[i]); l.Add(v); o.insert(o.begin() + Upper(o, v.id), ToP(v)); }
		CheckSet(l, o); w.check(o); const unsigned sn = sx_choose("snapshot", 4); if (sn & 1) s[0].take(l, o, 0, have > 1 ? 1 : 0); if (sn & 2) s[1].take(l, o, 1, 0); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			switch (sx_choose("op", 9))
			{
			case 0: { const int k = (int)sx_choose("id", 3); u32 tag = 2u * k; for (size_t i = 0; i < o.size(); ++i) if (o[i].k == k) tag = o[i].v; const T v(k, tag); l.Add(v); o.insert(o.begin() + Upper(o, k), ToP(v)); break; }
			case 1: { const int k = (int)sx_choose("id", 3); const size_t lo = Lower(o, k); const bool is = Upper(o, k) > lo; const T v(k, is ? o[lo].v : 0); SX_ASSERT(l.RemoveFirst(v) == is, "result of RemoveFirst"); if (is) o.erase(o.begin() + lo); break; }
			case 2: { const int k = (int)sx_choose("id", 3); const size_t lo = Lower(o, k), hi = Upper(o, k); SX_ASSERT(l.RemoveAll(T(k)) == hi - lo, "result of RemoveAll"); o.erase(o.begin() + lo, o.begin() + hi); break; }
			case 3: { const size_t r = l.RemoveWhere(OddT()); SX_ASSERT(r == RemoveOdd(o, OddP), "result of RemoveWhere"); break; }
			case 4: l.Clear(); o.clear(); break;
			case 5: s[0].end(); s[0].take(l, o, 0, sx_choose("steps", 2)); break;
			case 6: s[1].end(); s[1].take(l, o, 1, 0); break;
			case 7: s[0].end(); s[1].end(); break;
			default: { S c(l.GetEnumerator()); VP oc(o); CheckSet(c, oc); c.Clear(); CheckSet(c, VP()); break; }
			}
			CheckSet(l, o); w.check(o); for (int k = 0; k < 3; ++k) SX_ASSERT(l.Count(T(k)) == Upper(o, k) - Lower(o, k), "number of equal elements");
		}
		SetWatch<Obs, false>::late(l, o); s[0].end(); s[1].end(); CheckSet(l, o);
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(sorted_multiset) { MultiSetHistory<SortedMultiSet<T>, false>(); }
SX_ENTRY(observable_multiset) { MultiSetHistory<SortedObservableMultiSet<T>, true>(); }

// ---- dictionaries
template < typename D > static void CheckDict(D& d, const VP& o)
{
	const D& c = d; SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
	for (int k = 0; k < 4; ++k)
	{
		const size_t lo = Lower(o, k), hi = Upper(o, k); const bool is = hi > lo; SX_ASSERT(c.ContainsKey(k) == is, "presence"); T v; SX_ASSERT(c.TryGet(k, v) == is && (!is || v.tag == o[lo].v), "value of a key"); if (is) SX_ASSERT(c.Get(k).tag == o[lo].v, "value of a key"); else if (k == 3) SX_ASSERT(SX_THROWS(c.Get(k)), "value of an absent key");
		Reads(c.Find(k), is ? VP(o.begin() + lo, o.end()) : VP(), 0, "elements from the found one on"); Reads(c.ReverseFind(k), is ? Rev(VP(o.begin(), o.begin() + hi)) : VP(), 0, "elements from the found one back");
	}
}
template < typename D, bool Obs > static void DictHistory()
{
	Warm<D>(); { D w; DictWatch<Obs, true> q(w); w.Set(1, T()); try { w.Get(9); } catch (const std::exception&) { } } const u64 heap = sx_heap_live();
	{
		D l; DictWatch<Obs, true> w(l); VP o; Snap s[2]; const int have = (int)sx_choose("elements", 4); for (int i = 0; i < have; ++i) { const int id = gins ? have - 1 - i : i; const T v(id, i == 1 ? Tag() : Tag() & ~1u); l.Set(id, v); o.push_back(MkP(id, v.tag)); }
		CheckDict(l, o); w.check(o); const unsigned sn = sx_choose("snapshot", 4); if (sn & 1) s[0].take(l, o, 0, have > 1 ? 1 : 0); if (sn & 2) s[1].take(l, o, 1, 0); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			const int k = (int)sx_choose("id", 4); const size_t lo = Lower(o, k); const bool is = Upper(o, k) > lo; unsigned op = k ? sx_choose("op", 3) : sx_choose("op", 9);
			switch (op)
			{
			case 0: { const T v(0, Tag() & ~1u); SX_ASSERT(l.Add(k, v) == !is, "result of Add"); if (!is) o.insert(o.begin() + lo, MkP(k, v.tag)); break; }
			case 1: { const T v(0, Tag() & ~1u); l.Set(k, v); if (is) o[lo].v = v.tag; else o.insert(o.begin() + lo, MkP(k, v.tag)); break; }
			case 2: SX_ASSERT(l.Remove(k) == is, "result of Remove"); if (is) o.erase(o.begin() + lo); break;
			case 3: { const size_t r = l.RemoveWhere(OddKV()); SX_ASSERT(r == RemoveOdd(o, OddP), "result of RemoveWhere"); break; }
			case 4: l.Clear(); o.clear(); break;
			case 5: s[0].end(); s[0].take(l, o, 0, sx_choose("steps", 2)); break;
			case 6: s[1].end(); s[1].take(l, o, 1, 0); break;
			case 7: s[0].end(); s[1].end(); break;
			default: { D c(l.GetEnumerator()); CheckDict(c, o); c.Clear(); CheckDict(c, VP()); break; }
			}
			CheckDict(l, o); w.check(o);
		}
		DictWatch<Obs, true>::late(l, o); s[0].end(); s[1].end(); CheckDict(l, o);
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(sorted_dictionary) { DictHistory<MapDictionary<int, T>, false>(); }
SX_ENTRY(observable_dictionary) { DictHistory<MapObservableDictionary<int, T>, true>(); }
SX_ENTRY(dictionary_flavours)
{
	switch (sx_choose("flavour", 4))
	{
	case 0: DictHistory<FlatMapDictionary<int, T>, false>(); break;
	case 1: DictHistory<FlatMapObservableDictionary<int, T>, true>(); break;
	case 2: gins = true; DictHistory<OrderedDictionary<int, T>, false>(); break;
	default: gins = true; DictHistory<OrderedObservableDictionary<int, T>, true>(); break;
	}
	sx_reach("end");
}
template < typename D > static void CheckMultiDict(D& d, const VP& o)
{
	const D& c = d; SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
	for (int k = 0; k < 3; ++k)
	{
		const size_t lo = Lower(o, k), hi = Upper(o, k); const bool is = hi > lo; SX_ASSERT(c.ContainsKey(k) == is && c.CountKey(k) == hi - lo, "number of values of a key"); T v; SX_ASSERT(c.TryGetFirst(k, v) == is && (!is || v.tag == o[lo].v), "first value of a key"); if (is) SX_ASSERT(c.GetFirst(k).tag == o[lo].v, "first value of a key"); else if (k == 2) SX_ASSERT(SX_THROWS(c.GetFirst(k)), "value of an absent key");
		Reads(c.Find(k), is ? VP(o.begin() + lo, o.end()) : VP(), 0, "elements from the found one on"); Reads(c.ReverseFind(k), is ? Rev(VP(o.begin(), o.begin() + hi)) : VP(), 0, "elements from the found one back");
		const shared_ptr<IEnumerator<T> > e = c.GetAll(k); size_t i = lo; for (; e->Valid(); e->Next(), ++i) SX_ASSERT(i < hi && e->Get().tag == o[i].v, "values of a key"); SX_ASSERT(i == hi, "values of a key");
	}
}
template < typename D, bool Obs > static void MultiDictHistory()
{
	Warm<D>(); { D w; DictWatch<Obs, false> q(w); w.Add(1, T()); try { w.GetFirst(9); } catch (const std::exception&) { } } const u64 heap = sx_heap_live();
	{
		D l; DictWatch<Obs, false> w(l); VP o; Snap s[2]; const int have = (int)sx_choose("elements", 4); static const int ids[3] = { 1, 0, 1 }; for (int i = 0; i < have; ++i) { const T v(i & 1, (i == 1 ? Tag() : Tag() & ~1u)); const T vi(i, v.tag); l.Add(ids[i], vi); o.insert(o.begin() + Upper(o, ids[i]), MkP(ids[i], vi.tag)); }
		int next = 3; CheckMultiDict(l, o); w.check(o); const unsigned sn = sx_choose("snapshot", 4); if (sn & 1) s[0].take(l, o, 0, have > 1 ? 1 : 0); if (sn & 2) s[1].take(l, o, 1, 0); const int n = sx_tier() ? 3 : 2;
		for (int q = 0; q < n; ++q)
		{
			const int k = (int)sx_choose("id", 3); const size_t lo = Lower(o, k), hi = Upper(o, k); const bool is = hi > lo; unsigned op = k ? sx_choose("op", 4) : sx_choose("op", 10);
			switch (op)
			{
			case 0: { const T v(next++, Tag() & ~1u); l.Add(k, v); o.insert(o.begin() + hi, MkP(k, v.tag)); break; }
			case 1: SX_ASSERT(l.RemoveFirst(k) == is, "result of RemoveFirst"); if (is) o.erase(o.begin() + lo); break;
			case 2: { if (!is) { SX_ASSERT(!l.RemoveFirst(k, T(0)), "removal of an absent pair"); break; } const size_t i = lo + (hi - lo > 1 ? sx_choose("at", hi - lo) : 0); T v; { const shared_ptr<IEnumerator<T> > e = l.GetAll(k); for (size_t j = lo; j < i; ++j) e->Next(); v = e->Get(); } SX_ASSERT(l.RemoveFirst(k, v), "result of RemoveFirst"); o.erase(o.begin() + i); SX_ASSERT(!l.RemoveFirst(k, T(77)), "removal of an absent value"); break; }
			case 3: SX_ASSERT(l.RemoveAll(k) == hi - lo, "result of RemoveAll"); o.erase(o.begin() + lo, o.begin() + hi); break;
			case 4: { const size_t r = l.RemoveWhere(OddKV()); SX_ASSERT(r == RemoveOdd(o, OddP), "result of RemoveWhere"); break; }
			case 5: l.Clear(); o.clear(); break;
			case 6: s[0].end(); s[0].take(l, o, 0, sx_choose("steps", 2)); break;
			case 7: s[1].end(); s[1].take(l, o, 1, 0); break;
			case 8: s[0].end(); s[1].end(); break;
			default: { D c(l.GetEnumerator()); CheckMultiDict(c, o); c.Clear(); CheckMultiDict(c, VP()); break; }
			}
			CheckMultiDict(l, o); w.check(o);
		}
		DictWatch<Obs, false>::late(l, o); s[0].end(); s[1].end(); CheckMultiDict(l, o);
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(multimap_dictionary) { MultiDictHistory<MultiMapDictionary<int, T>, false>(); }
SX_ENTRY(observable_multimap) { MultiDictHistory<MultiMapObservableDictionary<int, T>, true>(); }

// ---- views that follow an observable collection
static T CastT(int x) { return T(x, (u32)x * 2); }
static bool BackT(const T& t, int& x) { x = t.id; return t.id >= 0; }
static int CastI(const T& t) { return (int)t.tag; }
SX_ENTRY(views)
{
	{
		typedef MapObservableDictionary<int, T> D; const shared_ptr<D> d = make_shared_ptr<D>(); VP o; const int have = (int)sx_choose("elements", 3); for (int i = 0; i < have; ++i) { const u32 t = Tag(); d->Set(i, T(i, t)); o.push_back(MkP(i, t)); }
		const shared_ptr<IReadonlyObservableSet<int> > keys = GetDictionaryKeys(d); const shared_ptr<IObservableValue<optional<T> > > kv = GetDictionaryKeyValue(shared_ptr<IObservableDictionary<int, T> >(d), 1);
		const shared_ptr<IObservableSet<int> > set = make_shared_ptr<SortedObservableSet<int> >(); set->Add(5); const shared_ptr<ObservableSetEntry<int, comparers::Equals> > entry = GetSetEntry(set, 1);
		const shared_ptr<ArrayObservableList<int> > list = make_shared_ptr<ArrayObservableList<int> >(); list->Add(1); const shared_ptr<IReadonlyObservableSet<T> > setCast = make_shared_ptr<ObservableSetCaster<int, T> >(set, &CastT, &BackT); const shared_ptr<IReadonlyObservableList<T> > listCast = make_shared_ptr<ObservableListCaster<int, T> >(list, &CastT, &BackT);
		struct W
		{
			std::vector<int> keys; optional<T> kv; int kvs, entries; bool entry; std::vector<int> sc; VP lc; W() : kvs(0), entries(0), entry(false) { }
			void onKey(CollectionOp op, int k) { std::vector<int>::iterator it = std::find(keys.begin(), keys.end(), k); if (op == CollectionOp::Added) { SX_ASSERT(it == keys.end(), "key added twice"); keys.push_back(k); } else { SX_ASSERT(it != keys.end() && op == CollectionOp::Removed, "removal of an absent key"); keys.erase(it); } }
			void onKv(const optional<T>& v) { kv = v; ++kvs; } void onEntry(bool v) { entry = v; ++entries; }
			void onSc(CollectionOp op, const T& t) { std::vector<int>::iterator it = std::find(sc.begin(), sc.end(), t.id); if (op == CollectionOp::Added) sc.push_back(t.id); else { SX_ASSERT(it != sc.end(), "removal of an absent element"); sc.erase(it); } }
			void onLc(CollectionOp op, size_t i, const T& t) { if (op == CollectionOp::Added) lc.insert(lc.begin() + i, ToP(t)); else if (op == CollectionOp::Removed) lc.erase(lc.begin() + i); else lc[i] = ToP(t); }
		} w;
		TokenPool pool; pool += keys->OnChanged().connect(Bind(&W::onKey, &w, _1, _2)); pool += kv->OnChanged().connect(Bind(&W::onKv, &w, _1)); pool += entry->OnChanged().connect(Bind(&W::onEntry, &w, _1)); pool += setCast->OnChanged().connect(Bind(&W::onSc, &w, _1, _2)); pool += listCast->OnChanged().connect(Bind(&W::onLc, &w, _1, _2, _3));
		VP so(1, MkP(5, 10)), lo(1, MkP(1, 2)); bool in = false; const int n = sx_tier() ? 4 : 3;
		for (int q = 0; q < n; ++q)
		{
			const int kvs = w.kvs, entries = w.entries; int kvd = 0, ed = 0; const u32 t = Tag();
			switch (sx_choose("op", 10))
			{
			case 0: { const int k = (int)sx_choose("key", 3); const size_t i = Lower(o, k); const bool is = Upper(o, k) > i; d->Set(k, T(k, t)); if (is) o[i].v = t; else o.insert(o.begin() + i, MkP(k, t)); kvd = k == 1; break; }
			case 1: { const int k = (int)sx_choose("key", 3); const size_t i = Lower(o, k); const bool is = Upper(o, k) > i; d->Remove(k); if (is) o.erase(o.begin() + i); kvd = k == 1 && is; break; }
			case 2: { for (size_t i = 0; i < o.size(); ++i) kvd += o[i].k == 1; d->Clear(); o.clear(); break; }
			case 3: { const size_t i = Lower(o, 1); const bool is = Upper(o, 1) > i; kv->Set(T(1, t)); if (is) o[i].v = t; else o.insert(o.begin() + i, MkP(1, t)); kvd = 1; break; }
			case 4: { const size_t i = Lower(o, 1); const bool is = Upper(o, 1) > i; kv->Set(null); if (is) o.erase(o.begin() + i); kvd = is; break; }
			case 5: entry->Set(true); ed = !in; if (!in) so.insert(so.begin(), MkP(1, 2)); in = true; break;
			case 6: entry->Set(false); ed = in; if (in) so.erase(so.begin()); in = false; break;
			case 7: { const bool on = sx_choose("on", 2); if (on) set->Add(1); else set->Remove(1); ed = in != on; if (on && !in) so.insert(so.begin(), MkP(1, 2)); if (!on && in) so.erase(so.begin()); in = on; break; }
			case 8: { const int x = (int)sx_choose("x", 3); list->Insert(0, x); lo.insert(lo.begin(), MkP(x, (u32)x * 2)); break; }
			default: if (lo.empty()) break; if (sx_choose("set", 2)) { list->Set(lo.size() - 1, 2); lo.back() = MkP(2, 4); } else { list->RemoveAt(lo.size() - 1); lo.pop_back(); } break;
			}
			SX_ASSERT(w.kvs - kvs == kvd, "number of notifications of a value"); SX_ASSERT(w.entries - entries == ed, "number of notifications of an entry");
			SX_ASSERT(keys->GetCount() == o.size() && w.keys.size() == o.size(), "number of keys"); const shared_ptr<IEnumerator<int> > e = keys->GetEnumerator(); for (size_t i = 0; i < o.size(); ++i, e->Next()) { SX_ASSERT(e->Valid() && e->Get() == o[i].k && keys->Contains(o[i].k), "keys"); SX_ASSERT(std::find(w.keys.begin(), w.keys.end(), o[i].k) != w.keys.end(), "keys told to the observer"); } SX_ASSERT(!e->Valid(), "keys");
			const size_t i1 = Lower(o, 1); const bool is1 = Upper(o, 1) > i1; const optional<T> v = kv->Get(); SX_ASSERT(v.is_initialized() == is1 && w.kv.is_initialized() == is1, "presence of a value"); if (is1) SX_ASSERT(v->tag == o[i1].v && w.kv->tag == o[i1].v, "value"); SX_ASSERT(entry->Get() == in && w.entry == in && set->Contains(1) == in, "entry of a set");
			Reads(setCast->GetEnumerator(), so, 0, "cast set"); Reads(setCast->Reverse()->GetEnumerator(), Rev(so), 0, "reversed cast set"); SX_ASSERT(setCast->GetCount() == so.size() && setCast->Contains(T(1)) == in && !setCast->Contains(T(-1)) && w.sc.size() == so.size(), "cast set"); Reads(setCast->Find(T(5)), VP(so.end() - 1, so.end()), 0, "cast search");
			Reads(listCast->GetEnumerator(), lo, 0, "cast list"); SX_ASSERT(listCast->GetCount() == lo.size() && w.lc.size() == lo.size(), "cast list"); for (size_t i = 0; i < lo.size(); ++i) SX_ASSERT(SameP(ToP(listCast->Get(i)), lo[i]) && SameP(w.lc[i], lo[i]), "cast list element"); T tv; SX_ASSERT(!listCast->TryGet(lo.size(), tv) && !listCast->IndexOf(T(-1)), "cast list bounds"); if (!lo.empty()) SX_ASSERT(*listCast->IndexOf(CastT(lo[0].k)) == 0, "cast index");
		}
	}
}

// any keys
SX_ENTRY(any_keys)
{
	const int n = (int)sx_choose("n", sx_tier() ? 4 : 3); const unsigned which = sx_choose("kind", 4); VP o, m; int k[4];
	SortedSet<T> s; SortedMultiSet<T> ms; MapDictionary<int, T> d; MultiMapDictionary<int, T> md;
	for (int i = 0; i < n; ++i)
	{
		k[i] = (int)(signed char)sx_u8("k"); const P p = MkP(k[i], (u32)i); const size_t lo = Lower(o, p.k); const bool is = Upper(o, p.k) > lo;
		switch (which) { case 0: SX_ASSERT(s.Add(T(p.k, p.v)) == !is, "result of Add"); break; case 1: ms.Add(T(p.k, p.v)); break; case 2: SX_ASSERT(d.Add(p.k, T(p.k, p.v)) == !is, "result of Add"); break; default: md.Add(p.k, T(p.k, p.v)); break; }
		m.insert(m.begin() + Upper(m, p.k), p); if (!is) o.insert(o.begin() + lo, p);
	}
	const int key = (int)(signed char)sx_u8("key"); const VP& a = (which & 1) ? m : o; const size_t lo = Lower(a, key), hi = Upper(a, key); const bool is = hi > lo; const VP from = is ? VP(a.begin() + lo, a.end()) : VP(), back = is ? Rev(VP(a.begin(), a.begin() + hi)) : VP();
	switch (which)
	{
	case 0: Reads(s.GetEnumerator(), a, 0, "contents"); SX_ASSERT(s.Contains(T(key)) == is, "presence"); Reads(s.Find(T(key)), from, 0, "elements from the found one on"); Reads(s.ReverseFind(T(key)), back, 0, "elements from the found one back"); SX_ASSERT(s.Remove(T(key)) == is && s.GetCount() == a.size() - (is ? 1 : 0), "removal"); break;
	case 1: Reads(ms.GetEnumerator(), a, 0, "contents"); SX_ASSERT(ms.Count(T(key)) == hi - lo, "number of equal elements"); Reads(ms.Find(T(key)), from, 0, "elements from the found one on"); Reads(ms.ReverseFind(T(key)), back, 0, "elements from the found one back"); SX_ASSERT(ms.RemoveAll(T(key)) == hi - lo && ms.GetCount() == a.size() - (hi - lo), "removal"); break;
	case 2: { Reads(d.GetEnumerator(), a, 0, "contents"); T v; SX_ASSERT(d.TryGet(key, v) == is && (!is || v.tag == a[lo].v), "value of a key"); Reads(d.Find(key), from, 0, "elements from the found one on"); Reads(d.ReverseFind(key), back, 0, "elements from the found one back"); d.Set(key, T(key, 9)); SX_ASSERT(d.Get(key).tag == 9 && d.GetCount() == a.size() + (is ? 0 : 1), "set value"); break; }
	default: { Reads(md.GetEnumerator(), a, 0, "contents"); Reads(md.Find(key), from, 0, "elements from the found one on"); Reads(md.ReverseFind(key), back, 0, "elements from the found one back"); SX_ASSERT(md.RemoveFirst(key) == is && md.GetCount() == a.size() - (is ? 1 : 0), "removal"); if (is && hi - lo > 1) SX_ASSERT(md.GetFirst(key).tag == a[lo + 1].v, "remaining value"); break; }
	}
}
