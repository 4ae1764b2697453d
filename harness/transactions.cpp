// Transactional lists, sets and dictionaries: committed and pending contents against a model, diffs that replay, snapshots, one transaction at a time.
#include "sx.h"
#include "threads.h"
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <vector>
using namespace stingray;

// equal numbers carry equal contents, which are arbitrary
static u32 tag_[8];
struct T { int id; u32 tag; T(int i = 0) : id(i), tag(tag_[i]) { } bool operator == (const T& o) const { return id == o.id; } bool operator != (const T& o) const { return id != o.id; } bool operator < (const T& o) const { return id < o.id; } };
static void Tags() { for (int i = 0; i < 8; ++i) tag_[i] = sx_u32("tag"); }
struct P { int k, v; P(int a = 0, int b = 0) : k(a), v(b) { } };
typedef std::vector<P> VP;
static P ToP(const T& t) { SX_ASSERT(t.tag == tag_[t.id], "contents of an element"); return P(t.id, t.id); }
template < typename K > static P ToP(const KeyValuePair<K, T>& p) { return P((int)p.Key, ToP(p.Value).v); }
static bool Same(const P& a, const P& b) { return a.k == b.k && a.v == b.v; }
static VP Rev(const VP& v) { return VP(v.rbegin(), v.rend()); }
template < typename En > static void Reads(const En& e, const VP& o, size_t from, const char* what) { size_t i = from; for (; e->Valid(); e->Next(), ++i) { SX_ASSERT(i < o.size(), what); SX_ASSERT(Same(ToP(e->Get()), o[i]), what); } SX_ASSERT(i == o.size() || from > o.size(), what); }
static size_t Lower(const VP& o, int k) { size_t i = 0; while (i < o.size() && o[i].k < k) ++i; return i; }
static bool Has(const VP& o, int k) { const size_t i = Lower(o, k); return i < o.size() && o[i].k == k; }
static void Put(VP& o, int k, int v) { const size_t i = Lower(o, k); if (Has(o, k)) o[i].v = v; else o.insert(o.begin() + i, P(k, v)); }
static bool Drop(VP& o, int k) { if (!Has(o, k)) return false; o.erase(o.begin() + Lower(o, k)); return true; }
static bool SameAll(const VP& a, const VP& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!Same(a[i], b[i])) return false; return true; }
struct Snap
{
	std::function<void ()> done; void end() { if (done) done(); done = nullptr; }
	template < typename C > void take(const C& c, const VP& now, bool rev, unsigned steps)
	{
		if (!rev) { decltype(c.GetEnumerator()) e = c.GetEnumerator(); const VP o = now; size_t from = 0; for (; from < steps && e->Valid(); ++from) e->Next(); done = [=]() { Reads(e, o, from, "contents changed under their reader"); }; }
		else { decltype(c.Reverse()) r = c.Reverse(); const VP o = Rev(now); done = [=]() { Reads(r->GetEnumerator(), o, 0, "reversed contents changed under their reader"); Reads(r->GetEnumerator(), o, 0, "reversed contents changed under their reader"); }; }
	}
};
// keyed: sets (k == v) and dictionaries; lists: k is the index
template < typename D > static void ApplyKeyed(VP& seen, const D& diff)
{
	bool any = false; const auto e = diff->GetEnumerator(); for (; e->Valid(); e->Next()) { any = true; const auto d = e->Get(); const P p = ToP(d.Item); SX_ASSERT(d.Op != CollectionOp::Updated, "operation of a change"); if (d.Op == CollectionOp::Added) { SX_ASSERT(!Has(seen, p.k), "added twice"); Put(seen, p.k, p.v); } else { SX_ASSERT(Has(seen, p.k) && seen[Lower(seen, p.k)].v == p.v, "removal of what was not there"); Drop(seen, p.k); } }
	SX_ASSERT(any, "told of no change");
}
template < typename D > static void ApplyList(VP& seen, const D& diff)
{
	bool any = false; const auto e = diff->GetEnumerator(); for (; e->Valid(); e->Next()) { any = true; const auto d = e->Get(); const int i = (int)d.Item.Key; const P p = ToP(d.Item.Value); SX_ASSERT(d.Op != CollectionOp::Updated, "operation of a change"); if (d.Op == CollectionOp::Added) { SX_ASSERT(i <= (int)seen.size(), "index of an added element"); seen.insert(seen.begin() + i, p); } else { SX_ASSERT(i < (int)seen.size() && seen[i].v == p.v, "removed element"); seen.erase(seen.begin() + i); } }
	SX_ASSERT(any, "told of no change");
}
static void Num(VP& o) { for (size_t i = 0; i < o.size(); ++i) o[i].k = o[i].v; }

// ---- kinds of collections
struct OddT : public function_info<bool (const T&)> { bool operator () (const T& t) const { return t.id & 1; } };
struct OddKV : public function_info<bool (int, const T&)> { bool operator () (int, const T& t) const { return t.id & 1; } };
static bool OddP(const P& p) { return p.v & 1; }
static size_t RemoveOdd(VP& o) { size_t n = 0; for (size_t i = 0; i < o.size(); ) if (OddP(o[i])) { o.erase(o.begin() + i); ++n; } else ++i; return n; }
struct SetKind
{
	typedef TransactionalSet<T> C; typedef ISetTransaction<T> Tr; enum { Ops = 4 };
	template < typename D > static void apply(VP& seen, const D& d) { ApplyKeyed(seen, d); }
	static void start(Tr& t, VP& o, int i) { const int k = i == 2 ? 0 : i + 1; SX_ASSERT(t.Add(T(k)), "result of Add"); Put(o, k, k); }
	static void op(Tr& t, VP& o, unsigned op)
	{
		switch (op)
		{
		case 0: { const int k = (int)sx_choose("k", 3); SX_ASSERT(t.Add(T(k)) == !Has(o, k), "result of Add"); Put(o, k, k); break; }
		case 1: { const int k = (int)sx_choose("k", 3); SX_ASSERT(t.Remove(T(k)) == Drop(o, k), "result of Remove"); break; }
		case 2: { const size_t r = t.RemoveWhere(OddT()); SX_ASSERT(r == RemoveOdd(o), "result of RemoveWhere"); break; }
		default: t.Clear(); o.clear(); break;
		}
	}
	template < typename S > static void check(const S& c, const VP& o)
	{
		SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
		for (int k = 0; k < 3; ++k) { const bool is = Has(o, k); SX_ASSERT(c.Contains(T(k)) == is, "presence"); Reads(c.Find(T(k)), is ? VP(o.begin() + Lower(o, k), o.end()) : VP(), 0, "elements from the found one on"); Reads(c.ReverseFind(T(k)), is ? Rev(VP(o.begin(), o.begin() + Lower(o, k) + 1)) : VP(), 0, "elements back from the found one"); }
	}
};
struct DictKind
{
	typedef TransactionalDictionary<int, T> C; typedef IDictionaryTransaction<int, T> Tr; enum { Ops = 5 };
	template < typename D > static void apply(VP& seen, const D& d) { ApplyKeyed(seen, d); }
	static void start(Tr& t, VP& o, int i) { const int k = i == 2 ? 0 : i + 1; t.Set(k, T(k)); Put(o, k, k); }
	static void op(Tr& t, VP& o, unsigned op)
	{
		switch (op)
		{
		case 0: { const int k = (int)sx_choose("k", 3), v = k + (int)sx_choose("v", 2); SX_ASSERT(t.Add(k, T(v)) == !Has(o, k), "result of Add"); if (!Has(o, k)) Put(o, k, v); break; }
		case 1: { const int k = (int)sx_choose("k", 3); SX_ASSERT(t.Remove(k) == Drop(o, k), "result of Remove"); break; }
		case 2: { const size_t r = t.RemoveWhere(OddKV()); SX_ASSERT(r == RemoveOdd(o), "result of RemoveWhere"); break; }
		case 3: t.Clear(); o.clear(); break;
		default: { const int k = (int)sx_choose("k", 3), v = k + (int)sx_choose("v", 2); t.Set(k, T(v)); Put(o, k, v); break; }
		}
	}
	template < typename S > static void check(const S& c, const VP& o)
	{
		SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
		for (int k = 0; k < 3; ++k)
		{
			const bool is = Has(o, k); SX_ASSERT(c.ContainsKey(k) == is, "presence"); T v; SX_ASSERT(c.TryGet(k, v) == is && (!is || ToP(v).v == o[Lower(o, k)].v), "value of a key"); if (is) SX_ASSERT(ToP(c.Get(k)).v == o[Lower(o, k)].v, "value of a key");
			Reads(c.Find(k), is ? VP(o.begin() + Lower(o, k), o.end()) : VP(), 0, "elements from the found one on"); Reads(c.ReverseFind(k), is ? Rev(VP(o.begin(), o.begin() + Lower(o, k) + 1)) : VP(), 0, "elements back from the found one");
		}
		SX_ASSERT(SX_THROWS(c.Get(3)), "value of an absent key");
	}
};
struct ListKind
{
	typedef TransactionalList<T, comparers::Equals> C; typedef IListTransaction<T> Tr; enum { Ops = 7 };
	template < typename D > static void apply(VP& seen, const D& d) { ApplyList(seen, d); }
	static void start(Tr& t, VP& o, int i) { const int v = i == 2 ? 1 : i + 1; t.Add(T(v)); o.push_back(P(v, v)); }
	static void op(Tr& t, VP& o, unsigned op)
	{
		switch (op)
		{
		case 0: { const int v = (int)sx_choose("v", 2) * 2; t.Add(T(v)); o.push_back(P(v, v)); break; }
		case 1: { const int v = (int)sx_choose("v", 4); size_t i = 0; while (i < o.size() && o[i].v != v) ++i; SX_ASSERT(t.Remove(T(v)) == (i < o.size()), "result of Remove"); if (i < o.size()) o.erase(o.begin() + i); break; }
		case 2: { const size_t r = t.RemoveAll(OddT()); SX_ASSERT(r == RemoveOdd(o), "result of RemoveAll"); break; }
		case 3: t.Clear(); o.clear(); break;
		case 4: { const size_t i = sx_choose("at", o.size() + 1); const int v = 1 + (int)sx_choose("v", 2); const bool x = SX_THROWS(t.Set(i, T(v))); SX_ASSERT(x == (i >= o.size()), "range check of Set"); if (!x) o[i] = P(v, v); break; }
		case 5: { const size_t i = sx_choose("at", o.size() + 2); const bool x = SX_THROWS(t.Insert(i, T(1))); SX_ASSERT(x == (i > o.size()), "range check of Insert"); if (!x) o.insert(o.begin() + i, P(1, 1)); break; }
		default: { const size_t i = sx_choose("at", o.size() + 1); const bool x = SX_THROWS(t.RemoveAt(i)); SX_ASSERT(x == (i >= o.size()), "range check of RemoveAt"); if (!x) o.erase(o.begin() + i); break; }
		}
	}
	template < typename S > static void check(const S& c, const VP& o)
	{
		SX_ASSERT(c.GetCount() == o.size() && c.IsEmpty() == o.empty(), "count"); Reads(c.GetEnumerator(), o, 0, "contents"); Reads(c.Reverse()->GetEnumerator(), Rev(o), 0, "reversed contents");
		for (size_t i = 0; i < o.size(); ++i) { T v; SX_ASSERT(ToP(c.Get(i)).v == o[i].v && c.TryGet(i, v) && v.id == o[i].v, "element by index"); } T v; SX_ASSERT(!c.TryGet(o.size(), v) && SX_THROWS(c.Get(o.size())), "index past the end");
		for (int k = 0; k < 3; ++k) { size_t i = 0; while (i < o.size() && o[i].v != k) ++i; const optional<size_t> r = c.IndexOf(T(k)); SX_ASSERT(c.Contains(T(k)) == (i < o.size()) && r.is_initialized() == (i < o.size()) && (!r || *r == i), "index of an element"); }
	}
};
template < typename K > struct Watch
{
	VP seen; int calls; Token t; typename K::C& c; bool look;
	Watch(typename K::C& c_, bool look_ = false) : calls(0), c(c_), look(look_) { t = c.OnChanged().connect(Bind(&Watch::on, this, _1)); }
	void on(const typename K::C::DiffTypePtr& d) { ++calls; K::apply(seen, d); if (look) Reads(c.GetEnumerator(), seen, 0, "contents at the time of a notification"); }
};
template < typename K > static void History()
{
	Tags(); typedef typename K::C C; { C w; Watch<K> q(w); VP o; const auto t = w.StartTransaction(); K::start(*t, o, 0); K::check(*t, o); t->Diff()->GetEnumerator(); t->Commit(); K::check(w, o); } const u64 heap = sx_heap_live();
	{
		C c; VP com, pen; Watch<K> w(c, true); const int have = (int)sx_choose("elements", 3);
		{ const auto t = c.StartTransaction(); for (int i = 0; i < have; ++i) K::start(*t, com, i); t->Commit(); }
		SX_ASSERT(w.calls == (have > 0) && SameAll(w.seen, com), "told of the first contents"); pen = com; Snap s[4]; int base = w.calls;
		{
			auto t = c.StartTransaction(); const unsigned what = sx_choose("snapshot", 3); const int n = (sx_tier() ? 4 : 3) - (K::Ops != 4);
			for (int q = 0; q < n; ++q)
			{
				const unsigned op = sx_choose("op", K::Ops + 3);
				if (op < K::Ops) K::op(*t, pen, op);
				else if (op == K::Ops) { const bool changed = !SameAll(com, pen); const int calls = w.calls; t->Commit(); com = pen; SX_ASSERT(w.calls - calls == changed, "notifications of a commit"); }
				else if (op == K::Ops + 1) { t->Revert(); pen = com; }
				else { if (sx_choose("close", 2)) { t.reset(); pen = com; t = c.StartTransaction(); } else { for (int i = 0; i < 4; ++i) s[i].end(); } }
				K::check(c, com); K::check(*t, pen); SX_ASSERT(SameAll(w.seen, com), "contents told to the observer");
				if (!SameAll(com, pen)) { SX_ASSERT(t->IsDirty(), "unsaved changes not reported"); VP r(com); K::apply(r, t->Diff()); SX_ASSERT(SameAll(r, pen), "what the diff leads to"); } else SX_ASSERT(!t->Diff()->GetEnumerator()->Valid(), "diff without a change");
				if (q == 0) { if (what == 1) { s[0].take(*t, pen, false, pen.size() > 1); s[1].take(c, com, true, 0); } else if (what == 2) { s[0].take(*t, pen, true, 0); s[1].take(c, com, false, 0); const bool none = SameAll(com, pen); const auto d = t->Diff(); const VP a(com), b(pen); s[2].done = [=]() { VP r(a); if (!none) K::apply(r, d); SX_ASSERT(none ? !d->GetEnumerator()->Valid() : SameAll(r, b), "diff changed under its reader"); }; } }
			}
			if (sx_choose("last", 2)) { const auto d = t->Diff(); C m; VP o; { const auto u = m.StartTransaction(); if (com.size()) { Watch<K> all(c); const auto e = c.GetEnumerator(); (void)e; } for (int i = 0; i < have; ++i) K::start(*u, o, i); if (SameAll(o, com)) { for (const auto e = d->GetEnumerator(); e->Valid(); e->Next()) u->Apply(e->Get()); K::check(*u, pen); u->Commit(); K::check(m, pen); } } t->Commit(); com = pen; }
		}
		K::check(c, com); SX_ASSERT(SameAll(w.seen, com), "contents told to the observer"); Watch<K> late(c); SX_ASSERT(late.calls == (com.size() > 0) && SameAll(late.seen, com), "contents told to a late observer"); for (int i = 0; i < 4; ++i) s[i].end(); (void)base;
	}
	SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}
SX_ENTRY(set_history) { History<SetKind>(); }
SX_ENTRY(dict_history) { History<DictKind>(); }
SX_ENTRY(list_history) { History<ListKind>(); }

// ---- arbitrary values
SX_ENTRY(any_values)
{
	typedef TransactionalDictionary<int, u8> D; D d; bool is[2] = { false, false }; u8 v[2] = { 0, 0 }; bool cis[2]; u8 cv[2]; { const auto t = d.StartTransaction(); const int have = (int)sx_choose("have", 3); for (int i = 0; i < have; ++i) { v[i] = sx_u8("v"); is[i] = true; t->Set(i, v[i]); } t->Commit(); }
	for (int i = 0; i < 2; ++i) { cis[i] = is[i]; cv[i] = v[i]; }
	const auto t = d.StartTransaction(); const int n = 3;
	for (int q = 0; q < n; ++q)
	{
		const int k = (int)sx_choose("k", 2); const u8 x = sx_u8("x");
		switch (sx_choose("op", 3)) { case 0: t->Set(k, x); v[k] = x; is[k] = true; break; case 1: SX_ASSERT(t->Add(k, x) == !is[k], "result of Add"); if (!is[k]) { v[k] = x; is[k] = true; } break; default: SX_ASSERT(t->Remove(k) == is[k], "result of Remove"); is[k] = false; break; }
	}
	bool ris[2]; u8 rv[2]; for (int i = 0; i < 2; ++i) { ris[i] = cis[i]; rv[i] = cv[i]; } const bool same = sx_and(cis[0] == is[0] && (!is[0] || v[0] == cv[0]), cis[1] == is[1] && (!is[1] || v[1] == cv[1])); SX_ASSERT(t->IsDirty() == !same, "unsaved changes");
	const auto e = t->Diff()->GetEnumerator(); SX_ASSERT(e->Valid() == !same, "diff without a change"); for (; e->Valid(); e->Next()) { const auto x = e->Get(); const int k = x.Item.Key; if (x.Op == CollectionOp::Added) { SX_ASSERT(!ris[k], "added twice"); ris[k] = true; rv[k] = x.Item.Value; } else { SX_ASSERT(ris[k] && rv[k] == x.Item.Value, "removal of what was not there"); ris[k] = false; } }
	t->Commit(); for (int i = 0; i < 2; ++i) { u8 g = 0; SX_ASSERT(ris[i] == is[i] && (!is[i] || rv[i] == v[i]), "what the diff leads to"); SX_ASSERT(d.TryGet(i, g) == is[i] && (!is[i] || g == v[i]), "committed value"); }
}

// ---- views of a dictionary
SX_ENTRY(views)
{
	Tags(); typedef TransactionalDictionary<int, T> D; const shared_ptr<D> d = make_shared_ptr<D>(); VP o; { const auto t = d->StartTransaction(); const int have = (int)sx_choose("elements", 3); for (int i = 0; i < have; ++i) DictKind::start(*t, o, i); t->Commit(); }
	struct W
	{
		VP keys; optional<T> kv; int keyCalls, kvCalls; W() : keyCalls(0), kvCalls(0) { }
		void onKeys(const IReadonlyTransactionalSet<int>::DiffTypePtr& diff) { ++keyCalls; bool any = false; const auto e = diff->GetEnumerator(); for (; e->Valid(); e->Next()) { any = true; const auto x = e->Get(); if (x.Op == CollectionOp::Added) { SX_ASSERT(!Has(keys, x.Item), "key added twice"); Put(keys, x.Item, 0); } else SX_ASSERT(Drop(keys, x.Item), "removal of an absent key"); } SX_ASSERT(any, "told of no change"); }
		void onKv(const optional<T>& v) { ++kvCalls; kv = v; }
	} w;
	const auto keys = GetDictionaryKeys(d); const auto kv = GetDictionaryKeyValue(d, 1); const Token t1 = keys->OnChanged().connect(Bind(&W::onKeys, &w, _1)), t2 = kv->OnChanged().connect(Bind(&W::onKv, &w, _1)); const int n = sx_tier() ? 3 : 2;
	for (int r = 0; r < 2; ++r)
	{
		VP was(o); const int kc = w.keyCalls, vc = w.kvCalls; { const auto t = d->StartTransaction(); for (int q = r; q < n; ++q) DictKind::op(*t, o, sx_choose("op", DictKind::Ops)); if (sx_choose("commit", 2)) t->Commit(); else o = was; }
		bool keysSame = was.size() == o.size(); for (size_t i = 0; keysSame && i < o.size(); ++i) keysSame = was[i].k == o[i].k; const bool h0 = Has(was, 1), h1 = Has(o, 1); const bool valSame = h0 == h1 && (!h0 || was[Lower(was, 1)].v == o[Lower(o, 1)].v);
		SX_ASSERT(w.keyCalls - kc == !keysSame && w.kvCalls - vc == !valSame, "number of notifications"); SX_ASSERT(w.keys.size() == o.size() && keys->GetCount() == o.size() && keys->IsEmpty() == o.empty(), "number of keys"); const auto e = keys->GetEnumerator(); for (size_t i = 0; i < o.size(); ++i, e->Next()) SX_ASSERT(w.keys[i].k == o[i].k && e->Valid() && e->Get() == o[i].k && keys->Contains(o[i].k), "key"); SX_ASSERT(!e->Valid(), "keys");
		const optional<T> v = kv->Get(); SX_ASSERT(v.is_initialized() == h1 && w.kv.is_initialized() == h1, "presence of the value"); if (h1) SX_ASSERT(ToP(*v).v == o[Lower(o, 1)].v && ToP(*w.kv).v == o[Lower(o, 1)].v, "value of the key");
	}
}

// ---- threads
static TransactionalDictionary<int, u32>* D_;
static TransactionalList<u32, comparers::Equals>* L_;
static TransactionalSet<int>* S_;
static CancellationToken* tok_;
static u32 add_[2]; static int refused_, calls_; static u32 last_;
static void Warm() { sx_atomic(1); { Thr w = go(+[] { }); join(w); } try { throw OperationCancelledException(); } catch (const std::exception&) { } sx_atomic(1); }
template < int I > static void AddBoth() { const auto t = D_->StartTransaction(); const u32 a = t->Get(0), b = t->Get(1); SX_ASSERT(a == b, "half of another transaction is visible"); t->Set(0, a + add_[I]); t->Set(1, b + add_[I]); t->Commit(); }
static void ReadBoth() { const auto e = D_->GetEnumerator(); SX_ASSERT(e->Valid(), "missing"); const u32 a = e->Get().Value; e->Next(); SX_ASSERT(e->Valid() && e->Get().Value == a, "half of a transaction is visible"); e->Next(); SX_ASSERT(!e->Valid(), "too much"); MutexLock l(D_->GetSyncRoot()); const u32 b = D_->Get(0); SX_ASSERT(b == D_->Get(1) && D_->GetCount() == 2, "half of a transaction is visible under the lock"); }
struct OnDict { void on(const TransactionalDictionary<int, u32>::DiffTypePtr& d) { ++calls_; const auto e = d->GetEnumerator(); for (; e->Valid(); e->Next()) if (e->Get().Op == CollectionOp::Added) last_ = e->Get().Item.Value; SX_ASSERT(D_->Get(0) == D_->Get(1) && D_->Get(0) == last_, "contents at the time of a notification"); } };
SX_ENTRY(concurrent_dict)
{
	for (int i = 0; i < 2; ++i) { add_[i] = sx_u8("add"); SX_ASSUME(add_[i] != 0); } const u32 v = sx_u32("v"); calls_ = 0; Warm(); TransactionalDictionary<int, u32> d; D_ = &d; { const auto t = d.StartTransaction(); t->Set(0, v); t->Set(1, v); t->Commit(); } OnDict o; { const Token t = d.OnChanged().connect(Bind(&OnDict::on, &o, _1)); SX_ASSERT(calls_ == 1 && last_ == v, "current contents told"); sx_atomic(0);
	Thr a = go(&AddBoth<0>), b = go(&AddBoth<1>); ReadBoth(); join(a); join(b); } const u32 sum = v + add_[0] + add_[1]; SX_ASSERT(d.Get(0) == sum && d.Get(1) == sum, "a transaction was lost"); SX_ASSERT(calls_ == 3 && last_ == sum, "notifications of commits");
}
template < int I > static void Append() { const auto t = L_->StartTransaction(); const size_t n = t->GetCount(); t->Add(add_[I]); SX_ASSERT(t->GetCount() == n + 1 && t->Get(n) == add_[I], "own change not visible"); t->Commit(); }
static void ReadList() { const auto e = L_->GetEnumerator(); const size_t n = L_->GetCount(); size_t m = 0; for (; e->Valid(); e->Next()) ++m; SX_ASSERT(m <= n, "contents shrank"); }
SX_ENTRY(concurrent_list)
{
	for (int i = 0; i < 2; ++i) add_[i] = sx_u32("add"); Warm(); TransactionalList<u32, comparers::Equals> l; L_ = &l; sx_atomic(0); Thr a = go(&Append<0>), b = go(&Append<1>); ReadList(); join(a); join(b);
	SX_ASSERT(l.GetCount() == 2, "a transaction was lost"); const u32 x = l.Get(0), y = l.Get(1); SX_ASSERT(sx_or(sx_and(x == add_[0], y == add_[1]), sx_and(x == add_[1], y == add_[0])), "contents after both transactions");
}
static void AppendOne() { const auto t = L_->StartTransaction(); t->Add(add_[1]); t->Commit(); }
SX_ENTRY(concurrent_watch)
{
	for (int i = 0; i < 2; ++i) add_[i] = sx_u32("add"); Warm(); TransactionalList<u32, comparers::Equals> l; L_ = &l; struct W { u32 seen[4]; int n; W() : n(0) { } void on(const TransactionalList<u32, comparers::Equals>::DiffTypePtr& d) { for (const auto e = d->GetEnumerator(); e->Valid(); e->Next()) { SX_ASSERT(e->Get().Op == CollectionOp::Added && (int)e->Get().Item.Key == n && n < 2, "told twice of an element"); seen[n++] = e->Get().Item.Value; } } } w;
	{ const auto t = l.StartTransaction(); t->Add(add_[0]); t->Commit(); } sx_atomic(0); Thr a = go(&AppendOne); { const Token c = l.OnChanged().connect(Bind(&W::on, &w, _1)); join(a); } SX_ASSERT(w.n == 2 && w.seen[0] == add_[0] && w.seen[1] == add_[1], "elements told to an observer that connects during a commit");
}
static void Cancelled() { try { const auto t = S_->StartTransaction(*tok_); SX_ASSERT(t->GetCount() == S_->GetCount(), "contents at the start"); t->Add(2); t->Commit(); } catch (const OperationCancelledException&) { ++refused_; } }
static void Hold() { const auto t = S_->StartTransaction(); t->Add(1); t->Commit(); }
static void Cancel() { tok_->Cancel(); }
SX_ENTRY(cancelled_start)
{
	refused_ = 0; Warm(); TransactionalSet<int> s; S_ = &s; CancellationToken tok; tok_ = &tok; sx_atomic(0); Thr a = go(&Hold), b = go(&Cancelled), c = go(&Cancel); join(a); join(b); join(c);
	SX_ASSERT(s.Contains(1) && s.Contains(2) == !refused_, "contents after a refused transaction"); { const auto t = s.StartTransaction(); t->Add(3); t->Commit(); } SX_ASSERT(s.Contains(3), "the set is unusable after a refused transaction");
	{ const auto t = s.StartTransaction(); bool timed = false, cancelled = false; try { s.StartTransaction(TimedCancellationToken(TimeDuration(5))); } catch (const TimeoutException&) { timed = true; } try { s.StartTransaction(tok); } catch (const OperationCancelledException&) { cancelled = true; } SX_ASSERT(timed && cancelled, "second transaction was not refused"); }
	{ const auto t = s.StartTransaction(TimedCancellationToken(TimeDuration(5))); SX_ASSERT(t->GetCount() == s.GetCount(), "contents at the start"); }
}

// one transaction that treats every key its own way: kept, removed, added, replaced or absent
template < typename Tr, typename C > static void BulkCheck(const Tr& t, const C& c, const VP& com, const VP& pen, int keys)
{
	Reads(t.GetEnumerator(), pen, 0, "pending contents"); Reads(t.Reverse()->GetEnumerator(), Rev(pen), 0, "reversed pending contents"); Reads(c.GetEnumerator(), com, 0, "committed contents"); SX_ASSERT(t.GetCount() == pen.size() && t.IsEmpty() == pen.empty() && c.GetCount() == com.size(), "count");
	if (!SameAll(com, pen)) { VP seen(com); ApplyKeyed(seen, t.Diff()); SX_ASSERT(SameAll(seen, pen), "difference"); }
}
template < typename Tr, typename Key > static void BulkFind(const Tr& t, const VP& pen, int k, const Key& key) { const bool is = Has(pen, k); Reads(t.Find(key), is ? VP(pen.begin() + Lower(pen, k), pen.end()) : VP(), 0, "elements from the found one on"); Reads(t.ReverseFind(key), is ? Rev(VP(pen.begin(), pen.begin() + Lower(pen, k) + 1)) : VP(), 0, "elements back from the found one"); }
SX_ENTRY(bulk_set)
{
	Tags(); const int n = sx_tier() ? 6 : 5; TransactionalSet<T> c; VP com, pen; unsigned how[6]; for (int i = 0; i < n; ++i) how[i] = sx_choose("how", 4);
	{ const auto t = c.StartTransaction(); for (int i = 0; i < n; ++i) if (how[i] < 2) { t->Add(T(i)); Put(com, i, i); } t->Commit(); } pen = com; Watch<SetKind> w(c); const auto t = c.StartTransaction();
	for (int i = n; i--; ) if (how[i] == 1) { SX_ASSERT(t->Remove(T(i)), "removed"); Drop(pen, i); } else if (how[i] == 2) { SX_ASSERT(t->Add(T(i)), "added"); Put(pen, i, i); }
	BulkCheck(*t, c, com, pen, n); for (int i = 0; i < n; ++i) BulkFind(*t, pen, i, T(i)); t->Commit(); SX_ASSERT(SameAll(w.seen, pen), "told of the changes"); Reads(c.GetEnumerator(), pen, 0, "contents");
}
SX_ENTRY(bulk_dict)
{
	Tags(); const int n = sx_tier() ? 5 : 4; TransactionalDictionary<int, T> c; VP com, pen; unsigned how[6]; for (int i = 0; i < n; ++i) how[i] = sx_choose("how", 5);
	{ const auto t = c.StartTransaction(); for (int i = 0; i < n; ++i) if (how[i] < 3) { t->Add(i, T(i)); Put(com, i, i); } t->Commit(); } pen = com; Watch<DictKind> w(c); const auto t = c.StartTransaction();
	for (int i = 0; i < n; ++i) if (how[i] == 1) { SX_ASSERT(t->Remove(i), "removed"); Drop(pen, i); } else if (how[i] >= 2 && how[i] < 4) { t->Set(i, T(i + how[i] - 1)); Put(pen, i, i + how[i] - 1); }
	BulkCheck(*t, c, com, pen, n); for (int i = 0; i < n; ++i) BulkFind(*t, pen, i, i); t->Commit(); SX_ASSERT(SameAll(w.seen, pen), "told of the changes"); Reads(c.GetEnumerator(), pen, 0, "contents");
}
SX_ENTRY(bulk_list)
{
	Tags(); const int from = (int)sx_choose("from", 5), to = (int)sx_choose("to", 5); TransactionalList<T, comparers::Equals> c; VP com, pen; { const auto t = c.StartTransaction(); for (int i = 0; i < from; ++i) { t->Add(T(i)); com.push_back(P(i, i)); } t->Commit(); }
	Watch<ListKind> w(c); const auto t = c.StartTransaction(); t->Clear(); for (int i = 0; i < to; ++i) { const int v = i < from && sx_choose("kept", 2) ? i : i + 1; t->Add(T(v)); pen.push_back(P(v, v)); }
	if (!SameAll(com, pen)) { VP seen(com); ApplyList(seen, t->Diff()); SX_ASSERT(SameAll(seen, pen), "difference"); } Reads(t->GetEnumerator(), pen, 0, "pending contents"); t->Commit(); SX_ASSERT(SameAll(w.seen, pen), "told of the changes"); Reads(c.GetEnumerator(), pen, 0, "contents");
}
