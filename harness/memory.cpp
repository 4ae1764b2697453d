// Owning pointers, tokens and holders against a model that counts every object's owners.
#include "sx.h"
#include <stingraykit/shared_ptr.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/unique_ptr.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/function/function.h>
#include <stingraykit/Holder.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/FunctionToken.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/ref_count.h>

using namespace stingray;

static int made, gone[64], alive; static int order_[64], orders; static void (*onDie)(int);
static void Born(int& id) { id = made++; ++alive; gone[id] = 0; }
static void Dies(int id) { ++gone[id]; --alive; if (orders < 64) order_[orders++] = id; SX_ASSERT(gone[id] == 1, "object destroyed twice"); if (onDie) onDie(id); }
struct Other { u64 pad; virtual ~Other() { } };
struct Base { int id; u32 tag; Base() : tag(0x5a5a) { Born(id); } virtual ~Base() { SX_ASSERT(tag == 0x5a5a, "destroyed memory used"); tag = 0; Dies(id); } };
struct Derived : public Other, public Base { u32 member; Derived() : member(7) { } };
static void Begin() { made = alive = orders = 0; onDie = 0; }

// a slot refers to an owner group (object id) and points to an address
struct Ref { int obj; const void* p; Ref() : obj(-1), p(0) { } Ref(int o, const void* q) : obj(o), p(q) { } };
typedef shared_ptr<Base> SP; typedef weak_ptr<Base> WP;
struct World
{
	SP s[2]; WP w[2]; Ref ms[2], mw[2];
	int count(int o) const { if (o < 0) return 0; int c = 0; for (int i = 0; i < 2; ++i) c += ms[i].obj == o; return c; }
	void check()
	{
		int live = 0; for (int o = 0; o < made; ++o) { const int c = count(o); SX_ASSERT(gone[o] == (c ? 0 : 1), c ? "owned object destroyed" : "object without owners not destroyed"); live += c != 0; }
		SX_ASSERT(alive == live, "number of live objects");
		for (int i = 0; i < 2; ++i)
		{
			SX_ASSERT(s[i].get() == ms[i].p, "pointer value"); SX_ASSERT(s[i].is_initialized() == (ms[i].p != 0) && (bool)s[i] == (ms[i].p != 0) && (s[i] == null) == (ms[i].p == 0), "pointer null state");
			SX_ASSERT((int)s[i].use_count() == count(ms[i].obj), "use count"); SX_ASSERT(s[i].unique() == (count(ms[i].obj) == 1), "uniqueness");
			SX_ASSERT((int)w[i].use_count() == count(mw[i].obj), "weak use count"); SX_ASSERT(w[i].expired() == (count(mw[i].obj) == 0), "expiry");
			{ SP l = w[i].lock(); const bool a = count(mw[i].obj) != 0; SX_ASSERT(l.get() == (a ? mw[i].p : 0), "locked weak pointer"); if (a) SX_ASSERT((int)l.use_count() == count(mw[i].obj) + 1, "use count while locked"); }
			SX_ASSERT((int)w[i].use_count() == count(mw[i].obj), "locking changed the use count for good");
			if (ms[i].p) { SX_ASSERT(s[i]->tag == 0x5a5a, "owned object readable"); SX_ASSERT(&*s[i] == s[i].get(), "dereference"); }
		}
		const bool sameOwner = ms[0].obj == ms[1].obj; SX_ASSERT((!s[0].owner_before(s[1]) && !s[1].owner_before(s[0])) == sameOwner, "owner order");
		SX_ASSERT((s[0] == s[1]) == (ms[0].p == ms[1].p) && (s[0] != s[1]) == (ms[0].p != ms[1].p), "pointer equality");
	}
	Ref fresh(int i, unsigned kind)
	{
		switch (kind)
		{
		case 0: s[i].reset(new Base); break;
		case 1: s[i] = make_shared_ptr<Base>(); break;
		case 2: { shared_ptr<Derived> d = make_shared_ptr<Derived>(); s[i] = d; SX_ASSERT(d.use_count() == 2, "converted copy shares ownership"); break; }
		case 3: { unique_ptr<Derived> u = make_unique_ptr<Derived>(); s[i] = std::move(u); SX_ASSERT(!u, "unique pointer still owns a moved object"); break; }
		case 4: s[i] = SP(new Derived, [](Base* b) { delete b; }); break;
		default: { shared_ptr<Derived> d(new Derived); s[i] = std::move(d); SX_ASSERT(!d && d.use_count() == 0, "moved-from pointer"); break; }
		}
		return Ref(made - 1, s[i].get());
	}
	void op()
	{
		const unsigned k = sx_choose("op", 17); const int i = (int)sx_choose("i", 2); const int j = (k >= 1 && k <= 9) ? (int)sx_choose("j", 2) : 0; Base* const other = s[1 - i].get(); (void)other;
		switch (k)
		{
		case 0: { const unsigned kind = sx_choose("kind", 6); ms[i] = Ref(); const Ref f = fresh(i, kind); ms[i] = f; break; }
		case 1: s[i] = s[j]; ms[i] = ms[j]; break;
		case 2: { s[i] = std::move(s[j]); const Ref r = ms[j]; if (i != j) ms[j] = Ref(); ms[i] = r; break; }
		case 3: s[i].swap(s[j]); std::swap(ms[i], ms[j]); break;
		case 4: w[i] = s[j]; mw[i] = ms[j]; break;
		case 5: w[i] = w[j]; mw[i] = mw[j]; break;
		case 6: { w[i] = std::move(w[j]); const Ref r = mw[j]; if (i != j) mw[j] = Ref(); mw[i] = r; break; }
		case 7: { const bool a = count(mw[j].obj) != 0; s[i] = w[j].lock(); ms[i] = a ? mw[j] : Ref(); break; }
		case 8: w[i].swap(w[j]); std::swap(mw[i], mw[j]); break;
		case 9: { SP t(s[j]); SX_ASSERT(t.get() == s[j].get(), "copy"); SP m(std::move(t)); SX_ASSERT(!t && t.use_count() == 0, "moved-from pointer"); s[i] = m; ms[i] = ms[j]; break; }
		case 10: s[i].reset(); ms[i] = Ref(); break;
		case 11: s[i] = null; ms[i] = Ref(); break;
		case 12: w[i].reset(); mw[i] = Ref(); break;
		case 13: { const int c = count(ms[i].obj); const bool r = s[i].release_if_unique(); SX_ASSERT(r == (c == 1), "release_if_unique"); if (r) ms[i] = Ref(); break; }
		case 14: if (s[i]) { shared_ptr<u32> a(s[i], &s[i]->tag); SX_ASSERT((int)a.use_count() == count(ms[i].obj) + 1 && a.get() == &s[i]->tag, "aliasing pointer"); const u32* p = a.get(); s[i].reset(); const int o = ms[i].obj; ms[i] = Ref(); SX_ASSERT(gone[o] == 0 && *p == 0x5a5a, "object died while an aliasing pointer owned it"); } break;
		case 15: { shared_ptr<Derived> d = dynamic_caster(s[i]); const bool is = s[i] && dynamic_cast<Derived*>(s[i].get()); SX_ASSERT((bool)d == is, "dynamic cast"); if (d) { SX_ASSERT((int)d.use_count() == count(ms[i].obj) + 1 && d->member == 7, "cast pointer shares ownership"); SP back = d; SX_ASSERT(back == s[i], "cast back"); } break; }
		default: { WP t(w[i]); SP l = t.lock(); WP u(std::move(t)); SX_ASSERT(t.expired(), "moved-from weak pointer"); WP v; v = u; SX_ASSERT((int)v.use_count() == count(mw[i].obj) + (l ? 1 : 0), "copied weak pointer"); SX_ASSERT(v.lock() == l, "copied weak pointer"); break; }
		}
		check();
	}
};
SX_ENTRY(shared_history)
{
	Begin(); const u64 heap = sx_heap_live();
	{
		World x;
		switch (sx_choose("start", 5)) { case 0: break; case 1: x.ms[0] = x.fresh(0, 0); break; case 2: x.ms[0] = x.fresh(0, 1); x.s[1] = x.s[0]; x.ms[1] = x.ms[0]; break; case 3: x.ms[0] = x.fresh(0, 5); x.ms[1] = x.fresh(1, 1); break; default: x.ms[0] = x.fresh(0, 3); x.w[1] = x.s[0]; x.mw[1] = x.ms[0]; x.s[0].reset(); x.ms[0] = Ref(); break; }
		if (sx_choose("weak", 2)) { x.w[0] = x.s[0]; x.mw[0] = x.ms[0]; }
		x.check(); const int n = sx_tier() ? 3 : 2; for (int i = 0; i < n; ++i) x.op();
	}
	SX_ASSERT(alive == 0, "object outlives all its owners"); for (int o = 0; o < made; ++o) SX_ASSERT(gone[o] == 1, "object not destroyed"); SX_ASSERT(sx_heap_live() == heap, "memory leaked");
}

// intrusive counting
struct Counted : public Base, public self_counter<Counted> { }; struct CountedMore : public Other, public Counted { };
typedef self_count_ptr<Counted> CP;
SX_ENTRY(self_count)
{
	Begin(); const u64 heap = sx_heap_live();
	{
		CP s[3]; int m[3] = { -1, -1, -1 };
		auto count = [&](int o) { int c = 0; if (o >= 0) for (int i = 0; i < 3; ++i) c += m[i] == o; return c; };
		auto check = [&]() { for (int i = 0; i < 3; ++i) { SX_ASSERT((bool)s[i] == (m[i] >= 0) && (s[i] == null) == (m[i] < 0), "pointer null state"); SX_ASSERT((int)s[i].use_count() == count(m[i]), "use count"); SX_ASSERT(s[i].unique() == (count(m[i]) == 1), "uniqueness"); if (m[i] >= 0) SX_ASSERT(s[i]->id == m[i] && s[i]->tag == 0x5a5a, "pointed object"); } for (int o = 0; o < made; ++o) SX_ASSERT(gone[o] == (count(o) ? 0 : 1), "object lifetime"); };
		switch (sx_choose("start", 3)) { case 0: break; case 1: s[0] = make_self_count_ptr<Counted>(); m[0] = 0; s[1] = s[0]; m[1] = 0; break; default: s[0] = make_self_count_ptr<Counted>(); m[0] = 0; s[1] = make_self_count_ptr<CountedMore>(); m[1] = 1; break; }
		check(); const int n = sx_tier() ? 4 : 3;
		for (int q = 0; q < n; ++q)
		{
			const unsigned k = sx_choose("op", 8); const int i = (int)sx_choose("i", 2), j = (k == 1 || k == 2 || k == 3 || k == 4) ? (int)sx_choose("j", 3) : 0;
			switch (k)
			{
			case 0: m[i] = -1; if (sx_choose("more", 2)) s[i] = make_self_count_ptr<CountedMore>(); else s[i].reset(new Counted); m[i] = made - 1; break;
			case 1: s[i] = s[j]; m[i] = m[j]; break;
			case 2: { s[i] = std::move(s[j]); const int r = m[j]; if (i != j) m[j] = -1; m[i] = r; break; }
			case 3: s[i].swap(s[j]); std::swap(m[i], m[j]); break;
			case 4: if (s[j]) { s[i] = s[j]->self_count_ptr_from_this(); m[i] = m[j]; } break;
			case 5: s[i] = null; m[i] = -1; break;
			case 6: { CP c(s[i]); CP d(std::move(c)); SX_ASSERT(!c && d == s[i], "moved copy"); s[2] = d; m[2] = m[i]; break; }
			default: { self_count_ptr<const Counted> c(s[i]); SX_ASSERT(c.get() == s[i].get() && (int)c.use_count() == (s[i] ? count(m[i]) + 1 : 0), "const copy shares ownership"); self_count_ptr<CountedMore> e = make_self_count_ptr<CountedMore>(); m[i] = -1; s[i] = e; m[i] = made - 1; SX_ASSERT(e.use_count() == (size_t)count(m[i]) + 1, "converted copy"); CP f(std::move(e)); SX_ASSERT(!e && f == s[i], "converted move"); break; }
			}
			check();
		}
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "memory leaked");
}

SX_ENTRY(unique_history)
{
	Begin(); const u64 heap = sx_heap_live();
	{
		unique_ptr<Base> s[2]; int m[2] = { -1, -1 }; Base* raw = 0;
		auto check = [&]() { int live = raw ? 1 : 0; for (int i = 0; i < 2; ++i) { SX_ASSERT((bool)s[i] == (m[i] >= 0) && (s[i] == null) == (m[i] < 0), "pointer null state"); if (m[i] >= 0) { ++live; SX_ASSERT(s[i]->id == m[i] && (*s[i]).tag == 0x5a5a && gone[m[i]] == 0, "owned object"); } else SX_ASSERT(SX_THROWS(s[i]->id), "null pointer dereferenced"); } SX_ASSERT(alive == live, "number of live objects"); };
		const int n = sx_tier() ? 4 : 3;
		for (int q = 0; q < n; ++q)
		{
			const int i = (int)sx_choose("i", 2), j = 1 - i;
			switch (sx_choose("op", 9))
			{
			case 0: s[i] = make_unique_ptr<Base>(); m[i] = made - 1; break;
			case 1: { unique_ptr<Derived> d = make_unique_ptr<Derived>(); s[i] = std::move(d); SX_ASSERT(!d, "moved-from pointer"); m[i] = made - 1; break; }
			case 2: s[i] = std::move(s[j]); m[i] = m[j]; m[j] = -1; break;
			case 3: s[i].swap(s[j]); std::swap(m[i], m[j]); break;
			case 4: s[i].reset(); m[i] = -1; break;
			case 5: if (!raw) { raw = s[i].release(); m[i] = -1; } break;
			case 6: if (raw) { const int o = raw->id; s[i].reset(raw); raw = 0; m[i] = o; } break;
			case 7: { unique_ptr<Base>& r = s[i]; s[i] = std::move(r); break; }
			default: { unique_ptr<Base> t(std::move(s[i])); SX_ASSERT(!s[i], "moved-from pointer"); unique_ptr<const Base> c(std::move(t)); SX_ASSERT(!t && (bool)c == (m[i] >= 0), "converted move"); m[i] = -1; break; }
			}
			check();
		}
		delete raw; raw = 0;
	}
	SX_ASSERT(alive == 0, "object leaked"); const size_t n = sx_choose("n", 4); { unique_ptr<Base[]> a(new Base[n]); SX_ASSERT(alive == (int)n, "array elements"); for (size_t i = 0; i < n; ++i) SX_ASSERT(a[i].tag == 0x5a5a, "array element"); unique_ptr<Base[]> b; b = std::move(a); SX_ASSERT(!a && SX_THROWS(a[0].id), "moved-from array"); if (sx_choose("r", 2)) { b.reset(new Base[1]); SX_ASSERT(alive == 1, "replaced array destroyed"); } }
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "array leaked");
}

// owners inside owned objects: the old object goes only after the new owner is in place
struct Node : public Base { shared_ptr<Node> next; weak_ptr<Node> prev; };
struct INode : public Base, public self_counter<INode> { self_count_ptr<INode> next; };
struct UNode : public Base { unique_ptr<UNode> next; };
template <typename P, typename N> static void Chain(N* (*make)())
{
	Begin(); const u64 heap = sx_heap_live();
	{
		P head(make()); head->next = P(make()); head->next->next = P(make()); int left = 3;
		for (int q = 0; q < 3; ++q) { head = std::move(head->next); --left; SX_ASSERT(alive == left && gone[q] == 1, "unlinking the head keeps the rest"); if (head) SX_ASSERT(head->tag == 0x5a5a && head->id == q + 1, "rest of the chain"); }
		SX_ASSERT(!head, "end of the chain");
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "chain leaked");
}
static shared_ptr<Node>* watched; static int seenNull;
SX_ENTRY(chains)
{
	switch (sx_choose("kind", 5))
	{
	case 0: Chain<shared_ptr<Node>, Node>([]() { return new Node; }); break;
	case 1: Chain<self_count_ptr<INode>, INode>([]() { return new INode; }); break;
	case 2: Chain<unique_ptr<UNode>, UNode>([]() { return new UNode; }); break;
	case 3: { // copies of a pointer that lives in the object being released
		Begin(); const u64 heap = sx_heap_live(); { shared_ptr<Node> head(new Node); head->next = make_shared_ptr<Node>(); head->next->prev = head; shared_ptr<Node> second = head->next; SX_ASSERT(second->prev.lock() == head, "weak link"); head = head->next; SX_ASSERT(gone[0] == 1 && head == second && second->prev.expired() && !second->prev.lock(), "release of the first node"); } SX_ASSERT(alive == 0 && sx_heap_live() == heap, "leak"); break; }
	default: { // a destructor that looks at the pointer sees the new value
		Begin(); shared_ptr<Node> p(new Node); watched = &p; seenNull = -1; onDie = [](int) { seenNull = watched->get() == 0; };
		const unsigned how = sx_choose("how", 4); if (how == 0) p.reset(); else if (how == 1) p = null; else if (how == 2) p = shared_ptr<Node>(); else { shared_ptr<Node> none; p = none; }
		SX_ASSERT(seenNull == 1 && gone[0] == 1, "pointer still refers to the object while it is destroyed"); onDie = 0; break; }
	}
}

// functions share their functor; storage and comparisons keep it
struct Adder : public function_info<int (int)> { Base b; int n; Adder(int n_) : n(n_) { } Adder(const Adder& o) : b(), n(o.n) { } int operator () (int x) const { return x + n; } };
SX_ENTRY(functions)
{
	Begin(); const u64 heap = sx_heap_live(); const int n = sx_s32("n"), x = sx_s32("x");
	{
		function<int (int)> f = Adder((int)(n & 0xffff)); const int a = alive; SX_ASSERT(a == 1, "one functor is kept"); function<int (int)> g(f), h(std::move(f));
		SX_ASSERT(alive == 1, "copies share the functor"); SX_ASSERT(g(x & 0xffff) == (x & 0xffff) + (n & 0xffff) && h(1) == 1 + (n & 0xffff), "call through a copy");
		function_storage st(g); g = Adder(5); SX_ASSERT(g(1) == 6 && alive == 2, "reassigned function"); h = g; SX_ASSERT(alive == 2 && st.ToFunction<int (int)>()(2) == 2 + (n & 0xffff), "stored function");
		h = st.ToFunction<int (int)>(); g = h; SX_ASSERT(alive == 1 && g(3) == 3 + (n & 0xffff), "old functor released"); g = *&g; SX_ASSERT(g(3) == 3 + (n & 0xffff), "self assignment");
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "functor leaked");
}

// tokens and holders: the cleanup runs exactly once, when the last owner goes
static int ran; static void Run() { ++ran; } static void RunThrow() { ++ran; throw std::runtime_error("x"); }
struct Obj { Base b; Obj() { } Obj(const Obj&) : b() { } };
SX_ENTRY(tokens)
{
	Begin(); ran = 0; const u64 heap = sx_heap_live();
	switch (sx_choose("kind", 8))
	{
	case 0: { Token a = MakeFunctionToken(sx_choose("thr", 2) ? &RunThrow : &Run); SX_ASSERT(ran == 0 && (bool)a, "cleanup ran early"); Token b(a), c; c = b; a.Reset(); SX_ASSERT(ran == 0 && !a, "cleanup ran while the token is held"); c = std::move(b); SX_ASSERT(ran == 0 && c.IsInitialized() && !b, "moved token"); if (sx_choose("how", 2)) c.Reset(); else c.Set(Token()); SX_ASSERT(ran == 1, "cleanup runs when the last token goes"); break; }
	case 1: { { Token t = MakeObjectToken(Obj()); SX_ASSERT(alive == 1, "object kept"); Token u = t; t.Reset(); SX_ASSERT(alive == 1, "object kept by a copy"); } SX_ASSERT(alive == 0, "object released"); break; }
	case 2: { { Token t = MakeFunctionToken(&Run); t.Set(MakeFunctionToken(&Run)); SX_ASSERT(ran == 1, "replaced token released"); t = null; SX_ASSERT(ran == 2 && !t, "token cleared"); } SX_ASSERT(ran == 2, "cleanup ran again"); break; }
	case 3: case 4: { // order of destruction
		const bool fwd = sx_choose("fwd", 2); const int n = 1 + (int)sx_choose("n", 3); Token t;
		if (fwd) { ForwardMultiTokenBuilder b; for (int i = 0; i < n; ++i) b % MakeObjectToken(make_shared_ptr<Base>()); t = b; } else { ReverseMultiTokenBuilder b; for (int i = 0; i < n; ++i) b % MakeObjectToken(make_shared_ptr<Base>()); t = b; }
		SX_ASSERT(alive == n && orders == 0, "objects kept by the builder's token"); t.Reset(); SX_ASSERT(alive == 0, "objects released"); for (int i = 0; i < n; ++i) SX_ASSERT(order_[i] == (fwd ? i : n - 1 - i), "order of release"); break; }
	case 5: { ThreadlessTokenPool p; SX_ASSERT(p.Empty(), "empty pool"); p += MakeFunctionToken(&Run); Token t = MakeFunctionToken(&Run); p += t; SX_ASSERT(!p.Empty() && ran == 0, "pool holds tokens"); p.Release(); SX_ASSERT(ran == 1 && p.Empty(), "released pool"); t.Reset(); SX_ASSERT(ran == 2, "shared token"); break; }
	case 6: { ThreadlessTokenMap<int> m; m[1] += MakeFunctionToken(&Run); m[1] += MakeFunctionToken(&Run); m[2] += MakeFunctionToken(&Run); SX_ASSERT(m.contains(1) && m.contains(2) && !m.contains(3) && ran == 0, "token map"); const int k = (int)sx_range("k", 0, 3); m.release(k); const int e = k == 1 ? 2 : k == 2 ? 1 : 0; SX_ASSERT(ran == e && !m.contains(k), "release of a key"); m.release_all(); SX_ASSERT(ran == 3, "release of all keys"); break; }
	default: { shared_ptr<Base> p = make_shared_ptr<Base>(); { shared_ptr<Base> q = AttachToken(p, MakeFunctionToken(&Run)); shared_ptr<Base> r = q; p.reset(); q.reset(); SX_ASSERT(ran == 0 && alive == 1, "attached token released early"); SX_ASSERT(r->tag == 0x5a5a, "object of the attached token"); } SX_ASSERT(ran == 1 && alive == 0, "attached token released with the object"); break; }
	}
	SX_ASSERT(alive == 0 && sx_heap_live() == heap, "token leaked");
}
static int cleaned[16], ncleaned; static void CleanInt(int v) { if (ncleaned < 16) cleaned[ncleaned] = v; ++ncleaned; }
SX_ENTRY(holders)
{
	Begin(); ran = 0; ncleaned = 0; int expect[16], n = 0;
	{
		ScopedHolder<int> h(&CleanInt); bool valid = false; int cur = 0; const int ops = sx_tier() ? 5 : 4;
		for (int q = 0; q < ops; ++q)
		{
			switch (sx_choose("op", 4)) { case 0: { const int v = (int)sx_u32("v"); h.Set(v); if (valid) expect[n++] = cur; cur = v; valid = true; break; } case 1: h.Clear(); if (valid) expect[n++] = cur; valid = false; break; case 2: { const bool t = SX_THROWS(h.Get()); SX_ASSERT(t == !valid && (t || h.Get() == cur), "held value"); break; } default: { int r = 0; const bool t = SX_THROWS(r = h.Release()); SX_ASSERT(t == !valid && (t || r == cur), "released value"); valid = false; break; } }
			SX_ASSERT(h.Valid() == valid && ncleaned == n, "cleanup runs exactly when a held value goes"); int d = 0; for (int i = 0; i < n; ++i) d |= cleaned[i] ^ expect[i]; SX_ASSERT(d == 0, "cleanup got the held value");
		}
		if (valid) expect[n++] = cur;
	}
	SX_ASSERT(ncleaned == n && (n == 0 || cleaned[n - 1] == expect[n - 1]), "cleanup at the end of the scope");
	ran = 0; { ScopedHolder<void> v(&Run); if (sx_choose("set", 2)) v.Set(); const int a = v.Valid() ? 1 : 0; if (sx_choose("again", 2)) { v.Set(); SX_ASSERT(ran == a, "second set cleans up the first"); } const int before = ran; const bool val = v.Valid(); if (sx_choose("clear", 2)) { v.Clear(); SX_ASSERT(ran == before + (val ? 1 : 0) && !v.Valid(), "clear"); } }
	ran = 0; ncleaned = 0; { SharedHolder<int> a(5, &CleanInt); SharedHolder<int> b = a; SX_ASSERT(b.Valid() && b.Get() == 5, "shared holder"); if (sx_choose("clr", 2)) { b.Clear(); SX_ASSERT(!a.Valid() && ncleaned == 1, "shared clear"); } } SX_ASSERT(ncleaned == 1 && cleaned[0] == 5, "shared holder cleans up once");
	ran = 0; { int* p = &ran; STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int*, p)) *p += 3; STINGRAYKIT_SCOPE_EXIT_END; SX_ASSERT(ran == 0, "scope exit ran early"); }
}
