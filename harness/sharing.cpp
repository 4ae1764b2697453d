// X02: objects shared between threads: counted pointers, one-time initialization, guarded values.
#include "threads.h"
#include <stingraykit/ObjectPool.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/Singleton.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/atomic.h>
#include <stingraykit/thread/atomic/AtomicFlag.h>
#include <stingraykit/thread/call_once.h>

using namespace stingray;

namespace
{
	int gborn, gdead;
	struct Obj
	{
		u32 v, check;
		explicit Obj(u32 v_) : v(v_), check(~v_) { ++gborn; }
		~Obj() { SX_ASSERT(v == ~check, "destroyed once"); v = check = 0; ++gdead; }
		void use(u32 want) const { SX_ASSERT(gdead < gborn, "alive"); SX_ASSERT(v == want, "the object"); SX_ASSERT(check == ~want, "whole"); }
	};
	typedef shared_ptr<Obj> SP; typedef weak_ptr<Obj> WP;
	u32 gval; unsigned gop[3]; int gcount; int gticket; bool ghold[3];
	SP own[3]; WP weak[3];

	// what a thread does with its own pointers to the object shared by all
	void pointerOp(int i, unsigned op, SP& s, WP& w)
	{
		switch (op)
		{
		case 0: { SP c(s); s.reset(); c->use(gval); ghold[i] = false; break; }
		case 1: s->use(gval); ghold[i] = false; s.reset(); break;
		case 2: ghold[i] = false; s.reset(); { SP l = w.lock(); if (l) { l->use(gval); sx_reach("locked"); } else { SX_ASSERT(!ghold[0] && !ghold[1] && !ghold[2], "a weak pointer expires only with the object"); sx_reach("gone"); } } break;
		case 3: { ghold[i] = false; WP c(w); w.reset(); s.reset(); SP l = c.lock(); if (l) { SP m(l); l.reset(); m->use(gval); } break; }
		case 4: ghold[i] = false; if (s.release_if_unique()) { SX_ASSERT(gdead == 1, "released as the last owner"); SX_ASSERT(w.expired(), "expired"); sx_reach("unique"); } else { s->use(gval); s.reset(); } break;
		default: { shared_ptr<const u32> part(s, &s->v); s.reset(); SX_ASSERT(*part == gval, "the owner keeps the part"); ghold[i] = false; break; }
		}
	}
	void pointerThread() { sx_atomic(1); const int i = gticket++; const unsigned op = gop[i]; sx_atomic(0); pointerOp(i, op, own[i], weak[i]); }
}

SX_ENTRY(shared_count)
{
	sx_atomic(1); gborn = gdead = gticket = 0; gval = sx_u32("v"); const int n = 2 + (sx_tier() ? sx_choose("threads", 2) : 0);
	{ Thr warm = go(+[](){}); }
	const u64 live = sx_heap_live();
	for (int i = 0; i < n; ++i) gop[i] = sx_choose("op", 6);
	{
		SP first = make_shared_ptr<Obj>(gval); for (int i = 0; i < n; ++i) { own[i] = first; weak[i] = first; ghold[i] = true; } first.reset();
		Thr a = go(&pointerThread), b = go(&pointerThread), c; if (n > 2) c = go(&pointerThread);
	}
	for (int i = 0; i < n; ++i) { SX_ASSERT(!own[i], "gave up"); SX_ASSERT(weak[i].expired(), "expired"); weak[i].reset(); }
	SX_ASSERT(gdead == 1, "destroyed exactly once");
	SX_ASSERT(sx_heap_live() == live, "freed exactly once");
	sx_reach("end");
}

namespace
{
	struct Counted : public self_counter<Counted> { Obj o; explicit Counted(u32 v) : o(v) { } void use() const { o.use(gval); } };
	typedef self_count_ptr<Counted> CP; CP cown[3];
	void countedThread()
	{
		sx_atomic(1); const int i = gticket++; const unsigned op = gop[i]; CP& s = cown[i]; sx_atomic(0);
		if (op == 0) { CP c(s); s.reset(); c->use(); }
		else if (op == 1) { s->use(); s.reset(); }
		else if (op == 2) { CP c = s->self_count_ptr_from_this(); s.reset(); c->use(); CP d(std::move(c)); d->use(); }
		else { CP c; c = s; s = c; s.reset(); c->use(); c = CP(); }
	}
}
SX_ENTRY(self_count)
{
	sx_atomic(1); gborn = gdead = gticket = 0; gval = sx_u32("v"); const int n = 2 + sx_tier();
	{ Thr warm = go(+[](){}); }
	const u64 live = sx_heap_live();
	for (int i = 0; i < n; ++i) gop[i] = sx_choose("op", 4);
	{
		CP first = make_self_count_ptr<Counted>(gval); for (int i = 0; i < n; ++i) cown[i] = first; first.reset();
		Thr a = go(&countedThread), b = go(&countedThread), c; if (n > 2) c = go(&countedThread);
	}
	SX_ASSERT(gdead == 1, "destroyed exactly once"); SX_ASSERT(sx_heap_live() == live, "freed exactly once");
	sx_reach("end");
}

// one-time initialization: one run, complete before anyone goes on; a failed one is never taken for a success
static STINGRAYKIT_DEFINE_ONCE_FLAG(gonce);
static u32 gstate[2]; static int gruns;
static void initOnce() { ++gruns; gstate[0] = gval; sx_quiesce(); gstate[1] = ~gval; }
static void onceThread() { call_once(gonce, &initOnce); SX_ASSERT(gruns == 1, "once"); SX_ASSERT(gstate[1] == ~gstate[0], "complete"); ++gcount; }
namespace
{
	bool gfail;
	class Solo : public Singleton<Solo>
	{
		STINGRAYKIT_SINGLETON(Solo);
		u32 _v, _w;
		Solo() : _v(gval) { ++gruns; sx_quiesce(); if (gfail) throw std::runtime_error("no"); _w = ~gval; }
	public:
		void check() { SX_ASSERT(_v == gval && _w == ~_v, "complete"); }
	};
	struct Safe { u32 v, w; Safe() : v(gval) { ++gruns; sx_quiesce(); if (gfail) throw std::runtime_error("no"); w = ~gval; } ~Safe() { v = w = 0; ++gdead; } };
}
static void soloThread()
{
	try { Solo& s = Solo::Instance(); SX_ASSERT(!gfail, "not created"); s.check(); SX_ASSERT(Solo::IsAlive(), "alive"); SX_ASSERT(&s == &Solo::Instance(), "the same one"); }
	catch (const std::exception&) { SX_ASSERT(gfail, "created"); SX_ASSERT(!Solo::IsAlive(), "not alive"); sx_reach("failed"); }
	SX_ASSERT(gruns == 1, "constructed once"); ++gcount;
}
static void safeThread()
{
	shared_ptr<Safe> p = SafeSingleton<Safe>::Instance();
	SX_ASSERT(!p == gfail, "exactly when it was created"); if (p) { SX_ASSERT(p->v == gval, "complete"); SX_ASSERT(p->w == ~gval, "complete"); shared_ptr<Safe> q = SafeSingleton<Safe>::Instance(); SX_ASSERT(q.get() == p.get(), "the same one"); }
	SX_ASSERT(gruns == 1, "constructed once"); ++gcount;
}
SX_ENTRY(once)
{
	gval = sx_u32("v"); gruns = gcount = gdead = 0; const unsigned k = sx_choose("kind", 3); gfail = k && sx_choose("fails", 2); const int n = 2 + sx_choose("threads", 2);
	void (*f)() = k == 0 ? &onceThread : k == 1 ? &soloThread : &safeThread;
	{ Thr a = go(f), b = go(f), c; if (n > 2) c = go(f); }
	f();
	SX_ASSERT(gcount == n + 1 && gruns == 1 && gdead == 0, "everyone got it"); sx_reach("end");
}

// updates of a guarded value and of atomics are not lost, and nobody sees half of one
namespace
{
	struct Pair { u32 a, b; };
	SyncValue<Pair>* gsv; u32 gadd[3];
	atomic<u32>* gat; AtomicFlag::Type gflag; int ginside; u32 gseen[3];
}
static void syncThread()
{
	sx_atomic(1); const int i = gticket++; const u32 add = gadd[i]; const unsigned op = gop[i]; sx_atomic(0);
	if (op == 0) { SyncValue<Pair>::Lock l(*gsv); l->a += add; l->b = ~l->a; ++gcount; gval += add; }
	else if (op == 1) { Pair p = gsv->Get(); SX_ASSERT(p.b == ~p.a, "whole"); }
	else { Pair p; p.a = add; p.b = ~add; *gsv = p; const Pair q = *static_cast<const SyncValue<Pair>&>(*gsv); SX_ASSERT(q.b == ~q.a, "whole"); }
}
static void atomicThread()
{
	sx_atomic(1); const int i = gticket++; const u32 add = gadd[i]; const unsigned op = gop[i]; sx_atomic(0);
	if (op == 0) { gseen[i] = i ? ++*gat : (*gat)++ + 1; }
	else if (op == 1) { gseen[i] = gat->fetch_add(add) + add; }
	else { gseen[i] = gat->fetch_sub(0u - add) + add; }
	if (AtomicFlag::TestAndSet(gflag)) { SX_ASSERT(++ginside == 1, "one at a time"); --ginside; AtomicFlag::Clear(gflag); sx_reach("flag"); }
}
SX_ENTRY(guarded_values)
{
	gval = gcount = gticket = ginside = 0; gflag = 0; const unsigned k = sx_choose("kind", 2); const int n = 2 + (k == 0); u32 start = sx_u32("start"), sum = 0; bool stored = false;
	for (int i = 0; i < n; ++i) { gop[i] = sx_choose("op", 3); gadd[i] = k && gop[i] == 0 ? 1u : sx_u32("add"); sum += gadd[i]; stored = stored || gop[i] == 2; }
	Pair p; p.a = start; p.b = ~start; SyncValue<Pair> sv(p); gsv = &sv; atomic<u32> at(start); gat = &at;
	{ void (*f)() = k ? &atomicThread : &syncThread; Thr a = go(f), b = go(f), c; if (n > 2) c = go(f); }
	if (k) { SX_ASSERT(at.load() == start + sum, "no update is lost"); SX_ASSERT(gseen[0] == start + sum || gseen[1] == start + sum, "the last one saw the sum"); SX_ASSERT(gseen[0] == start + gadd[0] || gseen[1] == start + gadd[1], "the first one saw its own"); }
	else { const Pair e = sv.Get(); SX_ASSERT(e.b == ~e.a, "whole"); if (!stored) SX_ASSERT(e.a == start + gval, "no update is lost"); }
	sx_reach("end");
}

// an object pool keeps objects until their last owner is gone
namespace { ObjectPool* gpool; }
static void poolAdd() { SP s = make_shared_ptr<Obj>(gval); gpool->AddObject(s); s->use(gval); if (gop[0]) { s.reset(); ++gcount; } else own[0] = s; }
static void poolCollect() { gpool->CollectGarbage(); }
SX_ENTRY(object_pool)
{
	gval = sx_u32("v"); gborn = gdead = gcount = 0; gop[0] = sx_choose("drop", 2); const bool early = sx_choose("early", 2);
	{
		ObjectPool pool; gpool = &pool; if (early) { SP x = make_shared_ptr<Obj>(gval); pool.AddObject(x); }
		{ Thr a = go(&poolAdd), b = go(&poolCollect); }
		if (early) SX_ASSERT(gdead >= 1, "collected");
		if (!gop[0]) own[0]->use(gval);
		pool.CollectGarbage(); SX_ASSERT(gdead == early + (int)gop[0], "exactly those without owners"); own[0].reset(); SX_ASSERT(gdead == early + (int)gop[0], "kept by the pool");
		if (sx_choose("collect", 2)) { pool.CollectGarbage(); SX_ASSERT(gdead == gborn, "all"); }
	}
	SX_ASSERT(gdead == gborn, "nothing is left over"); sx_reach("end");
}
