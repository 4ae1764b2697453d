// X01: waiting, waking and cancelling. Threads, schedules, timeouts and clock moves are chosen by the engine.
#include "threads.h"
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/BasicConditionVariable.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/call_once.h>
#include <stingraykit/future.h>
#include <stingraykit/unique_ptr.h>

using namespace stingray;

namespace
{
	typedef ConditionWaitResult CWR;
	const u64 Us = 1000;
	u64 nowUs() { return sx_clock() / Us; }
	TimeDuration us(s64 v) { return TimeDuration::FromMicroseconds(v); }

	// everything threads share is built by main before they start and torn down after they are joined
	struct Shared
	{
		Mutex m; ConditionVariable c; CancellationToken a, b; bool flag; u32 level, limit; int n; int got; unsigned kind;
		Shared() : flag(false), level(0), limit(0), n(0), got(0), kind(0) { }
		~Shared() { a.Cancel(); b.Cancel(); }
	};
	Shared* g;

	// the ways one may wait for g->c under g->m with token a able to cancel
	enum { TokA, TokTimed, TokJoinFirst, TokJoinSecond, TokTimedJoin, TokKinds };
	template < typename F >
	void withToken(unsigned kind, TimeDuration limit, const F& f)
	{
		switch (kind)
		{
		case TokA: f(g->a); break;
		case TokTimed: { TimedCancellationToken t(g->a, limit); f(t); break; }
		case TokJoinFirst: { JoiningCancellationToken t(g->a, g->b); f(t); break; }
		case TokJoinSecond: { JoiningCancellationToken t(g->b, g->a); f(t); break; }
		default: { JoiningCancellationToken j(g->b, g->a); TimedCancellationToken t(j, limit); f(t); break; }
		}
	}
	bool timedKind(unsigned k) { return k == TokTimed || k == TokTimedJoin; }
}

// a waiter that checks its condition under the mutex never misses the broadcast that follows the change
static void waiterFlag()
{
	MutexLock l(g->m);
	withToken(g->kind, us(50), [](const ICancellationToken& t)
	{
		while (g->level < g->limit)
		{
			if (g->kind == TokKinds) g->c.Wait(g->m);
			else if (g->kind == TokKinds + 1) { g->c.TimedWait(g->m, us(20)); }
			else { const CWR r = g->c.Wait(g->m, t); SX_ASSERT(r != CWR::Cancelled, "nobody cancelled"); if (!timedKind(g->kind)) SX_ASSERT(r == CWR::Broadcasted, "an untimed wait does not time out"); else if (r == CWR::TimedOut) { SX_ASSERT(t.IsTimedOut(), "timed out before its time"); break; } }
		}
	});
	++g->got;
	if (g->level < g->limit) sx_reach("timed out"); else sx_reach("seen");
}
static u32 gstep;
static void raise1() { MutexLock l(g->m); g->level += gstep; if (g->level >= g->limit) g->flag = true; g->c.Broadcast(); }
SX_ENTRY(broadcast_wakes)
{
	Shared s; g = &s; s.kind = sx_choose("how", TokKinds + 2); const bool two = s.kind >= TokKinds && sx_choose("waiters", 2);
	s.limit = sx_u32("limit"); gstep = sx_u32("step"); SX_ASSUME(sx_and(gstep >= s.limit, gstep < 0x80000000u));
	{
		Thr w = go(&waiterFlag), w2; if (two) w2 = go(&waiterFlag);
		Thr f = go(&raise1);
	}
	SX_ASSERT(s.got == (two ? 2 : 1), "every waiter returned");
}

// a cancelled wait returns, whenever the cancellation comes, and says so; the mutex is held again afterwards
static void waiterForever()
{
	const u64 from = nowUs();
	MutexLock l(g->m);
	withToken(g->kind, us(50), [from](const ICancellationToken& t)
	{
		CWR r = CWR::Broadcasted; int rounds = 0;
		while (t) { r = g->c.Wait(g->m, t); ++rounds; }
		SX_ASSERT(t.IsCancelled() || t.IsTimedOut(), "left the loop for a reason");
		if (timedKind(g->kind)) { if (!t.IsCancelled()) SX_ASSERT(nowUs() >= from + 50, "not before the limit"); }
		else SX_ASSERT(g->a.IsCancelled() && t.IsCancelled(), "cancelled");
		if (rounds) { if (r == CWR::Cancelled) SX_ASSERT(t.IsCancelled(), "a wait is not cancelled by itself"); else if (r == CWR::TimedOut) SX_ASSERT(t.IsTimedOut(), "timed out before its time"); }
		const CWR again = g->c.Wait(g->m, t);
		if (t.IsCancelled()) { SX_ASSERT(again == CWR::Cancelled || t.IsTimedOut(), "a cancelled token makes waits return at once"); }
		else SX_ASSERT(again == CWR::TimedOut, "an expired token makes waits time out at once");
		if (rounds) sx_reach("waited"); else sx_reach("cancelled before");
	});
	++g->got;
}
static void cancelA() { g->a.Cancel(); SX_ASSERT(g->a.IsCancelled(), "cancelled"); }
SX_ENTRY(cancel_wakes)
{
	Shared s; g = &s; s.kind = sx_choose("how", TokKinds);
	{ Thr w = go(&waiterForever), c = go(&cancelA); }
	SX_ASSERT(s.got == 1, "the waiter returned");
	sx_reach("end");
}

// a wait that nobody ends takes its time and says it timed out; one on an expired token does so at once
SX_ENTRY(timed_waits)
{
	Shared s; g = &s; const unsigned kind = sx_choose("how", 7); s64 d = sx_choose("limit", 3) * 40; const u64 from = nowUs();
	MutexLock l(s.m);
	if (kind == 0) SX_ASSERT(!s.c.TimedWait(s.m, us(d)), "timed out");
	else if (kind == 1) { TimedCancellationToken t(us(d)); SX_ASSERT(s.c.Wait(s.m, t) == CWR::TimedOut && t.IsTimedOut() && !t.IsCancelled() && !t, "timed out"); }
	else if (kind == 2) { TimedCancellationToken t(s.a, us(d)); SX_ASSERT(s.c.Wait(s.m, t) == CWR::TimedOut && t.IsTimedOut() && !s.a.IsCancelled(), "timed out"); }
	else if (kind == 3) { TimedCancellationToken t(s.a, us(d)); JoiningCancellationToken j(t, s.b), k(s.b, t); if (sx_choose("order", 2)) SX_ASSERT(s.c.Wait(s.m, j) == CWR::TimedOut && j.IsTimedOut() && !j.IsCancelled(), "timed out"); else SX_ASSERT(s.c.Wait(s.m, k) == CWR::TimedOut && k.IsTimedOut(), "timed out"); }
	else if (kind == 5) { const s64 e = 20 + sx_choose("outer", 2) * 40; TimedCancellationToken t(s.a, us(e)); TimedCancellationToken u(t, us(d)); if (e < d) d = e; if (sx_choose("sleep", 2)) SX_ASSERT(!u.Sleep(sx_choose("endless", 2) ? optional<TimeDuration>() : optional<TimeDuration>(us(200))), "cut short"); else SX_ASSERT(s.c.Wait(s.m, u) == CWR::TimedOut, "timed out"); SX_ASSERT(u.IsTimedOut() && t.IsTimedOut() == (e == d) && u.GetTimeout()->GetMicroseconds() == 0, "the sooner limit holds"); sx_reach("both"); }
	else if (kind == 6) { const s64 e = 20 + sx_choose("other", 2) * 40; TimedCancellationToken t(s.a, us(d)), u(s.b, us(e)); JoiningCancellationToken j(t, u); if (sx_choose("sleep", 2)) SX_ASSERT(!j.Sleep(sx_choose("endless", 2) ? optional<TimeDuration>() : optional<TimeDuration>(us(200))), "cut short"); else SX_ASSERT(s.c.Wait(s.m, j) == CWR::TimedOut, "timed out"); SX_ASSERT(j.IsTimedOut() && !j.IsCancelled() && t.IsTimedOut() == (d <= e) && u.IsTimedOut() == (e <= d), "the sooner limit holds"); if (e < d) d = e; sx_reach("joined"); }
	else { TimedCancellationToken t(us(100)); TimedCancellationToken u(t, us(d)); SX_ASSERT(s.c.Wait(s.m, u) == CWR::TimedOut, "timed out"); SX_ASSERT(!t.IsTimedOut(), "the outer limit is later"); }
	SX_ASSERT(nowUs() == from + d, "exactly its time");
	sx_reach("end");
}

// Sleep returns true after the whole time and false when it was cut short
static void sleeper()
{
	const u64 from = nowUs(); const unsigned how = g->n;
	withToken(g->kind, us(50), [from, how](const ICancellationToken& t)
	{
		optional<TimeDuration> d; if (how) d = us(how == 1 ? 20 : how == 2 ? 70 : 0);
		const bool r = t.Sleep(d);
		if (r) { SX_ASSERT(!!d, "an endless sleep is never complete"); SX_ASSERT(nowUs() >= from + d->GetMicroseconds(), "slept the whole time"); SX_ASSERT(!timedKind(g->kind) || d->GetMicroseconds() <= 50, "no sleep outlasts the token's time"); sx_reach("slept"); }
		else { SX_ASSERT(g->a.IsCancelled() || t.IsTimedOut(), "cut short for a reason"); sx_reach("cut"); }
		if (timedKind(g->kind)) SX_ASSERT(nowUs() <= from + 70, "the token's time limits sleep");
	});
	++g->got;
}
SX_ENTRY(sleeping)
{
	Shared s; g = &s; s.kind = sx_choose("how", TokKinds); s.n = sx_choose("time", 4); const bool before = sx_choose("before", 2);
	if (before) s.a.Cancel();
	{ Thr w = go(&sleeper), c; if (!before) c = go(&cancelA); }
	SX_ASSERT(s.got == 1, "the sleeper returned");
}

// the cancelling thread never touches a wait that is over: condition, mutex and handlers may be destroyed after it
static void shortLived()
{
	{
		Mutex m; ConditionVariable c; MutexLock l(m);
		withToken(g->kind, us(50), [&](const ICancellationToken& t) { if (t) { const CWR r = c.Wait(m, t); SX_ASSERT(r != CWR::Broadcasted || t.IsCancelled(), "nobody broadcasts"); } });
	}
	if (sx_choose("again", 2)) { Mutex m; ConditionVariable c; MutexLock l(m); c.TimedWait(m, us(5)); }
	++g->got;
}
SX_ENTRY(wait_lifetime)
{
	Shared s; g = &s; s.kind = sx_choose("how", TokKinds);
	{ Thr w = go(&shortLived), c = go(&cancelA); }
	SX_ASSERT(s.got == 1, "the waiter returned");
}

// Reset makes a token fresh again, and refuses while it is in use
static void resetter()
{
	bool threw = false;
	try { g->a.Reset(); } catch (const std::exception&) { threw = true; }
	++g->n; if (!threw) g->got += 10; else sx_reach("refused");
}
SX_ENTRY(token_reset)
{
	Shared s; g = &s; const unsigned k = sx_choose("kind", 3);
	if (k == 0)
	{
		{ CancellationToken t; SX_ASSERT(!!t && !t.IsCancelled(), "fresh"); t.Cancel(); t.Cancel(); SX_ASSERT(!t && t.IsCancelled() && !t.IsTimedOut() && !t.GetTimeout(), "cancelled"); t.Reset(); SX_ASSERT(!!t, "fresh again"); SX_ASSERT(!SX_THROWS(t.Reset()), "a reset of a fresh token changes nothing"); SX_ASSERT(!!t, "still fresh");
		  MutexLock l(s.m); SX_ASSERT(!s.c.TimedWait(s.m, us(5)), "times out"); { Token c = t.GetCancellator(); SX_ASSERT(!!t, "a cancellator cancels when destroyed"); } SX_ASSERT(t.IsCancelled(), "cancelled by its cancellator"); SX_ASSERT(s.c.Wait(s.m, t) == CWR::Cancelled, "at once"); }
	}
	else if (k == 1)
	{
		{ Thr c = go(&cancelA), r = go(&resetter); }
		SX_ASSERT(s.n == 1, "answered");
		if (s.got) { if (!s.a.IsCancelled()) sx_reach("reset last"); else sx_reach("reset first"); } else SX_ASSERT(s.a.IsCancelled(), "a refused reset leaves the token cancelled");
		bool threw = false; try { s.a.Reset(); } catch (const std::exception&) { threw = true; }
		SX_ASSERT(!threw && !s.a.IsCancelled(), "reset when idle");
	}
	else
	{
		s.kind = TokA; Thr w = go(&waiterForever); sx_quiesce();
		SX_ASSERT(SX_THROWS(s.a.Reset()), "in use"); SX_ASSERT(!s.a.IsCancelled(), "unchanged"); s.a.Cancel();
	}
	sx_reach("end");
}

// a mutex admits one thread at a time, again and again to the thread that has it; unlocked inside, another may enter
static u32 gv, gadd[3]; static int ginside, gnext;
static void addTwice()
{
	sx_atomic(1); const u32 a = gadd[gnext++]; sx_atomic(0);
	const bool again = g->kind & 1, open = g->kind & 2;
	{
		MutexLock l(g->m);
		SX_ASSERT(ginside == 0, "alone"); ++ginside;
		if (again) { MutexLock l2(g->m); gv += a; } else gv += a;
		SX_ASSERT(ginside == 1, "still alone"); --ginside;
		if (open) { MutexUnlock u(l); sx_reach("open"); }
		SX_ASSERT(ginside == 0, "alone again"); gv += a >> 1;
	}
}
SX_ENTRY(mutex_excludes)
{
	Shared s; g = &s; s.kind = sx_choose("how", 4); const int n = 2 + sx_choose("threads", 2); const u32 v = sx_u32("v"); gv = v; ginside = 0; gnext = 0; u32 want = 0; for (int i = 0; i < n; ++i) { gadd[i] = sx_u32("add"); want += gadd[i] + (gadd[i] >> 1); } want += v;
	{ Thr a = go(&addTwice), b = go(&addTwice), c; if (n == 3) c = go(&addTwice); }
	SX_ASSERT(gv == want, "no update is lost");
	sx_reach("end");
}

// a semaphore lets as many through as were signalled
static Semaphore* gs; static int gin, gout;
static void take()
{
	const unsigned k = g->kind;
	if (k == 1) { if (!gs->TimedWait(us(30))) { sx_reach("none in time"); return; } } else gs->Wait();
	++gout; SX_ASSERT(gout <= gin, "nobody passes before a signal");
}
static void post() { for (int i = 0; i < 2; ++i) { ++gin; gs->Signal(); } }
static void postTwo() { gin += 2; gs->Signal(2); }
static void guarded() { SemaphoreLock l(*gs); ++gin; SX_ASSERT(gin <= 2, "at most two inside"); sx_quiesce(); --gin; }
SX_ENTRY(semaphore_counts)
{
	Shared s; g = &s; s.kind = sx_choose("how", 3); const int init = sx_choose("initial", 2); Semaphore sem(s.kind == 2 ? 2 : init); gs = &sem; gin = s.kind == 2 ? 0 : init; gout = 0;
	if (s.kind == 2) { Thr a = go(&guarded), b = go(&guarded), c = go(&guarded); }
	else { Thr a = go(&take), b = go(&take); Thr c = sx_choose("post", 2) ? go(&post) : go(&postTwo); }
	if (s.kind == 0) SX_ASSERT(gout == 2, "both went through");
	int left = 0; while (sem.TimedWait(us(0))) ++left;
	if (s.kind == 2) SX_ASSERT(left == 2, "given back"); else SX_ASSERT(left == gin - gout, "exactly the signals that were not taken are left");
	sx_reach("end");
}

// a barrier holds everyone until all have come and names one last, round after round
static Barrier* gb; static int garrived, glast[3];
static void meet() { for (int r = 0; r < g->got; ++r) { ++garrived; const bool last = gb->Wait(); SX_ASSERT(garrived >= g->n * (r + 1), "nobody leaves before all have come"); if (last) ++glast[r]; } }
SX_ENTRY(barrier_rounds)
{
	Shared s; g = &s; s.n = 1 + sx_choose("threads", 3); s.got = s.n == 3 ? 1 + sx_tier() : 2; Barrier b(s.n); gb = &b; garrived = 0; glast[0] = glast[1] = glast[2] = 0;
	{ Thr x, y, z; x = go(&meet); if (s.n > 1) y = go(&meet); if (s.n > 2) z = go(&meet); }
	for (int r = 0; r < s.got; ++r) SX_ASSERT(glast[r] == 1, "one of them is the last");
	sx_reach("end");
}

// destroying a thread cancels its token and waits for its end; an exception does not leave it
namespace
{
	struct Body1 : public function_info<void (const ICancellationToken&)>
	{
		int kind; u32 v; u32* out; shared_ptr<u32> held;
		void operator () (const ICancellationToken& t) const
		{
			if (kind == 1) { const u64 from = nowUs(); if (t.Sleep(us(1000000))) SX_ASSERT(nowUs() >= from + 1000000, "destruction wakes it"); else SX_ASSERT(t.IsCancelled(), "cancelled"); }
			if (kind == 2) { Mutex m; ConditionVariable c; MutexLock l(m); while (t) c.Wait(m, t); }
			if (kind == 3) { *out = v + *held; throw std::runtime_error("x"); }
			*out = v + *held;
		}
	};
}
SX_ENTRY(thread_life)
{
	Body1 b; b.kind = sx_choose("kind", 4); b.v = sx_u32("v"); u32 out = ~b.v; b.out = &out; b.held = make_shared_ptr<u32>(5u); const weak_ptr<u32> w(b.held); const bool wait = sx_choose("later", 2);
	{
		Thread t("t", b); b.held.reset(); if (wait) sx_quiesce();
		if (b.kind == 0 && wait) SX_ASSERT(out == b.v + 5, "it runs by itself");
		if (b.kind == 2 && wait) SX_ASSERT(out == ~b.v && !w.expired(), "it runs until it is destroyed");
	}
	SX_ASSERT(out == b.v + 5, "it ran to its end"); SX_ASSERT(w.expired(), "its function is destroyed with it");
	sx_reach("end");
}
