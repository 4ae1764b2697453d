// X06: promises and futures.
#include "threads.h"
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/future.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/TimedCancellationToken.h>

using namespace stingray;

namespace
{
	TimeDuration us(s64 v) { return TimeDuration::FromMicroseconds(v); }
	typedef promise<u32> P; typedef future<u32> F; typedef shared_future<u32> SF;
	ExceptionPtr error(unsigned k) { return MakeExceptionPtr(std::runtime_error(k ? "error1" : "error0")); }
	// what a future yields: 0 value, 1-2 the given error, 3 broken promise, 4 anything else
	struct Out { int kind; u32 v; };
	int kindOf(const std::exception& ex) { const std::string w = ex.what(); return w.find("error0") != std::string::npos ? 1 : w.find("error1") != std::string::npos ? 2 : w.find("Promise destroyed before value is set") != std::string::npos ? 3 : 4; }
	template < typename Fut > Out take(Fut& f) { Out o = { 4, 0 }; try { o.v = f.get(); o.kind = 0; } catch (const std::exception& ex) { o.kind = kindOf(ex); } return o; }
	template < typename Ex, typename Fn > bool throwsOnly(const Fn& f) { try { f(); return false; } catch (const Ex&) { return true; } catch (...) { sx_fail("another exception"); } }
}

// histories of two promises and their futures
SX_ENTRY(promise_history)
{
	struct State { int id; bool got; } ps[2]; struct Slot { int kind; u32 v; bool set; } st[2]; // st by identity
	P a, b; P* p[2] = { &a, &b }; unique_ptr<F> f[2]; SF s[2]; int fid[2] = { -1, -1 }, sid[2] = { -1, -1 };
	for (int i = 0; i < 2; ++i) { ps[i].id = i; ps[i].got = false; st[i].set = false; }
	const int n = sx_tier() ? 5 : 4; if (sx_choose("fetched", 2)) for (int i = 0; i < 2; ++i) { f[i].reset(new F(p[i]->get_future())); ps[i].got = true; fid[i] = i; }
	for (int k = 0; k < n; ++k)
	{
		const unsigned op = sx_choose("op", 7), w = op == 4 ? 0 : sx_choose("which", 2); State& q = ps[w]; Slot& t = st[q.id];
		if (op == 0) { if (q.got) SX_ASSERT(throwsOnly<FutureAlreadyRetrieved>([&] { p[w]->get_future(); }), "one future only"); else { f[w].reset(new F(p[w]->get_future())); q.got = true; fid[w] = q.id; } }
		else if (op == 1) { const u32 v = sx_u32("v"); if (t.set) SX_ASSERT(throwsOnly<PromiseAlreadySatisfied>([&] { p[w]->set_value(v); }), "one value only"); else { p[w]->set_value(v); t.set = true; t.kind = 0; t.v = v; } }
		else if (op == 2) { const unsigned e = sx_choose("error", 2); p[w]->set_exception(error(e)); if (!t.set) { t.set = true; t.kind = 1 + e; } }
		else if (op == 3) { if (f[w] && fid[w] >= 0) { const Slot& x = st[fid[w]]; if (!x.set) continue; const Out o = take(*f[w]); SX_ASSERT(o.kind == x.kind && (o.kind || o.v == x.v), "what was promised"); SX_ASSERT(!f[w]->valid() && SX_THROWS(f[w]->get()) && SX_THROWS(f[w]->is_ready()), "only once"); fid[w] = -1; } }
		else if (op == 4) { const int how = sx_choose("how", 2); p[how]->swap(*p[1 - how]); std::swap(ps[0], ps[1]); }
		else if (op == 5) { { P fresh; fresh.swap(*p[w]); } if (!t.set) { t.set = true; t.kind = 3; } for (int j = 0; j < 2; ++j) { if (fid[j] == q.id && f[j]) { const Out o = take(*f[j]); SX_ASSERT(o.kind == t.kind && (o.kind || o.v == t.v), "what was promised"); f[j].reset(); fid[j] = -1; } if (sid[j] == q.id) { const Out o = take(s[j]); SX_ASSERT(o.kind == t.kind && (o.kind || o.v == t.v), "what was promised"); s[j] = SF(); sid[j] = -1; } } t.set = false; q.got = false; }
		else if (f[w] && fid[w] >= 0) { s[w] = f[w]->share(); sid[w] = fid[w]; fid[w] = -1; SX_ASSERT(!f[w]->valid(), "moved to the shared one"); }
		for (int i = 0; i < 2; ++i)
		{
			if (f[i]) { SX_ASSERT(f[i]->valid() == (fid[i] >= 0), "valid until taken"); if (fid[i] >= 0) { const Slot& x = st[fid[i]]; SX_ASSERT(f[i]->is_ready() == x.set && f[i]->has_value() == (x.set && !x.kind) && f[i]->has_exception() == (x.set && x.kind), "ready when set"); } }
			if (sid[i] >= 0) { const Slot& x = st[sid[i]]; SF c(s[i]); SX_ASSERT(c.is_ready() == x.set && c.has_value() == (x.set && !x.kind) && c.has_exception() == (x.set && x.kind), "ready when set"); if (x.set) for (int r = 0; r < 2; ++r) { const Out o = take(c); SX_ASSERT(o.kind == x.kind && (o.kind || o.v == x.v), "as often as wanted"); } }
			else SX_ASSERT(!s[i].valid(), "no result assigned");
		}
	}
	sx_reach("end");
}

// a promise that dies without a value breaks its future, one that is satisfied does not
SX_ENTRY(promise_broken)
{
	const unsigned k = sx_choose("set", 3), e = sx_choose("error", 2); const u32 v = sx_u32("v"); const bool shared = sx_choose("shared", 2);
	{
		unique_ptr<F> f; { P p; f.reset(new F(p.get_future())); if (k == 1) p.set_value(v); if (k == 2) p.set_exception(error(e)); }
		Out o; if (shared) { SF s = f->share(); SF s2; s2.swap(s); SX_ASSERT(!s.valid() && s2.wait() == future_status::ready, "swapped"); o = take(s2); } else { SX_ASSERT(f->wait() == future_status::ready, "over"); o = take(*f); }
		SX_ASSERT(o.kind == (k == 0 ? 3 : k == 1 ? 0 : 1 + (int)e) && (o.kind || o.v == v), "what was promised");
		u32 x = v; optional<future<u32&> > fr; { promise<u32&> p; fr.emplace(p.get_future()); if (k == 1) p.set_value(x); if (k == 2) p.set_exception(error(e)); } SX_ASSERT(fr->has_value() == (k == 1), "value"); if (k == 1) { u32& r = fr->get(); SX_ASSERT(&r == &x, "the same object"); } else SX_ASSERT(SX_THROWS(fr->get()), "error");
		optional<future<void> > fv; { promise<void> p; fv.emplace(p.get_future()); SX_ASSERT(throwsOnly<FutureAlreadyRetrieved>([&] { p.get_future(); }), "one"); if (k == 1) { p.set_value(); SX_ASSERT(throwsOnly<PromiseAlreadySatisfied>([&] { p.set_value(); }), "once"); } if (k == 2) p.set_exception(error(e)); promise<void> q; q.swap(p); SX_ASSERT(!SX_THROWS(p.get_future()) && SX_THROWS(q.get_future()), "swapped"); }
		SX_ASSERT(fv->is_ready() && fv->has_exception() == (k != 1), "ready"); int kind = 0; try { fv->get(); } catch (const std::exception& ex) { kind = kindOf(ex); } SX_ASSERT(kind == (k == 0 ? 3 : k == 1 ? 0 : 1 + (int)e), "what was promised");
	}
	sx_reach("end");
}

// everybody who waits gets the one value that was set, whoever set it
static P* gp; static SF gs; static u32 gval[2]; static int gset[2]; static unsigned gact[2]; static Out gout[2]; static u32 glimit;
template < int I > static void setter() { try { if (gact[I] == 0) gp->set_value(gval[I]); else if (gact[I] == 1) gp->set_exception(error(I)); else { P q; q.swap(*gp); } gset[I] = 1; } catch (const PromiseAlreadySatisfied&) { gset[I] = 2; } }
template < int I > static void getter() { SF s; { sx_atomic(1); s = gs; sx_atomic(0); } if (gval[0] < glimit && I) { SX_ASSERT(s.wait() == future_status::ready && s.is_ready(), "ready"); } gout[I] = take(s); SX_ASSERT(s.is_ready(), "stays ready"); }
SX_ENTRY(future_threads)
{
	sx_atomic(1); { Thr w = go(+[] { }); } (void)error(1); for (auto& v : gval) v = sx_u32("v"); glimit = sx_u32("limit"); const int setters = 1 + sx_choose("setters", 2); gact[0] = sx_choose("act", setters == 1 ? 3 : 2); gact[1] = sx_choose("act", 2); gset[0] = gset[1] = 0; gout[0].kind = gout[1].kind = 9; sx_atomic(0);
	{
		sx_atomic(1); P p; gp = &p; gs = p.get_future().share(); sx_atomic(0); { Thr g0 = go(&getter<0>), g1 = go(&getter<1>); { Thr a = go(&setter<0>); Thr b; if (setters == 2) b = go(&setter<1>); join(a); join(b); } join(g0); join(g1); }
		const Out o = gout[0]; SX_ASSERT(o.kind == gout[1].kind && o.v == gout[1].v, "the same for all");
		if (setters == 1) SX_ASSERT(o.kind == (gact[0] == 0 ? 0 : gact[0] == 1 ? 1 : 3) && (o.kind || o.v == gval[0]) && gset[0] == 1, "what was promised");
		else
		{
			int winners = 0; for (int i = 0; i < 2; ++i) winners += gset[i] == 1 && gact[i] == 0; SX_ASSERT(gset[0] && gset[1] && winners <= 1, "one value at most");
			if (o.kind == 0) { SX_ASSERT(winners == 1 && o.v == gval[gset[0] == 1 && gact[0] == 0 ? 0 : 1], "the winner's"); sx_reach("value"); } else { SX_ASSERT(winners == 0 && (o.kind == 1 || o.kind == 2) && gact[o.kind - 1] == 1, "an error that was set"); sx_reach("error"); }
		}
	}
	gs = SF(); sx_reach("end");
}

// waiting with a limit or a cancellation ends when it should and leaves the future usable
static CancellationToken* gct; static u64 gdelay, gcdelay;
static void lateSet() { if (gdelay) Thread::SleepMicroseconds(gdelay); gp->set_value(gval[0]); }
static void lateCancel() { if (gcdelay) Thread::SleepMicroseconds(gcdelay); gct->Cancel(); }
SX_ENTRY(future_wait)
{
	sx_atomic(1); { Thr w = go(+[] { }); } gval[0] = sx_u32("v"); const unsigned k = sx_choose("kind", 3); gdelay = 10 * sx_choose("delay", 3); gcdelay = 10 * sx_choose("cancel", 3); CancellationToken ct; gct = &ct; sx_atomic(0);
	{
		sx_atomic(1); P p; gp = &p; F f = p.get_future(); sx_atomic(0); const u64 at = sx_clock() / 1000; Thr a = go(&lateSet), c; if (k == 1) c = go(&lateCancel); future_status st = future_status::timeout;
		if (k == 0) { st = f.wait(TimedCancellationToken(us(10))); if (st == future_status::timeout) { SX_ASSERT(sx_clock() / 1000 >= at + 10, "not before the limit"); sx_reach("timeout"); } else SX_ASSERT(st == future_status::ready, "ready"); }
		else if (k == 1) { st = f.wait(ct); if (st == future_status::cancelled) { SX_ASSERT(!ct, "cancelled"); sx_reach("cancelled"); } else SX_ASSERT(st == future_status::ready, "ready"); }
		else { st = f.wait(); SX_ASSERT(st == future_status::ready, "ready"); }
		if (st == future_status::ready) SX_ASSERT(f.is_ready() && sx_clock() / 1000 >= at + gdelay, "really ready"); SX_ASSERT(f.valid(), "still there");
		const Out o = take(f); SX_ASSERT(o.kind == 0 && o.v == gval[0] && sx_clock() / 1000 >= at + gdelay, "the value"); join(a); join(c);
	}
	sx_reach("end");
}

// an asynchronous function hands over its result, its error, or that it will never run
struct Twice : public function_info<u32 (u32)> { u32 operator () (u32 x) const { if (x >= glimit) throw std::runtime_error("error0"); sx_atomic(1); ++gset[0]; sx_atomic(0); return x * 2 + 1; } };
static TaskLifeToken* glife; static void releaser() { glife->Release(); gset[1] = 1; }
SX_ENTRY(async_function)
{
	sx_atomic(1); { Thr w = go(+[] { }); } (void)error(0); glimit = sx_u32("limit"); gset[0] = gset[1] = 0; const u32 x = sx_u32("x"); const unsigned k = sx_choose("kind", 3);
	{
		TaskLifeToken life; glife = &life; shared_ptr<ThreadTaskExecutor> ex = make_shared_ptr<ThreadTaskExecutor>("e"); sx_atomic(0);
		if (k == 0) { F f = MakeAsyncFunction(ex, Twice(), life.GetExecutionTester())(x); const Out o = take(f); if (x < glimit) SX_ASSERT(o.kind == 0 && o.v == x * 2 + 1, "its result"); else SX_ASSERT(o.kind == 1, "its error"); }
		else if (k == 1) { Thr r; if (sx_choose("early", 2)) { life.Release(); gset[1] = 1; } else r = go(&releaser); F f = MakeAsyncFunction(ex, Twice(), life.GetExecutionTester())(x); const Out o = take(f); if (o.kind == 0) { SX_ASSERT(o.v == x * 2 + 1 && x < glimit && gset[0] == 1, "its result"); sx_reach("ran"); } else if (o.kind == 3) { SX_ASSERT(gset[0] == 0, "never runs"); sx_reach("broken"); } else SX_ASSERT(o.kind == 1 && x >= glimit, "its error"); join(r); }
		else { optional<F> f; { f.emplace(MakeAsyncFunction(ex, Twice())(x)); ex.reset(); } const Out o = take(*f); if (x < glimit) SX_ASSERT(o.kind == 0 && o.v == x * 2 + 1, "its result"); else SX_ASSERT(o.kind == 1, "its error"); }
		const int n = gset[0]; ex.reset(); SX_ASSERT(gset[0] == n && n <= 1, "once"); 
		TaskLifeToken lt; auto cf = MakeCancellableFunction(Twice(), lt.GetExecutionTester()); if (sx_choose("release", 2)) { lt.Release(); SX_ASSERT(SX_THROWS(cf(x)) && gset[0] == n, "cancelled"); } else if (x < glimit) SX_ASSERT(cf(x) == x * 2 + 1, "its result"); else SX_ASSERT(SX_THROWS(cf(x)), "its error");
	}
	sx_reach("end");
}

// a signal turned into a future yields the argument of the first call after connection
static signal<void (u32)>* gsig;
template < int I > static void emitter() { (*gsig)(gval[I]); gset[I] = 1; }
SX_ENTRY(signal_future)
{
	sx_atomic(1); { Thr w = go(+[] { }); signal<void (u32)> s; SignalToFutureWrapper<u32> x(s.connector()); s(1); s(1); } for (auto& v : gval) v = sx_u32("v"); gset[0] = gset[1] = 0; const int n = sx_choose("calls", 3); const bool early = sx_choose("early", 2);
	{
		signal<void (u32)> s; gsig = &s; SignalToFutureWrapper<u32> x(s.connector()); SF f; if (early) f = x.GetFuture(); sx_atomic(0); Thr a, b; if (n > 0) a = go(&emitter<0>); if (n > 1) b = go(&emitter<1>); if (!early) f = x.GetFuture(); SF f2 = x.GetFuture();
		if (n) { SX_ASSERT(f.wait() == future_status::ready, "ready"); const Out o = take(f), o2 = take(f2); SX_ASSERT(o.kind == 0 && o2.kind == 0 && o.v == o2.v, "one value"); SX_ASSERT(sx_or(o.v == gval[0], n > 1 && o.v == gval[1]), "an argument"); if (n > 1) { join(a); join(b); } join(a); const Out o3 = take(f); SX_ASSERT(o3.kind == 0 && o3.v == o.v, "it stays"); SX_ASSERT(gset[0] == 1 && (n < 2 || gset[1] == 1), "callers go on"); }
		else SX_ASSERT(!f.is_ready(), "not yet");
	}
	signal<void ()> sv; { SF f; { SignalToFutureWrapper<void> x(sv.connector()); shared_future<void> fv = x.GetFuture(); SX_ASSERT(!fv.is_ready(), "not yet"); sv(); SX_ASSERT(fv.is_ready() && fv.has_value(), "ready"); sv(); } } sv(); sx_reach("end");
}
