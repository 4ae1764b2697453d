// X03: life tokens and signals.
#include "threads.h"
#include <stingraykit/shared_ptr.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>

using namespace stingray;

// ---- life tokens: after the release the task is neither running nor going to run
namespace
{
	struct Work { u32 v; bool gone; } gwork;
	int gruns, gskips, ginside; bool greleased, glate; u32 gv;
	const FutureExecutionTester* gtester;
	void runGuarded()
	{
		LocalExecutionGuard g(*gtester);
		if (!g) { ++gskips; SX_ASSERT(glate || greleased, "refused only after the release began"); return; }
		++ginside; SX_ASSERT(ginside == 1, "one at a time"); SX_ASSERT(!gwork.gone, "never after the release"); gwork.v += gv; sx_quiesce(); SX_ASSERT(!gwork.gone, "the release waits for the task"); gwork.v -= gv; --ginside; ++gruns;
	}
	void taskTwice() { for (int i = 0; i < 2; ++i) runGuarded(); }
}
static TaskLifeToken* gtoken; static TaskLifeHolder* gholder; static unsigned gkind;
static void releaser()
{
	glate = true;
	if (gkind == 0) gtoken->Release(); else if (gkind == 1) gtoken->Reset(); else if (gkind == 2) gholder->Release(); else if (gkind == 3) gholder->Reset(); else { TaskLifeToken moved(std::move(*gtoken)); moved.Release(); }
	SX_ASSERT(ginside == 0, "not running"); SX_ASSERT(gwork.v == gv, "no task in the middle"); gwork.gone = true; greleased = true;
}
SX_ENTRY(life_token)
{
	gruns = gskips = ginside = 0; greleased = glate = false; gv = sx_u32("v"); gwork.v = gv; gwork.gone = false; gkind = sx_choose("how", 5); const bool two = sx_choose("threads", 2);
	{
		TaskLifeToken t; TaskLifeHolder h; gtoken = &t; gholder = &h; const FutureExecutionTester tester = gkind == 2 || gkind == 3 ? h.GetExecutionTester() : t.GetExecutionTester(); gtester = &tester;
		{ Thr a = go(&taskTwice), b, c = go(&releaser); if (two) b = go(&taskTwice); }
		SX_ASSERT(gruns + gskips == (two ? 4 : 2), "every attempt is decided");
		{ LocalExecutionGuard g(tester); SX_ASSERT(!g, "dead for good"); }
		if (gkind == 1) { LocalExecutionGuard g(t.GetExecutionTester()); SX_ASSERT(!!g, "fresh after a reset"); } if (gkind == 3) { LocalExecutionGuard g(h.GetExecutionTester()); SX_ASSERT(!!g, "fresh after a reset"); }
		{ const TaskLifeToken dead = TaskLifeToken::CreateDeadTaskToken(); LocalExecutionGuard g(dead.GetExecutionTester()); SX_ASSERT(!g, "born dead"); }
		{ LocalExecutionGuard g((FutureExecutionTester(null))), g2((FutureExecutionTester(null))); SX_ASSERT(!!g && !!g2, "always allowed"); SX_ASSERT(TaskLifeToken::CreateDummyTaskToken().GetExecutionTester().IsDummy() && !tester.IsDummy(), "dummy"); }
		if (gruns) sx_reach("ran"); if (gskips) sx_reach("skipped");
		t.Release();
	}
}

// ---- signals
namespace
{
	typedef signal<void (u32)> Sig;
	struct Log { int n; unsigned who[24]; u32 what[24]; void add(unsigned w, u32 v) { SX_ASSERT(n < 24, "no stray calls"); who[n] = w; what[n++] = v; } };
	Log glog; Sig* gsig; Token gconn[4]; bool gdone[4]; int grunning[4];
	struct Payload { bool dead; Payload() : dead(false) { } ~Payload() { dead = true; } };
	struct Slot : public function_info<void (u32)>
	{
		unsigned id; unsigned act; shared_ptr<u32> held;
		Slot(unsigned id_, unsigned act_ = 0) : id(id_), act(act_) { }
		void operator () (u32 v) const
		{
			SX_ASSERT(!gdone[id], "no call after its disconnection");
			const unsigned a = act; const u32 h = held ? *held : 0;
			sx_atomic(1); glog.add(id, v + h); sx_atomic(0);
			if (a == 1) { sx_quiesce(); SX_ASSERT(!gdone[id], "the disconnection waits for the call"); }
			if (a == 2 && (v & 1)) throw std::runtime_error("slot");
			if (a == 3) { gconn[(id + 1) % 4].Reset(); gdone[(id + 1) % 4] = true; }
			if (a == 4) { gconn[3] = gsig->connect(Slot(3)); }
			if (a == 5) { gconn[id].Reset(); }
		}
	};
	unsigned gerrors; struct OnError : public function_info<void (const std::exception&)> { void operator () (const std::exception&) const { ++gerrors; } };
	void clear() { glog.n = 0; gerrors = 0; for (int i = 0; i < 4; ++i) { gdone[i] = false; } }
	u32 gargs[3];
}

// every call reaches every slot connected by then exactly once, in order of connection; after its disconnection a slot is not running
static void emitter() { for (int i = 0; i < 2; ++i) (*gsig)(gargs[i]); }
static void disconnector() { gconn[0].Reset(); gdone[0] = true; }
static void connector() { gconn[2] = gsig->connect(Slot(2)); }
SX_ENTRY(signal_threads)
{
	clear(); gargs[0] = sx_u32("a"); gargs[1] = sx_u32("b"); const unsigned k = sx_choose("kind", 3); const bool slow = sx_choose("slow", 2); const u32 extra = sx_u32("held");
	{
		Sig s; gsig = &s; { Slot s0(0, slow), s1(1); s0.held = make_shared_ptr<u32>(extra); gconn[0] = s.connect(s0); gconn[1] = s.connect(s1); }
		{ Thr a = go(&emitter), b = k == 1 ? go(&connector) : go(&disconnector), c; if (k == 2) c = go(&connector); }
		int n0 = 0, n1 = 0, n2 = 0; for (int i = 0; i < glog.n; ++i) { if (glog.who[i] == 0) SX_ASSERT(glog.what[i] == gargs[n0++] + extra, "arguments, with its data"); else if (glog.who[i] == 1) SX_ASSERT(glog.what[i] == gargs[n1++], "arguments in order"); else { ++n2; SX_ASSERT(glog.what[i] == gargs[0] || glog.what[i] == gargs[1], "arguments"); } }
		SX_ASSERT(n1 == 2, "an untouched slot gets every call"); if (k == 1) SX_ASSERT(n0 == 2, "every call"); SX_ASSERT(n0 <= 2 && n2 <= 2 && (k || !n2), "at most once each"); if (n2 == 1) SX_ASSERT(glog.who[glog.n - 1] == 2 && glog.what[glog.n - 1] == gargs[1], "the one it was connected for");
		const int before = glog.n; s(7); SX_ASSERT(glog.n == before + 1 + (k == 1) + (k != 0), "exactly the connected slots"); if (n0 < 2) sx_reach("cut"); if (n2 == 1) sx_reach("between");
	}
	if (sx_choose("late", 2)) for (auto& c : gconn) c.Reset(); else { gconn[1].Reset(); gconn[0].Reset(); gconn[2].Reset(); }
	sx_reach("end");
}

// a state guarded by the signal: whoever connects learns every element exactly once, in order
namespace
{
	u32 gstate[4], gmin; int gcount;
	struct Populator : public function_info<void (const function<void (u32)>&)> { void operator () (const function<void (u32)>& slot) const { for (int i = 0; i < gcount; ++i) if (gstate[i] >= gmin) slot(gstate[i]); } };
	void adder() { for (int i = 0; i < 2; ++i) { signal_locker l(*gsig); gstate[gcount++] = gargs[i]; if (gargs[i] >= gmin) (*gsig)(gargs[i]); } }
	void watcher() { gconn[0] = gsig->connect(Slot(0)); }
	void watcherLate() { gconn[1] = gsig->connect(Slot(1), false); }
}
SX_ENTRY(signal_state)
{
	clear(); gcount = 0; gmin = sx_u32("min"); gargs[0] = sx_u32("a"); gargs[1] = sx_u32("b"); const bool more = sx_choose("threads", 2);
	{
		Sig s((Populator())); gsig = &s; if (sx_choose("initial", 2)) gstate[gcount++] = gargs[2] = sx_u32("c"); const int initial = gcount;
		{ Thr a = go(&adder), b = go(&watcher), c; if (more) c = go(&watcherLate); }
		int n = 0, late = 0; for (int i = 0; i < gcount; ++i) if (gstate[i] >= gmin) { while (n < glog.n && glog.who[n]) ++n; SX_ASSERT(n < glog.n && glog.what[n] == gstate[i], "each element once, in order"); ++n; }
		for (int i = 0; i < glog.n; ++i) { if (glog.who[i]) ++late; else SX_ASSERT(i < n, "no element twice"); SX_ASSERT(glog.what[i] >= gmin, "only what is shown"); } SX_ASSERT(late <= gcount - initial, "only what came later");
		const optional<u32> one = GetValueFromSignal(signal_connector<void (u32)>()); SX_ASSERT(!one, "nothing");
		if (initial && sx_choose("query", 2)) { gcount = 1; gmin = 0; const optional<u32> v = GetValueFromSignal(s.connector()); SX_ASSERT(v && *v == gstate[0], "the current value"); gcount = 0; SX_ASSERT(!HasValueInSignal(s.connector()), "no current value"); }
		sx_reach("end");
	}
	gconn[0].Reset(); gconn[1].Reset();
}

// slots that connect, disconnect or throw while the signal is being emitted
SX_ENTRY(signal_reentrant)
{
	clear(); const u32 v = sx_u32("v"), w = sx_u32("w"); unsigned act[3]; for (int i = 0; i < 3; ++i) act[i] = sx_choose("act", 6);
	if (act[0] == 4) SX_ASSUME(act[1] != 4 && act[2] != 4); if (act[1] == 4) SX_ASSUME(act[2] != 4); if (act[2] == 3) SX_ASSUME(act[0] != 4 && act[1] != 4);
	{
		Sig s(null, OnError()); gsig = &s; for (unsigned i = 0; i < 3; ++i) gconn[i] = s.connect(Slot(i, act[i] == 1 ? 0 : act[i]));
		// model: who is connected
		bool con[4] = { true, true, true, false }; 
		for (int round = 0; round < 2; ++round)
		{
			glog.n = 0; gerrors = 0; const u32 x = round ? w : v; s(x); unsigned want[4], errs = 0; int n = 0; bool now[4]; for (int i = 0; i < 4; ++i) now[i] = con[i];
			for (unsigned i = 0; i < 4; ++i) if (now[i] && con[i]) { want[n++] = i; if (i == 3) continue; if (act[i] == 2) errs += x & 1; else if (act[i] == 3) con[(i + 1) % 4] = false; else if (act[i] == 4) { con[3] = true; now[3] = false; } else if (act[i] == 5) con[i] = false; }
			SX_ASSERT(glog.n == n, "exactly the slots connected when the call began, and still"); for (int i = 0; i < n; ++i) { SX_ASSERT(glog.who[i] == want[i], "in order of connection"); SX_ASSERT(glog.what[i] == x, "argument"); } SX_ASSERT(gerrors == errs, "exceptions go to the handler");
		}
		sx_reach("end");
	}
	for (auto& c : gconn) c.Reset();
}

// histories of connecting, disconnecting, calling and querying; connections may outlive the signal
SX_ENTRY(signal_history)
{
	clear(); { Slot warm(0); Sig s; Token t = s.connect(warm); } const u64 live = sx_heap_live();
	{
		const unsigned policy = sx_choose("policy", 3); unique_ptr<Sig> s(policy == 2 ? new Sig() : new Sig(null, OnError(), policy ? ConnectionPolicy::AsyncOnly : ConnectionPolicy::SyncOnly)); optional<Sig::Invoker> inv; bool con[3] = { }; unsigned order[8]; int n = 0; const u32 v = sx_u32("v");
		ITaskExecutorPtr ex;
		for (int step = 0, steps = 4 + sx_tier(); step < steps && s; ++step)
			switch (sx_choose("op", 5))
			{
			case 0: { const unsigned i = sx_choose("i", 3); if (con[i]) { int k = 0; for (int j = 0; j < n; ++j) if (order[j] != i) order[k++] = order[j]; n = k; con[i] = false; gconn[i].Reset(); } gdone[i] = false;
				bool threw = false; const unsigned how = sx_choose("how", 2); try { gconn[i] = how ? s->connector().connect(Slot(i)) : s->connect(Slot(i)); } catch (const std::exception&) { threw = true; } SX_ASSERT(threw == (policy == 1), "a connection against the policy is refused"); if (!threw) { con[i] = true; order[n++] = i; } break; }
			case 1: { const unsigned i = sx_choose("i", 3); if (con[i]) { int k = 0; for (int j = 0; j < n; ++j) if (order[j] != i) order[k++] = order[j]; n = k; con[i] = false; } gconn[i].Reset(); gdone[i] = true; break; }
			case 2: { glog.n = 0; if (inv) (*inv)(v); else (*s)(v); SX_ASSERT(glog.n == n, "exactly the connected slots"); for (int j = 0; j < n; ++j) SX_ASSERT(glog.who[j] == order[j] && glog.what[j] == v, "in order"); break; }
			case 3: inv = s->invoker(); break;
			default: if (policy == 0) SX_ASSERT(SX_THROWS(s->connect(ex, Slot(0))), "a connection against the policy is refused"); s.reset(); if (inv) { glog.n = 0; (*inv)(v); SX_ASSERT(glog.n == n, "the invoker reaches the slots without the signal"); sx_reach("outlives"); } break;
			}
		for (auto& c : gconn) c.Reset(); inv.reset();
	}
	SX_ASSERT(sx_heap_live() == live, "nothing is left over"); sx_reach("end");
}

// signals without threads and lazily created ones
namespace
{
	typedef signal<void (u32), signal_policies::threading::Threadless> TSig;
	typedef signal<void (u32), signal_policies::threading::Multithreaded, signal_policies::exception_handling::Null, signal_policies::populators::Null, signal_policies::connection_policy_control::Null, signal_policies::creation::Lazy> LSig;
	typedef signal<void (u32), signal_policies::threading::ExternalMutexPointer> ESig;
	struct Plain : public function_info<void (u32)> { unsigned id; explicit Plain(unsigned i) : id(i) { } void operator () (u32 v) const { glog.add(id, v); } };
	template < typename S > void variants(S& s, u32 v, u32 w)
	{
		s(v); SX_ASSERT(glog.n == 0, "no slots"); { Token a = s.connect(Plain(0)); s(v); { Token b = s.connect(Plain(1)); s(w); } s(v); }
		s(w); SX_ASSERT(glog.n == 4, "exactly the connected slots"); const unsigned who[] = { 0, 0, 1, 0 }; const u32 what[] = { v, w, w, v }; for (int i = 0; i < 4; ++i) SX_ASSERT(glog.who[i] == who[i] && glog.what[i] == what[i], "in order");
		Token t = s.connect(Plain(2)); t.Reset(); s(v); SX_ASSERT(glog.n == 4, "disconnected");
	}
}
SX_ENTRY(signal_kinds)
{
	clear(); const u32 v = sx_u32("v"), w = sx_u32("w");
	switch (sx_choose("kind", 4))
	{
	case 0: { TSig s; variants(s, v, w); break; }
	case 1: { LSig s; variants(s, v, w); break; }
	case 2: { const shared_ptr<const Mutex> m = make_shared_ptr<const Mutex>(); ESig s((signal_policies::threading::ExternalMutexPointer(m))); MutexLock l(*m); variants(s, v, w); break; }
	default: { Sig s; variants(s, v, w); ThreadlessTaskExecutorPtr ex = make_shared_ptr<ThreadlessTaskExecutor>("e"); { Token a = s.connect(ex, Plain(0)), b = s.connect(ex, Plain(1)); s(v); s(w); SX_ASSERT(glog.n == 4, "later, by the executor"); const unsigned cut = sx_choose("cut", 3); if (cut == 0) a.Reset(); if (cut == 1) b.Reset(); ex->ExecuteTasks(); SX_ASSERT(glog.n == (cut == 2 ? 8 : 6), "exactly the connected slots"); for (int i = 4, k = 0; i < glog.n; ++i, ++k) { const int j = cut == 2 ? k / 2 : k; SX_ASSERT(glog.what[i] == (j ? w : v) && glog.who[i] == (cut == 2 ? (unsigned)k % 2 : 1 - cut), "in order"); } s(v); } const int n = glog.n; ex->ExecuteTasks(); SX_ASSERT(glog.n == n, "nothing after the disconnection"); break; }
	}
	sx_reach("end");
}
