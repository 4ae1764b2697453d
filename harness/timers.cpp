// X05: timers and deferred execution on a virtual clock.
#include "threads.h"
#include <stingraykit/shared_ptr.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/timer/Timer.h>

using namespace stingray;

namespace
{
	u64 nowUs() { return sx_clock() / 1000; }
	TimeDuration us(s64 v) { return TimeDuration::FromMicroseconds(v); }
	void sleepUs(u64 v) { Thread::SleepMicroseconds(v); }
	void sleepTill(u64 t) { while (nowUs() < t) sleepUs(t - nowUs()); sx_quiesce(); }
	struct Log { int n; unsigned who[16]; u32 what[16]; u64 when[16]; } glog; int gerrors, gbusy; u32 glimit, gval[4]; u64 gdue[4]; unsigned gact[4]; bool gremoved[4]; Token gtok[4]; Timer* gtimer; Mutex gm; weak_ptr<u32> gw[4];
	struct OnError : public function_info<void (const std::exception&)> { void operator () (const std::exception&) const { ++gerrors; } };
	struct Task : public function_info<void ()>
	{
		unsigned id; shared_ptr<u32> v;
		explicit Task(unsigned i) : id(i), v(make_shared_ptr<u32>(gval[i])) { if (i < 1) gw[i] = v; }
		void operator () () const
		{
			sx_atomic(1); SX_ASSERT(++gbusy == 1, "one task at a time"); SX_ASSERT(!gremoved[id], "never after its removal"); SX_ASSERT(nowUs() >= gdue[id], "not before its time"); SX_ASSERT(glog.n < 16, "no stray runs"); glog.who[glog.n] = id; glog.what[glog.n] = *v; glog.when[glog.n++] = nowUs(); sx_atomic(0);
			if (gact[id] == 2) { MutexLock l(gm); }
			if (gact[id] == 4 && glog.n < 2) Thread::SleepMicroseconds(25);
			if (gact[id] == 3 && id < 3) { gdue[3] = nowUs() + 10; gtok[3] = gtimer->SetTimeout(us(10), Task(3)); }
			SX_ASSERT(!gremoved[id], "the removal waits for it"); --gbusy;
			if (gact[id] == 1 && *v >= glimit) throw std::runtime_error("task");
		}
	};
	void clear() { glog.n = 0; gerrors = gbusy = 0; glimit = sx_u32("limit"); for (int i = 0; i < 4; ++i) { gval[i] = sx_u32("v"); gact[i] = 0; gdue[i] = 0; gremoved[i] = false; } }
	int runs(unsigned id) { int n = 0; for (int i = 0; i < glog.n; ++i) n += glog.who[i] == id; return n; }
	void checkData() { int errs = 0; for (int i = 0; i < glog.n; ++i) { const unsigned w = glog.who[i]; SX_ASSERT(glog.what[i] == gval[w], "its own data"); if (gact[w] == 1) errs += gval[w] >= glimit; } SX_ASSERT(gerrors == errs, "exceptions go to the handler"); }
	void warmUp() { { Timer t("w", null, OnError()); Token x = t.SetTimeout(us(0), Task(0)); sx_quiesce(); gval[1] = ~0u; gact[1] = 1; t.AddTask(Task(1)); } gerrors = glog.n = 0; for (auto& w : gw) w.reset(); clear(); }
}

// every timeout runs once, not before its time, in order of time (and of setting)
SX_ENTRY(timer_order)
{
	sx_atomic(1); clear(); warmUp(); const u64 live = sx_heap_live(); sx_atomic(0);
	{
		Timer t("t", null, OnError()); gtimer = &t; const u64 from = nowUs(); const int n = 3;
		for (int i = 0; i < n; ++i) { const s64 d = 10 * (s64)sx_choose("delay", 3) - (i == 2 ? 10 : 0); if (i == 0) gact[0] = sx_choose("act", 4); gdue[i] = from + (d < 0 ? 0 : d); gtok[i] = t.SetTimeout(us(d), Task(i)); }
		sleepTill(from + 50); checkData();
		for (unsigned i = 0; i < n; ++i) SX_ASSERT(runs(i) == 1, "once"); SX_ASSERT(runs(3) == (gact[0] == 3), "once");
		for (int i = 0; i < glog.n; ++i) for (int j = 0; j < i; ++j) if (glog.who[i] < 3 && glog.who[j] < 3) SX_ASSERT(gdue[glog.who[j]] < gdue[glog.who[i]] || (gdue[glog.who[j]] == gdue[glog.who[i]] && glog.when[j] <= glog.when[i]), "in order of time");
		if (gdue[0] == gdue[1] && glog.who[0] == 1) sx_fail("in order of setting");
		for (auto& k : gtok) k.Reset();
	}
	for (auto& w : gw) w.reset();
	SX_ASSERT(sx_heap_live() == live, "tasks are destroyed"); sx_reach("end");
}

// a removed timeout is not running when its token is gone and never runs afterwards
static void remover() { const unsigned k = sx_choose("late", 3); if (k) sleepUs(k * 10); gtok[0].Reset(); gremoved[0] = true; SX_ASSERT(!gw[0].lock(), "its data is released"); }
SX_ENTRY(timer_remove)
{
	sx_atomic(1); clear(); warmUp(); const u64 live = sx_heap_live(); sx_atomic(0); const bool periodic = sx_choose("periodic", 2);
	{
		sx_atomic(1); Timer t("t", null, OnError()); gtimer = &t; const u64 from = nowUs(); sx_atomic(0); gact[0] = 2 * sx_choose("act", 2);
		gdue[0] = from + 10; gtok[0] = periodic ? t.SetTimer(us(10), Task(0)) : t.SetTimeout(us(10), Task(0)); gdue[1] = from + 20; gtok[1] = t.SetTimeout(us(20), Task(1));
		{ Thr a = go(&remover); }
		const int before = runs(0); sleepTill(from + 45); SX_ASSERT(runs(0) == before, "never again"); if (!periodic) SX_ASSERT(before <= 1, "once"); SX_ASSERT(runs(1) == 1, "the other one ran"); checkData(); if (before) sx_reach("ran"); else sx_reach("removed");
		gtok[1].Reset();
	}
	for (auto& w : gw) w.reset();
	SX_ASSERT(sx_heap_live() == live, "tasks are destroyed"); sx_reach("end");
}

// a periodic task runs again and again, each time at least its interval after the last time
SX_ENTRY(timer_periodic)
{
	clear(); sx_atomic(1); Timer t("t", null, OnError()); gtimer = &t; const u64 from = nowUs(); sx_atomic(0); const s64 first = 10 * sx_choose("first", 2), every = 10 + 5 * sx_choose("every", 2); { static const unsigned acts[4] = { 0, 1, 2, 4 }; gact[0] = acts[sx_choose("act", 4)]; } const bool other = sx_choose("other", 2);
	gdue[0] = from + first; gtok[0] = sx_choose("how", 2) && first == every ? t.SetTimer(us(every), Task(0)) : t.SetTimer(us(first), us(every), Task(0)); if (other) { gdue[1] = from + 15; gtok[1] = t.SetTimeout(us(15), Task(1)); }
	for (u64 x = from + 10; x <= from + 40; x += 10) sleepTill(x);
	gtok[0].Reset(); gremoved[0] = true; checkData(); u64 last = 0; int n = 0;
	for (int i = 0; i < glog.n; ++i) if (glog.who[i] == 0) { if (n) SX_ASSERT(glog.when[i] >= last + every, "an interval apart"); last = glog.when[i]; ++n; }
	SX_ASSERT((gact[0] == 4 ? n > 1 : n >= (40 - first) / every) && n <= (40 - first) / every + 1, "every interval"); if (n) SX_ASSERT(glog.when[0] >= from + first, "first time"); if (other) SX_ASSERT(runs(1) == 1, "the other one ran"); sleepTill(from + 60); SX_ASSERT(runs(0) == n, "never again"); gtok[1].Reset(); sx_reach("end");
}

// destroying the timer runs what is due, drops the rest and waits for the task that is running; tokens may outlive it
static void addSome() { for (unsigned i = 0; i < 2; ++i) gtimer->AddTask(Task(i)); }
SX_ENTRY(timer_destroy)
{
	sx_atomic(1); clear(); warmUp(); const u64 live = sx_heap_live(); sx_atomic(0); const unsigned k = sx_choose("kind", 3); gact[0] = sx_choose("act", 3); bool over;
	{
		TaskLifeToken life;
		{
			Timer t("t", null, OnError()); gtimer = &t; gdue[2] = nowUs() + 100; gtok[2] = t.SetTimeout(us(100), Task(2));
			if (k == 0) { Thr a = go(&addSome); if (sx_choose("wait", 2)) { sx_quiesce(); SX_ASSERT(glog.n >= 2, "it works by itself"); } }
			else if (k == 1) { gtok[0] = t.SetTimer(us(0), us(100), Task(0)); t.AddTask(Task(1), life.GetExecutionTester()); if (sx_choose("release", 2)) { life.Release(); gremoved[1] = true; } }
			else { addSome(); gdue[3] = nowUs() + 10; gtok[3] = t.SetTimeout(us(10), Task(3)); }
			over = nowUs() >= gdue[2];
		}
		const int n = glog.n; SX_ASSERT(runs(0) == 1 || (k == 1 && runs(0) == 2), "what was due ran"); if (!gremoved[1]) SX_ASSERT(runs(1) == 1, "what was due ran"); if (!over && nowUs() < gdue[2]) SX_ASSERT(runs(2) == 0, "the rest never runs"); SX_ASSERT(runs(3) <= 1, "once"); checkData();
		if (sx_choose("late", 2)) for (auto& x : gtok) x.Reset(); 
		sleepUs(200); SX_ASSERT(glog.n == n, "nothing runs afterwards"); life.Release();
	}
	for (auto& x : gtok) x.Reset();
	for (auto& w : gw) w.reset();
	SX_ASSERT(sx_heap_live() == live, "tasks are destroyed"); sx_reach("end");
}

// only the last deferred task runs, a timeout after it was deferred; after Cancel none does
static ExecutionDeferrer* gdef;
SX_ENTRY(deferrer)
{
	sx_atomic(1); clear(); Timer t("t", null, OnError()); gtimer = &t; sx_atomic(0); const u64 from = nowUs(); const unsigned k = sx_choose("kind", 4);
	{
		ExecutionDeferrer d(t, us(20)); gdef = &d; gdue[0] = from + 20; d.Defer(Task(0));
		if (k == 0) { sleepTill(from + 10); gdue[1] = nowUs() + 20; const u64 at = nowUs(); d.Defer(Task(1)); sx_quiesce(); if (at < from + 20) SX_ASSERT(runs(0) == 0, "replaced"); gremoved[0] = true; sleepTill(at + 60); SX_ASSERT(runs(1) == 1, "the last one runs once"); }
		else if (k == 1) { const unsigned w = sx_choose("when", 3); if (w) sleepUs(w * 10); d.Cancel(); gremoved[0] = true; const int n = runs(0); sleepTill(nowUs() + 60); SX_ASSERT(runs(0) == n && n <= 1, "cancelled"); if (n) sx_reach("late"); else sx_reach("cancelled"); }
		else if (k == 2) { sleepTill(from + 50); SX_ASSERT(runs(0) == 1, "once"); gdue[1] = nowUs() + 5; d.Defer(Task(1), us(5)); sleepTill(nowUs() + 40); SX_ASSERT(runs(1) == 1 && runs(0) == 1, "each once"); }
		else { gdue[2] = nowUs() + 5; const u64 at = nowUs(); d.Defer(Task(2), us(5), us(10)); sx_quiesce(); for (u64 x = at + 5; x <= at + 25; x += 10) sleepTill(x); d.Cancel(); gremoved[2] = true; SX_ASSERT(runs(2) >= 1, "periodic"); const int n = runs(2); sleepTill(nowUs() + 50); SX_ASSERT(runs(2) == n, "cancelled"); if (n == 3) sx_reach("three"); }
		checkData(); d.Cancel();
	}
	SX_ASSERT(SX_THROWS(ExecutionDeferrer(t).Defer(Task(0))), "a timeout is needed"); sx_reach("end");
}
