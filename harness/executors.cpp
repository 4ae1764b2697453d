// X04: task executors and thread pools.
#include "threads.h"
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/CancellationToken.h>

using namespace stingray;

namespace
{
	struct Log { int n; unsigned who[16]; u32 what[16]; } glog; int gerrors, gbusy, gmaxBusy; u32 glimit;
	struct OnError : public function_info<void (const std::exception&)> { void operator () (const std::exception&) const { ++gerrors; } };
	ITaskExecutor* gex; int gadded; Mutex gm;
	struct Task : public function_info<void ()>
	{
		unsigned id; unsigned act; shared_ptr<u32> v;
		Task(unsigned i, u32 value, unsigned a = 0) : id(i), act(a), v(make_shared_ptr<u32>(value)) { }
		void operator () () const
		{
			sx_atomic(1); SX_ASSERT(++gbusy == 1, "one task at a time"); SX_ASSERT(glog.n < 16, "no stray runs"); glog.who[glog.n] = id; glog.what[glog.n++] = *v; sx_atomic(0);
			if (act == 2) gex->AddTask(Task(9, *v));
			if (act == 3) { MutexLock l(gm); }
			--gbusy;
			if (act == 1 && *v >= glimit) throw std::runtime_error("task");
		}
	};
	u32 gval[4]; unsigned gact[4];
	void produce() { for (unsigned i = 0; i < 2; ++i) gex->AddTask(Task(i, gval[i], gact[i])); }
	void produce2() { for (unsigned i = 2; i < 4; ++i) gex->AddTask(Task(i, gval[i], gact[i])); }
	void clear() { glog.n = 0; gerrors = gbusy = gadded = 0; glimit = sx_u32("limit"); for (int i = 0; i < 4; ++i) { gval[i] = sx_u32("v"); gact[i] = 0; } }
	void ranOnce(int n)
	{
		int pos[10]; for (int i = 0; i < 10; ++i) pos[i] = -1;
		for (int i = 0; i < glog.n; ++i) { const unsigned w = glog.who[i]; SX_ASSERT(pos[w] < 0, "once"); pos[w] = i; if (w < 4) SX_ASSERT(glog.what[i] == gval[w], "its own data"); }
		for (int i = 0; i < n; ++i) SX_ASSERT(pos[i] >= 0, "no task is lost");
		SX_ASSERT(pos[0] < pos[1] && (n < 4 || pos[2] < pos[3]), "in order");
		int errs = 0; for (int i = 0; i < n; ++i) if (gact[i] == 1) errs += gval[i] >= glimit; SX_ASSERT(gerrors == errs, "exceptions go to the handler");
		int more = 0; for (int i = 0; i < n; ++i) more += gact[i] == 2; SX_ASSERT(glog.n == n + more, "exactly these");
	}
}

// a thread executor runs every task exactly once, in order of addition, and all of them before it is gone
SX_ENTRY(thread_executor)
{
	clear(); const unsigned how = sx_choose("how", 3); for (int i = 0; i < (how ? 1 : 2); ++i) gact[i] = sx_choose("act", 4); if (gact[0] == 2 && gact[1] == 2) sx_end_path();
	{ Thr warm = go(+[](){}); } const u64 live = sx_heap_live();
	{
		sx_atomic(1); ThreadTaskExecutor ex("e", null, OnError()); sx_atomic(0); gex = &ex;
		if (how == 0) produce(); else { Thr a = go(&produce), b; if (how == 2) b = go(&produce2); }
		if (sx_choose("wait", 2)) { sx_quiesce(); SX_ASSERT(glog.n >= (how == 2 ? 4 : 2), "it works by itself"); }
	}
	ranOnce(how == 2 ? 4 : 2); SX_ASSERT(sx_heap_live() == live, "tasks are destroyed"); sx_reach("end");
}

// a task whose token is released never runs afterwards, and is not running when the release returns
static TaskLifeToken* gtoken; static bool greleased;
namespace { struct Guarded : public function_info<void ()> { void operator () () const { SX_ASSERT(!greleased, "never after the release"); glog.who[glog.n] = 0; glog.what[glog.n++] = gval[0]; sx_quiesce(); SX_ASSERT(!greleased, "the release waits"); } }; }
static void addGuarded() { gex->AddTask(Guarded(), gtoken->GetExecutionTester()); gex->AddTask(Task(1, gval[1])); gex->AddTask(Guarded(), gtoken->GetExecutionTester()); }
static void release() { gtoken->Release(); greleased = true; }
SX_ENTRY(executor_release)
{
	clear(); greleased = false; TaskLifeToken t; gtoken = &t;
	{ sx_atomic(1); ThreadTaskExecutor ex("e", null, OnError()); sx_atomic(0); gex = &ex; Thr a = go(&addGuarded), b = go(&release); }
	int free = 0; for (int i = 0; i < glog.n; ++i) { SX_ASSERT(glog.what[i] == gval[glog.who[i]], "its own data"); free += glog.who[i]; } SX_ASSERT(free == 1 && glog.n <= 3, "the other task ran once"); if (glog.n == 2) sx_reach("cut"); sx_reach("end");
}

// a threadless executor runs its tasks in the thread that asks, each exactly once, until cancelled
static ThreadlessTaskExecutor* gless; static CancellationToken* gcancel;
static void execute() { gless->ExecuteTasks(); }
namespace { struct Canceller : public function_info<void ()> { void operator () () const { gcancel->Cancel(); } }; struct Nested : public function_info<void ()> { void operator () () const { const int n = glog.n; gless->ExecuteTasks(); SX_ASSERT(glog.n == n, "tasks do not nest"); } }; }
SX_ENTRY(threadless_executor)
{
	clear(); const unsigned k = sx_choose("kind", 3); 
	{ Thr warm = go(+[](){}); ThreadlessTaskExecutor e("e", null, OnError()); gex = gless = &e; { e.AddTask(Task(8, 0)); CancellationToken c; gcancel = &c; e.AddTask(Nested()); e.AddTask(Canceller()); gact[0] = 1; gval[0] = 1; e.AddTask(Task(0, ~0u, 1)); e.ExecuteTasks(); e.AddTask(Task(8, 0)); e.ClearTasks(); clear(); } } const u64 live = sx_heap_live();
	{
		ThreadlessTaskExecutor ex("e", null, OnError()); gex = gless = &ex; CancellationToken c; gcancel = &c;
		if (k == 0) { gact[0] = sx_choose("act", 4); { Thr a = go(&produce), b = go(&execute), d; if (sx_choose("three", 2)) d = go(&execute); } ex.ExecuteTasks(); ranOnce(2); }
		else if (k == 1)
		{
			gact[0] = sx_choose("act", 3); produce(); const bool nest = sx_choose("nest", 2); if (nest) ex.AddTask(Nested()); ex.AddTask(Canceller()); produce2();
			ex.ExecuteTasks(c); SX_ASSERT(glog.n == 2, "stops when cancelled"); for (int i = 0; i < 2; ++i) SX_ASSERT(glog.who[i] == (unsigned)i && glog.what[i] == gval[i], "in order"); ex.ExecuteTasks(c); SX_ASSERT(glog.n == 2, "cancelled at once");
			if (sx_choose("clear", 2)) { ex.ClearTasks(); ex.ExecuteTasks(); SX_ASSERT(glog.n == 2, "cleared"); } else { ex.ExecuteTasks(); ranOnce(4); }
		}
		else { TaskLifeToken t; ex.AddTask(Task(0, gval[0]), t.GetExecutionTester()); ex.AddTask(Task(1, gval[1])); const bool rel = sx_choose("release", 2); if (rel) t.Release(); ex.ExecuteTasks(); SX_ASSERT(glog.n == 2 - rel && glog.who[glog.n - 1] == 1, "released tasks are skipped"); t.Release(); }
	}
	SX_ASSERT(sx_heap_live() == live, "tasks are destroyed"); sx_reach("end");
}

// a thread pool runs every accepted task exactly once, up to the limit at a time, and refuses only when all its threads are busy
namespace
{
	ThreadPool* gpool; int gin, gmax, gaccepted, grefused, gdone; bool gcut;
	bool accepted[4]; bool decided() { return accepted[2] || gcut; }
	struct PoolTask : public function_info<void (const ICancellationToken&)>
	{
		unsigned id; explicit PoolTask(unsigned i) : id(i) { }
		void operator () (const ICancellationToken& t) const
		{
			sx_atomic(1); ++gin; SX_ASSERT(gin <= gmax, "no more at a time than the pool has threads"); SX_ASSERT(glog.n < 16, "no stray runs"); glog.who[glog.n] = id; glog.what[glog.n++] = gval[id]; sx_atomic(0);
			if (gact[id] == 1) Thread::SleepMicroseconds(10);
			if (gact[id] == 3) { for (int i = 0; i < 12 && !decided(); ++i) Thread::SleepMicroseconds(10); SX_ASSERT(decided(), "a place that became free is given to who waits for it"); }
			sx_atomic(1); --gin; ++gdone; sx_atomic(0); if (gact[id] == 2 && gval[id] >= glimit) throw std::runtime_error("task");
		}
	};
	void drain() { for (int i = 0; i < 2 + sx_tier(); ++i) { Thread::SleepMicroseconds(20); sx_quiesce(); } }
	void offer(unsigned i) { accepted[i] = gpool->TryQueue(PoolTask(i)); }
	void offerTwo() { offer(0); offer(1); }
	void offerTwoMore() { offer(2); if (sx_tier()) offer(3); }
	void checkPool(int n) { int times[4] = { }; for (int i = 0; i < glog.n; ++i) { ++times[glog.who[i]]; SX_ASSERT(glog.what[i] == gval[glog.who[i]], "its own data"); } for (int i = 0; i < n; ++i) SX_ASSERT(times[i] == (accepted[i] ? 1 : 0), "accepted tasks run once, refused ones never"); int errs = 0; for (int i = 0; i < n; ++i) if (accepted[i] && gact[i] == 2) errs += gval[i] >= glimit; SX_ASSERT(gerrors == errs, "exceptions go to the handler"); }
}
static void poolQueue(bool two)
{
	clear(); gin = gdone = 0; gmax = 1 + sx_choose("threads", 2); gact[0] = sx_choose("act", 3); for (auto& a : accepted) a = false;
	{
		ThreadPool pool("p", gmax, null, TimeDuration::FromMicroseconds(40), OnError()); gpool = &pool; SX_ASSERT(pool.CanQueue(), "idle");
		{ Thr a = go(&offerTwo), b; if (two) b = go(&offerTwoMore); }
		SX_ASSERT(accepted[0] || two, "an idle pool accepts"); if (gmax == 2 && !two) SX_ASSERT(accepted[1], "a free thread accepts");
		drain(); SX_ASSERT(pool.CanQueue(), "free again"); checkPool(two ? 4 : 2); if (!accepted[1]) sx_reach("refused");
		accepted[3] = false; if (!two) { SX_ASSERT(pool.TryQueue(PoolTask(3)), "free again"); accepted[3] = true; drain(); checkPool(4); }
	}
	sx_reach("end");
}
SX_ENTRY(pool_queue) { poolQueue(false); }
SX_ENTRY(pool_clients) { poolQueue(true); }
// a client that waits for a place gets it when a task completes, or an exception when cancelled
static CancellationToken* gwait;
static void waiter() { try { gpool->WaitQueue(PoolTask(2), *gwait); accepted[2] = true; } catch (const OperationCancelledException&) { SX_ASSERT(gwait->IsCancelled(), "cancelled"); sx_reach("cancelled"); gcut = true; } }
static void canceller() { gwait->Cancel(); }
SX_ENTRY(pool_wait)
{
	clear(); gin = gdone = 0; gmax = 1 + sx_choose("threads", 2); const bool cancel = sx_choose("cancel", 2); for (int i = 0; i < gmax; ++i) gact[i] = 1; if (gmax == 2) { const unsigned hold = sx_choose("hold", 3); if (hold) gact[hold - 1] = 3; } for (auto& a : accepted) a = false; gcut = false;
	{
		CancellationToken c; gwait = &c; ThreadPool pool("p", gmax, null, TimeDuration::FromMicroseconds(40), OnError()); gpool = &pool;
		sx_atomic(1); for (int i = 0; i < gmax; ++i) offer(i); sx_atomic(0);
		{ Thr a = go(&waiter), b; if (cancel) b = go(&canceller); }
		SX_ASSERT(accepted[2] != gcut, "decided"); SX_ASSERT(cancel || accepted[2], "it gets its turn");
		drain(); checkPool(3);
	}
	sx_reach("end");
}
// idle threads are let go without losing a task
SX_ENTRY(pool_idle)
{
	clear(); gin = gdone = 0; gmax = 2; for (auto& a : accepted) a = false; gact[0] = gact[1] = 1;
	{
		ThreadPool pool("p", 2, null, TimeDuration::FromMicroseconds(40), OnError()); gpool = &pool; offerTwo(); const s64 pause = 30 * sx_choose("pause", 4);
		Thread::SleepMicroseconds(pause); drain(); offer(2); Thread::SleepMicroseconds(45); SX_ASSERT(accepted[2], "an idle pool accepts"); drain(); offer(3); SX_ASSERT(accepted[3], "an idle pool accepts"); drain(); checkPool(4);
	}
	sx_reach("end");
}
