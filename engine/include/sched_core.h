// Scheduling semantics shared by the symbolic engine and the native replay runtime: threads, mutexes, condition
// variables, semaphores, sleeping, and which thread may run next. Both sides enumerate the options in the same order,
// so a schedule found by the engine replays on the compiled code.
#pragma once
#include <cstdint>
#include <map>
#include <vector>
#include <cstdlib>
// the scheduler's own memory is not the program's: it stays out of the count of live blocks in native replays
template < class T > struct SxAlloc { typedef T value_type; SxAlloc() { } template < class U > SxAlloc(const SxAlloc<U>&) { } T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } };
template < class T, class U > bool operator == (const SxAlloc<T>&, const SxAlloc<U>&) { return true; }
template < class T, class U > bool operator != (const SxAlloc<T>&, const SxAlloc<U>&) { return false; }
template < class K, class V > using SxMap = std::map<K, V, std::less<K>, SxAlloc<std::pair<const K, V>>>;
template < class T > using SxVec = std::vector<T, SxAlloc<T>>;
struct SchedCore {
	enum St : uint8_t { Run, WMutex, WCond, WJoin, WSem, WSleep, WIdle, Done };
	struct T { St st = Run; uint64_t obj = 0, mtx = 0; int mcount = 0; bool timed = false, timedOut = false, np = false; uint64_t deadline = 0; };
	struct M { int owner = -1, count = 0, kind = 0; };
	struct Opt { int tid; bool timeout; };
	SxVec<T> th; SxMap<uint64_t, M> mtx; SxMap<uint64_t, int> sem; int cur = 0, preempt = 2, timeouts = 0; uint64_t clock = 1000000000ull; uint64_t condSeq = 0; SxMap<int, uint64_t> condOrder;
	SchedCore() { th.resize(1); }
	int create() { th.push_back(T()); th.back().np = th[cur].np; return (int)th.size() - 1; }
	bool mfree(uint64_t m, int me) { auto it = mtx.find(m); return it == mtx.end() || it->second.owner < 0 || it->second.owner == me; }
	bool runnable(int i) {
		T& t = th[i];
		switch (t.st) {
		case Run: return true;
		case WMutex: return mfree(t.obj, i);
		case WSem: return sem[t.obj] > 0;
		case WJoin: return th[t.obj].st == Done;
		case WSleep: return t.deadline <= clock;
		case WIdle: for (int j = 0; j < (int)th.size(); ++j) if (j != i && th[j].st != WIdle && runnable(j)) return false; return true;
		default: return false;
		}
	}
	bool canTimeout(int i) { T& t = th[i]; return t.timed && ((t.st == WCond && mfree(t.mtx, i)) || t.st == WSem || t.st == WSleep) && !runnable(i); }
	void options(bool blocked, SxVec<Opt>& o) {
		o.clear(); bool self = !blocked && runnable(cur);
		if (self) o.push_back({cur, false});
		if (self && (preempt <= 0 || th[cur].np)) return;
		bool any = self;
		for (int i = 0; i < (int)th.size(); ++i) if (i != cur || !self) if (!(self && i == cur) && runnable(i)) { o.push_back({i, false}); any = true; }
		if (any) { if (timeouts > 0) for (int i = 0; i < (int)th.size(); ++i) if (canTimeout(i)) o.push_back({i, true}); return; }
		uint64_t best = ~0ull; for (int i = 0; i < (int)th.size(); ++i) if (canTimeout(i) && th[i].deadline < best) best = th[i].deadline;
		for (int i = 0; i < (int)th.size(); ++i) if (canTimeout(i) && th[i].deadline == best) o.push_back({i, true});
	}
	// free: the switch does not count against the bounds (nothing else could run)
	void apply(Opt p, bool blocked) {
		bool self = !blocked && runnable(cur), any = false; for (int i = 0; i < (int)th.size(); ++i) any = any || runnable(i);
		if (p.tid != cur && self) --preempt;
		T& t = th[p.tid];
		if (p.timeout) { if (any) --timeouts; if (t.deadline > clock) clock = t.deadline; t.timedOut = t.st != WSleep; if (t.st == WCond) { t.st = WMutex; t.obj = t.mtx; } else if (t.st == WSem || t.st == WSleep) t.st = Run; }
		cur = p.tid;
		if (t.st == WMutex) { M& m = mtx[t.obj]; m.owner = p.tid; m.count += t.mcount; t.st = Run; }
		else if (t.st == WSem) { --sem[t.obj]; t.st = Run; }
		else if (t.st == WJoin || t.st == WSleep || t.st == WIdle) t.st = Run;
		t.timed = false;
	}
	// 0 acquired, 1 would block
	int lock(uint64_t a) { M& m = mtx[a]; if (m.owner < 0 || (m.owner == cur && m.kind == 1)) { m.owner = cur; ++m.count; return 0; } return 1; }
	void blockMutex(uint64_t a) { T& t = th[cur]; t.st = WMutex; t.obj = a; t.mcount = 1; t.timed = false; }
	bool unlock(uint64_t a) { M& m = mtx[a]; if (m.owner != cur) return false; if (--m.count == 0) m.owner = -1; return true; }
	bool condWait(uint64_t c, uint64_t a, bool timed, uint64_t deadline) {
		M& m = mtx[a]; if (m.owner != cur) return false;
		T& t = th[cur]; t.st = WCond; t.obj = c; t.mtx = a; t.mcount = m.count; t.timed = timed; t.deadline = deadline; t.timedOut = false; m.owner = -1; m.count = 0; condOrder[cur] = ++condSeq; return true;
	}
	void wake(int i) { T& t = th[i]; t.st = WMutex; t.obj = t.mtx; t.timed = false; }
	void broadcast(uint64_t c) { for (int i = 0; i < (int)th.size(); ++i) if (th[i].st == WCond && th[i].obj == c) wake(i); }
	void signal(uint64_t c) { int b = -1; for (int i = 0; i < (int)th.size(); ++i) if (th[i].st == WCond && th[i].obj == c && (b < 0 || condOrder[i] < condOrder[b])) b = i; if (b >= 0) wake(b); }
	int semTry(uint64_t a) { if (sem[a] > 0) { --sem[a]; return 0; } return 1; }
	void blockSem(uint64_t a, bool timed, uint64_t dl) { T& t = th[cur]; t.st = WSem; t.obj = a; t.timed = timed; t.deadline = dl; t.timedOut = false; }
	void sleep(uint64_t ns) { T& t = th[cur]; t.st = WSleep; t.timed = true; t.deadline = clock + ns; t.timedOut = false; }
	void sleepIdle() { T& t = th[cur]; t.st = WIdle; t.timed = false; }
	void join(int j) { T& t = th[cur]; t.st = WJoin; t.obj = (uint64_t)j; t.timed = false; }
	int alive() { int n = 0; for (auto& t : th) n += t.st != Done; return n; }
	bool isWaiting(int i) { return th[i].st != Run && th[i].st != Done; }
};
