// POSIX threads for the symbolic engine. Which thread runs next is a symbolic input ("sched"), enumerated at every
// scheduling point within the preemption and timeout bounds.
#include "engine.h"
#include <llvm/IR/GlobalVariable.h>
#include <unordered_map>
#define BI(name) static void name(State& s, Inst& I, std::vector<Val>& a)
#define EN (*s.E_)
static void retc(State& s, Inst& I, uint64_t c) { if (I.n) s.top().r[I.dst] = cv(c); s.top().phase = 0; s.E_->finishCall(s, I); }
static uint64_t arg(State& s, std::vector<Val>& a, unsigned i) { return EN.conc(s, a[i], 64); }
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void acquireVc(State& s, uint64_t obj) { if (EN.opt.race) { auto it = s.syncVc.find(obj); if (it != s.syncVc.end()) vcJoin(s.t().vc, it->second); } }
static void releaseVc(State& s, uint64_t obj) { if (EN.opt.race) { vcJoin(s.syncVc[obj], s.t().vc); auto& v = s.t().vc; if (v.size() <= (size_t)s.cur) v.resize(s.cur + 1); ++v[s.cur]; } }

static void applyOpt(State& s, SchedCore::Opt o, bool blocked) { s.sc.apply(o, blocked); s.cur = s.sc.cur; }
void Engine::schedPoint(State& s, bool blocked) {
	SxVec<SchedCore::Opt> o; s.sc.options(blocked, o);
	if (o.empty()) {
		static const char* names[] = {"running", "mutex", "condition", "join", "semaphore", "sleep", "idle", "done"}; std::string d = "no thread can run:";
		for (size_t i = 0; i < s.sc.th.size(); ++i) { d += " " + std::to_string(i) + " " + names[s.sc.th[i].st]; if (s.sc.th[i].st == SchedCore::WMutex) d += " held by " + std::to_string(s.sc.mtx[s.sc.th[i].obj].owner); if (s.sc.th[i].st == SchedCore::WJoin) d += " " + std::to_string(s.sc.th[i].obj); }
		violation(s, "deadlock", d.c_str()); throw PathEnd{"violation"};
	}
	++st.schedPoints;
	if (o.size() > 1) {
		E v = newInput(s, "sched", 8, 0, o.size() - 1);
		for (size_t i = 1; i < o.size(); ++i) {
			State* c = clone(s); c->m[v->aux] = i; addC(*c, mkEq(v, mkConst(i, 8))); applyOpt(*c, o[i], blocked); pending.push_back(c);
		}
		s.m[v->aux] = 0; addC(s, mkEq(v, mkConst(0, 8)));
	}
	applyOpt(s, o[0], blocked);
}
// a point where another thread may be chosen, before a visible operation; true once the operation may proceed
static bool point(State& s) {
	if (s.sc.th.size() < 2 || s.sc.alive() < 2) return true;
	Frame& f = s.top();
	if (f.phase == 0) { f.phase = 1; EN.schedPoint(s, false); throw SwitchThread{}; }
	return true;
}
static void block(State& s) { s.top().phase = 2; EN.schedPoint(s, true); throw SwitchThread{}; }

BI(b_sp) { point(s); retc(s, I, 0); }
BI(m_init) { uint64_t m = arg(s, a, 0), at = a.size() > 1 ? arg(s, a, 1) : 0; SchedCore::M x; x.kind = at ? (int)EN.rd(s, at, 4) : 0; s.sc.mtx[m] = x; retc(s, I, 0); }
BI(m_destroy) { uint64_t m = arg(s, a, 0); auto it = s.sc.mtx.find(m); if (it != s.sc.mtx.end()) { if (it->second.owner >= 0) { EN.violation(s, "deadlock", "mutex destroyed while locked"); throw PathEnd{"violation"}; } s.sc.mtx.erase(it); s.syncVc.erase(m); } retc(s, I, 0); }
static bool lockIt(State& s, uint64_t m) { // true when acquired now
	Frame& f = s.top();
	if (f.phase == 2) { acquireVc(s, m); return true; }
	auto it = s.sc.mtx.find(m); bool mine = it != s.sc.mtx.end() && it->second.owner == s.cur && it->second.kind == 1;
	if (!mine) { uint64_t base; if (!s.mem.find(m, base)) { EN.violation(s, "memory", "mutex used after free"); throw PathEnd{"violation"}; } point(s); }
	if (s.sc.lock(m) == 0) { acquireVc(s, m); return true; }
	return false;
}
BI(m_lock) { uint64_t m = arg(s, a, 0); if (lockIt(s, m)) { retc(s, I, 0); return; } s.sc.blockMutex(m); block(s); }
BI(m_trylock) { uint64_t m = arg(s, a, 0); if (lockIt(s, m)) retc(s, I, 0); else retc(s, I, 16); }
BI(m_timedlock) { // never times out: a mutex that can never be acquired is a deadlock
	uint64_t m = arg(s, a, 0); Frame& f = s.top(); if (f.phase == 2) { acquireVc(s, m); retc(s, I, 0); return; }
	if (s.sc.lock(m) == 0) { acquireVc(s, m); retc(s, I, 0); return; } s.sc.blockMutex(m); block(s); }
BI(m_unlock) { uint64_t m = arg(s, a, 0); releaseVc(s, m); if (!s.sc.unlock(m)) retc(s, I, 1); else retc(s, I, 0); }
BI(ma_settype) { EN.wr(s, arg(s, a, 0), arg(s, a, 1), 4); retc(s, I, 0); }
BI(ma_init) { EN.wr(s, arg(s, a, 0), 0, 4); retc(s, I, 0); }
static uint64_t tsNs(State& s, uint64_t p) { return EN.rd(s, p, 8) * 1000000000ull + EN.rd(s, p + 8, 8); }
static void condWait(State& s, Inst& I, std::vector<Val>& a, bool timed) {
	uint64_t c = arg(s, a, 0), m = arg(s, a, 1); Frame& f = s.top();
	if (f.phase == 2) { acquireVc(s, m); retc(s, I, s.sc.th[s.cur].timedOut ? 110 : 0); return; }
	uint64_t dl = timed ? tsNs(s, arg(s, a, 2)) : 0;
	if (timed && dl <= s.sc.clock) { point(s); retc(s, I, 110); return; }
	releaseVc(s, m);
	if (!s.sc.condWait(c, m, timed, dl)) { retc(s, I, 1); return; }
	block(s);
}
BI(c_wait) { condWait(s, I, a, false); }
BI(c_timedwait) { condWait(s, I, a, true); }
BI(c_broadcast) { s.sc.broadcast(arg(s, a, 0)); retc(s, I, 0); }
BI(c_signal) { s.sc.signal(arg(s, a, 0)); retc(s, I, 0); }
BI(c_destroy) { uint64_t c = arg(s, a, 0); for (size_t i = 0; i < s.sc.th.size(); ++i) if (s.sc.th[i].st == SchedCore::WCond && s.sc.th[i].obj == c) { EN.violation(s, "deadlock", "condition variable destroyed while a thread waits on it"); throw PathEnd{"violation"}; } retc(s, I, 0); }
BI(p_once) {
	uint64_t o = arg(s, a, 0), fn = arg(s, a, 1); Frame& f = s.top();
	if (f.phase == 3) { EN.wr(s, o, 2, 4); releaseVc(s, o); s.sc.unlock(o); retc(s, I, 0); return; }
	if (f.phase != 2 && EN.rd(s, o, 4) == 2) { acquireVc(s, o); retc(s, I, 0); return; }
	if (!lockIt(s, o)) { s.sc.blockMutex(o); block(s); }
	if (EN.rd(s, o, 4) == 2) { releaseVc(s, o); s.sc.unlock(o); retc(s, I, 0); return; }
	s.top().phase = 3; auto it = EN.funcByAddr.find(fn); if (it == EN.funcByAddr.end()) { EN.violation(s, "memory", "pthread_once of a non-function"); throw PathEnd{"violation"}; }
	EN.pushFrame(s, it->second, {}, 0); s.top().onRet = 1;
}
BI(g_acq) {
	uint64_t g = arg(s, a, 0); Frame& f = s.top();
	if (f.phase != 2 && EN.rd(s, g, 1)) { retc(s, I, 0); return; }
	if (s.sc.th.size() < 2) { s.sc.lock(g); retc(s, I, 1); return; }
	if (!lockIt(s, g)) { s.sc.blockMutex(g); block(s); }
	if (EN.rd(s, g, 1)) { s.sc.unlock(g); retc(s, I, 0); return; }
	retc(s, I, 1);
}
BI(g_rel) { uint64_t g = arg(s, a, 0); bool r = EN.opt.race; EN.opt.race = false; EN.wr(s, g, 1, 1); EN.opt.race = r; releaseVc(s, g); s.sc.unlock(g); retc(s, I, 0); }
BI(g_abort) { uint64_t g = arg(s, a, 0); releaseVc(s, g); s.sc.unlock(g); retc(s, I, 0); }
BI(p_create) {
	uint64_t h = arg(s, a, 0), fn = arg(s, a, 2), ar = arg(s, a, 3); auto it = EN.funcByAddr.find(fn);
	if (it == EN.funcByAddr.end() || s.th.size() >= 8) { EN.violation(s, "abort", "too many threads"); throw PathEnd{"violation"}; }
	if (EN.opt.race) { auto& v = s.t().vc; if (v.size() <= (size_t)s.cur) v.resize(s.cur + 1); }
	int id = s.sc.create(); s.th.emplace_back(); Thread& n = s.th.back(); n.handle = 0x1000 + id;
	EN.wr(s, h, n.handle, 8);
	n.vc = s.t().vc; n.vc.resize(std::max<size_t>(n.vc.size(), id + 1)); n.vc[id] = 1; if (EN.opt.race) { auto& v = s.t().vc; v.resize(std::max<size_t>(v.size(), s.cur + 1)); ++v[s.cur]; }
	int me = s.cur; s.cur = id; EN.pushFrame(s, it->second, {cv(ar)}, 1); s.cur = me;
	retc(s, I, 0);
}
BI(p_join) {
	uint64_t h = arg(s, a, 0); int j = (int)(h - 0x1000); Frame& f = s.top();
	if (j < 0 || j >= (int)s.th.size()) { retc(s, I, 3); return; }
	if (f.phase != 2 && s.sc.th[j].st != SchedCore::Done) { s.sc.join(j); block(s); }
	if (EN.opt.race) vcJoin(s.t().vc, s.th[j].vc);
	uint64_t rp = arg(s, a, 1); if (rp) EN.wr(s, rp, s.th[j].retval, 8);
	retc(s, I, 0);
}
BI(p_self) { retc(s, I, 0x1000 + s.cur); }
BI(k_create) { uint64_t k = arg(s, a, 0), d = arg(s, a, 1); uint64_t id = s.keyDtor.size() + 1; s.keyDtor[id] = d; EN.wr(s, k, id, 4); retc(s, I, 0); }
BI(k_delete) { retc(s, I, 0); }
BI(k_set) { s.t().specific[arg(s, a, 0) & 0xffffffffu] = arg(s, a, 1); retc(s, I, 0); }
BI(k_get) { auto it = s.t().specific.find(arg(s, a, 0) & 0xffffffffu); retc(s, I, it == s.t().specific.end() ? 0 : it->second); }
BI(s_init) { s.sc.sem[arg(s, a, 0)] = (int)arg(s, a, 2); retc(s, I, 0); }
BI(s_destroy) { s.sc.sem.erase(arg(s, a, 0)); retc(s, I, 0); }
BI(s_post) { releaseVc(s, arg(s, a, 0)); ++s.sc.sem[arg(s, a, 0)]; retc(s, I, 0); }
static void semWait(State& s, Inst& I, std::vector<Val>& a, bool timed) {
	uint64_t m = arg(s, a, 0); Frame& f = s.top();
	if (f.phase == 2) {
		if (s.sc.th[s.cur].timedOut) { auto it = findBuiltin("__errno_location"); (void)it; s.curErrno = 110; retc(s, I, (uint64_t)(uint32_t)-1); return; }
		acquireVc(s, m); retc(s, I, 0); return; }
	point(s);
	if (s.sc.semTry(m) == 0) { acquireVc(s, m); retc(s, I, 0); return; }
	uint64_t dl = timed ? tsNs(s, arg(s, a, 1)) : 0;
	if (timed && dl <= s.sc.clock) { s.curErrno = 110; retc(s, I, (uint64_t)(uint32_t)-1); return; }
	s.sc.blockSem(m, timed, dl); block(s);
}
BI(s_wait) { semWait(s, I, a, false); }
BI(s_timedwait) { semWait(s, I, a, true); }
BI(t_nanosleep) { Frame& f = s.top(); if (f.phase == 2) { retc(s, I, 0); return; } s.sc.sleep(tsNs(s, arg(s, a, 0))); block(s); }
BI(t_usleep) { Frame& f = s.top(); if (f.phase == 2) { retc(s, I, 0); return; } s.sc.sleep(arg(s, a, 0) * 1000); block(s); }
BI(t_yield) { Frame& f = s.top(); if (f.phase == 2) { retc(s, I, 0); return; } s.sc.sleep(0); block(s); }
BI(z) { retc(s, I, 0); }
BI(p_setcancelstate) { uint64_t o = arg(s, a, 1); int& c = s.t().cancelState; uint64_t old = c; c = (int)(arg(s, a, 0) & 1); if (o) EN.wr(s, o, old, 4); retc(s, I, 0); }
BI(p_setcanceltype) { uint64_t o = arg(s, a, 1); if (o) EN.wr(s, o, 0, 4); retc(s, I, 0); }
BI(t_syscall) { retc(s, I, 1000 + s.cur); }
BI(t_sysconf) { retc(s, I, 100); }
BI(b_minus1_t) { retc(s, I, 0xffffffffu); }
BI(f_null) { retc(s, I, 0); }
BI(b_clock) { uint64_t ts = arg(s, a, 1); EN.wr(s, ts, s.sc.clock / 1000000000ull, 8); EN.wr(s, ts + 8, s.sc.clock % 1000000000ull, 8); retc(s, I, 0); }
BI(b_gettimeofday) { uint64_t ts = arg(s, a, 0); EN.wr(s, ts, s.sc.clock / 1000000000ull, 8); EN.wr(s, ts + 8, s.sc.clock / 1000 % 1000000ull, 8); retc(s, I, 0); }
BI(b_time) { uint64_t ts = arg(s, a, 0); if (ts) EN.wr(s, ts, s.sc.clock / 1000000000ull, 8); retc(s, I, s.sc.clock / 1000000000ull); }
BI(b_clock_set) { s.sc.clock = arg(s, a, 0); retc(s, I, 0); }
BI(b_clock_get) { retc(s, I, s.sc.clock); }
BI(b_errno) { auto it = s.curKnown.find("errno"); uint64_t addr; if (it == s.curKnown.end()) { addr = s.mem.alloc(8, OK_Global, "errno"); s.curKnown["errno"] = (int)((addr - ADDR_BASE) >> SLOT_BITS); } else addr = ADDR_BASE + ((uint64_t)it->second << SLOT_BITS) + OBJ_OFF; if (s.curErrno) { bool r = EN.opt.race; EN.opt.race = false; EN.wr(s, addr, s.curErrno, 4); EN.opt.race = r; s.curErrno = 0; } retc(s, I, addr); }
BI(b_waiting) { int i = (int)arg(s, a, 0); retc(s, I, i < (int)s.sc.th.size() && s.sc.isWaiting(i)); }
BI(b_nthreads) { retc(s, I, s.sc.th.size()); }
BI(b_atomic) { s.sc.th[s.cur].np = arg(s, a, 0) != 0; retc(s, I, 0); }
BI(b_tid) { retc(s, I, s.cur); }
// lets every other thread run until none of them can proceed without the caller or the passing of time
BI(b_quiesce) { Frame& f = s.top(); if (f.phase == 2) { retc(s, I, 0); return; } bool any = false; for (int i = 0; i < (int)s.sc.th.size(); ++i) any = any || (i != s.cur && s.sc.runnable(i)); if (!any) { retc(s, I, 0); return; } s.sc.sleepIdle(); block(s); }

// thread exit: destructors of thread-specific values, then done
bool Engine::threadExit(State& s) {
	Thread& t = s.t();
	for (int round = 0; round < 4; ++round) for (auto& p : t.specific) if (p.second) {
		uint64_t v = p.second, d = s.keyDtor[p.first]; p.second = 0;
		auto it = funcByAddr.find(d); if (d && it != funcByAddr.end()) { pushFrame(s, it->second, {cv(v)}, 1); s.top().onRet = 2; return true; }
	}
	s.sc.th[s.cur].st = SchedCore::Done; if (opt.race) releaseVc(s, 0x1000 + s.cur);
	return false;
}

// ---- happens-before race detection (per 4-byte granule)
void Engine::raceAccess(State& s, uint64_t addr, unsigned n, bool write, bool atomic) {
	if (n > 4096) n = 4096;
	auto& vc = s.t().vc; int me = s.cur; if (vc.size() <= (size_t)me) vc.resize(me + 1, 1);
	if (atomic) { vcJoin(vc, s.syncVc[addr]); s.syncVc[addr] = vc; ++vc[me]; return; }
	for (uint64_t g = addr >> 2; g <= (addr + n - 1) >> 2; ++g) {
		RaceCell& c = s.race[g]; auto hb = [&](int t, uint32_t k) { return t == me || (t < (int)vc.size() && vc[t] >= k); };
		bool race = c.wt >= 0 && !hb(c.wt, c.wc); const void* other = c.wi;
		if (!race && write) for (size_t t = 0; t < c.rd.size(); ++t) if (c.rd[t] && !hb((int)t, c.rd[t])) { race = true; other = c.ri; }
		Frame* f = s.t().st.back(); const void* I = f->pc < f->f->code.size() ? (const void*)f->f->code[f->pc].I : nullptr;
		if (race) raceFound(s, other, I);
		if (write) { c.wt = me; c.wc = vc[me]; c.rd.clear(); c.wi = I; } else { if (c.rd.size() <= (size_t)me) c.rd.resize(me + 1); c.rd[me] = vc[me]; c.ri = I; }
	}
}

static const std::unordered_map<std::string, Builtin>& tbMap() {
	static const std::unordered_map<std::string, Builtin> m = {
		{"__sx_sched_point", b_sp}, {"pthread_mutex_init", m_init}, {"pthread_mutex_destroy", m_destroy}, {"pthread_mutex_lock", m_lock}, {"pthread_mutex_trylock", m_trylock}, {"pthread_mutex_timedlock", m_timedlock}, {"pthread_mutex_clocklock", m_timedlock}, {"pthread_mutex_unlock", m_unlock},
		{"pthread_mutexattr_init", ma_init}, {"pthread_mutexattr_settype", ma_settype}, {"pthread_mutexattr_destroy", z}, {"pthread_condattr_init", z}, {"pthread_condattr_setclock", z}, {"pthread_condattr_destroy", z}, {"pthread_cond_init", z}, {"pthread_cond_destroy", c_destroy}, {"pthread_cond_wait", c_wait}, {"pthread_cond_timedwait", c_timedwait}, {"pthread_cond_broadcast", c_broadcast}, {"pthread_cond_signal", c_signal},
		{"pthread_once", p_once}, {"__cxa_guard_acquire", g_acq}, {"__cxa_guard_release", g_rel}, {"__cxa_guard_abort", g_abort}, {"pthread_create", p_create}, {"pthread_join", p_join}, {"pthread_self", p_self}, {"pthread_attr_init", z}, {"pthread_attr_destroy", z}, {"pthread_attr_setstacksize", z}, {"pthread_setname_np", z}, {"pthread_setcancelstate", p_setcancelstate}, {"pthread_setcanceltype", p_setcanceltype}, {"pthread_testcancel", z},
		{"pthread_key_create", k_create}, {"pthread_key_delete", k_delete}, {"pthread_setspecific", k_set}, {"pthread_getspecific", k_get}, {"sem_init", s_init}, {"sem_destroy", s_destroy}, {"sem_post", s_post}, {"sem_wait", s_wait}, {"sem_timedwait", s_timedwait}, {"nanosleep", t_nanosleep}, {"usleep", t_usleep}, {"sched_yield", t_yield},
		{"prctl", z}, {"syscall", t_syscall}, {"sysconf", t_sysconf}, {"getpgid", z}, {"fopen", f_null}, {"open", b_minus1_t}, {"opendir", f_null}, {"clock_gettime", b_clock}, {"gettimeofday", b_gettimeofday}, {"time", b_time}, {"sx_set_clock", b_clock_set}, {"sx_clock", b_clock_get}, {"__errno_location", b_errno}, {"sx_thread_waiting", b_waiting}, {"sx_threads", b_nthreads}, {"sx_tid", b_tid}, {"sx_atomic", b_atomic}, {"sx_quiesce", b_quiesce},
	};
	return m;
}
Builtin findThreadBuiltin(const std::string& n) { auto& m = tbMap(); auto it = m.find(n); return it == m.end() ? nullptr : it->second; }
void listThreadBuiltins() { for (auto& p : tbMap()) puts(p.first.c_str()); }
