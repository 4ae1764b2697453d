// Native replay of schedules: the program's POSIX calls (linked with --wrap) are served by the same scheduling core as
// in the engine; real threads run one at a time, in the order the schedule inputs dictate.
static SchedCore& core() { static SchedCore* c = new SchedCore(); return *c; }
static bool g_started = false;
static pthread_mutex_t g_bm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t g_bc = PTHREAD_COND_INITIALIZER;
static __thread int t_id = 0;
typedef void (*KeyDtor)(void*); static SxMap<unsigned, KeyDtor>& keys() { static auto* k = new SxMap<unsigned, KeyDtor>(); return *k; }
static SxMap<std::pair<int, unsigned>, void*>& specifics() { static auto* k = new SxMap<std::pair<int, unsigned>, void*>(); return *k; }
static SxMap<int, void*>& retvals() { static auto* k = new SxMap<int, void*>(); return *k; }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_broadcast(pthread_cond_t*); int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
}
static void awaitTurn() { __real_pthread_mutex_lock(&g_bm); while (core().cur != t_id) __real_pthread_cond_wait(&g_bc, &g_bm); __real_pthread_mutex_unlock(&g_bm); }
static void schedule(bool blocked) {
	SchedCore& c = core(); SxVec<SchedCore::Opt> o; c.options(blocked, o);
	if (o.empty()) { fprintf(stderr, "SX-FAIL: deadlock: no thread can run\n"); fflush(stderr); _exit(77); }
	size_t i = 0; if (o.size() > 1) { i = get("sched"); if (i >= o.size()) i = 0; }
	__real_pthread_mutex_lock(&g_bm); c.apply(o[i], blocked); __real_pthread_cond_broadcast(&g_bc); __real_pthread_mutex_unlock(&g_bm);
	if (c.th[t_id].st == SchedCore::Done) return;
	if (o[i].tid != t_id) awaitTurn();
}
static void point() { SchedCore& c = core(); if (c.th.size() < 2 || c.alive() < 2) return; schedule(false); }
static void lockIt(uint64_t m, bool mayBlock, int& r) {
	SchedCore& c = core(); auto it = c.mtx.find(m); bool mine = it != c.mtx.end() && it->second.owner == c.cur && it->second.kind == 1;
	if (!mine) point();
	r = 0; if (c.lock(m) == 0) return;
	if (!mayBlock) { r = EBUSY; return; }
	c.blockMutex(m); schedule(true);
}
#define A(x) ((uint64_t)(uintptr_t)(x))
static uint64_t ns(const struct timespec* t) { return t->tv_sec * 1000000000ull + t->tv_nsec; }
struct Start { void* (*f)(void*); void* a; int id; };
static void* trampoline(void* p) {
	Start s = *(Start*)p; free(p); t_id = s.id; awaitTurn();
	retvals()[t_id] = s.f(s.a);
	for (int round = 0; round < 4; ++round) for (auto& k : keys()) { auto it = specifics().find({t_id, k.first}); if (it != specifics().end() && it->second) { void* v = it->second; it->second = nullptr; if (k.second) k.second(v); } }
	core().th[t_id].st = SchedCore::Done; schedule(true); return nullptr;
}
extern "C" {
void __sx_sched_point() { point(); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { SchedCore::M x; x.kind = a ? *(const int*)a : 0; core().mtx[A(m)] = x; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { auto it = core().mtx.find(A(m)); if (it != core().mtx.end()) { if (it->second.owner >= 0) { fprintf(stderr, "SX-FAIL: mutex destroyed while locked\n"); _exit(77); } core().mtx.erase(it); } return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { *(volatile char*)m; int r; lockIt(A(m), true, r); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { *(volatile char*)m; int r; lockIt(A(m), false, r); return r; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { SchedCore& c = core(); if (c.lock(A(m)) == 0) return 0; c.blockMutex(A(m)); schedule(true); return 0; }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) { return __wrap_pthread_mutex_timedlock(m, t); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return core().unlock(A(m)) ? 0 : EPERM; }
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t* a) { *(int*)a = 0; return 0; }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { *(int*)a = k; return 0; }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* p) { for (auto& t : core().th) if (t.st == SchedCore::WCond && t.obj == A(p)) { fprintf(stderr, "SX-FAIL: condition variable destroyed while a thread waits on it\n"); _exit(77); } return 0; }
static int condWait(pthread_cond_t* p, pthread_mutex_t* m, bool timed, uint64_t dl) { SchedCore& c = core(); if (timed && dl <= c.clock) { point(); return ETIMEDOUT; } if (!c.condWait(A(p), A(m), timed, dl)) return EPERM; schedule(true); return c.th[t_id].timedOut ? ETIMEDOUT : 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* p, pthread_mutex_t* m) { return condWait(p, m, false, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* p, pthread_mutex_t* m, const struct timespec* t) { return condWait(p, m, true, ns(t)); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* p) { core().broadcast(A(p)); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t* p) { core().signal(A(p)); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 2) return 0; int r; lockIt(A(o), true, r); if (*o != 2) { f(); *o = 2; } core().unlock(A(o)); return 0; }
int __wrap___cxa_guard_acquire(uint64_t* g) { if (*(volatile char*)g) return 0; SchedCore& c = core(); if (c.th.size() < 2) { c.lock(A(g)); return 1; } int r; lockIt(A(g), true, r); if (*(volatile char*)g) { c.unlock(A(g)); return 0; } return 1; }
void __wrap___cxa_guard_release(uint64_t* g) { *(volatile char*)g = 1; core().unlock(A(g)); }
void __wrap___cxa_guard_abort(uint64_t* g) { core().unlock(A(g)); }
int __wrap_pthread_create(pthread_t* h, const pthread_attr_t*, void* (*f)(void*), void* a) {
	int id = core().create(); *h = 0x1000 + id; Start* s = (Start*)malloc(sizeof(Start)); s->f = f; s->a = a; s->id = id;
	pthread_t real; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); return __real_pthread_create(&real, &at, trampoline, s); }
int __wrap_pthread_join(pthread_t h, void** r) { int j = (int)(h - 0x1000); SchedCore& c = core(); if (j < 0 || j >= (int)c.th.size()) return ESRCH; if (c.th[j].st != SchedCore::Done) { c.join(j); schedule(true); } if (r) *r = retvals()[j]; return 0; }
pthread_t __wrap_pthread_self() { return 0x1000 + t_id; }
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { unsigned id = (unsigned)keys().size() + 1; keys()[id] = d; *k = id; return 0; }
int __wrap_pthread_key_delete(pthread_key_t) { return 0; }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { specifics()[{t_id, k}] = (void*)v; return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k) { auto it = specifics().find({t_id, k}); return it == specifics().end() ? nullptr : it->second; }
int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }
int __wrap_sem_init(sem_t* s, int, unsigned v) { core().sem[A(s)] = (int)v; return 0; }
int __wrap_sem_destroy(sem_t* s) { core().sem.erase(A(s)); return 0; }
int __wrap_sem_post(sem_t* s) { ++core().sem[A(s)]; return 0; }
static int semWait(sem_t* s, bool timed, uint64_t dl) { SchedCore& c = core(); point(); if (c.semTry(A(s)) == 0) return 0; if (timed && dl <= c.clock) { errno = ETIMEDOUT; return -1; } c.blockSem(A(s), timed, dl); schedule(true); if (c.th[t_id].timedOut) { errno = ETIMEDOUT; return -1; } return 0; }
int __wrap_sem_wait(sem_t* s) { return semWait(s, false, 0); }
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) { return semWait(s, true, ns(t)); }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { core().sleep(ns(t)); schedule(true); return 0; }
int __wrap_usleep(useconds_t u) { core().sleep(u * 1000ull); schedule(true); return 0; }
int __wrap_sched_yield() { core().sleep(0); schedule(true); return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = core().clock / 1000000000ull; ts->tv_nsec = core().clock % 1000000000ull; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = core().clock / 1000000000ull; tv->tv_usec = core().clock / 1000 % 1000000; return 0; }
time_t __wrap_time(time_t* t) { time_t r = core().clock / 1000000000ull; if (t) *t = r; return r; }
void sx_set_clock(uint64_t n) { core().clock = n; }
uint64_t sx_clock() { return core().clock; }
int sx_thread_waiting(int i) { return i < (int)core().th.size() && core().isWaiting(i); }
int sx_threads() { return (int)core().th.size(); }
int sx_tid() { return t_id; }
void sx_atomic(int on) { core().th[t_id].np = on != 0; }
void sx_quiesce() { bool any = false; for (int i = 0; i < (int)core().th.size(); ++i) any = any || (i != t_id && core().runnable(i)); if (!any) return; core().sleepIdle(); schedule(true); }
}
