// Native replay runtime: feeds the solver's assignment to the same harness built against the real code.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <malloc.h>
#include <new>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include "sched_core.h"

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
void sx_register(const char* name, void (*fn)()) { reg()[name] = fn; }
static std::map<std::string, uint64_t> g_in; static std::map<std::string, int> g_cnt;
static FILE* g_obs;
static uint64_t g_live;
struct KeepLive { uint64_t v = g_live; ~KeepLive() { g_live = v; } };
static uint64_t get(const char* n) {
	KeepLive keep; // the runtime's own allocations are not the program's
	std::string k = std::string(n) + "#" + std::to_string(g_cnt[n]++);
	auto it = g_in.find(k);
	if (it == g_in.end()) { static bool once; if (!once) { once = true; fprintf(stderr, "SX-MISSING-INPUT %s\n", k.c_str()); } return 0; }
	return it->second;
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED); return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" {
uint64_t sx_heap_live() { return g_live; }
uint8_t sx_u8(const char* n) { return (uint8_t)get(n); }
uint16_t sx_u16(const char* n) { return (uint16_t)get(n); }
uint32_t sx_u32(const char* n) { return (uint32_t)get(n); }
uint64_t sx_u64(const char* n) { return get(n); }
int64_t sx_range(const char* n, int64_t lo, int64_t hi) { if (hi < lo) { fprintf(stderr, "SX-ASSUME-FALSE\n"); _exit(78); } return (int64_t)((uint64_t)lo + get(n)); }
uint32_t sx_choose_(const char* n, uint32_t k) { uint32_t v = (uint32_t)get(n); return v < k ? v : 0; }
void sx_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)get(nm); }
void sx_assume_(int c) { if (!c) { fprintf(stderr, "SX-ASSUME-FALSE\n"); fflush(stderr); _exit(78); } }
void sx_assert_(int c, const char* m) { if (!c) { fprintf(stderr, "SX-FAIL: %s\n", m); fflush(stderr); _exit(77); } }
void sx_fail(const char* m) { fprintf(stderr, "SX-FAIL: %s\n", m); fflush(stderr); _exit(77); }
void sx_end_path() { fprintf(stderr, "SX-DONE\n"); fflush(stderr); if (g_obs) fflush(g_obs); _exit(0); }
void sx_known_(const char* m) { fprintf(stderr, "SX-KNOWN: %s\n", m); fflush(stderr); _exit(79); }
void sx_observe(uint64_t v) { if (g_obs) { fprintf(g_obs, "%llu\n", (unsigned long long)v); fflush(g_obs); } }
void sx_reach(const char*) {}
int sx_tier() { const char* t = getenv("SX_TIER"); return t ? atoi(t) : 0; }
int sx_is_symbolic() { return 0; }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_print(const char* w, uint64_t v) { if (getenv("SX_PRINT")) fprintf(stderr, "sx_print: %s %llu\n", w, (unsigned long long)v); }
}
#include "sx_threads.inc"
int main(int argc, char** argv) {
	if (argc < 3) { for (auto& p : reg()) printf("%s\n", p.first.c_str()); return 2; }
	auto it = reg().find(argv[1]); if (it == reg().end()) { if (void (*f)() = (void (*)())dlsym(nullptr, (std::string("sxe_") + argv[1]).c_str())) { reg()[argv[1]] = f; it = reg().find(argv[1]); } }
	if (it == reg().end()) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
	FILE* f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
	char line[4096];
	while (fgets(line, sizeof line, f)) { if (line[0] == '#' && line[1] == ' ') continue; char* e = strrchr(line, '='); if (!e) continue; *e = 0; g_in[line] = strtoull(e + 1, nullptr, 10); }
	fclose(f);
	if (argc > 3) g_obs = fopen(argv[3], "w");
	if (const char* e = getenv("SX_PREEMPT")) core().preempt = atoi(e);
	if (const char* e = getenv("SX_TIMEOUTS")) core().timeouts = atoi(e);
	g_started = true; it->second();
	fprintf(stderr, "SX-DONE\n"); fflush(stderr);
	if (g_obs) fclose(g_obs);
	_exit(0);
}
