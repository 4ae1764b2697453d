// Harness API shared by the symbolic executor and the native replay build.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
uint8_t sx_u8(const char* name);
uint16_t sx_u16(const char* name);
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
int64_t sx_range(const char* name, int64_t lo, int64_t hi);   // inclusive, symbolic
uint32_t sx_choose_(const char* name, uint32_t n);            // enumerated 0..n-1 (one path each)
void sx_bytes(void* p, size_t n, const char* name);
void sx_assume_(int cond);
void sx_assert_(int cond, const char* msg);
void sx_observe(uint64_t v);
void sx_reach(const char* tag);
uint64_t sx_conc(uint64_t v);                                 // fork over the feasible values
void sx_fail(const char* msg) __attribute__((noreturn));
void sx_end_path() __attribute__((noreturn));
void sx_known_(const char* id) __attribute__((noreturn));
uint64_t sx_heap_live();                                       // number of live heap blocks
int sx_tier();                                                // 0 quick, 1 thorough
int sx_is_symbolic();
void sx_print(const char* what, uint64_t v);
void sx_set_clock(uint64_t ns);
uint64_t sx_clock();
int sx_thread_waiting(int index);                               // thread (by creation order, 0 = main) is blocked
int sx_threads();
int sx_tid();
void sx_atomic(int on);                                        // while on, the calling thread is not preempted (threads it starts inherit this)
void sx_quiesce();                                             // lets all other threads run until none can proceed
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
static inline __attribute__((always_inline)) void sxAssert(bool c, const char* m) { sx_assert_(c ? 1 : 0, m); }
static inline __attribute__((always_inline)) void sxAssume(bool c) { sx_assume_(c ? 1 : 0); }
#define SX_ASSERT(...) sxAssert(__VA_ARGS__)
#define SX_ASSUME(...) sxAssume(__VA_ARGS__)

#ifdef SX_NATIVE
void sx_register(const char* name, void (*fn)());
#define SX_ENTRY(name) extern "C" void sxe_##name(); static struct SxReg_##name { SxReg_##name() { sx_register(#name, &sxe_##name); } } sxReg_##name; extern "C" void sxe_##name()
#else
#define SX_ENTRY(name) extern "C" void sxe_##name()
#endif

static inline uint32_t sx_choose(const char* name, uint32_t n) { return sx_choose_(name, n); }
static inline bool sx_bool(const char* name) { return sx_range(name, 0, 1) != 0; }
static inline int64_t sx_s64(const char* name) { return (int64_t)sx_u64(name); }
static inline int32_t sx_s32(const char* name) { return (int32_t)sx_u32(name); }
// non-short-circuit helpers that keep conditions as expressions instead of branches
static inline int sx_and(int a, int b) { return (a != 0) & (b != 0); }
static inline int sx_or(int a, int b) { return (a != 0) | (b != 0); }
static inline int sx_imp(int a, int b) { return (a == 0) | (b != 0); }
// runs an expression and tells whether it threw
#define SX_THROWS(...) ([&]() -> bool { try { (void)(__VA_ARGS__); return false; } catch (const std::exception&) { return true; } }())
