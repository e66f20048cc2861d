// The OpenMP runtime of the gomp variant: a parallel region runs as a team of fibers on the one simulated thread, switched by the seeded scheduler
// at every basic-block edge and before every access to shared memory (gcc's thread-sanitizer callbacks).
#include "rt.h"
#include <stdint.h>
void simTeamRun(void (*fn)(void *), void *data, int n, long ls, long le, long li, long lc);
int simTeamNum(); int simTeamSize(); void simTeamBarrier(); void simTeamLock(); void simTeamUnlock(); bool simTeamSingle();
void simTeamLoopInit(long, long, long, long); bool simTeamLoopNext(long *, long *);
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { simTeamRun(fn, data, (int)n, 0, 0, 0, 0); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { simTeamRun(fn, d, (int)n, s, e, i, c); }
#define ALIAS(name) void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f); }
ALIAS(GOMP_parallel_loop_guided) ALIAS(GOMP_parallel_loop_static) ALIAS(GOMP_parallel_loop_nonmonotonic_dynamic) ALIAS(GOMP_parallel_loop_nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { simTeamLoopInit(s, e, i, c); return simTeamLoopNext(a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return simTeamLoopNext(a, b); }
#define LOOPS(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); } bool GOMP_loop_##k##_next(long *a, long *b) { return simTeamLoopNext(a, b); }
LOOPS(guided) LOOPS(static) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return simTeamLoopNext(a, b); }
void GOMP_loop_end() { simTeamBarrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { simTeamBarrier(); }
void GOMP_critical_start() { simTeamLock(); }
void GOMP_critical_end() { simTeamUnlock(); }
void GOMP_critical_name_start(void **) { simTeamLock(); }
void GOMP_critical_name_end(void **) { simTeamUnlock(); }
void GOMP_atomic_start() { simTeamLock(); }
void GOMP_atomic_end() { simTeamUnlock(); }
bool GOMP_single_start() { return simTeamSingle(); }
static unsigned sectionNo() { long a, b; return simTeamLoopNext(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { simTeamLoopInit(1, (long)n + 1, 1, 1); return sectionNo(); }
unsigned GOMP_sections_next() { return sectionNo(); }
void GOMP_sections_end() { simTeamBarrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { simTeamRun(fn, d, (int)n, 1, (long)c + 1, 1, 1); }
void GOMP_task(void (*fn)(void *), void *data, void (*cp)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) { // undeferred
  if (!cp) { fn(data); return; } char *b = (char *)__builtin_alloca(sz + al); char *p = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cp(p, data); fn(p); }
void GOMP_taskwait() {}
void GOMP_taskyield() { sim_point(); }
int omp_get_num_threads() { return simTeamSize(); }
int omp_get_thread_num() { return simTeamNum(); }
int omp_get_max_threads() { return simTeamMode > 0 ? simTeamMode : 1; }
int omp_get_num_procs() { return simTeamMode > 0 ? simTeamMode : 1; }
int omp_in_parallel() { return simTeamSize() > 1; }
void omp_set_num_threads(int) {}
int omp_get_thread_limit() { return 64; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_level() { return simTeamSize() > 1; }
double omp_get_wtime() { return 0; }
typedef struct { int x; } sim_omp_lock;
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {} void omp_set_lock(void *) { simTeamLock(); } void omp_unset_lock(void *) { simTeamUnlock(); }
// every access to memory that another member could see is a point where the scheduler may switch
#define ACC(n) void __tsan_##n(void *) { if (simTeamSize() > 1) sim_point(); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16) ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16) ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8) ACC(volatile_read16) ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8) ACC(volatile_write16)
void __tsan_read_range(void *, unsigned long) { if (simTeamSize() > 1) sim_point(); }
void __tsan_write_range(void *, unsigned long) { if (simTeamSize() > 1) sim_point(); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { sim_point(); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { sim_point(); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { sim_point(); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { sim_point(); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { sim_point(); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { sim_point(); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { sim_point(); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { sim_point(); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sim_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sim_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sim_point(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sim_point(); }
void __tsan_atomic_signal_fence(int) {}
}
