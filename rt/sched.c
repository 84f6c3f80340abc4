#define _GNU_SOURCE
#include "sched.h"
#include "vrt.h"
#include <ucontext.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define MAXF 16
#define STACK (512 * 1024)
enum { FREE_, READY, BLOCK_MUTEX, BLOCK_COND, BLOCK_PRED, DONE };
static struct fiber {
	ucontext_t ctx; char *stack; sched_fn fn; void *arg; int state;
	void *wait; int prio; void *fake; int (*pred)(void *); void *parg;
} fb[MAXF];
static int nf, cur = -1, active;
static ucontext_t mainctx; static void *mainfake;
static const void *mainstack; static size_t mainstacksize;
static uint64_t rs, steps, limit, switches, tracehash;
static int mode, q; /* mode 0 random, 1 pct */
static uint64_t changes[8]; static int nchanges; static int lowprio;
static int in_cb, aborted;
void (*sched_on_access)(void *, unsigned, int);
void (*sched_on_error)(const char *);
static struct { void *m; int owner; } mx[128]; static int nmx;

extern void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
extern void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
extern void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));

static int held_;
void sched_hold(int on) { held_ += on ? 1 : -1; }
int sched_self(void) { return cur; }
int sched_active(void) { return active && cur >= 0; }
uint64_t sched_trace_hash(void) { return tracehash; }
uint64_t sched_switches(void) { return switches; }
uint64_t sched_steps(void) { return steps; }
const char *sched_mode(void) { return mode ? "priority" : "random"; }

static void switch_to(int to) {
	/* to == -1: main */
	int from = cur;
	if (to == from) return;
	switches++;
	tracehash = vr_mix(tracehash, (steps << 8) ^ (uint64_t)(to + 1));
	cur = to;
	struct fiber *f = from >= 0 ? &fb[from] : NULL;
	ucontext_t *fc = f ? &f->ctx : &mainctx;
	void **ff = f ? &f->fake : &mainfake;
	if (__sanitizer_start_switch_fiber) {
		if (to >= 0) __sanitizer_start_switch_fiber(ff, fb[to].stack, STACK);
		else __sanitizer_start_switch_fiber(
			f && f->state == DONE ? NULL : ff, mainstack, mainstacksize);
	}
	if (to >= 0) swapcontext(fc, &fb[to].ctx);
	else swapcontext(fc, &mainctx);
	if (__sanitizer_finish_switch_fiber) {
		__sanitizer_finish_switch_fiber(*ff, NULL, NULL);
	}
}
static int pick(int allow_self) {
	int cand[MAXF], n = 0, best = -1;
	for (int i = 0; i < nf; i++) {
		if (fb[i].state == BLOCK_PRED && fb[i].pred(fb[i].parg)) fb[i].state = READY;
		if (fb[i].state == READY && (allow_self || i != cur)) cand[n++] = i;
	}
	if (n == 0) return -1;
	if (mode == 0) return cand[vr_rand_s(&rs) % (uint64_t)n];
	for (int i = 0; i < n; i++) {
		if (best < 0 || fb[cand[i]].prio > fb[best].prio) best = cand[i];
	}
	return best;
}
static void give_up(void) {
	/* blocked or done: someone else must run */
	int t = pick(0);
	if (t < 0 && fb[cur].state == READY) return;
	switch_to(t);
}
void sched_point(void) {
	if (!active || cur < 0 || in_cb || held_) return;
	steps++;
	if (steps > limit) {
		if (!aborted) { aborted = SCHED_STEPS; }
		fb[cur].state = BLOCK_MUTEX; fb[cur].wait = &aborted;
		switch_to(-1);
		return;
	}
	if (mode == 0) {
		if (vr_rand_s(&rs) % (uint64_t)q == 0) {
			int t = pick(1);
			if (t >= 0 && t != cur) switch_to(t);
		}
	}
	else {
		for (int i = 0; i < nchanges; i++) {
			if (changes[i] == steps) fb[cur].prio = lowprio--;
		}
		int t = pick(1);
		if (t >= 0 && t != cur) switch_to(t);
	}
}
/* spinning helper for priority mode: lower own priority now and then so that a
 * retry loop cannot starve the one it waits for */
static void tramp(void) {
	if (__sanitizer_finish_switch_fiber) {
		const void *b; size_t s;
		if (mainstack == NULL) {
			__sanitizer_finish_switch_fiber(NULL, &b, &s);
			mainstack = b; mainstacksize = s;
		}
		else __sanitizer_finish_switch_fiber(NULL, NULL, NULL);
	}
	struct fiber *f = &fb[cur];
	f->fn(f->arg);
	for (int i = 0; i < nmx; i++) {
		if (mx[i].owner == cur && sched_on_error) {
			sched_on_error("thread finished while holding a mutex");
		}
	}
	f->state = DONE;
	give_up();
	abort();
}
static int spurious;
void sched_begin(uint64_t seed) {
	spurious = 0;
	rs = seed; nf = 0; cur = -1; active = 0; steps = 0; switches = 0;
	tracehash = 0; nmx = 0; held_ = 0; aborted = 0; lowprio = -1;
	uint64_t r = vr_rand_s(&rs);
	mode = (r & 3) == 0;
	static const int qs[] = { 2, 3, 5, 8, 16, 40 };
	q = qs[(r >> 8) % 6];
	nchanges = 1 + (int)((r >> 16) % 6);
}
int sched_spawn(sched_fn fn, void *arg) {
	if (nf == MAXF) vr_harness_error("too many fibers");
	struct fiber *f = &fb[nf];
	if (f->stack == NULL) {
		f->stack = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (f->stack == MAP_FAILED) vr_harness_error("no fiber stack");
	}
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(f->stack, STACK);
	f->fn = fn; f->arg = arg; f->state = READY; f->wait = NULL; f->fake = NULL;
	f->prio = (int)(vr_rand_s(&rs) % 1000000);
	getcontext(&f->ctx);
	f->ctx.uc_stack.ss_sp = f->stack;
	f->ctx.uc_stack.ss_size = STACK;
	f->ctx.uc_link = NULL;
	makecontext(&f->ctx, tramp, 0);
	return nf++;
}
int sched_run(uint64_t max_steps) {
	limit = max_steps;
	uint64_t span = (uint64_t)vr_opt_int("pct_span", 1500);
	for (int i = 0; i < nchanges; i++) changes[i] = 1 + vr_rand_s(&rs) % span;
	active = 1;
	int t = pick(0), ret = SCHED_OK;
	if (t >= 0) switch_to(t);
	active = 0;
	cur = -1;
	if (aborted) ret = SCHED_STEPS;
	else for (int i = 0; i < nf; i++) if (fb[i].state != DONE) ret = SCHED_DEADLOCK;
	return ret;
}
void sched_wait_until(int (*pred)(void *), void *arg) {
	if (!sched_active()) return;
	while (!pred(arg)) {
		fb[cur].state = BLOCK_PRED; fb[cur].pred = pred; fb[cur].parg = arg;
		give_up();
		fb[cur].state = READY;
	}
}

/* ------------------------------------------------- compiler's callbacks */
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	static uint32_t n;
	if (a == b || *a) return;
	for (uint32_t *x = a; x < b; x++) *x = ++n;
}
static unsigned char seen[1 << 16];
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (*g && !seen[*g & 0xffff]) { seen[*g & 0xffff] = 1; vr_count("library_edges_reached", 1); }
	sched_point();
}
#define LS(n, T) \
void __sanitizer_cov_load##n(T *a) { \
	sched_point(); \
	if (sched_on_access && active && cur >= 0 && !in_cb && !held_) { in_cb = 1; sched_on_access(a, n, 0); in_cb = 0; } } \
void __sanitizer_cov_store##n(T *a) { \
	sched_point(); \
	if (sched_on_access && active && cur >= 0 && !in_cb && !held_) { in_cb = 1; sched_on_access(a, n, 1); in_cb = 0; } }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, __int128)


/* the callbacks of -fsanitize=thread, compiled in without its runtime: every
 * plain and atomic access of the library is a switch point */
static void access_(void *a, unsigned n, int store) {
	sched_point();
	if (sched_on_access && active && cur >= 0 && !in_cb && !held_) { in_cb = 1; sched_on_access(a, n, store); in_cb = 0; }
}
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *a) { access_(a, n, 0); } \
void __tsan_write##n(void *a) { access_(a, n, 1); } \
void __tsan_read_write##n(void *a) { access_(a, n, 1); } \
void __tsan_unaligned_read##n(void *a) { access_(a, n, 0); } \
void __tsan_unaligned_write##n(void *a) { access_(a, n, 1); } \
void __tsan_unaligned_read_write##n(void *a) { access_(a, n, 1); } \
void __tsan_volatile_read##n(void *a) { access_(a, n, 0); } \
void __tsan_volatile_write##n(void *a) { access_(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_(a, (unsigned)n, 0); }
void __tsan_write_range(void *a, size_t n) { access_(a, (unsigned)n, 1); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 8, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((void *)s, (unsigned)n, 0); access_(d, (unsigned)n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((void *)s, (unsigned)n, 0); access_(d, (unsigned)n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, (unsigned)n, 1); return memset(d, c, n); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define AT(N, T) \
T __tsan_atomic##N##_load(volatile T *a, int mo) { access_((void *)a, N / 8, 0); return *a; } \
void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { access_((void *)a, N / 8, 1); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { access_((void *)a, N / 8, 1); T o = *a; if (o == c) *a = v; return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { access_((void *)a, N / 8, 1); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { (void)mo; sched_point(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
extern int __real___atomic_compare_exchange(size_t, void *, void *, void *, int, int);
int __wrap___atomic_compare_exchange(size_t n, void *a, void *c, void *v, int mo, int fmo) {
	access_(a, (unsigned)n, 1);
	return __real___atomic_compare_exchange(n, a, c, v, mo, fmo);
}

/* ------------------------------------------------------------- pthread */
extern int __real_pthread_mutex_lock(pthread_mutex_t *);
extern int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern int __real_pthread_mutex_trylock(pthread_mutex_t *);
extern int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
extern int __real_pthread_cond_signal(pthread_cond_t *);
extern int __real_pthread_cond_broadcast(pthread_cond_t *);
static int mslot(void *m) {
	for (int i = 0; i < nmx; i++) if (mx[i].m == m) return i;
	if (nmx == 128) {
		for (int i = 0; i < nmx; i++) if (mx[i].owner < 0) { mx[i].m = m; return i; }
		vr_harness_error("mutex table full");
	}
	mx[nmx].m = m; mx[nmx].owner = -1;
	return nmx++;
}
static void lock_(void *m) {
	int s;
	while (mx[s = mslot(m)].owner >= 0) {
		if (mx[s].owner == cur && sched_on_error) {
			sched_on_error("thread locks a mutex it already holds");
		}
		fb[cur].state = BLOCK_MUTEX; fb[cur].wait = m;
		give_up();
	}
	mx[s].owner = cur;
}
static void unlock_(void *m) {
	int s = mslot(m);
	if (mx[s].owner != cur && sched_on_error) {
		sched_on_error("thread unlocks a mutex it does not hold");
	}
	mx[s].owner = -1;
	for (int i = 0; i < nf; i++) {
		if (fb[i].state == BLOCK_MUTEX && fb[i].wait == m) fb[i].state = READY;
	}
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_mutex_lock(m);
	sched_point();
	lock_(m);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_mutex_trylock(m);
	sched_point();
	int s = mslot(m);
	if (mx[s].owner >= 0) return 16;
	mx[s].owner = cur;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_mutex_unlock(m);
	unlock_(m);
	sched_point();
	return 0;
}
void sched_spurious(int percent) { spurious = percent; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_cond_wait(c, m);
	unlock_(m);
	if (spurious && vr_rand_s(&rs) % 100 < (uint64_t)spurious) {
		sched_point();
		lock_(m);
		return 0;
	}
	fb[cur].state = BLOCK_COND; fb[cur].wait = c;
	give_up();
	lock_(m);
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
	if (!sched_active()) return __real_pthread_cond_signal(c);
	int cand[MAXF], n = 0;
	for (int i = 0; i < nf; i++) if (fb[i].state == BLOCK_COND && fb[i].wait == c) cand[n++] = i;
	if (n) fb[cand[vr_rand_s(&rs) % (uint64_t)n]].state = READY;
	sched_point();
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
	if (!sched_active()) return __real_pthread_cond_broadcast(c);
	for (int i = 0; i < nf; i++) if (fb[i].state == BLOCK_COND && fb[i].wait == c) fb[i].state = READY;
	sched_point();
	return 0;
}
