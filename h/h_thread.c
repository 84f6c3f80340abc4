/* Signals, mutexes and atomic operations: as fibers under controlled schedules
 * (this file is instrumented as well, so the macros expanded here may be
 * interrupted), or with --opt real=1 as threads. */
#include "vrt.h"
#include "sched.h"
#include "fiftyone.h"
#include <stdlib.h>
#include <string.h>
#include <sched.h>
const char *vr_harness = "thread";
#define MAXT 6
#define MAXOP 20
static int real_;
static void hold(int on) {
#ifdef VR_SCHED
	sched_hold(on);
#else
	(void)on;
#endif
}
static void point(void) {
#ifdef VR_SCHED
	sched_point();
#else
	if (real_) sched_yield();
#endif
}
static struct { void *(*fn)(void *); void *arg; } body[MAXT];
static void tramp_(void *p) { int i = (int)((char *)p - (char *)body) / (int)sizeof *body; body[i].fn(body[i].arg); }
/* runs the bodies; 1 if all came to their end */
static int run(int n, void *(*const *fn)(void *), void *const *arg, int spurious) {
#ifdef VR_SCHED
	sched_begin(vr_rand());
	sched_spurious(spurious);
	for (int i = 0; i < n; i++) { body[i].fn = fn[i]; body[i].arg = arg[i]; sched_spawn(tramp_, &body[i]); }
	int r = sched_run(200000);
	if (r == SCHED_STEPS) vr_fail("thread:endless", "the threads do not come to an end");
	vr_distinct("nontrivial", sched_trace_hash());
	vr_count("switches", sched_switches());
	return r == SCHED_OK;
#else
	(void)spurious;
	FIFTYONE_DEGREES_THREAD t[MAXT];
	for (int i = 0; i < n; i++) FIFTYONE_DEGREES_THREAD_CREATE(t[i], fn[i], arg[i]);
	for (int i = 0; i < n; i++) FIFTYONE_DEGREES_THREAD_JOIN(t[i]);
	vr_distinct("nontrivial", vr_case_no());
	return 1;
#endif
}

/* -------------------------------- what is initialised and destroyed */
static void *inited[64]; static int ninited, init_fails_at, init_calls, init_wrong;
static int init_(void *p) {
	if (init_fails_at && ++init_calls == init_fails_at) return 12;
	if (ninited < 64) inited[ninited++] = p;
	return 0;
}
static void destroy_(void *p) {
	for (int i = 0; i < ninited; i++) if (inited[i] == p) { inited[i] = inited[--ninited]; return; }
	init_wrong++;
}
extern int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
extern int __real_pthread_mutex_destroy(pthread_mutex_t *);
extern int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
extern int __real_pthread_cond_destroy(pthread_cond_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int r = init_(m); return r ? r : __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { destroy_(m); return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { int r = init_(c); return r ? r : __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { destroy_(c); return __real_pthread_cond_destroy(c); }
static void none_left(const char *of) {
	VR_CHECK(ninited == 0 && init_wrong == 0, "thread:destroy", "%d mutexes or conditions of %s are left and %d are destroyed that are not there", ninited, of, init_wrong);
	ninited = init_wrong = 0;
}
/* a signal whose memory, condition or mutex cannot be had */
static void creations(void) {
	fiftyoneDegreesSignal *s;
	for (int n = 1; n <= 4; n++) {
		vr_alloc_reset();
		if (n == 4) vr_alloc_fail_at(1, 0);
		else { init_fails_at = n; init_calls = 0; }
		FIFTYONE_DEGREES_SIGNAL_CREATE(s);
		int failed = n == 4 ? vr_alloc_failed() : init_calls >= n;
		vr_alloc_no_fail(); init_fails_at = 0;
		VR_CHECK((s == NULL) == (failed != 0), "signal:failed", "a signal is%s created although its part %d is%s to be had", s ? "" : " not", n, failed ? " not" : "");
		if (s == NULL) vr_count("failed_signals", 1);
		else { FIFTYONE_DEGREES_SIGNAL_WAIT(s); FIFTYONE_DEGREES_SIGNAL_CLOSE(s); fiftyoneDegreesFree(s); }
		none_left(s ? "a closed signal" : "a signal that was not created");
		VR_CHECK(vr_alloc_live() == 0, "signal:leak", "%zu blocks are left of a signal", vr_alloc_live());
	}
	FIFTYONE_DEGREES_SIGNAL_CLOSE(NULL);
}

/* ------------------------------------------------------------ signals */
/* history of the calls on one signal */
static struct { int set; long begin, end; } op[MAXOP]; static int nop;
static long now; static fiftyoneDegreesSignal *sig;
typedef struct actor { int set, n, pause; } actor;
static int begin_(int set) {
	hold(1);
	int i = nop++;
	op[i].set = set; op[i].begin = ++now; op[i].end = 0;
	hold(0);
	return i;
}
static void end_(int i) { hold(1); op[i].end = ++now; hold(0); }
static void *signaller(void *p) {
	actor *a = p;
	for (int k = 0; k < a->n; k++) {
		for (int i = 0; i < a->pause; i++) point();
		int o = begin_(a->set);
		if (a->set) { FIFTYONE_DEGREES_SIGNAL_SET(sig); }
		else { FIFTYONE_DEGREES_SIGNAL_WAIT(sig); }
		end_(o);
	}
	return NULL;
}
/* Is there an order of the calls, respecting which came before which, in which
 * each wait that ended found the signal set, and in the end none of those that
 * still wait could go on? */
static unsigned char *seen; static int blocked;
static int search(uint32_t done, int set) {
	long first = 0; /* earliest end among those not yet in the order */
	int all = 1;
	for (int i = 0; i < nop; i++) if (!(done >> i & 1) && op[i].end) {
		all = 0;
		if (!first || op[i].end < first) first = op[i].end;
	}
	if (all) return !(blocked && set);
	if (seen[done] & (1 << set)) return 0;
	seen[done] |= 1 << set;
	for (int i = 0; i < nop; i++) {
		if ((done >> i & 1) || op[i].end == 0 || op[i].begin > first) continue;
		if (!op[i].set && !set) continue;
		if (search(done | 1u << i, op[i].set)) return 1;
	}
	return 0;
}
static char *history(void) {
	static char b[1500]; int n = 0; b[0] = 0;
	for (int i = 0; i < nop; i++) n += snprintf(b + n, sizeof b - (size_t)n, " %s[%ld-%ld]", op[i].set ? "set" : "wait", op[i].begin, op[i].end);
	return b;
}
static void signals(void) {
	vr_alloc_reset();
	nop = 0; now = 0;
	actor a[MAXT]; void *(*fn[MAXT])(void *); void *arg[MAXT];
	int n = vr_between(2, 5), left = MAXOP - 8;
	for (int i = 0; i < n; i++) {
		a[i].set = i == 0 ? 0 : i == 1 ? 1 : vr_chance(1, 2);
		a[i].n = vr_between(1, 4); if (a[i].n > left) a[i].n = left;
		left -= a[i].n; if (left < 1) left = 1;
		a[i].pause = vr_chance(1, 2) ? 0 : vr_between(1, 6);
		fn[i] = signaller; arg[i] = &a[i];
	}
	FIFTYONE_DEGREES_SIGNAL_CREATE(sig);
	if (sig == NULL) { vr_fail("signal:none", "no signal is created"); return; }
	/* calls one after the other before the threads start: a wait only where
	 * the signal is set */
	int set = 1;
	for (int k = vr_between(0, 4); k > 0; k--) {
		int o = begin_(!set || vr_chance(1, 2));
		if (op[o].set) { FIFTYONE_DEGREES_SIGNAL_SET(sig); set = 1; vr_count("sets_while_set", 1); }
		else { FIFTYONE_DEGREES_SIGNAL_WAIT(sig); set = 0; }
		end_(o);
	}
	int ended = run(n, fn, arg, vr_chance(1, 3) ? vr_between(5, 60) : 0);
	blocked = 0;
	for (int i = 0; i < nop; i++) {
		if (op[i].end) { vr_count(op[i].set ? "sets" : "waits_ended", 1); continue; }
		if (op[i].set) vr_fail("signal:set-blocks", "setting the signal does not come back:%s", history());
		blocked++;
	}
	if (blocked) vr_count("left_waiting", 1);
	if (!ended && !blocked) vr_fail("signal:deadlock", "threads cannot go on although none is waiting:%s", history());
	memset(seen, 0, (size_t)1 << nop);
	VR_CHECK(search(0, 1), "signal:history", "no order of the calls explains the waits that ended, with %d still waiting:%s", blocked, history());
	if (!blocked) { FIFTYONE_DEGREES_SIGNAL_CLOSE(sig); none_left("a closed signal"); }
	ninited = 0;
	fiftyoneDegreesFree(sig);
	VR_CHECK(vr_alloc_live() == 0, "signal:leak", "%zu blocks are left of a signal", vr_alloc_live());
	if (vr_want_sample()) vr_sample("signals:%s", history());
}
/* two threads that wake each other, each round one after the other */
static fiftyoneDegreesSignal *ping, *pong; static int rounds; static volatile int turn; static int wrong;
static void *pinger(void *p) {
	int me = p != NULL;
	for (int k = 0; k < rounds; k++) {
		FIFTYONE_DEGREES_SIGNAL_WAIT(me ? pong : ping);
		if (turn != me) wrong++;
		turn = !me;
		FIFTYONE_DEGREES_SIGNAL_SET(me ? ping : pong);
	}
	return NULL;
}
static void pings(void) {
	FIFTYONE_DEGREES_SIGNAL_CREATE(ping); FIFTYONE_DEGREES_SIGNAL_CREATE(pong);
	if (!ping || !pong) { vr_fail("signal:none", "no signal is created"); return; }
	FIFTYONE_DEGREES_SIGNAL_WAIT(pong); /* it starts as set */
	rounds = vr_between(1, real_ ? 400 : 20); turn = 0; wrong = 0;
	void *(*fn[2])(void *) = { pinger, pinger }; void *arg[2] = { NULL, (void *)1 };
	int ended = run(2, fn, arg, vr_chance(1, 3) ? 30 : 0);
	VR_CHECK(ended && !wrong, "signal:turns", "two threads waking each other %s after %d rounds, %d out of turn", ended ? "ended" : "are stuck", rounds, wrong);
	vr_count("turns", 2u * (unsigned)rounds);
	if (ended) { FIFTYONE_DEGREES_SIGNAL_CLOSE(ping); FIFTYONE_DEGREES_SIGNAL_CLOSE(pong); none_left("closed signals"); }
	ninited = 0;
	fiftyoneDegreesFree(ping); fiftyoneDegreesFree(pong);
}

/* ------------------------------------------------------------- mutexes */
static fiftyoneDegreesMutex mx[2]; static int inside[2], overlaps; static long plain_[2]; static int per;
static void *locker(void *p) {
	uint64_t r = (uint64_t)(uintptr_t)p * 77 + 5;
	for (int k = 0; k < per; k++) {
		int m = vr_rand_s(&r) & 1, both = (vr_rand_s(&r) & 7) == 0;
		if (both) m = 0;
		FIFTYONE_DEGREES_MUTEX_LOCK(&mx[m]);
		if (both) { FIFTYONE_DEGREES_MUTEX_LOCK(&mx[1]); }
		for (int j = m; j <= (both ? 1 : m); j++) {
			if (inside[j]++) overlaps++;
			long v = plain_[j];
			point();
			plain_[j] = v + 1;
			inside[j]--;
		}
		if (both) { FIFTYONE_DEGREES_MUTEX_UNLOCK(&mx[1]); }
		FIFTYONE_DEGREES_MUTEX_UNLOCK(&mx[m]);
		__atomic_add_fetch(&rounds, both ? 2 : 1, __ATOMIC_SEQ_CST);
	}
	return NULL;
}
static void mutexes(void) {
	int n = vr_between(2, MAXT - 1);
	void *(*fn[MAXT])(void *); void *arg[MAXT];
	for (int i = 0; i < n; i++) { fn[i] = locker; arg[i] = (void *)(uintptr_t)(vr_rand() >> 20); }
	memset(inside, 0, sizeof inside); overlaps = 0; plain_[0] = plain_[1] = 0; rounds = 0;
	per = vr_between(1, real_ ? 300 : 8);
	for (int i = 0; i < 2; i++) FIFTYONE_DEGREES_MUTEX_CREATE(mx[i]);
	int ended = run(n, fn, arg, 0);
	VR_CHECK(ended, "mutex:deadlock", "threads locking in one order are stuck");
	VR_CHECK(!overlaps, "mutex:overlap", "%d times two threads held one mutex", overlaps);
	VR_CHECK(!ended || plain_[0] + plain_[1] == rounds, "mutex:lost", "%ld of %d updates under a mutex remain", plain_[0] + plain_[1], rounds);
	if (ended) for (int i = 0; i < 2; i++) { FIFTYONE_DEGREES_MUTEX_CLOSE(mx[i]); if (i) none_left("closed mutexes"); }
	ninited = 0;
	vr_count("locked", (unsigned)rounds);
}

/* ---------------------------------------------------- atomic operations */
static int32_t c32; static int64_t c64; static uint32_t cu; static char cells[64]; static char *cptr; static int16_t c16;
static volatile int32_t v32; static volatile int64_t v64; static char *volatile vptr;
static fiftyoneDegreesInterlockDoubleWidth dw;
static unsigned char *given; static int ngiven, twice_;
static int64_t net[MAXT]; static int what, each, wins[MAXT], torn, untold;
static int64_t high_of(int64_t low) { return (int64_t)vr_mix((uint64_t)low, 99); }
static void *counter(void *p) {
	int me = (int)(intptr_t)p;
	uint64_t r = (uint64_t)me * 131 + (uint64_t)each;
	for (int k = 0; k < each; k++) {
		int64_t v;
		switch (what) {
		case 0: /* each number is given once */
			v = FIFTYONE_DEGREES_INTERLOCK_INC(&c32);
			if (v < 1 || v > ngiven) torn++;
			else if (__atomic_exchange_n(&given[v], 1, __ATOMIC_SEQ_CST)) twice_++;
			break;
		case 1:
			v = FIFTYONE_DEGREES_INTERLOCK_DEC(&c64);
			if (v > -1 || v < -ngiven) torn++;
			else if (__atomic_exchange_n(&given[-v], 1, __ATOMIC_SEQ_CST)) twice_++;
			break;
		case 2:
			if (vr_rand_s(&r) & 1) { (void)FIFTYONE_DEGREES_INTERLOCK_INC(&cu); net[me]++; }
			else { (void)FIFTYONE_DEGREES_INTERLOCK_DEC(&cu); net[me]--; }
			if (vr_rand_s(&r) & 1) { (void)FIFTYONE_DEGREES_INTERLOCK_INC(&c16); net[me] += 65536; }
			else { (void)FIFTYONE_DEGREES_INTERLOCK_DEC(&c16); net[me] -= 65536; }
			break;
		case 3: {
			int32_t old, was = __atomic_load_n(&v32, __ATOMIC_SEQ_CST);
			do { old = was; was = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE(v32, old + 1, old); } while (was != old);
			wins[me]++;
			break; }
		case 4: {
			int64_t old, was = __atomic_load_n(&v64, __ATOMIC_SEQ_CST);
			do { old = was; was = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_64(v64, old + 0x100000001LL, old); } while (was != old);
			wins[me]++;
			break; }
		case 5: {
			char *old, *was = __atomic_load_n(&vptr, __ATOMIC_SEQ_CST);
			do { old = was; was = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR(vptr, cells + (old - cells + 1) % 64, old); } while (was != old);
			wins[me]++;
			break; }
		case 6: {
			fiftyoneDegreesInterlockDoubleWidth c, e;
			int tries = 0;
			do {
				/* the two halves are read apart, as the resources do */
				c.low = __atomic_load_n((int64_t *)&dw, __ATOMIC_SEQ_CST);
				c.high = __atomic_load_n((int64_t *)&dw + 1, __ATOMIC_SEQ_CST);
				int whole = c.high == high_of(c.low);
				e.low = c.low + 1; e.high = high_of(e.low);
				bool won = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(dw, e, c);
				if (won) { if (!whole) torn++; wins[me]++; break; }
			} while (++tries < 1000000);
			if (tries == 1000000) untold++;
			break; }
		}
	}
	return NULL;
}
static void atomics(void) {
	/* alone: what is exchanged, and what is not */
	int32_t a = (int32_t)vr_rand(), b = (int32_t)vr_rand(), c = vr_chance(1, 2) ? a : vr_chance(1, 2) ? (int32_t)((uint32_t)a ^ 1u << vr_below(32)) : (int32_t)vr_rand();
	int32_t d = a, was = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE(d, b, c);
	VR_CHECK(was == a && d == (a == c ? b : a), "atomic:exchange", "%d exchanged for %d if %d gives %d and leaves %d", a, b, c, was, d);
	int64_t A = (int64_t)vr_rand(), B = (int64_t)vr_rand(), C = vr_chance(1, 2) ? A : A ^ (1LL << vr_below(63)), D = A, W = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_64(D, B, C);
	VR_CHECK(W == A && D == (A == C ? B : A), "atomic:exchange-64", "%lld exchanged for %lld if %lld gives %lld and leaves %lld", (long long)A, (long long)B, (long long)C, (long long)W, (long long)D);
	char *pa = cells + vr_below(64), *pb = cells + vr_below(64), *pc = vr_chance(1, 2) ? pa : cells + vr_below(64), *pd = pa, *pw = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_PTR(pd, pb, pc);
	VR_CHECK(pw == pa && pd == (pa == pc ? pb : pa), "atomic:exchange-pointer", "pointers exchanged wrong");
	fiftyoneDegreesInterlockDoubleWidth x, e, k, o;
	x.low = (int64_t)vr_rand(); x.high = (int64_t)vr_rand(); e.low = (int64_t)vr_rand(); e.high = (int64_t)vr_rand(); k = x; o = x;
	int same = vr_chance(1, 2);
	if (!same) { if (vr_chance(1, 2)) k.low ^= 1LL << vr_below(63); else k.high ^= 1LL << vr_below(63); }
	bool won = FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(x, e, k);
	VR_CHECK(won == same && x.low == (same ? e.low : o.low) && x.high == (same ? e.high : o.high), "atomic:exchange-double", "a double width exchange that should%s succeed says %d and leaves %llx %llx", same ? "" : " not", won, (long long)x.low, (long long)x.high);
	vr_count(same ? "exchanged" : "not_exchanged", 1);
	d = a == INT32_MAX || a == INT32_MIN ? 0 : a; a = d;
	VR_CHECK(FIFTYONE_DEGREES_INTERLOCK_INC(&d) == a + 1 && d == a + 1 && FIFTYONE_DEGREES_INTERLOCK_DEC(&d) == a && d == a, "atomic:count", "%d counted up and down gives %d", a, d);
	/* together */
	int n = vr_between(2, MAXT - 1);
	void *(*fn[MAXT])(void *); void *arg[MAXT];
	for (int i = 0; i < n; i++) { fn[i] = counter; arg[i] = (void *)(intptr_t)i; }
	what = (int)vr_below(7); each = vr_between(1, real_ ? 2000 : 6);
	ngiven = n * each; torn = twice_ = untold = 0;
	memset(net, 0, sizeof net); memset(wins, 0, sizeof wins);
	given = calloc((size_t)ngiven + 1, 1);
	c32 = 0; c64 = 0; cu = 5; c16 = 0; v32 = -3; v64 = 0xfffffffaLL; vptr = cells; dw.low = 11; dw.high = high_of(11);
	int ended = run(n, fn, arg, 0);
	if (!ended) { free(given); vr_fail("atomic:stuck", "threads using atomic operations are stuck"); return; }
	int64_t sum = 0, w = 0;
	for (int i = 0; i < n; i++) { sum += net[i]; w += wins[i]; }
	int ok = 1;
	switch (what) {
	case 0: ok = c32 == ngiven; break;
	case 1: ok = c64 == -ngiven; break;
	case 2: ok = (int64_t)(int32_t)(cu - 5) + 65536 * (int64_t)c16 == sum; break;
	case 3: ok = v32 == -3 + ngiven && w == ngiven; break;
	case 4: ok = v64 == 0xfffffffaLL + 0x100000001LL * ngiven && w == ngiven; break;
	case 5: ok = vptr == cells + ngiven % 64 && w == ngiven; break;
	case 6: ok = dw.low == 11 + ngiven && dw.high == high_of(dw.low) && w == ngiven && !untold; break;
	}
	VR_CHECK(ok && !torn && !twice_, "atomic:lost", "kind %d: %d threads with %d operations each: some are lost (%d torn, %d given twice, %lld won, %d never)", what, n, each, torn, twice_, (long long)w, untold);
	vr_count("atomic_operations", (unsigned)ngiven);
	vr_count(what == 6 ? "double_width" : what > 2 ? "exchange_loops" : "counts", 1);
	free(given);
}

void vr_setup(void) {
	vr_alloc_install();
	real_ = (int)vr_opt_int("real", 0);
	seen = malloc((size_t)1 << MAXOP);
}
void vr_run_case(uint64_t i) {
	(void)i;
	uint32_t k = vr_below(8);
	if (vr_chance(1, 10)) creations();
	if (k < 4 && !real_) signals();
	else if (k < 5) pings();
	else if (k < 6) mutexes();
	else atomics();
}
void vr_teardown(void) { free(seen); }
