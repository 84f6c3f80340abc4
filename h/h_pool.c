/* The lock-free pool and the pool of file handles built on it: exclusive
 * ownership and exhaustion under controlled schedules, creation failures,
 * closing exactly once. */
#include "vrt.h"
#include "fiftyone.h"
#include "wrapio.h"
#ifdef VR_SCHED
#include "sched.h"
#else
#define sched_point() ((void)0)
#define sched_hold(x) ((void)0)
#endif
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
const char *vr_harness = "pool";
typedef fiftyoneDegreesPool Pool; typedef fiftyoneDegreesPoolItem PItem;
#define MAXR 70000
static struct { int made, closed, owner; } res[MAXR];
static int nmade, fail_create_at, bad_free, bad_state, *want_state;
static void *create(Pool *pool, void *state, fiftyoneDegreesException *exception) {
	(void)pool;
	if (state != want_state) bad_state++;
	if (nmade + 1 == fail_create_at) {
		exception->status = FIFTYONE_DEGREES_STATUS_TOO_MANY_OPEN_FILES;
		return NULL;
	}
	res[nmade].made++;
	res[nmade].owner = -1;
	return &res[nmade++];
}
static void destroy(Pool *pool, void *r) {
	long i = ((char *)r - (char *)res) / (long)sizeof res[0];
	(void)pool;
	if (i < 0 || i >= nmade) { bad_free++; return; }
	res[i].closed++;
}
static void reset_res(void) { memset(res, 0, sizeof res[0] * (size_t)(nmade + 1)); nmade = fail_create_at = bad_free = bad_state = 0; }
static void check_all_closed(void) {
	int never = 0, twice = 0;
	for (int i = 0; i < nmade; i++) { never += res[i].closed == 0; twice += res[i].closed > 1; }
	VR_CHECK(never == 0, "pool:not-closed", "%d of %d items not closed when the pool was freed", never, nmade);
	VR_CHECK(twice == 0, "pool:closed-twice", "%d of %d items closed more than once", twice, nmade);
	VR_CHECK(bad_free == 0 && bad_state == 0, "pool:callback", "callbacks got something that was not given");
	vr_count("items_closed", (uint64_t)nmade);
}
static long idx(void *r) { return ((char *)r - (char *)res) / (long)sizeof res[0]; }
/* Takes everything, once each, then nothing more; gives all back. */
static void drain(Pool *pool, int cap) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	PItem **got = malloc(sizeof *got * (size_t)(cap + 1));
	for (int i = 0; i < cap; i++) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		got[i] = fiftyoneDegreesPoolItemGet(pool, exception);
		VR_CHECK(got[i] != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY, "pool:lost-item", "only %d of %d items are available with none in use", i, cap);
		if (!got[i]) { cap = i; break; }
		long r = idx(got[i]->resource);
		VR_CHECK(r >= 0 && r < nmade, "pool:strange-item", "an item that was not created is handed out");
		if (r < 0 || r >= nmade) { cap = i + 1; break; }
		VR_CHECK(res[r].owner == -1, "pool:two-owners", "item %ld handed out while in use", r);
		res[r].owner = 99;
	}
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	PItem *more = fiftyoneDegreesPoolItemGet(pool, exception);
	VR_CHECK(more == NULL && exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "pool:exhaustion", "taking one more than the %d items gives %s, status %d", cap, more ? "an item" : "nothing", (int)exception->status);
	vr_count("exhaustions", 1);
	while (cap > 0) {
		int i = (int)vr_below((uint32_t)cap);
		long r = idx(got[i]->resource);
		if (r >= 0 && r < nmade) res[r].owner = -1;
		fiftyoneDegreesPoolItemRelease(got[i]);
		got[i] = got[--cap];
	}
	free(got);
}
/* ------------------------------------------------------------------ threads */
#ifdef VR_SCHED
static Pool pool; static int busy, nthreads, cap;
static struct { uint64_t rng; int ops, hold, maxbusy, inget; } w[8];
static int spurious, doubles, strange, wrongstatus, exhausted, taken;
static void enter(void) { busy++; for (int i = 0; i < nthreads; i++) if (w[i].inget && busy > w[i].maxbusy) w[i].maxbusy = busy; }
static void work(void *a) {
	int me = (int)(intptr_t)a, nh = 0;
	PItem *h[4];
	fiftyoneDegreesException ex_, *exception = &ex_;
	for (int i = 0; i < w[me].ops; i++) {
		if (nh == w[me].hold || (nh && vr_rand_s(&w[me].rng) % 2)) {
			int x = (int)(vr_rand_s(&w[me].rng) % (uint64_t)nh);
			long r = idx(h[x]->resource);
			if (res[r].owner != me) doubles++;
			res[r].owner = -1;
			fiftyoneDegreesPoolItemRelease(h[x]);
			busy--;
			h[x] = h[--nh];
		}
		else {
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			w[me].inget = 1; w[me].maxbusy = 0;
			enter();
			PItem *it = fiftyoneDegreesPoolItemGet(&pool, exception);
			w[me].inget = 0;
			taken++;
			if (it == NULL) {
				busy--;
				exhausted++;
				if (exception->status != FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES) wrongstatus++;
				/* every other user counted, there was always a free one */
				if (w[me].maxbusy - 1 < cap) spurious++;
			}
			else {
				if (!FIFTYONE_DEGREES_EXCEPTION_OKAY) wrongstatus++;
				long r = idx(it->resource);
				if (r < 0 || r >= nmade) { strange++; busy--; continue; }
				if (res[r].owner != -1) doubles++;
				res[r].owner = me;
				h[nh++] = it;
			}
		}
		for (int x = 0; x < nh; x++) { if (res[idx(h[x]->resource)].owner != me) doubles++; sched_point(); }
	}
	while (nh) {
		nh--;
		res[idx(h[nh]->resource)].owner = -1;
		fiftyoneDegreesPoolItemRelease(h[nh]);
		busy--;
	}
}
static void threads(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	int state = 3;
	want_state = &state;
	reset_res();
	cap = 1 + (int)vr_below(4);
	nthreads = 2 + (int)vr_below(3);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	fiftyoneDegreesPoolInit(&pool, (uint16_t)cap, &state, create, destroy, exception);
	VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && nmade == cap, "pool:capacity", "%d items created for a pool of %d", nmade, cap);
	busy = spurious = doubles = strange = wrongstatus = exhausted = taken = 0;
	for (int i = 0; i < nthreads; i++) {
		w[i].rng = vr_rand(); w[i].ops = 2 + (int)vr_below(10); w[i].hold = 1 + (int)vr_below(3); w[i].inget = 0;
	}
	sched_begin(vr_rand());
	for (int i = 0; i < nthreads; i++) sched_spawn(work, (void *)(intptr_t)i);
	int r = sched_run(200000);
	VR_CHECK(r == SCHED_OK, "pool:no-progress", "the threads do not finish");
	if (r != SCHED_OK) return;
	vr_distinct("nontrivial", sched_trace_hash());
	vr_count("switches", sched_switches());
	vr_count("taken", (uint64_t)taken);
	vr_count("exhaustions", (uint64_t)exhausted);
	VR_CHECK(doubles == 0, "pool:two-owners", "an item was used by two threads at once (%d times)", doubles);
	VR_CHECK(strange == 0, "pool:strange-item", "something that was not created was handed out");
	VR_CHECK(spurious == 0, "pool:spurious-exhaustion", "%d times exhausted though an item was free throughout", spurious);
	VR_CHECK(wrongstatus == 0, "pool:status", "%d times the status was wrong", wrongstatus);
	VR_CHECK(nmade == cap, "pool:capacity", "%d items created for a pool of %d", nmade, cap);
	drain(&pool, cap);
	vr_sample("%d threads, %d items: %d taken, %d times exhausted, %llu switches", nthreads, cap, taken, exhausted, (unsigned long long)sched_switches());
	fiftyoneDegreesPoolFree(&pool);
	check_all_closed();
	VR_CHECK(vr_alloc_live() == 0, "pool:leak", "%zu blocks left", vr_alloc_live());
}
#endif
/* ------------------------------------------------------------------ history */
static void history(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	int state = 4, n = vr_chance(1, 60) ? 65535 - (int)vr_below(2) : 1 + (int)vr_below(vr_chance(1, 4) ? 300 : 9);
	Pool p;
	memset(&p, 0xA5, sizeof p);
	want_state = &state;
	reset_res();
	int fail = vr_chance(1, 3) ? 1 + (int)vr_below((uint32_t)n) : 0, oom = !fail && vr_chance(1, 12);
	fail_create_at = fail;
	if (oom) vr_alloc_fail_at(1, 1);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	fiftyoneDegreesPoolInit(&p, (uint16_t)n, &state, create, destroy, exception);
	vr_alloc_no_fail();
	if (oom) {
		VR_CHECK(exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY && nmade == 0, "pool:out-of-memory", "status %d when memory ran out", (int)exception->status);
	}
	else if (fail) {
		VR_CHECK(exception->status == FIFTYONE_DEGREES_STATUS_TOO_MANY_OPEN_FILES, "pool:create-error", "status %d when item %d of %d could not be created", (int)exception->status, fail, n);
		VR_CHECK(nmade == fail - 1, "pool:create-error", "%d items created after item %d failed", nmade, fail);
		vr_count("creation_failures", 1);
	}
	else {
		VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && nmade == n, "pool:capacity", "%d items created for a pool of %d", nmade, n);
		int ops = (int)vr_below(200), nh = 0, out[512]; PItem *held[512];
		for (int i = 0; i < ops; i++) {
			if (nh && (nh == 512 || vr_chance(1, 2))) {
				int x = (int)vr_below((uint32_t)nh);
				res[out[x]].owner = -1;
				fiftyoneDegreesPoolItemRelease(held[x]);
				held[x] = held[--nh]; out[x] = out[nh];
			}
			else {
				FIFTYONE_DEGREES_EXCEPTION_CLEAR;
				PItem *it = fiftyoneDegreesPoolItemGet(&p, exception);
				VR_CHECK((it != NULL) == (nh < n), "pool:exhaustion", "%s with %d of %d items in use", it ? "an item" : "exhausted", nh, n);
				if (!it) {
					VR_CHECK(exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "pool:exhaustion", "status %d", (int)exception->status);
					continue;
				}
				long r = idx(it->resource);
				VR_CHECK(r >= 0 && r < nmade && res[r].owner == -1, "pool:two-owners", "item %ld handed out while in use", r);
				if (r < 0 || r >= nmade) return;
				res[r].owner = 1;
				held[nh] = it; out[nh++] = (int)r;
			}
			vr_distinct("nontrivial", vr_mix((uint64_t)n * 1000 + (uint64_t)nh, nh ? (uint64_t)out[nh - 1] : 0));
		}
		vr_count("history_ops", (uint64_t)ops);
		while (nh) { nh--; res[out[nh]].owner = -1; fiftyoneDegreesPoolItemRelease(held[nh]); }
		drain(&p, n);
	}
	vr_sample("pool of %d%s%s", n, fail ? ", one creation fails" : "", oom ? ", no memory" : "");
	fiftyoneDegreesPoolFree(&p);
	check_all_closed();
	VR_CHECK(vr_alloc_live() == 0, "pool:leak", "%zu blocks left", vr_alloc_live());
	/* freed pools are reset: freeing again does nothing */
	fiftyoneDegreesPoolFree(&p);
	check_all_closed();
	/* so is a pool of any content by being reset */
	memset(&p, (int)vr_below(256), sizeof p);
	fiftyoneDegreesPoolReset(&p);
	fiftyoneDegreesPoolFree(&p);
	VR_CHECK(p.count == 0 && p.stack == NULL, "pool:reset", "a pool that was reset has %u items", p.count);
	check_all_closed();
}
/* -------------------------------------------------------------------- files */
static void files(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	char path[600];
	snprintf(path, sizeof path, "%s/pool.dat", vr_scratch());
	size_t size = vr_chance(1, 8) ? 0 : vr_chance(1, 12) ? 256 * (1 + vr_below(20)) : vr_chance(1, 40) ? 65536 * (1 + vr_below(2)) : 1 + vr_below(5000);
	/* the file may be longer than what is written to it */
	static const long longs[] = { 0x7FFFFFFFL, 0x80000000L, 0x80000001L, 0x100000000L, 0x100000001L, 0x180000000L, 0x1000000000L };
	long total = size && vr_chance(1, 20) ? longs[vr_below(7)] : (long)size;
	unsigned char *data = malloc(size + 1);
	for (size_t i = 0; i < size; i++) data[i] = (unsigned char)vr_rand();
	FILE *f = fopen(path, "wb");
	if (!f || fwrite(data, 1, size, f) != size) vr_harness_error("cannot write %s", path);
	fclose(f);
	if (total != (long)size && truncate(path, total)) vr_harness_error("cannot lengthen %s", path);
	if (total && (total & 0xff) == 0) vr_count(total > 0x7FFFFFFFL ? "files_over_2g" : "round_sizes", 1);
	int before = vr_open_fds(), n = vr_chance(1, 60) ? 250 + (int)vr_below(60) : (int)vr_below(7), missing = vr_chance(1, 10), how = (int)vr_below(8);
	if (missing) strcat(path, ".none");
	fiftyoneDegreesFilePool pool;
	memset(&pool, 0xA5, sizeof pool);
	fiftyoneDegreesFilePoolReset(&pool);
	io_begin();
	int limit = -1;
	if (how == 0 && n) io_limit_open(limit = (int)vr_below((uint32_t)n));
	else if (how == 1) io_fail_at(IO_FSEEK, 1, 0);
	else if (how == 2) io_fail_at(IO_FTELL, 1, 0);
	else if (how == 3) vr_alloc_fail_at(1, 1);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	fiftyoneDegreesStatusCode st = fiftyoneDegreesFilePoolInit(&pool, path, (uint16_t)n, exception);
	vr_alloc_no_fail();
	io_fail_at(IO_FSEEK, 0, 0); io_fail_at(IO_FTELL, 0, 0);
	int expect_ok = n > 0 && !missing && size > 0 && (how > 3 || (how == 0 && limit < 0));
	VR_CHECK((st == FIFTYONE_DEGREES_STATUS_SUCCESS) == expect_ok, "filepool:status", "status %d for %d handles on a file of %zu bytes (%s, fault %d)", (int)st, n, size, missing ? "missing" : "present", how);
	vr_count(expect_ok ? "file_pools" : "failing_file_pools", 1);
	if (expect_ok && st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		VR_CHECK(pool.length == total, "filepool:length", "length %ld of a file of %ld bytes", (long)pool.length, total);
		VR_CHECK(io_open_files() == n && vr_open_fds() == before + n, "filepool:handles", "%d files open for %d handles", io_open_files(), n);
		fiftyoneDegreesFileHandle *h[320];
		if (n > 255) vr_count("large_file_pools", 1);
		for (int round = 0; round < 3; round++) {
			for (int i = 0; i < n; i++) {
				FIFTYONE_DEGREES_EXCEPTION_CLEAR;
				h[i] = fiftyoneDegreesFileHandleGet(&pool, exception);
				VR_CHECK(h[i] != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY, "filepool:lost-handle", "only %d of %d handles available", i, n);
				if (!h[i]) { free(data); return; }
				for (int j = 0; j < i; j++) VR_CHECK(h[i]->file != h[j]->file, "filepool:shared-handle", "one file given to two users");
				size_t at = vr_below((uint32_t)size); int c;
				VR_CHECK(fseek(h[i]->file, (long)at, SEEK_SET) == 0 && (c = fgetc(h[i]->file)) == data[at], "filepool:content", "byte %zu of the file is wrong", at);
				vr_count("handle_reads", 1);
			}
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			VR_CHECK(fiftyoneDegreesFileHandleGet(&pool, exception) == NULL && exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "filepool:exhaustion", "status %d when all %d handles are out", (int)exception->status, n);
			for (int i = 0; i < n; i++) fiftyoneDegreesFileHandleRelease(h[i]);
		}
	}
	vr_distinct("nontrivial", vr_mix((uint64_t)(how * 100 + n * 10 + missing), size == 0));
	if (n > 0) fiftyoneDegreesFilePoolRelease(&pool);
	VR_CHECK(io_open_files() == 0 && vr_open_fds() == before, "filepool:open-files", "%d files left open after the pool was released (fault %d, %d handles, limit %d)", io_open_files(), how, n, limit);
	VR_CHECK(vr_alloc_live() == 0, "filepool:leak", "%zu blocks left", vr_alloc_live());
	io_end();
	vr_sample("%d handles on %zu bytes, %s, fault %d -> status %d", n, size, missing ? "missing" : "present", how, (int)st);
	free(data);
}
void vr_setup(void) { vr_alloc_install(); }
void vr_teardown(void) {}
void vr_run_case(uint64_t i) {
	vr_alloc_reset();
#ifdef VR_SCHED
	(void)i; (void)history; (void)files;
	threads();
#else
	if (i & 1) history(); else files();
#endif
}
