/* The bounded reader, the reusable data buffer, lists and the tracking
 * allocator, each against a plain model. */
#include "hitem.h"
#include <pthread.h>
#include <sys/mman.h>
const char *vr_harness = "mem";
static int threads, big, tsan;

static size_t pick_size(size_t left) {
	switch (vr_below(8)) {
	case 0: return 0;
	case 1: return left;
	case 2: return left + 1;
	case 3: return left ? left - 1 : 0;
	case 4: return vr_chance(1, 4) ? (size_t)vr_rand() : SIZE_MAX - vr_below(vr_chance(1, 2) ? 4 : 100);
	case 5: return vr_chance(1, 3) ? (size_t)PTRDIFF_MAX + vr_below(3) - 1 : left + vr_below(10);
	default: return vr_rand() % (left + 1);
	}
}
static void reader(void) {
	size_t n = vr_below(vr_chance(1, 4) ? 4 : 80), pos = n ? vr_below((uint32_t)n + 1) : 0;
	if (vr_chance(1, 2)) pos = 0;
	/* only addresses: nothing is read when advancing */
	size_t huge = vr_chance(1, 20) ? (vr_chance(1, 3) ? 65536 : vr_chance(1, 2) ? (size_t)1 << 31 : (size_t)1 << 32) + vr_below(70000) : 0;
	if (huge) { n = huge; pos = vr_chance(1, 2) ? 0 : (size_t)(vr_rand() % (n + 1)); vr_count("large_readers", 1); }
	unsigned char *b = huge ? mmap(NULL, huge, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : malloc(n ? n : 1);
	if (b == MAP_FAILED) return;
	fiftyoneDegreesMemoryReader r = { b, b + pos, b + n, (long)n };
	if (vr_chance(1, 30)) { VR_CHECK(!fiftyoneDegreesMemoryAdvance(NULL, 0), "mem:null", "a missing reader advances"); r.current = NULL; VR_CHECK(!fiftyoneDegreesMemoryAdvance(&r, 0), "mem:null", "a reader without a position advances"); if (huge) munmap(b, huge); else free(b); return; }
	for (int i = 0; i < 30; i++) {
		size_t k = pick_size(n - pos); int want = k <= n - pos;
		bool ok = fiftyoneDegreesMemoryAdvance(&r, k);
		VR_CHECK(ok == (want != 0), "mem:advance", "at %zu of %zu: advancing %zu %s", pos, n, k, ok ? "succeeds" : "is refused");
		vr_count(want ? "advanced" : "refused", 1);
		if (!ok || !want) break;
		pos += k;
		VR_CHECK(r.current == b + pos, "mem:position", "after advancing %zu: at %td, expected %zu of %zu", k, r.current - b, pos, n);
	}
	vr_distinct("nontrivial", vr_mix(n, pos));
	if (huge) munmap(b, huge); else free(b);
}
static void data(void) {
	fiftyoneDegreesData d; uint64_t h = 1;
	memset(&d, 0xA5, sizeof d);
	fiftyoneDegreesDataReset(&d);
	VR_CHECK(d.ptr == NULL && d.allocated == 0 && d.used == 0, "mem:data-reset", "not empty after a reset");
	for (int i = 0; i < 15; i++) {
		size_t k = vr_chance(1, 6) ? 0 : vr_below(vr_chance(1, 2) ? 8 : 300);
		if (vr_chance(1, 60)) { k = (vr_chance(1, 2) ? 256 : 65536) + vr_below(3) - 1; vr_count("large_buffers", 1); }
		if (big && vr_chance(1, 20)) { k = ((size_t)1 << 32) + (vr_chance(1, 2) ? 0 : vr_below(40) - 1); vr_count("buffers_of_4GB", 1); }
		if (vr_chance(1, 4) && d.allocated) k = d.allocated + vr_below(3) - (d.allocated ? 1 : 0);
		int f = vr_chance(1, 6);
		if (f) vr_alloc_fail_at(1, 1);
		unsigned char *p = fiftyoneDegreesDataMalloc(&d, k);
		if (f) { f = vr_alloc_failed() != 0; vr_alloc_no_fail(); }
		VR_CHECK(p == d.ptr, "mem:data", "another pointer is returned");
		if (k > 1u << 30 && !p) f = 1; /* there may not be this much, or more than can be recorded */
		if (f) { VR_CHECK(p == NULL && d.allocated == 0, "mem:data-failed", "%u bytes at %p after a failed allocation", d.allocated, (void *)p); vr_count("buffers_refused", 1); }
		else {
			VR_CHECK(p != NULL && d.allocated >= k, "mem:data-size", "asked for %zu, got %u at %p", k, d.allocated, (void *)p);
			if (p) memset(p, i, d.allocated > 100000 ? 1000 : d.allocated);
			vr_count("buffers", 1);
		}
		h = vr_mix(h, k * 2 + (size_t)f);
	}
	VR_CHECK(vr_alloc_live() == (d.ptr != NULL), "mem:data-leak", "%zu blocks allocated for one buffer", vr_alloc_live());
	if (d.ptr) fiftyoneDegreesFree(d.ptr);
	vr_distinct("nontrivial", h);
}
static void list(void) {
	fiftyoneDegreesList l; uint32_t cap = vr_below(20);
	if (vr_chance(1, 300)) { cap = vr_chance(1, 12) ? 65530 + vr_below(300) : 250 + vr_below(300); vr_count(cap > 65000 ? "lists_over_65000" : "lists_over_250", 1); }
	memset(&l, 0xA5, sizeof l);
	if (vr_chance(1, 10)) {
		vr_alloc_fail_at(1, 1);
		fiftyoneDegreesList *r = fiftyoneDegreesListInit(&l, cap);
		int f = vr_alloc_failed() != 0; vr_alloc_no_fail();
		if (f) { VR_CHECK(r == NULL, "mem:list-failed", "a list without memory"); vr_count("lists_refused", 1); return; }
	} else {
		if (vr_chance(1, 2)) { fiftyoneDegreesListReset(&l); VR_CHECK(l.count == 0 && l.capacity == 0 && l.items == NULL, "mem:list-reset", "not empty after a reset"); if (vr_chance(1, 8)) { fiftyoneDegreesListFree(&l); return; } }
		VR_CHECK(fiftyoneDegreesListInit(&l, cap) == &l, "mem:list-init", "not initialised");
	}
	VR_CHECK(l.count == 0 && l.capacity == cap, "mem:list-init", "%u of %u items, expected 0 of %u", l.count, l.capacity, cap);
	uint64_t h = cap;
	for (int round = 1 + (int)vr_below(3); round > 0; round--) {
		uint32_t k = vr_chance(1, 3) ? cap : vr_below(cap + 1);
		char (*name)[12] = malloc((size_t)cap * 12 + 1);
		for (uint32_t i = 0; i < k; i++) {
			fiftyoneDegreesCollectionItem it;
			sprintf(name[i], "n%x", vr_below(1 << (vr_below(20) + 1)));
			hitem_string(&it, name[i]);
			fiftyoneDegreesListAdd(&l, &it);
		}
		VR_CHECK(l.count == k, "mem:list-count", "%u items, expected %u", l.count, k);
		if (l.count != k || !l.items) { free(name); return; }
		for (uint32_t i = 0; i < k && i < l.count; i++) { const fiftyoneDegreesString *s = fiftyoneDegreesListGetAsString(&l, (int)i); if (!s) { vr_fail("mem:list-order", "item %u is missing", i); continue; } VR_CHECK(!strcmp((const char *)&s->value, name[i]), "mem:list-order", "item %u is '%s', expected '%s'", i, &s->value, name[i]); }
		h = vr_mix(h, k); free(name);
		if (round > 1 || vr_chance(1, 2)) { fiftyoneDegreesListRelease(&l); VR_CHECK(l.count == 0 && l.capacity == cap && hitem_live == 0, "mem:list-release", "%u items in the list, %d held after its release", l.count, hitem_live); vr_count("list_releases", 1); if (l.count || hitem_live) return; }
	}
	fiftyoneDegreesListFree(&l);
	VR_CHECK(hitem_live == 0 && l.count == 0, "mem:list-free", "%d items still held", hitem_live);
	if (vr_chance(1, 4)) fiftyoneDegreesListFree(&l);
	VR_CHECK(vr_alloc_live() == 0, "mem:list-leak", "%zu blocks left", vr_alloc_live());
	vr_count("lists", 1);
	vr_distinct("nontrivial", h);
	hitem_live = 0;
}
/* ---- tracker ---- */
typedef struct { void *p; size_t size, cost; int align, old; } block;
#define GOT fiftyoneDegreesMemoryTrackingGetAllocated()
static size_t t_max, t_now;
static void totals(const char *after) {
	VR_CHECK(GOT == t_now, "mem:allocated", "after %s: %zu allocated, expected %zu", after, GOT, t_now);
	VR_CHECK(fiftyoneDegreesMemoryTrackingGetMax() == t_max, "mem:max", "after %s: at most %zu allocated, expected %zu", after, fiftyoneDegreesMemoryTrackingGetMax(), t_max);
	t_now = GOT; t_max = fiftyoneDegreesMemoryTrackingGetMax();
}
static void drop(block *b, int n, int i) {
	if (b[i].p) for (size_t k = 0; k < b[i].size && k < 64; k++) if (((unsigned char *)b[i].p)[k] != (unsigned char)(b[i].size + k)) { vr_fail("mem:content", "a block of %zu bytes changed", b[i].size); break; }
	(b[i].align ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(b[i].p);
	if (!b[i].old) t_now -= b[i].cost;
	b[i] = b[n - 1];
}
static void tracker(void) {
	block b[64]; int n = 0; uint64_t h = 1;
	fiftyoneDegreesSetUpMemoryTracking();
	t_now = t_max = 0;
	totals("set up");
	for (int i = 0; i < 60; i++) {
		int op = (int)vr_below(24);
		if (op < 12 && n < 60) {
			int align = vr_chance(1, 3) ? 8 << vr_below(vr_chance(1, 4) ? 14 : 5) : 0;
			size_t size = vr_chance(1, 4) ? 16 << vr_below(4) : vr_chance(1, 20) ? 0 : vr_below(vr_chance(1, 10) ? 5000 : 100);
			if (big && vr_chance(1, 30)) size = ((size_t)1 << 32) + vr_below(5) * 1000;
			int no = vr_chance(1, 20); if (no) { size = SIZE_MAX / 2 - vr_below(1000); }
			size_t before = GOT;
			void *p = align ? fiftyoneDegreesMallocAligned(align, size) : fiftyoneDegreesMalloc(size);
			size_t cost = GOT - before;
			if (!p) {
				VR_CHECK(no, "mem:no-memory", "no block of %zu bytes", size);
				VR_CHECK(cost == 0, "mem:failed-counted", "an allocation of %zu that failed counts as %zu", size, cost);
				vr_count("failed_allocations", 1);
			} else {
				VR_CHECK(align ? cost >= size && cost <= size + (size_t)align : cost == size, "mem:cost", "a block of %zu (alignment %d) counts as %zu", size, align, cost);
				VR_CHECK(!align || (uintptr_t)p % (uintptr_t)align == 0, "mem:alignment", "a block of alignment %d at %p", align, p);
				for (size_t k = 0; k < size && k < 64; k++) ((unsigned char *)p)[k] = (unsigned char)(size + k);
				if (size && size < 10000) ((unsigned char *)p)[size - 1] = (unsigned char)(size + size - 1);
				b[n++] = (block){ p, size, cost, align, 0 };
				t_now += cost; if (t_now > t_max) t_max = t_now;
				vr_count("tracked", 1);
			}
			totals("an allocation"); h = vr_mix(h, size);
		} else if (op < 21) {
			if (n) { drop(b, n, (int)vr_below((uint32_t)n)); n--; totals("a free"); vr_count("freed", 1); h = vr_mix(h, 3); }
		} else if (op == 21) { (vr_chance(1, 2) ? fiftyoneDegreesFree : fiftyoneDegreesFreeAligned)(NULL); totals("a free of nothing"); vr_count("freed_nothing", 1); }
		else if (op == 22 && vr_chance(1, 3)) {
			fiftyoneDegreesMemoryTrackingReset(); for (int k = 0; k < n; k++) b[k].old = 1;
			t_now = t_max = 0; totals("a reset"); vr_count("resets", 1); h = vr_mix(h, 5);
		} else if (op == 23 && vr_chance(1, 3)) {
			size_t left = fiftyoneDegreesUnsetMemoryTracking();
			VR_CHECK(left == t_now, "mem:left", "%zu bytes left allocated, expected %zu", left, t_now);
			/* the blocks left over are freed while nothing is tracked */
			while (n) { (b[n - 1].align ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(b[n - 1].p); n--; }
			void *p = fiftyoneDegreesMalloc(10); VR_CHECK(GOT == 0, "mem:untracked", "%zu bytes while not tracking", GOT); fiftyoneDegreesFree(p);
			fiftyoneDegreesSetUpMemoryTracking(); t_now = t_max = 0; totals("another set up"); vr_count("untracked", 1); h = vr_mix(h, 7);
		}
	}
	while (n) { drop(b, n, n - 1); n--; }
	VR_CHECK(GOT == 0, "mem:allocated", "%zu allocated after everything is freed", GOT);
	size_t left = fiftyoneDegreesUnsetMemoryTracking();
	VR_CHECK(left == 0, "mem:left", "%zu bytes left allocated, expected none", left);
	vr_distinct("nontrivial", h); vr_count("trackers", 1);
	vr_alloc_install();
}
/* ---- concurrent tracked allocations ---- */
typedef struct { uint64_t seed; block b[40]; int n; size_t now, peak; pthread_barrier_t *bar; int ops; } worker;
static void *work(void *arg) {
	worker *w = arg;
	pthread_barrier_wait(w->bar);
	for (int i = 0; i < w->ops; i++) {
		uint64_t r = vr_rand_s(&w->seed);
		if (r % 5 < 3 && w->n < 40) {
			size_t size = (r >> 8) % 200;
			block *x = &w->b[w->n];
			x->size = size; x->align = (r >> 20) % 4 == 0 ? 16 : 0;
			if (x->align) x->size &= ~(size_t)15;
			x->p = x->align ? fiftyoneDegreesMemoryTrackingMallocAligned(16, x->size) : fiftyoneDegreesMemoryTrackingMalloc(x->size);
			if (!x->p) continue;
			memset(x->p, 1, x->size);
			w->n++; w->now += x->size; if (w->now > w->peak) w->peak = w->now;
		} else if (w->n) {
			int k = (int)((r >> 8) % (uint64_t)w->n);
			w->now -= w->b[k].size;
			if (w->b[k].align) fiftyoneDegreesMemoryTrackingFreeAligned(w->b[k].p); else fiftyoneDegreesMemoryTrackingFree(w->b[k].p);
			w->b[k] = w->b[--w->n];
		}
	}
	return NULL;
}
static void concurrent(void) {
	static worker w[6]; pthread_t t[6]; pthread_barrier_t bar;
	int n = 2 + (int)vr_below(5);
	size_t prev = 0;
	fiftyoneDegreesMemoryTrackingReset();
	for (int i = 0; i < n; i++) { w[i].n = 0; w[i].now = w[i].peak = 0; }
	for (int round = 0; round < 2; round++) {
		pthread_barrier_init(&bar, NULL, (unsigned)n);
		for (int i = 0; i < n; i++) {
			w[i].seed = vr_rand(); w[i].bar = &bar; w[i].ops = 50 + (int)vr_below(200);
			pthread_create(&t[i], NULL, work, &w[i]);
		}
		size_t sum = 0, peak = 0;
		for (int i = 0; i < n; i++) { pthread_join(t[i], NULL); sum += w[i].now; peak += w[i].peak; }
		pthread_barrier_destroy(&bar);
		VR_CHECK(GOT == sum, "mem:allocated", "%zu allocated after %d threads, expected %zu", GOT, n, sum);
		size_t mx = fiftyoneDegreesMemoryTrackingGetMax();
		VR_CHECK(mx >= sum && mx <= (peak > prev ? peak : prev), "mem:max", "at most %zu allocated, expected %zu to %zu", mx, sum, peak > prev ? peak : prev);
		for (int i = 0; i < n; i++) VR_CHECK(mx >= w[i].peak, "mem:max", "at most %zu allocated, one thread had %zu", mx, w[i].peak);
		vr_count("concurrent_rounds", 1); vr_count("concurrent_operations", (uint64_t)n * 150);
		vr_distinct("nontrivial", vr_mix(mx, sum));
		/* each goes on with another's blocks */
		worker x = w[0]; for (int i = 0; i + 1 < n; i++) w[i] = w[i + 1];
		w[n - 1] = x;
		for (int i = 0; i < n; i++) w[i].peak = w[i].now;
		prev = mx;
	}
	for (int i = 0; i < n; i++) while (w[i].n) { block *x = &w[i].b[--w[i].n]; if (x->align) fiftyoneDegreesMemoryTrackingFreeAligned(x->p); else fiftyoneDegreesMemoryTrackingFree(x->p); }
	VR_CHECK(GOT == 0, "mem:allocated", "%zu allocated after everything is freed", GOT);
}
void vr_setup(void) {
	threads = (int)vr_opt_int("threads", 0); big = (int)vr_opt_int("big", 0); tsan = (int)vr_opt_int("tsan", 0);
	vr_alloc_install();
	if (big) vr_alloc_allow((size_t)1 << 34);
	fiftyoneDegreesMemoryTrackingReset();
}
void vr_teardown(void) {}
void vr_run_case(uint64_t i) {
	(void)i;
	if (threads) { concurrent(); return; }
	vr_alloc_reset(); hitem_begin();
	int n = big && vr_chance(1, 2) ? 3 : (int)vr_below(4);
	(n == 0 ? reader : n == 1 ? data : n == 2 ? list : tracker)();
	if (vr_want_sample()) vr_sample("a %s", n == 0 ? "reader" : n == 1 ? "data buffer" : n == 2 ? "list" : "history of tracked allocations");
}
