/* Every allocation of every operation failing in turn, alone and with all
 * later ones. Each operation runs until it needs no failing allocation. */
#define MAXC 3
#include "coll_common.h"
const char *vr_harness = "oom";
#define OK(e) ((e)->status == FIFTYONE_DEGREES_STATUS_NOT_SET || (e)->status == FIFTYONE_DEGREES_STATUS_SUCCESS)
#define OOM FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY
static char path[600];
static uint64_t at; static int sticky, failed;
static const char *scenario;
static void arm(void) { vr_alloc_fail_at(at, sticky); failed = 0; }
static int disarm(void) { failed = vr_alloc_failed(); vr_alloc_no_fail(); return failed; }
#define CK(c, key, ...) VR_CHECK(c, key, __VA_ARGS__)
/* ---- allocations the tracker itself makes ---- */
extern void *__real_malloc(size_t); extern void *__real_aligned_alloc(size_t, size_t);
static int raw_on, raw_failed; static uint64_t raw_at, raw_n;
static int raw_hit(void) { if (!raw_on) return 0; raw_n++; if (raw_n == raw_at || (sticky && raw_n > raw_at)) { raw_failed++; return 1; } return 0; }
void *__wrap_malloc(size_t n) { return raw_hit() ? NULL : __real_malloc(n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return raw_hit() ? NULL : __real_aligned_alloc(a, n); }
/* ---- pool ---- */
static int alive, made;
static void *create(fiftyoneDegreesPool *pool, void *state, fiftyoneDegreesException *exception) {
	void *p = fiftyoneDegreesMalloc(16);
	(void)pool; (void)state;
	if (!p) { exception->status = OOM; return NULL; }
	memset(p, 0x5C, 16); alive++; made++; return p;
}
static void destroy(fiftyoneDegreesPool *pool, void *p) { (void)pool; if (p) { alive--; fiftyoneDegreesFree(p); } }
static int P[8];
static void sc_pool(void) {
	fiftyoneDegreesException ex_, *exception = &ex_; fiftyoneDegreesPool pool;
	memset(&pool, 0xA5, sizeof pool); alive = made = 0;
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	arm(); fiftyoneDegreesPoolInit(&pool, (uint16_t)P[0], NULL, create, destroy, exception); disarm();
	if (failed) CK(exception->status == OOM, "oom:status", "pool of %d: status %d after allocation %d failed", P[0], (int)exception->status, (int)at);
	else CK(OK(exception) && made == P[0], "oom:refused", "pool of %d refused without a failure", P[0]);
	fiftyoneDegreesPoolFree(&pool);
	CK(alive == 0, "oom:left", "%d pool items are left", alive);
}
/* ---- cache ---- */
static int64_t K[40];
static int want_byte(int64_t k) { return (int)((uint64_t)k * 31u >> 3 & 0xFF); }
static uint32_t want_size(int64_t k) { return 1 + (uint32_t)((uint64_t)k % 50); }
static void load(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	int64_t k = *(const int64_t *)key; (void)state;
	if (fiftyoneDegreesDataMalloc(data, want_size(k)) == NULL) { exception->status = OOM; return; }
	memset(data->ptr, want_byte(k), want_size(k)); data->used = want_size(k);
}
static void sc_cache(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	arm(); fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate((uint32_t)P[1], (uint16_t)P[2], load, fiftyoneDegreesCacheHash64, NULL);
	if (!c) { CK(disarm(), "oom:refused", "no cache without a failure"); return; }
	CK(vr_alloc_failed() == 0, "oom:status", "a cache without its memory");
	fiftyoneDegreesCacheNode *held = NULL; int64_t hk = 0;
	for (int i = 0; i < 40; i++) {
		if (i == 32) disarm();
		int f = vr_alloc_failed();
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(c, &K[i], exception);
		f = i < 32 && vr_alloc_failed() > f;
		if (f) CK(n == NULL && exception->status == OOM, "oom:cache", "%s with status %d after a load failed", n ? "an entry" : "none", (int)exception->status);
		else CK(n != NULL && OK(exception), "oom:cache", "get %d: no entry, status %d, without a failure", i, (int)exception->status);
		if (n) {
			CK(n->data.used == want_size(K[i]) && n->data.ptr[0] == want_byte(K[i]) && n->data.ptr[n->data.used - 1] == want_byte(K[i]), "oom:cache-value", "get %d has the value of another key", i);
			if (!held && i == P[3]) { held = n; hk = K[i]; } else fiftyoneDegreesCacheRelease(n);
		}
		if (held) CK(held->data.used == want_size(hk) && held->data.ptr[0] == want_byte(hk), "oom:cache-held", "the entry in use changed");
	}
	if (held) fiftyoneDegreesCacheRelease(held);
	fiftyoneDegreesCacheFree(c);
}
/* ---- collections ---- */
static cfile F; static int storage_; static uint64_t open_seed;
static int read_all(opened *o, int faulty) {
	fiftyoneDegreesException ex_, *exception = &ex_; int bad = 0;
	for (int k = 0; k < o->opened; k++) {
		coll *c = &F.c[k]; fiftyoneDegreesCollection *C = o->c[k];
		for (uint32_t i = 0; i < c->n && i < 30; i++) {
			uint32_t key = c->fixed ? i : c->off[i], len = c->off[i + 1] - c->off[i];
			fiftyoneDegreesCollectionItem it; memset(&it, 0xA5, sizeof it);
			fiftyoneDegreesDataReset(&it.data);
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			int f = vr_alloc_failed();
			void *p = C->get(C, key, &it, exception);
			f = faulty && vr_alloc_failed() > f;
			if (f) CK(p == NULL && exception->status == OOM, "oom:item", "%s with status %d after an allocation failed (%s)", p ? "an item" : "none", (int)exception->status, st_name[storage_]);
			else CK(p != NULL && OK(exception) && memcmp(p, F.b + c->pos + c->off[i], len) == 0, "oom:item", "item %u is not given, or has other bytes, status %d, without a failure (%s)", i, (int)exception->status, st_name[storage_]);
			if (p) RELEASE(C, &it); else bad++;
		}
	}
	return bad;
}
static void sc_coll(void) {
	static opened o; int handles = P[4];
	uint64_t files = (uint64_t)io_open_files(); (void)files;
	arm(); open_all(&o, &F, path, F.size, storage_, handles, 1);
	if (o.opened != F.nc) CK(vr_alloc_failed(), "oom:refused", "collection refused without a failure (%s, %s)", st_name[storage_], o.err ? o.err : "");
	else {
		CK(!vr_alloc_failed(), "oom:status", "all collections are open though an allocation failed (%s)", st_name[storage_]);
		read_all(&o, 1); disarm();
		CK(read_all(&o, 0) == 0, "oom:unusable", "items are refused after the failure");
	}
	disarm();
	int f = failed; at += 0; failed = f;
	check_handles(&o, handles, "oom:handles");
	close_all(&o);
}
/* ---- resource ---- */
static int freed_[64];
static void res_free(void *r) { freed_[*(int *)r]++; }
static void sc_resource(void) {
	static int id[64]; fiftyoneDegreesResourceManager m; fiftyoneDegreesResourceHandle *h[64], *use[64]; int nuse = 0, uid[64], cur = 0, n = 1;
	memset(freed_, 0, sizeof freed_); for (int i = 0; i < 64; i++) id[i] = i;
	memset(&m, 0, sizeof m); h[0] = (void *)&m;
	arm(); fiftyoneDegreesResourceManagerInit(&m, &id[0], &h[0], res_free);
	if (!h[0]) { CK(disarm(), "oom:refused", "no manager without a failure"); CK(!freed_[0], "oom:freed", "the resource is freed by a manager that was not made"); fiftyoneDegreesResourceManagerFree(&m); CK(!freed_[0], "oom:freed", "the resource is freed by a manager that was not made"); return; }
	for (int i = 0; i < 12; i++) {
		if (i % 3 == P[5] % 3) { use[nuse] = fiftyoneDegreesResourceHandleIncUse(&m); uid[nuse] = cur; CK(use[nuse]->resource == &id[cur], "oom:resource", "another resource than the active one is given"); nuse++; }
		int f = vr_alloc_failed();
		bool ok = fiftyoneDegreesResourceReplace(&m, &id[n], &h[n]);
		f = vr_alloc_failed() > f;
		CK(ok == !f, "oom:status", "a replacement that %s memory %s", f ? "had no" : "had", ok ? "succeeds" : "is refused");
		if (f) CK(!freed_[n] && h[n] == NULL, "oom:freed", "a resource that did not become active is freed or has a handle");
		else { cur = n; }
		n++;
		for (int k = 0; k < n; k++) { int held = k == cur; for (int j = 0; j < nuse; j++) held |= uid[j] == k; if (held) CK(!freed_[k], "oom:freed", "resource %d in use is freed", k); }
	}
	disarm();
	fiftyoneDegreesResourceManagerFree(&m);
	while (nuse) { nuse--; CK(!freed_[uid[nuse]], "oom:freed", "resource %d in use is freed", uid[nuse]); fiftyoneDegreesResourceHandleDecUse(use[nuse]); }
	for (int k = 0; k < n; k++) CK(freed_[k] == (h[k] != NULL), "oom:freed", "resource %d is freed %d times", k, freed_[k]);
}
/* ---- file into memory ---- */
static void sc_file(void) {
	fiftyoneDegreesMemoryReader r; memset(&r, 0xA5, sizeof r);
	arm(); fiftyoneDegreesStatusCode st = fiftyoneDegreesFileReadToByteArray(path, &r); disarm();
	if (failed) CK(st == OOM && r.current == NULL && r.startByte == NULL && r.length == 0, "oom:status", "reading a file gives status %d and %ld bytes without memory", (int)st, r.length);
	else { CK(st == FIFTYONE_DEGREES_STATUS_SUCCESS && r.length == (long)F.size && !memcmp(r.current, F.b, F.size), "oom:refused", "file not read without a failure"); fiftyoneDegreesFree(r.startByte); }
}
static void sc_filepool(void) {
	fiftyoneDegreesException ex_, *exception = &ex_; fiftyoneDegreesFilePool p; memset(&p, 0xA5, sizeof p); fiftyoneDegreesFilePoolReset(&p);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	arm(); fiftyoneDegreesStatusCode st = fiftyoneDegreesFilePoolInit(&p, path, (uint16_t)P[0], exception); disarm();
	if (failed) CK(st == OOM && exception->status == OOM, "oom:status", "file pool gives status %d and %d without memory", (int)st, (int)exception->status);
	else CK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "oom:refused", "file pool refused without a failure, status %d", (int)st);
	fiftyoneDegreesFilePoolRelease(&p);
	CK(io_open_files() == 0, "oom:files", "%d files are left open", io_open_files());
}
/* ---- small things ---- */
static void sc_list(void) {
	fiftyoneDegreesList l; fiftyoneDegreesListReset(&l);
	arm(); fiftyoneDegreesList *r = fiftyoneDegreesListInit(&l, (uint32_t)P[1]); disarm();
	CK((r == NULL) == failed, "oom:status", "a list %s", failed ? "without memory" : "refused without a failure");
	fiftyoneDegreesListFree(&l);
}
static void sc_evidence(void) {
	arm(); fiftyoneDegreesEvidenceKeyValuePairArray *e = fiftyoneDegreesEvidenceCreate((uint32_t)P[1]); disarm();
	CK((e == NULL) == failed, "oom:status", "evidence %s", failed ? "without memory" : "refused without a failure");
	if (e) fiftyoneDegreesEvidenceFree(e);
}
static char ips[400];
static void sc_ip(void) {
	int n = 0, want = P[0];
	arm(); fiftyoneDegreesEvidenceIpAddress *a = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, ips); disarm();
	for (fiftyoneDegreesEvidenceIpAddress *p = a; p; p = p->next) { n++; CK(p->type != FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID && p->address != NULL, "oom:ip", "address %d is not one", n); }
	CK(n == want - failed, "oom:ip", "%d addresses of %d with %d allocations failed", n, want, failed);
	fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, a);
}
static void sc_signal(void) {
	arm(); fiftyoneDegreesSignal *s = fiftyoneDegreesSignalCreate(); disarm();
	CK((s == NULL) == failed, "oom:status", "a signal %s", failed ? "without memory" : "refused without a failure");
	if (s) { fiftyoneDegreesSignalSet(s); fiftyoneDegreesSignalWait(s); fiftyoneDegreesSignalClose(s); fiftyoneDegreesFree(s); }
}
static void sc_message(void) {
	fiftyoneDegreesException ex_, *exception = &ex_; FIFTYONE_DEGREES_EXCEPTION_CLEAR; FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_CORRUPT_DATA);
	arm(); const char *m = P[0] % 2 ? fiftyoneDegreesExceptionGetMessage(exception) : fiftyoneDegreesStatusGetMessage(FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, P[0] % 3 ? NULL : "some.file"); disarm();
	CK(m != NULL || failed, "oom:refused", "no message without a failure");
	if (m) fiftyoneDegreesFree((void *)m);
}
static void sc_tracker(void) {
	void *p[16]; size_t size[16], sum = 0, max = 0; int n = 0;
	fiftyoneDegreesMemoryTrackingReset();
	raw_n = 0; raw_at = at; raw_failed = 0;
	for (int i = 0; i < 12; i++) {
		size_t s = 1 + (size_t)(i * 13 % 50); int aligned = (i + P[0]) % 3 == 0, f = raw_failed;
		if (aligned) s = 16 * (1 + s % 4);
		raw_on = 1;
		void *q = aligned ? fiftyoneDegreesMemoryTrackingMallocAligned(16, s) : fiftyoneDegreesMemoryTrackingMalloc(s);
		raw_on = 0;
		CK((q == NULL) == (raw_failed > f), "oom:status", "tracked memory %s", q ? "though there is none" : "refused without a failure");
		if (q) { memset(q, 0xEE, s); p[n] = q; size[n++] = s; sum += s; if (sum > max) max = sum; }
		CK(fiftyoneDegreesMemoryTrackingGetAllocated() == sum && fiftyoneDegreesMemoryTrackingGetMax() == max, "oom:tracked", "%zu bytes are counted and %zu at most, allocated are %zu and %zu", fiftyoneDegreesMemoryTrackingGetAllocated(), fiftyoneDegreesMemoryTrackingGetMax(), sum, max);
	}
	failed = raw_failed;
	while (n) { n--; sum -= size[n]; if (size[n] % 2) fiftyoneDegreesMemoryTrackingFree(p[n]); else fiftyoneDegreesMemoryTrackingFreeAligned(p[n]); CK(fiftyoneDegreesMemoryTrackingGetAllocated() == sum, "oom:tracked", "%zu bytes are counted, allocated are %zu", fiftyoneDegreesMemoryTrackingGetAllocated(), sum); }
}
static const struct { const char *name; void (*run)(void); } all[] = {
	{ "pool", sc_pool }, { "cache", sc_cache }, { "collections", sc_coll }, { "collections", sc_coll }, { "collections", sc_coll }, { "resource", sc_resource },
	{ "file", sc_file }, { "filepool", sc_filepool }, { "list", sc_list }, { "evidence", sc_evidence }, { "addresses", sc_ip }, { "signal", sc_signal }, { "message", sc_message }, { "tracker", sc_tracker },
};
#define NSC (sizeof all / sizeof *all)
void vr_setup(void) { vr_alloc_install(); snprintf(path, sizeof path, "%s/oom.bin", vr_scratch()); }
void vr_teardown(void) {}
void vr_run_case(uint64_t i) {
	int s = (int)(i % NSC), fds = vr_open_fds();
	vr_alloc_reset(); vr_alloc_no_fail();
	scenario = all[s].name;
	P[0] = 1 + (int)vr_below(8); P[2] = 1 + (int)vr_below(3); P[1] = P[2] * (P[2] + 1) + (int)vr_below(20); P[3] = (int)vr_below(50); P[4] = 1 + (int)vr_below(3); P[5] = (int)vr_below(9);
	for (int k = 0; k < 40; k++) K[k] = vr_chance(1, 3) && k ? K[vr_below((uint32_t)k)] : 1 + vr_below(60);
	storage_ = (int)vr_below(ST_N);
	ips[0] = 0; for (int k = 0; k < P[0]; k++) { char a[60]; if (vr_chance(1, 2)) sprintf(a, "%u.%u.%u.%u", vr_below(256), vr_below(256), vr_below(256), vr_below(256)); else sprintf(a, "%x:%x:%x:%x:%x:%x:%x:%x", vr_below(65536), vr_below(65536), vr_below(65536), vr_below(65536), vr_below(65536), vr_below(65536), vr_below(65536), vr_below(65536)); if (k) strcat(ips, vr_chance(1, 2) ? "," : " "); strcat(ips, a); }
	memset(&F, 0, sizeof F); cfile_most = 0; cfile_make(&F, 0); cfile_write(&F, path, F.size);
	uint64_t h = vr_mix((uint64_t)s, vr_mix((uint64_t)P[0] * 1000 + (uint64_t)P[1], (uint64_t)storage_ * 64 + (uint64_t)P[5]));
	int last = 0;
	for (sticky = 0; sticky < 2; sticky++) for (at = 1;; at++) {
		vr_note_case("%s: allocation %d%s fails", scenario, (int)at, sticky ? " and later" : "");
		io_begin();
		all[s].run();
		int leftf = io_open_files();
		io_end();
		char what[300]; vr_alloc_describe_live(what, sizeof what);
		CK(vr_alloc_live() == 0, "oom:leak", "%s, allocation %d%s failing: %zu blocks left: %s", scenario, (int)at, sticky ? " and later" : "", vr_alloc_live(), what);
		CK(leftf == 0 && vr_open_fds() == fds, "oom:files", "%s: %d files are left open", scenario, leftf);
		if (vr_alloc_live()) vr_alloc_reset();
		vr_count("operations", 1);
		if (!failed) break;
		vr_count("failed_allocations", 1); { char c[60]; snprintf(c, sizeof c, "failed_%s", scenario); vr_count(c, 1); }
		vr_distinct("nontrivial", vr_mix(h, at * 2 + (uint64_t)sticky));
		last = (int)at;
	}
	vr_sample("%s: %d allocations failed in turn", scenario, last);
	cfile_free(&F);
}
