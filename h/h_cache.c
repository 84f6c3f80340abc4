/* The loading cache against a model of its recency order (mode history), and
 * under concurrent lookups (controlled schedule, or real threads for TSan). */
#include "vrt.h"
#include "fiftyone.h"
#ifdef VR_SCHED
#include "sched.h"
#else
#define sched_point() ((void)0)
#define sched_self() 0
#define sched_hold(x) ((void)0)
#endif
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
const char *vr_harness = "cache";
typedef fiftyoneDegreesCache Cache; typedef fiftyoneDegreesCacheNode Node;
#define MAXK 48
static int keytype; /* 0 int32, 1 int64, 2 text hashed to 64 bit */
static union { int32_t i32; int64_t i64; char text[24]; } keys[MAXK];
static int nk;
static int64_t text_hash(const void *key) { return (int64_t)vr_hash(key, strlen(key), 99); }
static int key_index(const void *key) {
	for (int i = 0; i < nk; i++) {
		if (keytype == 0 && *(const int32_t *)key == keys[i].i32) return i;
		if (keytype == 1 && *(const int64_t *)key == keys[i].i64) return i;
		if (keytype == 2 && strcmp(key, keys[i].text) == 0) return i;
	}
	return -1;
}
static size_t len_of(int k) { return 1 + (size_t)(k * 7 % 61); }
static unsigned char pat(int k, size_t j) { return (unsigned char)(k * 37 + (int)j * 11 + 5); }
static void make_keys(int n) {
	nk = n; keytype = (int)vr_below(3);
	for (int i = 0; i < n; i++) {
		memset(&keys[i], 0, sizeof keys[i]);
		int dup;
		do {
			if (keytype == 0) keys[i].i32 = vr_chance(1, 6) ? (int32_t[]){ INT32_MIN, INT32_MAX, -1, 0, INT32_MIN + 1 }[vr_below(5)] : vr_chance(1, 2) ? vr_between(-40, 200) : (int32_t)vr_rand();
			else if (keytype == 1) keys[i].i64 = vr_chance(1, 6) ? (int64_t[]){ INT64_MIN, INT64_MAX, 0x80000000LL, -0x80000000LL, 0x180000000LL, 0, -1 }[vr_below(7)] : vr_chance(1, 3) ? (int64_t)vr_below(20) << 32 : vr_chance(1, 2) ? (int64_t)vr_below(100) : (int64_t)vr_rand();
			else snprintf(keys[i].text, sizeof keys[i].text, "key-%x", (unsigned)vr_rand());
			dup = 0;
			for (int j = 0; j < i; j++) dup |= keytype == 0 ? keys[i].i32 == keys[j].i32 : keytype == 1 ? keys[i].i64 == keys[j].i64 : !strcmp(keys[i].text, keys[j].text);
		} while (dup);
	}
}
static fiftyoneDegreesCacheHashCodeMethod hash_of(void) { return keytype == 0 ? fiftyoneDegreesCacheHash32 : keytype == 1 ? fiftyoneDegreesCacheHash64 : text_hash; }
/* loader */
static int calls[MAXK], total_calls, fail_next, bad_key, stat_data, learning;
static unsigned char fixed[MAXK][64];
static const void *want_state;
static int in_load[MAXK];
static int tsan;
static void load(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	int k = key_index(key);
	if (k < 0 || state != want_state) { bad_key++; exception->status = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; return; }
	if (!tsan) { calls[k]++; total_calls++; }
	if (!tsan && in_load[k]++) vr_fail("cache:loaded-twice-at-once", "two loads of one key overlap");
	if (fail_next && !learning) {
		int how = fail_next; fail_next = 0;
		if (how > 1) { unsigned char *p = fiftyoneDegreesDataMalloc(data, 200); if (p) memset(p, 0xEE, 200); }
		if (how > 2) data->used = 0;
		exception->status = FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR;
		in_load[k]--;
		return;
	}
	size_t n = len_of(k);
	unsigned char *p = fiftyoneDegreesDataMalloc(data, n);
	if (p) for (size_t j = 0; j < n; j++) {
		p[j] = pat(k, j);
		if (j % 8 == 0) sched_point();
	}
	data->used = (uint32_t)n;
	if (!tsan) in_load[k]--;
}
static int intact(const Node *n, int k) {
	size_t l = len_of(k);
	if (n->data.used != l || n->data.ptr == NULL) return 0;
	for (size_t j = 0; j < l; j++) if (((volatile unsigned char *)n->data.ptr)[j] != pat(k, j)) return 0;
	return 1;
}
/* --------------------------------------------------------------- history */
typedef struct { int resident, holders, shard; long released; } ent;
static ent m[MAXK];
static void history(void) {
	uint16_t conc = (uint16_t)(1 + vr_below(4));
	uint32_t cap = conc * conc + vr_below(vr_chance(1, 2) ? 4 : 20);
	int state = 5;
	want_state = &state;
	make_keys(2 + (int)vr_below(MAXK - 2));
	fiftyoneDegreesException ex_, *exception = &ex_;
	memset(m, 0, sizeof m); memset(calls, 0, sizeof calls); total_calls = bad_key = 0;
	/* too small caches are refused */
	if (conc > 1) VR_CHECK(fiftyoneDegreesCacheCreate(conc * conc - 1, conc, load, hash_of(), &state) == NULL, "cache:create", "cache of %d for %d threads was created", conc * conc - 1, conc);
	/* a first instance tells which shard each key lives in */
	learning = 1;
	Cache *c = fiftyoneDegreesCacheCreate(cap, conc, load, hash_of(), &state);
	VR_CHECK(c != NULL, "cache:create", "cache of %u for %u threads not created", cap, conc);
	if (!c) return;
	for (int k = 0; k < nk; k++) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		Node *n = fiftyoneDegreesCacheGet(c, &keys[k], exception);
		VR_CHECK(n != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY && intact(n, k), "cache:data", "lookup of key %d gave %s", k, n ? "other data" : "nothing");
		if (!n) { fiftyoneDegreesCacheFree(c); learning = 0; return; }
		m[k].shard = (int)(n->shard - c->shards);
		VR_CHECK(m[k].shard >= 0 && m[k].shard < conc, "cache:shard", "key %d went to shard %d of %d", k, m[k].shard, conc);
		fiftyoneDegreesCacheRelease(n);
	}
	VR_CHECK(c->misses == (unsigned long)nk && c->hits == 0, "cache:metrics", "%lu hits, %lu misses after %d first lookups", c->hits, c->misses, nk);
	fiftyoneDegreesCacheFree(c);
	VR_CHECK(vr_alloc_live() == 0, "cache:leak", "%zu blocks left after free", vr_alloc_live());
	learning = 0; total_calls = 0;
	c = fiftyoneDegreesCacheCreate(cap, conc, load, hash_of(), &state);
	if (!c) return;
	int slots = c->capacity / conc, ops = 10 + (int)vr_below(vr_thorough() ? 600 : 150), nh = 0;
	VR_CHECK(slots >= conc && (uint32_t)c->capacity >= cap, "cache:capacity", "capacity %d for %u asked", c->capacity, cap);
	unsigned long hits = 0, misses = 0;
	long t = 1;
	static struct { Node *n; int k; } held[512];
	int failing = vr_chance(1, 2);
	for (int i = 0; i < ops; i++) {
		if (nh && (vr_below(100) < 48 || nh == 512)) {
			int h = (int)vr_below((uint32_t)nh), k = held[h].k;
			fiftyoneDegreesCacheRelease(held[h].n);
			if (--m[k].holders == 0) m[k].released = t++;
			held[h] = held[--nh];
			vr_count("releases", 1);
		}
		else {
			int k = (int)vr_below(vr_chance(1, 2) && nk > 6 ? 6 : (uint32_t)nk), resident = 0, victim = -1, before = total_calls, fail = failing && vr_chance(1, 6) ? 1 + (int)vr_below(3) : 0;
			for (int j = 0; j < nk; j++) if (m[j].resident && m[j].shard == m[k].shard) {
				resident++;
				if (m[j].holders == 0 && (victim < 0 || m[j].released < m[victim].released)) victim = j;
			}
			fail_next = fail;
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			Node *n = fiftyoneDegreesCacheGet(c, &keys[k], exception);
			int loaded = total_calls - before;
			fail_next = 0;
			if (m[k].resident) {
				hits++;
				vr_count("hits", 1);
				VR_CHECK(n != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY, "cache:hit", "resident key %d not returned", k);
				VR_CHECK(loaded == 0, "cache:hit", "resident key %d loaded again", k);
			}
			else if (resident == slots && victim < 0) {
				misses++;
				vr_count("lookups_all_slots_held", 1);
				VR_CHECK(n == NULL && loaded == 0, "cache:all-held", "lookup returned %s and loaded %d times with all %d slots held", n ? "an entry" : "nothing", loaded, slots);
			}
			else {
				misses++;
				VR_CHECK(loaded == 1, "cache:miss", "absent key %d loaded %d times with %d of %d slots resident", k, loaded, resident, slots);
				if (resident == slots) { m[victim].resident = 0; vr_count("evictions", 1); }
				if (fail && loaded) {
					vr_count("failed_loads", 1);
					VR_CHECK(n == NULL && !FIFTYONE_DEGREES_EXCEPTION_OKAY, "cache:failed-load", "failed load of key %d gave %s", k, n ? "an entry" : "no error");
				}
				else {
					VR_CHECK(n != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY, "cache:miss", "absent key %d not returned though loaded, %d of %d slots resident", k, resident, slots);
					if (n) m[k].resident = 1;
				}
			}
			VR_CHECK(c->hits == hits && c->misses == misses, "cache:metrics", "%lu hits and %lu misses counted, %lu and %lu happened", c->hits, c->misses, hits, misses);
			if (n) {
				VR_CHECK(m[k].resident && intact(n, k), "cache:data", "lookup of key %d gave other data", k);
				if (!m[k].resident) return;
				m[k].holders++;
				held[nh].n = n; held[nh++].k = k;
			}
		}
		for (int h = 0; h < nh; h++) VR_CHECK(intact(held[h].n, held[h].k), "cache:changed-while-held", "entry of key %d changed while held", held[h].k);
		VR_CHECK(bad_key == 0, "cache:loader-arguments", "the loader got a key or state that was not given");
		uint64_t h = 0;
		for (int j = 0; j < nk; j++) h = vr_mix(h, (uint64_t)m[j].resident * 8 + (uint64_t)(m[j].holders > 3 ? 3 : m[j].holders));
		vr_distinct("nontrivial", vr_mix(h, (uint64_t)(slots * 64 + conc)));
	}
	vr_sample("%d keys (%s), %d shards of %d slots, %d operations, %lu hits, %lu misses, %d held at the end", nk, keytype == 0 ? "int32" : keytype == 1 ? "int64" : "text", conc, slots, ops, hits, misses, nh);
	if (vr_chance(3, 4)) while (nh) fiftyoneDegreesCacheRelease(held[--nh].n);
	fiftyoneDegreesCacheFree(c);
	VR_CHECK(vr_alloc_live() == 0, "cache:leak", "%zu blocks left after free", vr_alloc_live());
}
/* ----------------------------------------------------------------- scale */
/* Caches of many entries, of many shards, and entries held very many times: the
 * same promises where no count is small. */
static int big_loads;
static unsigned char pat_of(int32_t key, size_t j) { return (unsigned char)((uint32_t)key * 2654435761u >> (8 * (j & 3))); }
static void big_load(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	int32_t k = *(const int32_t *)key;
	(void)state; (void)exception;
	big_loads++;
	unsigned char *p = fiftyoneDegreesDataMalloc(data, 4);
	if (p) for (size_t j = 0; j < 4; j++) p[j] = pat_of(k, j);
	data->used = 4;
}
static int big_ok(const Node *n, int32_t k) {
	if (n->data.used != 4) return 0;
	for (size_t j = 0; j < 4; j++) if (((unsigned char *)n->data.ptr)[j] != pat_of(k, j)) return 0;
	return 1;
}
static void scale(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	int state = 5, kind = (int)vr_below(3);
	big_loads = 0;
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	uint32_t cap; uint16_t conc = 1;
	if (kind == 0) cap = (uint32_t[]){ 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 66000 }[vr_below(vr_chance(1, 3) ? 11 : 6)];
	else if (kind == 1) cap = 1 + vr_below(3);
	else { conc = (uint16_t)(vr_chance(1, 2) ? 127 + vr_below(6) : 254 + vr_below(50)); cap = (uint32_t)conc * conc + vr_below(5) * conc; }
	if (kind == 2) {
		VR_CHECK(fiftyoneDegreesCacheCreate((uint32_t)conc * conc - 1, conc, big_load, fiftyoneDegreesCacheHash32, &state) == NULL, "cache:create", "cache of %d for %d threads was created", conc * conc - 1, conc);
		VR_CHECK(fiftyoneDegreesCacheCreate(100000, 65535, big_load, fiftyoneDegreesCacheHash32, &state) == NULL, "cache:create", "cache of 100000 for 65535 threads was created");
	}
	Cache *c = fiftyoneDegreesCacheCreate(cap, conc, big_load, fiftyoneDegreesCacheHash32, &state);
	VR_CHECK(c != NULL, "cache:create", "cache of %u for %u threads not created", cap, conc);
	if (!c) return;
	int32_t step = (int32_t)(1 + vr_below(30000) * 2), base = (int32_t)vr_rand();
#define KEY(i) ((int32_t)((uint32_t)base + (uint32_t)(i) * (uint32_t)step))
	unsigned long hits = 0, misses = 0;
	Node **held = malloc(sizeof *held * 70000);
	if (kind == 0) {
		/* all slots held at once, then in the order they were released */
		int bad = 0;
		for (uint32_t i = 0; i < cap; i++) {
			int32_t k = KEY(i);
			held[i] = fiftyoneDegreesCacheGet(c, &k, exception);
			misses++;
			if (!held[i] || !big_ok(held[i], k)) { bad++; break; }
		}
		VR_CHECK(!bad && FIFTYONE_DEGREES_EXCEPTION_OKAY && big_loads == (int)cap, "cache:miss", "%u different keys do not fit in a cache of %u", cap, cap);
		if (bad) goto done;
		int32_t over = KEY(cap);
		VR_CHECK(fiftyoneDegreesCacheGet(c, &over, exception) == NULL && big_loads == (int)cap, "cache:all-held", "a lookup with all %u slots held gave an entry or loaded", cap);
		misses++;
		for (uint32_t i = 0; i < cap; i++) bad += !big_ok(held[i], KEY(i));
		VR_CHECK(!bad, "cache:changed-while-held", "%d of %u entries changed while held", bad, cap);
		uint32_t stride = 1 + vr_below(cap); /* order of release: any stride coprime to cap */
		for (;;) { uint32_t a = stride, b = cap; while (b) { uint32_t t = a % b; a = b; b = t; } if (a == 1) break; stride++; }
		uint32_t start = vr_below(cap);
#define NTH(i) ((uint32_t)((start + (uint64_t)(i) * stride) % cap))
		for (uint32_t i = 0; i < cap; i++) fiftyoneDegreesCacheRelease(held[NTH(i)]);
		uint32_t newer = 1 + vr_below(cap < 600 ? cap : 600);
		int loads = big_loads;
		for (uint32_t i = 0; i < newer; i++) {
			int32_t k = KEY(cap + i);
			Node *n = fiftyoneDegreesCacheGet(c, &k, exception);
			misses++;
			VR_CHECK(n && big_ok(n, k), "cache:miss", "new key not returned");
			if (!n) goto done;
			fiftyoneDegreesCacheRelease(n);
		}
		VR_CHECK(big_loads == loads + (int)newer, "cache:miss", "%d loads for %u new keys", big_loads - loads, newer);
		/* those released last are still there, in both groups */
		loads = big_loads;
		for (uint32_t i = newer; i < cap; i++) {
			int32_t k = KEY(NTH(i));
			Node *n = fiftyoneDegreesCacheGet(c, &k, exception);
			hits++;
			if (!n || !big_ok(n, k)) { bad++; break; }
			fiftyoneDegreesCacheRelease(n);
		}
		VR_CHECK(!bad && big_loads == loads, "cache:hit", "a key released more recently than those to be evicted was loaded again (%d)", big_loads - loads);
		if (bad || big_loads != loads) goto done;
		for (uint32_t i = 0; i < newer; i++) {
			int32_t k = KEY(cap + i);
			Node *n = fiftyoneDegreesCacheGet(c, &k, exception);
			hits++;
			if (!n || !big_ok(n, k)) { bad++; break; }
			fiftyoneDegreesCacheRelease(n);
		}
		VR_CHECK(!bad && big_loads == loads, "cache:hit", "a recently released key was loaded again");
		int32_t gone = KEY(NTH(vr_below(newer)));
		Node *n = fiftyoneDegreesCacheGet(c, &gone, exception);
		misses++;
		VR_CHECK(n && big_loads == loads + 1, "cache:miss", "the key released first was not loaded again after %u new keys", newer);
		if (n) fiftyoneDegreesCacheRelease(n);
		vr_count("large_caches", 1);
		vr_sample("a cache of %u entries, all held, released with stride %u, %u evicted", cap, stride, newer);
	}
	else if (kind == 1) {
		uint32_t times = vr_chance(1, 3) ? 65530 + vr_below(300) : vr_chance(1, 2) ? 32760 + vr_below(20) : 120 + vr_below(200);
		int32_t k = KEY(0);
		int bad = 0;
		for (uint32_t i = 0; i < times; i++) {
			held[i] = fiftyoneDegreesCacheGet(c, &k, exception);
			if (!held[i] || held[i] != held[0]) { bad++; break; }
		}
		VR_CHECK(!bad && big_loads == 1, "cache:hit", "key held %u times loaded %d times", times, big_loads);
		misses++; hits += times - 1;
		if (bad) goto done;
		for (uint32_t r = 0; r < times; r++) {
			/* every other entry comes and goes meanwhile */
			if (r % 97 == 0 || r < 3 || times - r < 4 || ((times - r) & 255) == 0) for (uint32_t j = 1; j <= cap; j++) {
				int32_t other = KEY(1 + r * 4 + j);
				Node *n = fiftyoneDegreesCacheGet(c, &other, exception);
				misses++;
				VR_CHECK((n != NULL) == (cap > 1), "cache:all-held", "a lookup in a cache of %u with an entry held %u times gave %s", cap, times - r, n ? "an entry" : "nothing");
				VR_CHECK(n != held[0], "cache:changed-while-held", "an entry held %u times was given to another key", times - r);
				if (n == held[0]) { bad = 1; break; }
				if (n) fiftyoneDegreesCacheRelease(n);
			}
			if (bad || !big_ok(held[0], k)) { vr_fail("cache:changed-while-held", "an entry held %u times changed", times - r); goto done; }
			fiftyoneDegreesCacheRelease(held[0]);
		}
		int loads = big_loads;
		for (uint32_t j = 0; j < cap; j++) {
			int32_t other = KEY(-5 - (int)j);
			Node *n = fiftyoneDegreesCacheGet(c, &other, exception);
			misses++;
			VR_CHECK(n != NULL, "cache:slots-lost", "an entry held %u times can not be used again", times);
			held[j] = n;
		}
		VR_CHECK(big_loads == loads + (int)cap, "cache:miss", "%d loads for %u keys", big_loads - loads, cap);
		for (uint32_t j = 0; j < cap; j++) if (held[j]) fiftyoneDegreesCacheRelease(held[j]);
		vr_count("held_many_times", 1);
		vr_sample("an entry of a cache of %u held %u times", cap, times);
	}
	else {
		uint32_t n = 3 * conc, used[512] = { 0 }, slots = c->capacity / conc;
		int bad = 0;
		VR_CHECK(slots >= conc && c->capacity >= cap, "cache:capacity", "capacity %u for %u asked", c->capacity, cap);
		for (;; step++) { /* spread over all shards */ uint64_t a = (uint64_t)step, b = conc; while (b) { uint64_t r = a % b; a = b; b = r; } if (a == 1) break; }
		for (uint32_t i = 0; i < n; i++) {
			int32_t k = KEY(i);
			held[i] = fiftyoneDegreesCacheGet(c, &k, exception);
			misses++;
			if (!held[i]) { bad++; break; }
			long s = held[i]->shard - c->shards;
			if (s < 0 || s >= conc || !big_ok(held[i], k)) { bad++; break; }
			used[s]++;
		}
		VR_CHECK(!bad && big_loads == (int)n, "cache:miss", "%u keys do not fit in a cache of %u in %d shards", n, c->capacity, conc);
		if (bad) goto done;
		for (uint32_t i = 0; i < n; i++) {
			int32_t k = KEY(i);
			Node *x = fiftyoneDegreesCacheGet(c, &k, exception);
			hits++;
			if (x != held[i] || !big_ok(x, k)) { bad++; break; }
			fiftyoneDegreesCacheRelease(x);
		}
		VR_CHECK(!bad && big_loads == (int)n, "cache:hit", "a held key was not found again among %u in %d shards", n, conc);
		for (uint32_t i = 0; i < n; i++) fiftyoneDegreesCacheRelease(held[i]);
		vr_count("many_shards", 1);
		uint32_t most = 0;
		for (int s = 0; s < conc; s++) if (used[s] > most) most = used[s];
		vr_sample("a cache of %u entries in %d shards, %u held, %u in one shard", c->capacity, conc, n, most);
	}
	VR_CHECK(c->hits == hits && c->misses == misses, "cache:metrics", "%lu hits and %lu misses counted, %lu and %lu happened", c->hits, c->misses, hits, misses);
	vr_distinct("nontrivial", vr_mix((uint64_t)kind << 40 | (uint64_t)cap << 16 | conc, (uint64_t)base));
done:
	free(held);
	fiftyoneDegreesCacheFree(c);
	VR_CHECK(vr_alloc_live() == 0, "cache:leak", "%zu blocks left after free", vr_alloc_live());
}
/* --------------------------------------------------------------- threads */
static Cache *shared; static unsigned long looked[16], nulls[16], badd[16];
typedef struct { uint64_t rng; int id, ops, maxhold; } worker;
static worker wk[16];
static void work(void *a) {
	worker *w = a;
	fiftyoneDegreesException ex_, *exception = &ex_;
	Node *h[4]; int hk[4], nh = 0;
	for (int i = 0; i < w->ops; i++) {
		if (nh == w->maxhold || (nh && vr_rand_s(&w->rng) % 2)) {
			int x = (int)(vr_rand_s(&w->rng) % (uint64_t)nh);
			if (!intact(h[x], hk[x])) badd[w->id]++;
			fiftyoneDegreesCacheRelease(h[x]);
			h[x] = h[--nh]; hk[x] = hk[nh];
		}
		else {
			int k = (int)(vr_rand_s(&w->rng) % (uint64_t)nk);
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			Node *n = fiftyoneDegreesCacheGet(shared, &keys[k], exception);
			looked[w->id]++;
			if (n == NULL || !FIFTYONE_DEGREES_EXCEPTION_OKAY) nulls[w->id]++;
			if (n) { h[nh] = n; hk[nh++] = k; }
		}
		for (int x = 0; x < nh; x++) { if (!intact(h[x], hk[x])) badd[w->id]++; sched_point(); }
	}
	while (nh) { nh--; if (!intact(h[nh], hk[nh])) badd[w->id]++; fiftyoneDegreesCacheRelease(h[nh]); }
}
static void *pwork(void *a) { work(a); return NULL; }
#ifdef VR_SCHED
static void on_error(const char *w) { vr_fail("cache:mutex", "%s", w); }
#endif
static void threads(void) {
	uint16_t conc = (uint16_t)(1 + vr_below(4));
	int nt = 2 + (int)vr_below(3), state = 6, hold = 1 + (int)vr_below(2);
	uint32_t need = (uint32_t)(nt * hold), cap = conc * (need > conc ? need : conc) + vr_below(3) * conc;
	want_state = &state;
	make_keys(3 + (int)vr_below(20));
	memset(calls, 0, sizeof calls); memset(in_load, 0, sizeof in_load);
	total_calls = bad_key = fail_next = 0;
	memset(looked, 0, sizeof looked); memset(nulls, 0, sizeof nulls); memset(badd, 0, sizeof badd);
	shared = fiftyoneDegreesCacheCreate(cap, conc, load, hash_of(), &state);
	if (!shared) vr_harness_error("no cache");
	uint64_t seed = vr_rand();
	for (int i = 0; i < nt; i++) {
		wk[i].rng = vr_rand(); wk[i].id = i; wk[i].maxhold = hold;
		wk[i].ops = tsan ? 400 : 2 + (int)vr_below(12);
	}
#ifdef VR_SCHED
	sched_begin(seed);
	for (int i = 0; i < nt; i++) sched_spawn(work, &wk[i]);
	int r = sched_run(400000);
	VR_CHECK(r == SCHED_OK, r == SCHED_DEADLOCK ? "cache:deadlock" : "cache:no-progress", "the threads do not finish");
	if (r != SCHED_OK) return;
	vr_distinct("nontrivial", sched_trace_hash());
	vr_count("switches", sched_switches());
#else
	pthread_t th[16];
	for (int i = 0; i < nt; i++) pthread_create(&th[i], NULL, pwork, &wk[i]);
	for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
	vr_distinct("nontrivial", seed);
#endif
	unsigned long l = 0, nn = 0, b = 0;
	for (int i = 0; i < nt; i++) { l += looked[i]; nn += nulls[i]; b += badd[i]; }
	vr_count("lookups", l);
	vr_count("concurrent_hits", shared->hits);
	VR_CHECK(b == 0, "cache:data", "%lu times a held entry had other data than its key's", b);
	VR_CHECK(nn == 0, "cache:missing", "%lu lookups gave nothing though slots were free", nn);
	VR_CHECK(shared->hits + shared->misses == l, "cache:metrics", "%lu hits and %lu misses for %lu lookups", shared->hits, shared->misses, l);
	if (!tsan) VR_CHECK(shared->misses == (unsigned long)total_calls, "cache:metrics", "%lu misses, %d loads", shared->misses, total_calls);
	/* no slot was lost: every one can be held at once */
	fiftyoneDegreesException ex_, *exception = &ex_;
	int per = shared->capacity / conc;
	nk = 0; static Node *all[4096]; int na = 0; int got[8] = { 0 };
	int kt = keytype;
	nk = MAXK; keytype = 0;
	for (int i = 0; i < MAXK; i++) keys[i].i32 = 1000000 + i * 7 + i / 13;
	Cache *c = shared;
	c->hash = fiftyoneDegreesCacheHash32;
	(void)kt;
	for (int k = 0; k < MAXK; k++) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		Node *n = fiftyoneDegreesCacheGet(c, &keys[k], exception);
		if (n) {
			int s = (int)(n->shard - c->shards);
			got[s]++;
			all[na++] = n;
		}
	}
	for (int s = 0; s < conc; s++) {
		/* with enough keys for the shard every slot is filled */
		VR_CHECK(got[s] <= per, "cache:capacity", "%d entries held in a shard of %d", got[s], per);
	}
	VR_CHECK(na == MAXK || na == c->capacity || na >= per, "cache:slots-lost", "only %d of %d slots can be held after the concurrent phase", na, c->capacity);
	if (conc == 1) VR_CHECK(na == (per < MAXK ? per : MAXK), "cache:slots-lost", "only %d of %d slots can be held after the concurrent phase", na, per);
	vr_sample("%d threads, %d shards of %d slots, %lu lookups, %lu hits", nt, conc, per, l, shared->hits);
	while (na) fiftyoneDegreesCacheRelease(all[--na]);
	fiftyoneDegreesCacheFree(c);
	if (!tsan) VR_CHECK(vr_alloc_live() == 0, "cache:leak", "%zu blocks left after free", vr_alloc_live());
}
void vr_setup(void) {
	tsan = (int)vr_opt_int("tsan", 0);
	if (!tsan) vr_alloc_install();
#ifdef VR_SCHED
	sched_on_error = on_error;
#endif
}
void vr_teardown(void) {}
void vr_run_case(uint64_t ci) {
	if (!tsan) vr_alloc_reset();
	if (vr_opt_int("threads", 0)) threads();
	else if (vr_chance(1, 60)) scale();
	else history();
}
