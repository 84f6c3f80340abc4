/* Collections: all storages give the same items (mode equiv), concurrent
 * readers (threads), damaged data and failing calls (damage), binary search
 * (search). */
#include "coll_common.h"
#ifdef VR_SCHED
#include "sched.h"
#else
#define sched_point() ((void)0)
#define sched_hold(x) ((void)0)
#endif
#include <pthread.h>
const char *vr_harness = "coll";
static char path[600];
static const char *mode; static int quiet;
/* ---------------------------------------------------------------- equiv */
typedef struct { fiftyoneDegreesCollectionItem item; int used, v, k; uint32_t i; } slot;
static uint32_t item_len(const coll *c, uint32_t i) { return c->off[i + 1] - c->off[i]; }
static uint32_t item_key(const coll *c, uint32_t i) { return c->fixed ? i : c->off[i]; }
static int same(const cfile *f, const coll *c, uint32_t i, const void *p) { return memcmp(p, f->b + c->pos + c->off[i], item_len(c, i)) == 0; }
static void build_says(void) {
	int safe = 1, memory = 0;
#ifdef FIFTYONE_DEGREES_NO_THREADING
	safe = 0;
#endif
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
	memory = 1;
#endif
	VR_CHECK(fiftyoneDegreesThreadingGetIsThreadSafe() == safe, "build:threading", "says it is %sthread safe", safe ? "not " : "");
	VR_CHECK(fiftyoneDegreesCollectionGetIsMemoryOnly() == memory, "build:memory", "says it is %smemory only", memory ? "not " : "");
	vr_count("build_flags", 1);
}
/* releases the item, at times through a list that owns it */
static void give_back(fiftyoneDegreesCollection *C, fiftyoneDegreesCollectionItem *i) {
	fiftyoneDegreesList l;
	if (vr_chance(1, 4) && fiftyoneDegreesListInit(&l, 1 + vr_below(2))) {
		fiftyoneDegreesListAdd(&l, i);
		fiftyoneDegreesListFree(&l);
		memset(i, 0, sizeof *i);
		fiftyoneDegreesDataReset(&i->data);
		vr_count("released_by_list", 1);
	}
	else { RELEASE(C, i); (void)C; }
}
static void equiv(void) {
	build_says();
	fiftyoneDegreesException ex_, *exception = &ex_;
	cfile f;
	cfile_make(&f, 0);
	cfile_write(&f, path, f.size);
	static opened o[3]; int handles[3], nv = 1 + (int)vr_below(3);
	int before = vr_open_fds();
	io_begin();
	for (int v = 0; v < nv; v++) {
		int st = vr_chance(1, 4) ? ST_MEMORY : vr_chance(1, 3) ? -1 : 1 + (int)vr_below(ST_N - 1);
		handles[v] = 1 + (int)vr_below(3);
		open_all(&o[v], &f, path, f.size, st, handles[v], 1);
		VR_CHECK(o[v].opened == f.nc, "coll:open", "collection %d of an intact file (%s, %u items, %u bytes) not opened as %s (%s, loaded %u, capacity %u, concurrency %u)", o[v].opened, f.c[o[v].opened % f.nc].fixed ? "fixed" : "variable", f.c[o[v].opened % f.nc].n, f.c[o[v].opened % f.nc].len, o[v].opened < f.nc ? st_name[o[v].s[o[v].opened].st] : "", o[v].err ? o[v].err : "", o[v].s[o[v].opened % f.nc].cfg.loaded, o[v].s[o[v].opened % f.nc].cfg.capacity, o[v].s[o[v].opened % f.nc].cfg.concurrency);
		VR_CHECK(o[v].opened != f.nc || o[v].err == NULL, "coll:position", "the reader is not just after the collection it opened (%s)", st_name[st < 0 ? 0 : st]);
		for (int k = 0; k < o[v].opened; k++) {
			if (f.c[k].fixed && f.c[k].n) VR_CHECK(fiftyoneDegreesCollectionGetCount(o[v].c[k]) == f.c[k].n, "coll:count", "count %u of a collection of %u (%s, loaded %u)", fiftyoneDegreesCollectionGetCount(o[v].c[k]), f.c[k].n, st_name[o[v].s[k].st], o[v].s[k].cfg.loaded);
			vr_count(st_name[o[v].s[k].st], 1);
		}
	}
	static slot sl[3][MAXC][8]; memset(sl, 0, sizeof sl);
	static unsigned char reused[3][MAXC][8]; memset(reused, 0, sizeof reused);
	int ops = 20 + (int)vr_below(vr_thorough() ? 300 : 80);
	for (int n = 0; n < ops; n++) {
		int v = (int)vr_below((uint32_t)nv), k = (int)vr_below((uint32_t)f.nc);
		if (k >= o[v].opened) continue;
		coll *c = &f.c[k];
		fiftyoneDegreesCollection *C = o[v].c[k];
		int h = (int)vr_below((uint32_t)(o[v].s[k].hold > 8 ? 8 : o[v].s[k].hold));
		slot *s = &sl[v][k][h];
		if (s->used) {
			VR_CHECK(same(&f, c, s->i, s->item.data.ptr), "coll:held-changed", "item %u changed while held (%s)", s->i, st_name[o[v].s[k].st]);
			give_back(C, &s->item);
			s->used = 0;
			continue;
		}
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		if (!reused[v][k][h] || vr_chance(1, 3)) { memset(&s->item, 0xA5, sizeof s->item); fiftyoneDegreesDataReset(&s->item.data); }
		reused[v][k][h] = 1;
		if (c->n == 0 || vr_chance(1, 8)) {
			/* nothing there */
			uint32_t key = c->fixed ? (c->n + (vr_chance(1, 2) ? vr_below(3) : vr_below(0x7FFFFFFF))) : c->len + (vr_chance(1, 2) ? vr_below(3) : vr_below(0x7FFFFFFF));
			if (vr_chance(1, 10)) key = UINT32_MAX;
			if (vr_chance(1, 10) && c->fixed) key = 0x80000000u / c->es * 2 + vr_below(c->n + 1);
			if (c->fixed && key < c->n) key = c->n;
			void *p = C->get(C, key, &s->item, exception);
			VR_CHECK(p == NULL && FIFTYONE_DEGREES_EXCEPTION_FAILED, "coll:out-of-range", "%u outside %u %s gave %s, status %d (%s)", key, c->fixed ? c->n : c->len, c->fixed ? "items" : "bytes", p ? "an item" : "none", (int)exception->status, st_name[o[v].s[k].st]);
			VR_CHECK(p || exception->status == FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE || exception->status == FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE, "coll:out-of-range-status", "status %d (%s)", (int)exception->status, st_name[o[v].s[k].st]);
			vr_count("out_of_range", 1);
			reused[v][k][h] = 0;
			continue;
		}
		uint32_t i = vr_chance(1, 4) && o[v].s[k].cfg.loaded ? o[v].s[k].cfg.loaded - vr_below(2) : vr_below(c->n);
		if (i >= c->n) i = c->n - 1;
		if (c->fixed && c->es >= 4 && vr_chance(1, 8)) {
			int32_t want; memcpy(&want, f.b + c->pos + c->off[i], 4);
			int32_t got = fiftyoneDegreesCollectionGetInteger32(C, i, exception);
			VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && got == want, "coll:integer", "integer %d instead of %d at %u (%s)", got, want, i, st_name[o[v].s[k].st]);
			reused[v][k][h] = 0;
			continue;
		}
		void *p = C->get(C, item_key(c, i), &s->item, exception);
		VR_CHECK(p != NULL && FIFTYONE_DEGREES_EXCEPTION_OKAY, "coll:get", "item %u of %u not returned, status %d (%s, loaded %u, capacity %u, concurrency %u)", i, c->n, (int)exception->status, st_name[o[v].s[k].st], o[v].s[k].cfg.loaded, o[v].s[k].cfg.capacity, o[v].s[k].cfg.concurrency);
		if (!p) continue;
		VR_CHECK(p == (void *)s->item.data.ptr, "coll:pointer", "the pointer returned is not the item's");
		VR_CHECK(same(&f, c, i, p), "coll:bytes", "item %u is %s instead of %s (%s, loaded %u)", i, vr_esc(p, item_len(c, i) > 20 ? 20 : item_len(c, i)), vr_esc(f.b + c->pos + c->off[i], item_len(c, i) > 20 ? 20 : item_len(c, i)), st_name[o[v].s[k].st], o[v].s[k].cfg.loaded);
		s->used = 1; s->v = v; s->k = k; s->i = i;
		vr_count("items", 1);
		vr_distinct("nontrivial", vr_mix((uint64_t)(o[v].s[k].st * 8 + c->fixed), vr_mix(c->n * 1000 + i, o[v].s[k].cfg.loaded * 64 + o[v].s[k].cfg.capacity)));
	}
	vr_sample("%d collections, %d views: first has %u %s items as %s", f.nc, nv, f.c[0].n, f.c[0].fixed ? "fixed" : "variable", st_name[o[0].s[0].st]);
	for (int v = 0; v < nv; v++) {
		for (int k = 0; k < f.nc; k++) for (int h = 0; h < 8; h++) if (sl[v][k][h].used) {
			VR_CHECK(same(&f, &f.c[k], sl[v][k][h].i, sl[v][k][h].item.data.ptr), "coll:held-changed", "item %u changed while held (%s)", sl[v][k][h].i, st_name[o[v].s[k].st]);
			give_back(o[v].c[k], &sl[v][k][h].item);
		}
		check_handles(&o[v], handles[v], "coll:handles");
		close_all(&o[v]);
	}
	VR_CHECK(io_open_files() == 0 && (quiet || vr_open_fds() == before), "coll:open-files", "%d files left open", io_open_files());
	VR_CHECK(vr_alloc_live() == 0, "coll:leak", "%zu blocks left", vr_alloc_live());
	io_end();
	cfile_free(&f);
}
/* A collection of up to 4 GB in a file of mostly holes, followed by another,
 * which may start beyond what a header can say. */
#define HN 24
static void huge(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	static unsigned char b[HN][64], zero[64];
	int fixed = vr_chance(1, 2), is_count = fixed && vr_chance(1, 2), n = 0, before = vr_open_fds(), handles = 1 + (int)vr_below(2);
	uint32_t es = fixed ? 1 + vr_below(60) : 0, at[HN], ln[HN], len = vr_chance(1, 2) ? 0x7FFFFFC0u + vr_below(128) : vr_chance(1, 2) ? 0xFFFFFFFFu - vr_below(500) : 0x40000000u + (uint32_t)vr_below(0xB0000000u);
	long base = vr_chance(1, 2) ? 1 + (long)vr_below(100) : vr_chance(1, 2) ? 0x7FFFFFFFl - (long)vr_below(20) : 0xFFFFFFFFl - 4 - (long)vr_below(100), pos = base + 4, pos2;
	if (fixed) len -= len % es;
	uint32_t count = fixed ? len / es : 0, header = is_count ? count : len, want[] = { 0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537 };
	if (fixed) {
		for (int i = 0; i < HN; i++) {
			uint32_t x = i < 12 ? want[i] : i == 12 ? count - 1 : i == 13 ? 0x7FFFFFFFu / es : i == 14 ? 0x80000000u / es + 1 : i == 15 ? count / 2 : i == 16 ? 0x80000000u / es : 70000 + vr_below(count - 70000);
			if (x >= count) continue;
			int again = 0; for (int j = 0; j < n; j++) again |= at[j] == x;
			if (again) continue;
			at[n] = x; ln[n] = es; n++;
		}
	}
	else {
		uint32_t o = 0;
		for (int i = 0; i < HN; i++) {
			ln[n] = 4 + vr_below(60);
			if (i == 10) o = 65536 - vr_below(70);
			if (i == 14 && len > 0x7FFFFFFF) o = 0x7FFFFFFFu - vr_below(70);
			if (i == 18) o = len - 6 * 64 - 1 > o ? len - 6 * 64 - 1 : o;
			if (o + ln[n] > len || o + ln[n] < o) break;
			at[n] = o; o += ln[n]; n++;
		}
	}
	FILE *w = fopen(path, "wb");
	int ok = w && fseek(w, base, SEEK_SET) == 0 && fwrite(&header, 4, 1, w) == 1;
	for (int i = 0; i < n; i++) {
		for (uint32_t j = 0; j < ln[i]; j++) b[i][j] = (unsigned char)(1 + vr_below(255));
		if (!fixed) { uint32_t x = ln[i] - 4; memcpy(b[i], &x, 4); }
		ok = ok && fseek(w, pos + (fixed ? (long)at[i] * es : (long)at[i]), SEEK_SET) == 0 && fwrite(b[i], ln[i], 1, w) == 1;
	}
	/* the second: four integers */
	uint32_t second[5] = { 16, 11, 22, 33, 44 };
	pos2 = pos + len + 4;
	ok = ok && fseek(w, pos2 - 4, SEEK_SET) == 0 && fwrite(second, sizeof second, 1, w) == 1;
	if (w) ok = fclose(w) == 0 && ok;
	if (!ok) vr_harness_error("cannot write a file of holes");
	io_begin();
	static opened o; memset(&o, 0, sizeof o);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	fiftyoneDegreesFilePoolInit(&o.pool, path, (uint16_t)handles, exception);
	o.pool_ok = FIFTYONE_DEGREES_EXCEPTION_OKAY;
	VR_CHECK(o.pool_ok, "coll:open", "no pool of the large file, status %d", (int)exception->status);
	VR_CHECK(!o.pool_ok || o.pool.length == pos2 + 16, "coll:length", "the pool says the file has %ld bytes instead of %ld", (long)o.pool.length, pos2 + 16);
	VR_CHECK(fiftyoneDegreesFileGetSize(path) == pos2 + 16, "coll:length", "the file is said to have %ld bytes instead of %ld", fiftyoneDegreesFileGetSize(path), pos2 + 16);
	FILE *h = fopen(path, "rb");
	fseek(h, base, SEEK_SET);
	int st = (int[]){ ST_FILE, ST_CACHE, ST_PARTIAL, ST_PARTIAL_CACHE }[vr_below(4)];
	coll desc; memset(&desc, 0, sizeof desc); desc.fixed = fixed; desc.hdr = 4;
	o.s[0] = storage_make(st, 9, 1);
	if (!fixed && o.s[0].cfg.loaded > (uint32_t)n) o.s[0].cfg.loaded = 1;
	fiftyoneDegreesCollectionHeader hd = fiftyoneDegreesCollectionHeaderFromFile(h, es, is_count);
	VR_CHECK(hd.startPosition == pos && hd.length == len && hd.count == count, "coll:header", "header %u, %u, %u of a collection of %u items in %u bytes at %ld", hd.startPosition, hd.count, hd.length, count, len, pos);
	if (o.pool_ok) o.c[0] = fiftyoneDegreesCollectionCreateFromFile(h, &o.pool, &o.s[0].cfg, hd, reader_of(&desc));
	VR_CHECK(o.c[0] != NULL, "coll:open", "a collection of %u bytes at %ld not opened (%s)", len, pos, st_name[st]);
	if (o.c[0]) {
		fiftyoneDegreesCollection *C = o.c[0];
		if (fixed) VR_CHECK(fiftyoneDegreesCollectionGetCount(C) == count, "coll:count", "count %u of a collection of %u (%s)", fiftyoneDegreesCollectionGetCount(C), count, st_name[st]);
		VR_CHECK(__real_ftell(h) == pos + (long)len, "coll:position", "the reader is at %ld after a collection ending at %ld (%s)", __real_ftell(h), pos + (long)len, st_name[st]);
		for (int r = 0; r < 40; r++) {
			int i = (int)vr_below((uint32_t)n); uint32_t x = at[i]; const unsigned char *e = b[i];
			if (fixed && vr_chance(1, 4)) { x = vr_chance(1, 2) ? x + 1 : vr_below(count); if (x >= count) x = 0; e = zero; for (int j = 0; j < n; j++) if (at[j] == x) e = b[j]; }
			int out = fixed && vr_chance(1, 8);
			if (out) x = count + vr_below(UINT32_MAX - count);
			fiftyoneDegreesCollectionItem it; memset(&it, 0xA5, sizeof it); fiftyoneDegreesDataReset(&it.data);
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			void *p = C->get(C, x, &it, exception);
			if (out) VR_CHECK(!p && FIFTYONE_DEGREES_EXCEPTION_FAILED, "coll:out-of-range", "item %u of %u given (%s)", x, count, st_name[st]);
			else {
				VR_CHECK(p && FIFTYONE_DEGREES_EXCEPTION_OKAY, "coll:get", "item at %u of %u bytes not returned, status %d (%s)", x, len, (int)exception->status, st_name[st]);
				VR_CHECK(!p || !memcmp(p, e, fixed ? es : ln[i]), "coll:bytes", "item at %u of %u bytes has other bytes (%s)", x, len, st_name[st]);
				vr_count("items_in_huge", 1);
			}
			if (p) RELEASE(C, &it);
		}
		/* the next one */
		fseek(h, pos2 - 4, SEEK_SET);
		hd = fiftyoneDegreesCollectionHeaderFromFile(h, 4, 0);
		o.s[1] = storage_make(1 + (int)vr_below(ST_N - 1), 4, 1);
		if (hd.startPosition) o.c[1] = fiftyoneDegreesCollectionCreateFromFile(h, &o.pool, &o.s[1].cfg, hd, fiftyoneDegreesCollectionReadFileFixed);
		vr_count(o.c[1] ? "second_opened" : "second_refused", 1);
		VR_CHECK(o.c[1] || pos2 > (long)UINT32_MAX, "coll:open", "a collection at %ld not opened (%s)", pos2, st_name[o.s[1].st]);
		for (uint32_t i = 0; o.c[1] && i < 4; i++) {
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			int32_t v = fiftyoneDegreesCollectionGetInteger32(o.c[1], i, exception);
			VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && v == (int32_t)second[1 + i], "coll:far", "integer %u of a collection at %ld is %d instead of %u, status %d (%s)", i, pos2, v, second[1 + i], (int)exception->status, st_name[o.s[1].st]);
		}
	}
	fclose(h);
	vr_count("huge_collections", 1);
	vr_distinct("nontrivial", vr_mix(vr_mix((uint64_t)base, len), (uint64_t)(st * 64 + (int)es)));
	check_handles(&o, handles, "coll:handles");
	o.has_pool = o.pool_ok;
	close_all(&o);
	VR_CHECK(io_open_files() == 0 && (quiet || vr_open_fds() == before), "coll:open-files", "%d files left open", io_open_files());
	VR_CHECK(vr_alloc_live() == 0, "coll:leak", "%zu blocks left", vr_alloc_live());
	io_end();
}
/* -------------------------------------------------------------- threads */
static cfile tf; static opened to; static int thandles;
static struct { uint64_t rng; int ops; int bad, wrong, failed, status; uint32_t at; } tw[4];
static void reader(void *arg) {
	int t = (int)(intptr_t)arg;
	fiftyoneDegreesException ex_, *exception = &ex_;
	fiftyoneDegreesCollectionItem it[2];
	int held = -1, heldk = 0; uint32_t heldi = 0;
	for (int n = 0; n < tw[t].ops; n++) {
		int k = (int)(vr_rand_s(&tw[t].rng) % (uint64_t)tf.nc);
		coll *c = &tf.c[k];
		if (!c->n) continue;
		int two = to.s[k].hold > 1, s = held < 0 ? 0 : !held;
		uint32_t i = (uint32_t)(vr_rand_s(&tw[t].rng) % (vr_rand_s(&tw[t].rng) % 2 && c->n > 4 ? 4 : c->n));
		if (held >= 0 && heldk == k && !two) {
			if (!same(&tf, &tf.c[heldk], heldi, it[held].data.ptr)) tw[t].bad++;
			RELEASE(to.c[heldk], &it[held]);
			held = -1; s = 0;
		}
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		fiftyoneDegreesDataReset(&it[s].data);
		void *p = to.c[k]->get(to.c[k], item_key(c, i), &it[s], exception);
		if (!p || FIFTYONE_DEGREES_EXCEPTION_FAILED) { tw[t].failed++; tw[t].status = (int)exception->status; tw[t].at = (uint32_t)to.s[k].st; continue; }
		if (!same(&tf, c, i, p)) { tw[t].wrong++; tw[t].at = (uint32_t)to.s[k].st; }
		sched_point();
		if (!same(&tf, c, i, p)) tw[t].bad++;
		if (held >= 0) {
			if (!same(&tf, &tf.c[heldk], heldi, it[held].data.ptr)) tw[t].bad++;
			RELEASE(to.c[heldk], &it[held]);
		}
		held = s; heldk = k; heldi = i;
	}
	if (held >= 0) {
		if (!same(&tf, &tf.c[heldk], heldi, it[held].data.ptr)) tw[t].bad++;
		RELEASE(to.c[heldk], &it[held]);
	}
}
static void *reader_thread(void *a) { reader(a); return NULL; }
static void threads(void) {
	int nt = 2 + (int)vr_below(3), before = vr_open_fds();
	cfile_make(&tf, 0);
	cfile_write(&tf, path, tf.size);
	thandles = nt + (int)vr_below(2);
	int st = vr_chance(1, 8) ? ST_MEMORY : vr_chance(1, 4) ? -1 : 1 + (int)vr_below(ST_N - 1);
	io_begin();
	open_all(&to, &tf, path, tf.size, st, thandles, nt);
	VR_CHECK(to.opened == tf.nc, "coll:open", "collection not opened (%s)", to.err ? to.err : "");
	if (to.opened != tf.nc) { close_all(&to); io_end(); cfile_free(&tf); return; }
	for (int i = 0; i < nt; i++) { memset(&tw[i], 0, sizeof tw[i]); tw[i].rng = vr_rand(); tw[i].ops = 2 + (int)vr_below(10); }
#ifdef VR_SCHED
	sched_begin(vr_rand());
	for (int i = 0; i < nt; i++) sched_spawn(reader, (void *)(intptr_t)i);
	int r = sched_run(400000);
	VR_CHECK(r == SCHED_OK, "coll:no-progress", "the readers do not finish");
	if (r != SCHED_OK) return;
	vr_distinct("nontrivial", sched_trace_hash());
	vr_count("switches", sched_switches());
#else
	pthread_t th[4];
	for (int i = 0; i < nt; i++) { tw[i].ops += 60; pthread_create(&th[i], NULL, reader_thread, (void *)(intptr_t)i); }
	for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
	vr_distinct("nontrivial", vr_case_no());
#endif
	for (int i = 0; i < nt; i++) {
		VR_CHECK(tw[i].failed == 0, "coll:concurrent-get", "%d of %d concurrent reads failed, status %d (%s, %d threads, concurrency %u)", tw[i].failed, tw[i].ops, tw[i].status, st_name[tw[i].at], nt, to.s[0].cfg.concurrency);
		VR_CHECK(tw[i].wrong == 0, "coll:bytes", "%d concurrent reads gave other bytes (%s)", tw[i].wrong, st_name[tw[i].at]);
		VR_CHECK(tw[i].bad == 0, "coll:held-changed", "%d items changed while held (%s)", tw[i].bad, st_name[to.s[0].st]);
		vr_count("concurrent_reads", (uint64_t)tw[i].ops);
	}
	vr_sample("%d threads, %d collections, first as %s", nt, tf.nc, st_name[to.s[0].st]);
	check_handles(&to, thandles, "coll:handles");
	/* nothing is held any more: each cache can fill with other items */
	for (int k = 0; k < tf.nc; k++) {
		fiftyoneDegreesException ex_, *exception = &ex_;
		for (uint32_t i = 0; i < tf.c[k].n; i++) {
			fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data);
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			void *p = to.c[k]->get(to.c[k], item_key(&tf.c[k], i), &it, exception);
			VR_CHECK(p && same(&tf, &tf.c[k], i, p), "coll:after", "item %u cannot be read after the threads have finished (%s)", i, st_name[to.s[k].st]);
			if (p) RELEASE(to.c[k], &it);
		}
	}
	close_all(&to);
	VR_CHECK(io_open_files() == 0 && (quiet || vr_open_fds() == before), "coll:open-files", "%d files left open", io_open_files());
	VR_CHECK(vr_alloc_live() == 0, "coll:leak", "%zu blocks left", vr_alloc_live());
	io_end();
	cfile_free(&tf);
}
/* --------------------------------------------------------------- damage */
enum { D_TRUNCATE, D_HEADER, D_ITEM, D_IO_OPEN, D_IO_READ, D_MEM_OPEN, D_MEM_READ, D_CONFIG, D_N };
static const char *d_name[] = { "truncated", "header", "item length", "i/o failure while opening", "i/o failure while reading", "no memory while opening", "no memory while reading", "cache too small" };
static const int io_classes[] = { IO_FOPEN, IO_FREAD, IO_FSEEK, IO_FTELL };
static void damage(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	cfile f;
	cfile_make(&f, 0);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	int d = vr_opt_int("oom", 0) ? D_MEM_OPEN + (int)vr_below(2) : (int)vr_below(D_N), st = vr_chance(1, 5) ? ST_MEMORY : 1 + (int)vr_below(ST_N - 1), handles = 1 + (int)vr_below(2), before = vr_open_fds(), hit = 0, sticky = vr_chance(1, 2), dk = (int)vr_below((uint32_t)f.nc);
	size_t size = f.size;
	uint32_t headers[MAXC];
	for (int k = 0; k < f.nc; k++) memcpy(&headers[k], f.b + f.c[k].hpos, 4);
	if (d == D_TRUNCATE) size = vr_chance(1, 2) ? (size_t)f.c[dk].hpos + vr_below(f.c[dk].len + 5) : vr_below((uint32_t)f.size + 1);
	if (d == D_HEADER) {
		uint32_t v = headers[dk];
		switch (vr_below(8)) {
		case 0: v = 0; break;
		case 1: v++; break;
		case 2: if (v) v--; break;
		case 3: v = UINT32_MAX - vr_below(60); break;
		case 4: v = 0x80000000u + vr_below(3) - 1; break;
		case 5: v = (uint32_t)(0x100000000ull / f.c[dk].es) + vr_below(4); break;
		case 6: v += vr_below(100); break;
		default: v = (uint32_t)vr_rand();
		}
		put32(f.b + f.c[dk].hpos, v);
		headers[dk] = v;
	}
	uint32_t bad_item = 0;
	if (d == D_ITEM) {
		if (f.c[dk].fixed || !f.c[dk].n || st == ST_MEMORY) { cfile_free(&f); return; }
		bad_item = vr_below(f.c[dk].n);
		uint16_t v = (uint16_t)(vr_chance(1, 2) ? 0xFFFF - vr_below(8) : vr_rand());
		uint32_t w = vr_chance(1, 3) ? UINT32_MAX - vr_below(12) : vr_chance(1, 2) ? f.c[dk].len - f.c[dk].off[bad_item] - 4 + vr_below(12) - 6 : (uint32_t)vr_rand() >> vr_below(32);
		if (f.c[dk].hdr == 4) memcpy(f.b + f.c[dk].pos + f.c[dk].off[bad_item], &w, 4);
		else memcpy(f.b + f.c[dk].pos + f.c[dk].off[bad_item], &v, 2);
	}
	vr_note_case("%s as %s", d_name[d], st_name[st]);
	cfile_write(&f, path, size);
	static opened o;
	io_begin();
	int cls = io_classes[vr_below(4)];
	if (d == D_IO_OPEN) io_fail_at(cls, 1 + vr_below(6), sticky);
	if (d == D_MEM_OPEN) vr_alloc_fail_at(1 + vr_below(16), sticky);
	if (d == D_CONFIG && st >= ST_CACHE) {
		/* a cache smaller than its concurrency needs is refused */
		fiftyoneDegreesException e2 = *exception;
		memset(&o, 0, sizeof o);
		if (f.c[0].n > 2 && fiftyoneDegreesFilePoolInit(&o.pool, path, 1, &e2) == FIFTYONE_DEGREES_STATUS_SUCCESS) {
			fiftyoneDegreesCollectionConfig cfg = { vr_chance(1, 2) ? 1 : 0, 15, 4 };
			fiftyoneDegreesFileHandle *h = fiftyoneDegreesFileHandleGet(&o.pool, &e2);
			if (!h) { VR_CHECK(0, "coll:handles", "no handle in a fresh pool, status %d", (int)e2.status); goto end; }
			fseek(h->file, f.base + f.c[0].hpos, SEEK_SET);
			fiftyoneDegreesCollectionHeader hd = fiftyoneDegreesCollectionHeaderFromFile(h->file, f.c[0].fixed ? f.c[0].es : 0, f.c[0].is_count);
			fiftyoneDegreesCollection *C = fiftyoneDegreesCollectionCreateFromFile(h->file, &o.pool, &cfg, hd, reader_of(&f.c[0]));
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
			VR_CHECK(C == NULL || C->next == NULL && cfg.loaded, "coll:config", "a cache of 15 for 4 threads was created");
#endif
			if (C) C->freeCollection(C);
			fiftyoneDegreesFileHandleRelease(h);
			vr_count("refused_configurations", C == NULL);
			o.pool_ok = 1;
			check_handles(&o, 1, "coll:handles");
			fiftyoneDegreesFilePoolRelease(&o.pool);
		}
		goto end;
	}
	open_all(&o, &f, path, size, st, handles, 1);
	hit = d == D_IO_OPEN && io_failed();
	if (d == D_IO_OPEN) { io_fail_at(cls, 0, 0); if (!hit) vr_count("faults_not_reached", 1); }
	if (d == D_MEM_OPEN) { hit = vr_alloc_failed(); vr_alloc_no_fail(); }
	if (d == D_IO_OPEN || d == D_MEM_OPEN) {
		VR_CHECK(hit || o.opened == f.nc, "coll:open", "not opened without any failure (%s)", o.err ? o.err : "");
		vr_count(hit ? d_name[d] : "faults_not_reached", 1);
		if (hit) vr_count(o.opened == f.nc ? "opened_despite_failure" : "open_refused", 1);
	}
	else if (d == D_TRUNCATE || d == D_HEADER || d == D_ITEM) vr_count(d_name[d], 1);
	/* reads: right bytes, or none and an error */
	int reads = 12 + (int)vr_below(20), faults = 0;
	if (o.opened == 0) reads = 0;
	for (int n = 0; n < reads; n++) {
		int k = (int)vr_below((uint32_t)o.opened);
		coll *c = &f.c[k];
		fiftyoneDegreesCollection *C = o.c[k];
		uint32_t real = d == D_HEADER ? c->n + vr_below(4) : c->n;
		if (!real) continue;
		uint32_t i = vr_below(real), key, len;
		long at;
		if (d == D_HEADER && vr_chance(1, 6)) i = vr_chance(1, 2) ? vr_below(0x7FFFFFFF) : 0xFFFFFFFFu / (c->es ? c->es : 1) + vr_below(5);
		if (i >= c->n && !c->fixed) i = c->n ? c->n - 1 : 0;
		if (!c->fixed && !c->n) continue;
		key = item_key(c, i);
		/* a collection after one of a wrong length starts at a wrong place */
		int displaced = d == D_HEADER && k > dk;
		uint32_t es = c->es;
		if (d == D_HEADER && c->fixed && !c->is_count && headers[k] % es) { uint32_t cn = headers[k] / es; if (cn) es = headers[k] / cn; else continue; }
		at = c->pos + (c->fixed ? (long)((uint64_t)key * es) : (long)c->off[i]);
		len = c->fixed ? es : item_len(c, i);
		if (d == D_ITEM && k == dk && i == bad_item) {
			uint16_t v; memcpy(&v, f.b + at, 2);
			len = v + (uint32_t)c->hdr;
			if (c->hdr == 4) { memcpy(&len, f.b + at, 4); len = len > UINT32_MAX - 4 ? UINT32_MAX : len + 4; }
		}
		/* all in memory: the item is where it is asked for, and its length is
		 * the reader's to check */
		if (!c->fixed && IN_MEMORY(C, st == ST_MEMORY || o.s[k].cfg.loaded) && (len > item_len(c, i) || (d == D_HEADER && c->off[i] + len > headers[k]))) continue;
		/* a wrong length of an earlier item can make the loaded part end within
		 * this one, which is likewise for its reader to find */
		if (!c->fixed && d == D_ITEM && k == dk && (o.s[k].cfg.loaded) && C->next && c->off[i] < C->size && (uint64_t)c->off[i] + len > C->size) { vr_count("cut_by_loaded_part", 1); continue; }
		int fault = 0;
		if (d == D_IO_READ && vr_chance(1, 3)) { fault = 1; io_fail_at(vr_chance(1, 2) ? IO_FREAD : IO_FSEEK, 1 + vr_below(3), sticky); }
		if (d == D_MEM_READ && vr_chance(1, 3)) { fault = 1; vr_alloc_fail_at(1 + vr_below(2), sticky); }
		fiftyoneDegreesCollectionItem it;
		memset(&it, 0xA5, sizeof it);
		fiftyoneDegreesDataReset(&it.data);
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		void *p = C->get(C, key, &it, exception);
		if (fault) { hit = d == D_IO_READ ? io_failed() : vr_alloc_failed(); faults += hit; io_fail_at(IO_FREAD, 0, 0); io_fail_at(IO_FSEEK, 0, 0); vr_alloc_no_fail(); fault = hit; }
		VR_CHECK((p != NULL) == FIFTYONE_DEGREES_EXCEPTION_OKAY, "coll:silent", "item %u: %s with status %d (%s, %s)", i, p ? "an item" : "no item", (int)exception->status, d_name[d], st_name[st]);
		if (!p) {
			int good = !fault && !displaced && d != D_TRUNCATE && d != D_HEADER && !(d == D_ITEM && k == dk && i == bad_item);
			if (d == D_TRUNCATE && at + (long)len <= (long)size && o.opened == f.nc) good = 1;
			VR_CHECK(!good, "coll:undamaged", "undamaged item %u not returned, status %d (%s, %s)", i, (int)exception->status, d_name[d], st_name[st]);
			vr_count("reads_refused", 1);
			continue;
		}
		vr_count("reads_given", 1);
		if (!displaced) {
			VR_CHECK(at >= 0 && at + (long)len <= (long)size, "coll:beyond", "item %u of %u bytes at %ld given though the file has %zu bytes (%s, %s)", i, len, at, size, d_name[d], st_name[st]);
			if (d == D_ITEM && k == dk) VR_CHECK(at + (long)len <= c->pos + (long)c->len, "coll:beyond-collection", "item of %u bytes at %u given though the collection has %u bytes (%s)", len, c->off[i], c->len, st_name[st]);
			if (at >= 0 && at + (long)len <= (long)size)
				VR_CHECK(memcmp(p, f.b + at, len) == 0, "coll:bytes", "item %u has other bytes than the file (%s, %s, header %u, size %u)", i, d_name[d], st_name[st], headers[k], c->es);
		}
		else { volatile unsigned char x = *(unsigned char *)p; (void)x; }
		RELEASE(C, &it);
	}
	vr_count("read_faults", (uint64_t)faults);
	vr_distinct("nontrivial", vr_mix(vr_mix((uint64_t)(d * 16 + st), (uint64_t)o.opened * 8 + (uint64_t)f.nc), vr_mix(d == D_TRUNCATE ? size : headers[dk], (uint64_t)hit * 4 + (uint64_t)sticky + (uint64_t)faults * 8)));
	vr_sample("%s as %s: %d of %d collections opened%s%s", d_name[d], st_name[st], o.opened, f.nc, o.err ? ", " : "", o.err ? o.err : "");
	check_handles(&o, handles, "coll:handles");
	close_all(&o);
	vr_alloc_no_fail();
end:
	VR_CHECK(io_open_files() == 0 && (quiet || vr_open_fds() == before), "coll:open-files", "%d files left open (%s)", io_open_files(), d_name[d]);
	{ char what[300]; vr_alloc_describe_live(what, sizeof what);
	VR_CHECK(vr_alloc_live() == 0, "coll:leak", "%zu blocks left: %s (%s, %s)", vr_alloc_live(), what, d_name[d], st_name[st]); }
	io_end();
	cfile_free(&f);
}
/* --------------------------------------------------------------- search */
static struct { int32_t want; int calls, fail_at, bad; const cfile *f; const coll *c; uint32_t lo, hi; } sr;
static int compare(void *state, fiftyoneDegreesCollectionItem *item, long index, fiftyoneDegreesException *exception) {
	int32_t key;
	if (state != &sr || index < (long)sr.lo || index > (long)sr.hi) { sr.bad++; return 0; }
	if (memcmp(item->data.ptr, sr.f->b + sr.c->pos + sr.c->off[index], sr.c->es)) sr.bad++;
	memcpy(&key, item->data.ptr, 4);
	if (++sr.calls == sr.fail_at) { exception->status = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; return 0; }
	return key < sr.want ? -1 : key > sr.want;
}
static void search(void) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	cfile f;
	cfile_make(&f, 1);
	cfile_write(&f, path, f.size);
	static opened o;
	int before = vr_open_fds(), handles = 1;
	io_begin();
	open_all(&o, &f, path, f.size, vr_chance(1, 6) ? ST_MEMORY : vr_chance(1, 3) ? -1 : 1 + (int)vr_below(ST_N - 1), handles, 1);
	VR_CHECK(o.opened == f.nc, "coll:open", "collection not opened");
	for (int n = 0; n < 30 && o.opened == f.nc; n++) {
		int k = (int)vr_below((uint32_t)f.nc);
		coll *c = &f.c[k];
		if (!c->n) continue;
		uint32_t lo = vr_chance(1, 2) ? 0 : vr_below(c->n), hi = vr_chance(1, 2) ? c->n - 1 : vr_below(c->n);
		if (hi < lo && vr_chance(1, 2)) { uint32_t x = lo; lo = hi; hi = x; }
		int32_t want;
		memcpy(&want, f.b + c->pos + c->off[vr_below(c->n)], 4);
		if (vr_chance(1, 2)) want += vr_chance(1, 2) ? 1 : -1;
		if (vr_chance(1, 16)) want = vr_chance(1, 2) ? INT32_MIN : INT32_MAX;
		long expect = -1;
		for (uint32_t i = lo; i <= hi && i < c->n; i++) { int32_t key; memcpy(&key, f.b + c->pos + c->off[i], 4); if (key == want) expect = (long)i; }
		memset(&sr, 0, sizeof sr);
		sr.want = want; sr.f = &f; sr.c = c; sr.lo = lo; sr.hi = hi;
		int fault = vr_chance(1, 4) ? 1 + (int)vr_below(3) : 0;
		if (fault == 1) sr.fail_at = 1 + (int)vr_below(5);
		if (fault == 2) io_fail_at(vr_chance(1, 2) ? IO_FREAD : IO_FSEEK, 1 + vr_below(5), 0);
		if (fault == 3) vr_alloc_fail_at(1 + vr_below(5), 0);
		fiftyoneDegreesCollectionItem item;
		memset(&item, 0xA5, sizeof item);
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		long got = fiftyoneDegreesCollectionBinarySearch(o.c[k], &item, lo, hi, &sr, compare, exception);
		int hit = fault == 1 ? sr.calls >= sr.fail_at : fault == 2 ? io_failed() : fault == 3 ? vr_alloc_failed() : 0;
		io_fail_at(IO_FREAD, 0, 0); io_fail_at(IO_FSEEK, 0, 0); vr_alloc_no_fail();
		VR_CHECK(sr.bad == 0, "search:comparer", "the comparer got something else than the item at its index");
		vr_distinct("nontrivial", vr_mix(vr_mix(lo, hi), vr_mix((uint64_t)got + 7, (uint64_t)(o.s[k].st * 8 + fault))));
		if (hit) {
			VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED, "search:silent", "failure %d while searching not reported (%s)", fault, st_name[o.s[k].st]);
			VR_CHECK(got == -1, "search:error-as-match", "an error while searching gave index %ld (failure %d, %s)", got, fault, st_name[o.s[k].st]);
			vr_count("search_faults", 1);
			continue;
		}
		VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && got == expect, "search:index", "%d in [%u,%u] of %u found at %ld instead of %ld (status %d, %s)", want, lo, hi, c->n, got, expect, (int)exception->status, st_name[o.s[k].st]);
		vr_count(expect < 0 ? "absent" : "found", 1);
		if (got >= 0 && got == expect && item.data.ptr) {
			VR_CHECK(memcmp(item.data.ptr, f.b + c->pos + c->off[got], c->es) == 0, "search:item", "the item is not the one at index %ld", got);
			RELEASE(o.c[k], &item);
		}
		int log = 2; for (uint32_t x = hi >= lo ? hi - lo + 1 : 1; x; x >>= 1) log++;
		VR_CHECK(sr.calls <= log, "search:steps", "%d comparisons in a range of %u", sr.calls, hi - lo + 1);
	}
	vr_sample("sorted %u items as %s", f.c[0].n, st_name[o.s[0].st]);
	/* nothing is held any more: each cache can fill with other items */
	for (int k = 0; k < o.opened; k++) {
		for (uint32_t i = 0; i < f.c[k].n; i++) {
			fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data);
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			void *p = o.c[k]->get(o.c[k], i, &it, exception);
			VR_CHECK(p && same(&f, &f.c[k], i, p), "search:after", "item %u cannot be read after the searches (%s)", i, st_name[o.s[k].st]);
			if (p) RELEASE(o.c[k], &it);
		}
	}
	check_handles(&o, handles, "coll:handles");
	close_all(&o);
	VR_CHECK(io_open_files() == 0 && (quiet || vr_open_fds() == before), "coll:open-files", "%d files left open", io_open_files());
	VR_CHECK(vr_alloc_live() == 0, "coll:leak", "%zu blocks left", vr_alloc_live());
	io_end();
	cfile_free(&f);
}
void vr_setup(void) {
	mode = vr_opt("mode", "equiv");
	quiet = (int)vr_opt_int("tsan", 0);
	if (!quiet) vr_alloc_install();
	snprintf(path, sizeof path, "%s/data.dat", vr_scratch());
}
void vr_teardown(void) {}
void vr_run_case(uint64_t i) {
	(void)i;
	if (!quiet) vr_alloc_reset();
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	if (!strcmp(mode, "equiv") && vr_chance(1, 60)) { huge(); return; }
#endif
	if (!strcmp(mode, "equiv")) equiv();
	else if (!strcmp(mode, "threads")) threads();
	else if (!strcmp(mode, "damage")) damage();
	else search();
}
