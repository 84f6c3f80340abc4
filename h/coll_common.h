/* Builds data files of random collections and opens them in every storage. */
#ifndef COLL_COMMON_H
#define COLL_COMMON_H
#include "vrt.h"
#include "fiftyone.h"
#include "wrapio.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifndef MAXC
#define MAXC 3
#endif
typedef struct {
	int fixed, is_count, hdr;      /* hdr: bytes of a variable item's header */
	uint32_t es, n, len;           /* element size (fixed), items, bytes */
	uint32_t *off;                 /* n + 1 offsets in the collection */
	long pos;                      /* of its first byte in the file */
	long hpos;                     /* of its header */
	fiftyoneDegreesCollectionFileRead read; /* of the items, 0: by hdr */
} coll;
/* base: where in the file the bytes start, after a hole */
typedef struct { unsigned char *b; size_t size; coll c[MAXC]; int nc; long base; } cfile;
static uint32_t cfile_most = 70000; /* items of the rare collections of many, 0 for none and none far in its file */
enum { ST_MEMORY, ST_FILE, ST_CACHE, ST_PARTIAL, ST_PARTIAL_CACHE, ST_ALL, ST_N };
static const char *st_name[] = { "memory", "file", "cache", "partial", "partial+cache", "all loaded" };

#pragma pack(push, 2)
typedef struct { uint16_t len; uint32_t id; } vhdr6;
#pragma pack(pop)
static uint32_t size2(void *p) { return 2u + *(uint16_t *)p; }
static uint32_t size4(void *p) { return 4u + *(uint32_t *)p; }
static uint32_t size6(void *p) { return 6u + ((vhdr6 *)p)->len; }
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
static void *read2(const fiftyoneDegreesCollectionFile *f, uint32_t o, fiftyoneDegreesData *d, fiftyoneDegreesException *e) { uint16_t l = 0; return fiftyoneDegreesCollectionReadFileVariable(f, d, o, &l, sizeof l, size2, e); }
static void *read4(const fiftyoneDegreesCollectionFile *f, uint32_t o, fiftyoneDegreesData *d, fiftyoneDegreesException *e) { uint32_t l = 0; return fiftyoneDegreesCollectionReadFileVariable(f, d, o, &l, sizeof l, size4, e); }
static void *read6(const fiftyoneDegreesCollectionFile *f, uint32_t o, fiftyoneDegreesData *d, fiftyoneDegreesException *e) { vhdr6 h; memset(&h, 0, sizeof h); return fiftyoneDegreesCollectionReadFileVariable(f, d, o, &h, sizeof h, size6, e); }
static fiftyoneDegreesCollectionFileRead reader_of(const coll *c) { return c->read ? c->read : c->fixed ? fiftyoneDegreesCollectionReadFileFixed : c->hdr == 2 ? read2 : c->hdr == 4 ? read4 : read6; }
#else
#define reader_of(c) NULL
#endif
extern long __real_ftell(FILE *);
static void put32(unsigned char *p, uint32_t v) { memcpy(p, &v, 4); }
/* sorted: items start with ascending int32 keys */
static void cfile_make(cfile *f, int sorted) {
	memset(f, 0, sizeof *f);
	f->nc = 1 + (int)vr_below(MAXC);
	/* now and then items of more than 64 KB */
	int large = !sorted && vr_chance(1, 30);
	int many = !large && cfile_most && vr_chance(1, 120) ? (int)vr_below((uint32_t)f->nc) : -1;
	if (cfile_most && vr_chance(1, 150)) f->base = vr_chance(1, 2) ? 0x7FFFFFFFl - (long)vr_below(800) : vr_chance(1, 2) ? 0x80000000l + (long)vr_below(0x40000000) : 0xFFFFFFFFl - 400000 - (long)vr_below(400000);
	if (many >= 0 || large) f->base = 0;
	if (f->base) vr_count("far_in_file", 1);
	f->b = malloc(large || many >= 0 ? 5000000 : 400000);
	size_t at = 1 + vr_below(40);
	for (size_t i = 0; i < at; i++) f->b[i] = (unsigned char)vr_rand();
	for (int k = 0; k < f->nc; k++) {
		coll *c = &f->c[k];
		c->fixed = sorted || vr_chance(1, 2);
		c->is_count = c->fixed && vr_chance(1, 2);
		c->es = sorted ? 4 + vr_below(16) : 1 + vr_below(40);
		c->hdr = vr_chance(1, 2) ? 4 : vr_chance(1, 2) ? 2 : 6;
		if (large) { if (!c->fixed) c->hdr = 4; else c->es = 1 + vr_below(4000); }
		c->n = vr_chance(1, 12) ? vr_below(2) : vr_chance(1, 10) ? 60 + vr_below(140) : 1 + vr_below(24);
		int step = 10000000;
		if (k == many) {
			c->n = (uint32_t[]){ 127, 255, 256, 1000, 32767, 65535, 65536, 65537 }[vr_below(8)] + vr_below(vr_chance(1, 2) ? 3 : 2000);
			if (c->n > cfile_most) c->n = cfile_most;
			step = 20000;
			vr_count(c->n > 65535 ? "items_over_65535" : c->n > 255 ? "items_over_255" : "items_to_255", 1);
		}
		c->off = malloc(sizeof *c->off * (c->n + 1));
		c->hpos = (long)at; at += 4;
		c->pos = (long)at;
		int32_t key = (int32_t)(vr_chance(1, 2) ? vr_between(-100, 100) : vr_between(-2000000000, 0));
		for (uint32_t i = 0; i < c->n; i++) {
			c->off[i] = (uint32_t)(at - (size_t)c->pos);
			uint32_t l = c->fixed ? c->es : (uint32_t)c->hdr + (vr_chance(1, 6) ? 0 : vr_below(k == many ? 12 : vr_chance(1, 20) ? 600 : 40));
			if (large && !c->fixed && at < 3000000 && vr_chance(1, 6)) l = 65536 + (vr_chance(1, 2) ? vr_below(8) : vr_below(200000));
			for (uint32_t j = 0; j < l; j++) f->b[at + j] = (unsigned char)vr_rand();
			if (!c->fixed) { uint32_t x = l - (uint32_t)c->hdr; memcpy(f->b + at, &x, c->hdr == 4 ? 4 : 2); }
			if (l > 65535) vr_count("items_over_64k", 1);
			if (sorted) { memcpy(f->b + at, &key, 4); key += 1 + (int32_t)vr_below(vr_chance(1, 2) ? 2 : (uint32_t)step); }
			at += l;
		}
		c->len = c->off[c->n] = (uint32_t)(at - (size_t)c->pos);
		put32(f->b + c->hpos, c->is_count ? c->n : c->len);
	}
	size_t tail = vr_chance(1, 2) ? 0 : vr_below(30);
	for (size_t i = 0; i < tail; i++) f->b[at + i] = (unsigned char)vr_rand();
	f->size = at + tail;
}
static void cfile_free(cfile *f) { for (int k = 0; k < f->nc; k++) free(f->c[k].off); free(f->b); }
static void cfile_write(const cfile *f, const char *path, size_t size) {
	FILE *o = fopen(path, "wb");
	if (!o || fseek(o, f->base, SEEK_SET) || fwrite(f->b, 1, size, o) != size) vr_harness_error("cannot write %s", path);
	if (fclose(o) || truncate(path, f->base + (long)size)) vr_harness_error("cannot write %s", path);
}
/* A storage configuration: threads that may use it at once, items that one
 * thread may hold at once. */
typedef struct { int st; fiftyoneDegreesCollectionConfig cfg; int hold; } storage;
static storage storage_make(int st, uint32_t n, int threads) {
	storage s; memset(&s, 0, sizeof s);
	s.st = st; s.hold = 1 + (int)vr_below(6);
	s.cfg.concurrency = (uint16_t)(vr_chance(1, 8) ? 0 : threads);
	if (st == ST_CACHE || st == ST_PARTIAL_CACHE) {
		s.cfg.concurrency = (uint16_t)(threads + (int)vr_below(3));
		s.cfg.capacity = (uint32_t)s.cfg.concurrency * (uint32_t)(s.cfg.concurrency * s.hold) + vr_below(n > 200 && vr_chance(1, 2) ? n : 8);
	}
	if (st == ST_PARTIAL || st == ST_PARTIAL_CACHE) s.cfg.loaded = vr_chance(1, 3) && n > 1 ? n - 1 : 1 + vr_below(n ? n : 1);
	if (st == ST_ALL) s.cfg.loaded = (uint32_t[]){ n, n + 1, 1000000, 0x7FFFFFFF }[vr_below(4)];
	if (st == ST_ALL && s.cfg.loaded == 0) s.cfg.loaded = 1;
	return s;
}
/* What is open: one storage of every collection of a file. */
typedef struct {
	fiftyoneDegreesCollection *c[MAXC];
	storage s[MAXC];
	fiftyoneDegreesFilePool pool; int has_pool, pool_ok;
	unsigned char *mem; fiftyoneDegreesMemoryReader rd;
	int opened;
	const char *err;
} opened;
/* Opens every collection in turn. st < 0: random storages. Returns the number
 * opened; stops at the first refused. */
static int open_all(opened *o, const cfile *f, const char *path, size_t size, int st, int handles, int threads) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	memset(o, 0, sizeof *o);
	if (st == ST_MEMORY) {
		o->mem = malloc(size ? size : 1);
		memcpy(o->mem, f->b, size);
		o->rd.startByte = o->rd.current = o->mem;
		o->rd.lastByte = o->mem + size;
		o->rd.length = (long)size;
		if (!fiftyoneDegreesMemoryAdvance(&o->rd, (size_t)f->c[0].hpos)) { o->err = "advance"; return 0; }
		for (int k = 0; k < f->nc; k++) {
			fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(&o->rd, f->c[k].fixed ? f->c[k].es : 0, f->c[k].is_count);
			if (h.startPosition == 0) { o->err = "header"; return k; }
			if (vr_chance(1, 20)) { /* of another place: refused, and nothing is kept */
				fiftyoneDegreesCollectionHeader w = h; w.startPosition += 1 + vr_below(5);
				size_t live = vr_alloc_live();
				fiftyoneDegreesCollection *c = fiftyoneDegreesCollectionCreateFromMemory(&o->rd, w);
				if (c || vr_alloc_live() != live) vr_fail("collection:misplaced", "a header %u bytes from where the reader is gives %s and %zu blocks", w.startPosition - h.startPosition, c ? "a collection" : "nothing", vr_alloc_live() - live);
				if (c) c->freeCollection(c);
				vr_count("misplaced_headers", 1);
			}
			o->c[k] = fiftyoneDegreesCollectionCreateFromMemory(&o->rd, h);
			if (!o->c[k]) { o->err = "create"; return k; }
			o->s[k].st = st; o->s[k].hold = 8;
			o->opened++;
			if ((long)(o->rd.current - o->mem) != f->c[k].pos + (long)f->c[k].len) o->err = "position";
		}
		return f->nc;
	}
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	o->has_pool = 1;
	if (fiftyoneDegreesFilePoolInit(&o->pool, path, (uint16_t)handles, exception) != FIFTYONE_DEGREES_STATUS_SUCCESS || FIFTYONE_DEGREES_EXCEPTION_FAILED) { o->err = "pool"; return 0; }
	o->pool_ok = 1;
	FILE *h = fopen(path, "rb");
	if (!h) { o->err = "open"; return 0; }
	if (fseek(h, f->base + f->c[0].hpos, SEEK_SET)) { fclose(h); o->err = "seek"; return 0; }
	for (int k = 0; k < f->nc; k++) {
		o->s[k] = storage_make(st < 0 ? 1 + (int)vr_below(ST_N - 1) : st, f->c[k].n, threads);
		fiftyoneDegreesCollectionHeader hd = fiftyoneDegreesCollectionHeaderFromFile(h, f->c[k].fixed ? f->c[k].es : 0, f->c[k].is_count);
		if (hd.startPosition == 0) { o->err = "header"; break; }
		o->c[k] = fiftyoneDegreesCollectionCreateFromFile(h, &o->pool, &o->s[k].cfg, hd, reader_of(&f->c[k]));
		if (!o->c[k]) { o->err = "create"; break; }
		o->opened++;
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
		o->s[k].hold = 8;
#endif
		if (o->opened == k + 1 && __real_ftell(h) != f->base + f->c[k].pos + (long)f->c[k].len) o->err = "position";
	}
	fclose(h);
	return o->opened;
}
static void close_all(opened *o) {
	for (int k = 0; k < MAXC; k++) if (o->c[k]) o->c[k]->freeCollection(o->c[k]);
	if (o->has_pool) fiftyoneDegreesFilePoolRelease(&o->pool);
	free(o->mem);
}
/* every handle of the pool is back */
static void check_handles(opened *o, int handles, const char *key) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	fiftyoneDegreesFileHandle *h[64]; int n = 0;
	if (!o->pool_ok) return;
	while (n < handles) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		if (!(h[n] = fiftyoneDegreesFileHandleGet(&o->pool, exception))) break;
		n++;
	}
	VR_CHECK(n == handles, key, "%d of %d file handles are back in the pool", n, handles);
	while (n) fiftyoneDegreesFileHandleRelease(h[--n]);
}
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
#define RELEASE(c, i) ((void)0)
#define IN_MEMORY(c, l) 1
#else
#define RELEASE(c, i) FIFTYONE_DEGREES_COLLECTION_RELEASE(c, i)
#define IN_MEMORY(c, l) ((c)->next == NULL && (l))
#endif
#endif
