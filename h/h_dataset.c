/* Reloading data sets: a small engine on top of the data set base, reloaded
 * from good, damaged and missing files and memory, with failing file calls and
 * allocations, while users keep reading the version they hold. */
#include "coll_common.h"
#ifdef VR_SCHED
#include "sched.h"
#endif
#include <dirent.h>
#include <sys/stat.h>
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
#define READ_FIXED NULL
#define READ_STRING NULL
#else
#define READ_FIXED fiftyoneDegreesCollectionReadFileFixed
#define READ_STRING fiftyoneDegreesStringRead
#endif
const char *vr_harness = "dataset";
#define MAGIC 0x51D51D51u
#define NNAMES 10
static const char *names[NNAMES] = { "Alpha", "beta", "Gamma", "deltaOne", "DeltaTwo", "EPSILON", "zeta_0", "Zeta[1]", "th\xC3\xA9ta", "iota" };
static const char *hdrs[] = { "User-Agent", "Sec-CH-UA", "Sec-CH-UA-Platform", "Sec-CH-UA\x1FSec-CH-UA-Platform", "Accept", "x" };
typedef struct { uint32_t name, id; } prop;
typedef struct {
	fiftyoneDegreesDataSetBase b;
	fiftyoneDegreesConfigBase cfg;
	fiftyoneDegreesCollectionConfig cc;
	uint32_t version, n[4], nprops, nhdrs;
	uint64_t canary; int failed; /* a name could not be read */
	fiftyoneDegreesCollection *items, *strings, *props, *heads;
} ds;
static fiftyoneDegreesResourceManager mgr;
static int ds_live, ds_made;
/* ---- the file of a version ---- */
typedef struct { unsigned char *b; size_t n; uint32_t props, heads; /* masks */ } image;
static uint32_t item_of(uint32_t v, uint32_t i, uint32_t w) { return (uint32_t)vr_mix(v * 7919u + i, w); }
static uint32_t n_items(uint32_t v) { return 1 + (uint32_t)(vr_mix(v, 99) % 40); }
static void put(image *m, const void *p, size_t n) { memcpy(m->b + m->n, p, n); m->n += n; }
static void w32(image *m, uint32_t v) { put(m, &v, 4); }
static image image_make(uint32_t v, uint32_t props, uint32_t heads) {
	image m; m.b = malloc(8192); m.n = 0; m.props = props; m.heads = heads;
	w32(&m, MAGIC); w32(&m, v);
	w32(&m, n_items(v) * 12);
	for (uint32_t i = 0; i < n_items(v); i++) for (uint32_t w = 0; w < 3; w++) w32(&m, item_of(v, i, w));
	size_t at = m.n; w32(&m, 0);
	uint32_t poff[NNAMES], hoff[6];
	int order[NNAMES]; for (int i = 0; i < NNAMES; i++) order[i] = (i * 7 + (int)v) % NNAMES;
	for (int i = 0; i < NNAMES; i++) { int k = order[i]; if (!(props >> k & 1)) continue; poff[k] = (uint32_t)(m.n - at - 4); uint16_t l = (uint16_t)(strlen(names[k]) + 1); put(&m, &l, 2); put(&m, names[k], l); }
	for (int k = 0; k < 6; k++) { if (!(heads >> k & 1)) continue; hoff[k] = (uint32_t)(m.n - at - 4); uint16_t l = (uint16_t)(strlen(hdrs[k]) + 1); put(&m, &l, 2); put(&m, hdrs[k], l); }
	put32(m.b + at, (uint32_t)(m.n - at - 4));
	w32(&m, (uint32_t)__builtin_popcount(props) * 8);
	for (int i = 0; i < NNAMES; i++) { int k = order[i]; if (props >> k & 1) { w32(&m, poff[k]); w32(&m, (uint32_t)k); } }
	w32(&m, (uint32_t)__builtin_popcount(heads) * 8);
	for (int k = 0; k < 6; k++) if (heads >> k & 1) { w32(&m, hoff[k]); w32(&m, (uint32_t)k + 1); }
	w32(&m, v); w32(&m, MAGIC);
	return m;
}
/* ---- the engine ---- */
static fiftyoneDegreesString *prop_name(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	ds *d = state; fiftyoneDegreesException ex_, *exception = &ex_; FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	if (i >= d->nprops) return NULL;
	fiftyoneDegreesCollectionItem pi; fiftyoneDegreesDataReset(&pi.data);
	prop *p = d->props->get(d->props, i, &pi, exception);
	if (!p) { d->failed = 1; return NULL; }
	uint32_t off = p->name;
	RELEASE(d->props, &pi);
	fiftyoneDegreesString *s = fiftyoneDegreesStringGet(d->strings, off, item, exception);
	if (!s) d->failed = 1;
	return s;
}
static int evid_cut; /* 1: the data gives one less than it said, 2: done so */
static uint32_t evid(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	(void)state;
	uint32_t n = p->propertyIndex % 3;
	if (e && n && evid_cut) { n--; evid_cut = 2; }
	if (e) for (uint32_t i = 0; i < n && i < e->capacity; i++) e->items[i] = p->propertyIndex + i;
	return n;
}
static long head_name(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	ds *d = state; fiftyoneDegreesException ex_, *exception = &ex_; FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	if (i >= d->nhdrs) return -1;
	fiftyoneDegreesCollectionItem pi; fiftyoneDegreesDataReset(&pi.data);
	prop *p = d->heads->get(d->heads, i, &pi, exception);
	if (!p) { d->failed = 1; return -1; }
	prop c = *p;
	RELEASE(d->heads, &pi);
	if (fiftyoneDegreesStringGet(d->strings, c.name, item, exception)) return (long)c.id;
	d->failed = 1;
	return -1;
}
static void ds_release_parts(ds *d) {
	fiftyoneDegreesCollection **all[] = { &d->items, &d->strings, &d->props, &d->heads };
	fiftyoneDegreesDataSetFree(&d->b);       /* releases items of strings */
	for (int i = 0; i < 4; i++) if (*all[i]) { (*all[i])->freeCollection(*all[i]); *all[i] = NULL; }
}
static void ds_free(void *p) {
	ds *d = p;
	if (d->canary != 0xC0FFEE5151515151ull) { vr_fail("dataset:freed-twice", "a data set is freed that is not one, or is freed already"); return; }
	d->canary = 0xDEAD; ds_live--;
	ds_release_parts(d);
	fiftyoneDegreesFree(d);
}
static bool over_filter(void *state, uint32_t i) { return ((ds *)state)->version + i & 1; }
static fiftyoneDegreesStatusCode ds_names(ds *d, fiftyoneDegreesPropertiesRequired *req) {
	fiftyoneDegreesStatusCode s = fiftyoneDegreesDataSetInitProperties(&d->b, req, d, prop_name, evid);
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) s = fiftyoneDegreesDataSetInitHeaders(&d->b, d, head_name);
	/* an engine may give its data set the properties that can be overridden */
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS && (d->version & 2)) {
		uint32_t n = 0;
		for (uint32_t i = 0; i < d->b.available->count; i++) n += over_filter(d, i);
		d->b.overridable = fiftyoneDegreesOverridePropertiesCreate(d->b.available, d->version & 4, d, over_filter);
		if (n && !d->b.overridable) s = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	}
	/* the end of the names and a failure look the same to the library */
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS && d->failed) s = FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE;
	return s;
}
static void ds_reset(ds *d, const void *config) {
	fiftyoneDegreesDataSetReset(&d->b);
	d->items = d->strings = d->props = d->heads = NULL;
	d->failed = 0; d->version = 0; d->nprops = d->nhdrs = 0;
	d->cfg = *(const fiftyoneDegreesConfigBase *)config;
	/* the configuration of the engine follows that of the base */
	d->cc = ((const ds *)(const void *)((const char *)config - offsetof(ds, cfg)))->cc;
	d->b.config = &d->cfg;
}
static fiftyoneDegreesStatusCode from_reader(ds *d, fiftyoneDegreesMemoryReader *r) {
	fiftyoneDegreesCollection **c[] = { &d->items, &d->strings, &d->props, &d->heads };
	static const uint32_t es[] = { 12, 0, 8, 8 };
	uint32_t *p = (uint32_t *)r->current, m[2];
	if (!fiftyoneDegreesMemoryAdvance(r, 8)) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	memcpy(m, p, 8);
	if (m[0] != MAGIC) return FIFTYONE_DEGREES_STATUS_INCORRECT_VERSION;
	d->version = m[1];
	for (int i = 0; i < 4; i++) {
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(r, es[i], false);
		if (h.startPosition == 0) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
		d->n[i] = es[i] ? h.length / es[i] : 0;
		if (!(*c[i] = fiftyoneDegreesCollectionCreateFromMemory(r, h))) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	}
	p = (uint32_t *)r->current;
	if (!fiftyoneDegreesMemoryAdvance(r, 8)) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	memcpy(m, p, 8);
	if (m[0] != d->version || m[1] != MAGIC) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	d->nprops = d->n[2]; d->nhdrs = d->n[3];
	return FIFTYONE_DEGREES_STATUS_SUCCESS;
}
static fiftyoneDegreesStatusCode from_file(ds *d, FILE *f) {
	fiftyoneDegreesCollection **c[] = { &d->items, &d->strings, &d->props, &d->heads };
	static const uint32_t es[] = { 12, 0, 8, 8 };
	uint32_t m[2];
	if (fread(m, 8, 1, f) != 1) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	if (m[0] != MAGIC) return FIFTYONE_DEGREES_STATUS_INCORRECT_VERSION;
	d->version = m[1];
	for (int i = 0; i < 4; i++) {
		fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromFile(f, es[i], false);
		if (h.startPosition == 0) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
		d->n[i] = es[i] ? h.length / es[i] : 0;
		if (!(*c[i] = fiftyoneDegreesCollectionCreateFromFile(f, &d->b.filePool, &d->cc, h, es[i] ? READ_FIXED : READ_STRING))) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	}
	if (fread(m, 8, 1, f) != 1 || m[0] != d->version || m[1] != MAGIC) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	d->nprops = d->n[2]; d->nhdrs = d->n[3];
	return FIFTYONE_DEGREES_STATUS_SUCCESS;
}
static fiftyoneDegreesStatusCode init_memory(void *dataSet, const void *config, fiftyoneDegreesPropertiesRequired *req, void *memory, long size, fiftyoneDegreesException *exception) {
	ds *d = dataSet; (void)exception;
	ds_reset(d, config); ds_made++;
	fiftyoneDegreesMemoryReader r; r.startByte = r.current = memory; r.lastByte = r.startByte + size; r.length = size;
	d->b.isInMemory = true;
	d->cfg.useTempFile = false;
	if (d->cfg.freeData) d->b.memoryToFree = memory;
	fiftyoneDegreesStatusCode s = from_reader(d, &r);
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) s = ds_names(d, req);
	if (s != FIFTYONE_DEGREES_STATUS_SUCCESS) {
		d->b.memoryToFree = NULL;           /* a failed reload leaves the caller's memory to it */
		ds_release_parts(d); d->canary = 0xBAD; return s;
	}
	d->canary = 0xC0FFEE5151515151ull; ds_live++;
	return s;
}
static long cmp_bytes;
static int count_files(const char *dir, const char *except);
static char dir_[300], tdir[2][340], master[340];
static const char *tdirs[2];
static fiftyoneDegreesStatusCode init_file(void *dataSet, const void *config, fiftyoneDegreesPropertiesRequired *req, const char *fileName, fiftyoneDegreesException *exception) {
	ds *d = dataSet; FILE *f = NULL;
	ds_reset(d, config); ds_made++;
#ifndef VR_SCHED
	int temps = count_files(tdir[0], NULL) + count_files(tdir[1], NULL);
#endif
	fiftyoneDegreesStatusCode s = fiftyoneDegreesDataSetInitFromFile(&d->b, fileName, cmp_bytes);
#ifndef VR_SCHED
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		int more = count_files(tdir[0], NULL) + count_files(tdir[1], NULL) - temps;
		VR_CHECK(!strcmp(d->b.masterFileName, fileName), "dataset:master-name", "master %s, expected %s", d->b.masterFileName, fileName);
		VR_CHECK((strcmp(d->b.fileName, fileName) != 0) == d->cfg.useTempFile, "dataset:temp-name", "works on %s with%s temporary files", d->b.fileName, d->cfg.useTempFile ? "" : "out");
		VR_CHECK(more == d->cfg.useTempFile || (more == 0 && d->cfg.reuseTempFile), "dataset:temp-new", "%d temporary files made, with temporary files %d, reused %d", more, d->cfg.useTempFile, d->cfg.reuseTempFile);
		vr_count(more ? "temp_files_made" : d->cfg.useTempFile ? "temp_files_reused" : "no_temp_file", 1);
	}
#endif
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		if (d->cfg.allInMemory) {
			fiftyoneDegreesMemoryReader r;
			s = fiftyoneDegreesDataSetInitInMemory(&d->b, &r);
			d->b.isInMemory = true;
			if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) s = from_reader(d, &r);
		} else {
			s = fiftyoneDegreesFilePoolInit(&d->b.filePool, d->b.fileName, d->cc.concurrency, exception);
			if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) s = fiftyoneDegreesFileOpen(d->b.fileName, &f);
			if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) { s = from_file(d, f); fclose(f); }
		}
	}
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) s = ds_names(d, req);
	if (s != FIFTYONE_DEGREES_STATUS_SUCCESS) { ds_release_parts(d); fiftyoneDegreesFree(d); return s; }
	d->canary = 0xC0FFEE5151515151ull; ds_live++;
	return s;
}
/* ---- oracle ---- */
/* Everything a user can see of a held data set is that of its version. */
static int key_cmp(const char *a, const char *b) { return fiftyoneDegreesStringCompare(a, b); }
static void verify_ds(ds *d, uint32_t version, uint32_t avail, uint32_t heads, int deep) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	VR_CHECK(d->canary == 0xC0FFEE5151515151ull, "dataset:freed-while-held", "the held data set is not one any more");
	if (d->canary != 0xC0FFEE5151515151ull) return;
	VR_CHECK(d->version == version, "dataset:version", "version %u, expected %u", d->version, version);
	version = d->version;
	uint32_t n = n_items(version);
	VR_CHECK(d->n[0] == n, "dataset:items", "%u items, expected %u", d->n[0], n);
	for (uint32_t k = 0; k < (deep ? n : 2); k++) {
		uint32_t i = deep ? k : vr_below(n);
		fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		uint32_t *p = d->items->get(d->items, i, &it, exception);
		vr_count("items_read", 1);
		VR_CHECK(p != NULL, "dataset:item-lost", "item %u of version %u is not readable: status %d", i, version, exception->status);
		if (!p) continue;
		int ok = 1;
		for (uint32_t w = 0; w < 3; w++) ok &= p[w] == item_of(version, i, w);
		VR_CHECK(ok, "dataset:item-content", "item %u of version %u has other content", i, version);
		RELEASE(d->items, &it);
	}
	fiftyoneDegreesPropertiesAvailable *a = d->b.available;
	VR_CHECK(a->count == (uint32_t)__builtin_popcount(avail), "dataset:available-count", "%u available properties, expected %u", a->count, (uint32_t)__builtin_popcount(avail));
	for (uint32_t i = 0; i + 1 < a->count; i++) VR_CHECK(key_cmp(FIFTYONE_DEGREES_STRING(a->items[i].name.data.ptr), FIFTYONE_DEGREES_STRING(a->items[i + 1].name.data.ptr)) < 0, "dataset:available-order", "available property names are out of order");
	for (int k = 0; k < NNAMES; k++) {
		int ri = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, names[k]);
		VR_CHECK((ri >= 0) == (int)(avail >> k & 1), "dataset:available-name", "property %s: required index %d, expected %savailable", names[k], ri, avail >> k & 1 ? "" : "un");
		if (ri < 0) continue;
		fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data);
		fiftyoneDegreesString *s = prop_name(d, (uint32_t)fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, ri), &it);
		VR_CHECK(s && !strcmp(&s->value, names[k]), "dataset:available-index", "property %s has the index of %s", names[k], s ? &s->value : "none");
		if (s) RELEASE(d->strings, &it);
	}
	for (int k = 0; k < 6; k++) {
		int ix = fiftyoneDegreesHeaderGetIndex(d->b.uniqueHeaders, hdrs[k], strlen(hdrs[k]));
		int want = (int)(heads >> k & 1) || (heads >> 3 & 1 && (k == 1 || k == 2));
		VR_CHECK((ix >= 0) == want, "dataset:headers", "header %s: index %d, expected %sknown", vr_esc(hdrs[k], strlen(hdrs[k])), ix, want ? "" : "un");
	}
	fiftyoneDegreesOverridePropertyArray *ov = d->b.overridable;
	uint32_t on = 0, oi = 0;
	if (version & 2) for (uint32_t i = 0; i < a->count; i++) on += over_filter(d, i);
	VR_CHECK((ov ? ov->count : 0) == on, "dataset:overridable", "%u properties can be overridden, expected %u", ov ? ov->count : 0, on);
	if (ov && ov->count == on) {
		VR_CHECK(ov->prefix == ((version & 4) != 0), "dataset:overridable", "the prefix is %d", ov->prefix);
		for (uint32_t i = 0; i < a->count; i++) if (over_filter(d, i)) {
			VR_CHECK(ov->items[oi].available == &a->items[i] && ov->items[oi].requiredPropertyIndex == i, "dataset:overridable", "property %u to override is %u, expected %u", oi, ov->items[oi].requiredPropertyIndex, i);
			oi++;
		}
		vr_count("overridable_held", 1);
	}
	vr_count("versions_verified", 1);
}
static void write_file(const char *path, const void *b, size_t n) {
	FILE *f = fopen(path, "wb"); if (!f || fwrite(b, 1, n, f) != n) vr_harness_error("cannot write %s", path); fclose(f);
}
static int count_files(const char *dir, const char *except) {
	struct dirent **e; int n = 0, k = scandir(dir, &e, NULL, NULL); /* not seen by the file monitor */
	for (int i = 0; i < k; i++) { if (e[i]->d_name[0] != '.' && (!except || strcmp(e[i]->d_name, except))) n++; free(e[i]); }
	if (k >= 0) free(e);
	return n;
}
static void rm_all(const char *dir) {
	DIR *d = opendir(dir); struct dirent *e; char p[700];
	if (!d) return;
	while ((e = readdir(d))) if (e->d_name[0] != '.') { snprintf(p, sizeof p, "%s/%s", dir, e->d_name); unlink(p); }
	closedir(d);
}
typedef struct { uint32_t version, avail, heads; } model;
typedef struct { ds *d; model m; } hold;
static ds seed_cfg; /* carries the configuration of the first data set */
static int first(model *m, image *im, int use_file, const char *path, int how) {
	fiftyoneDegreesException ex_, *exception = &ex_; FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	fiftyoneDegreesPropertiesRequired req = PropertiesDefault;
	uint32_t want = 0; const char *arr[NNAMES]; static char str[400];
	do { want = (uint32_t)vr_rand() & ((1u << NNAMES) - 1); } while (!(want & im->props));
	int n = 0; str[0] = 0;
	for (int k = 0; k < NNAMES; k++) if (want >> k & 1) { arr[n++] = names[k]; if (str[0]) strcat(str, vr_chance(1, 2) ? "," : "|"); strcat(str, names[k]); }
	if (how == 0) { req.array = arr; req.count = n; }
	else if (how == 1) req.string = str;
	else want = im->props;
	ds *d = fiftyoneDegreesMalloc(sizeof *d);
	fiftyoneDegreesStatusCode s = use_file ? init_file(d, &seed_cfg.cfg, &req, path, exception) : init_memory(d, &seed_cfg.cfg, &req, im->b, (long)im->n, exception);
	if (s != FIFTYONE_DEGREES_STATUS_SUCCESS) { vr_fail("dataset:first", "the first data set is refused: status %d", s); if (!use_file) fiftyoneDegreesFree(d); return 0; }
	fiftyoneDegreesResourceManagerInit(&mgr, d, &d->b.handle, ds_free);
	m->avail = want & im->props; m->heads = im->heads;
	return 1;
}
static void config_make(int threads) {
	memset(&seed_cfg, 0, sizeof seed_cfg);
	fiftyoneDegreesConfigBase *c = &seed_cfg.cfg;
	c->allInMemory = vr_chance(1, 2); c->usesUpperPrefixedHeaders = vr_chance(1, 2);
	c->useTempFile = vr_chance(1, 2); c->reuseTempFile = c->useTempFile && vr_chance(1, 2);
	c->tempDirs = tdirs; c->tempDirCount = 1 + (int)vr_below(2);
	seed_cfg.cc.concurrency = (uint16_t)(threads + 2);
	switch (vr_below(3)) {
	case 0: seed_cfg.cc.loaded = 1 + vr_below(60); break;
	case 1: seed_cfg.cc.capacity = 300; break;   /* every hold plus the names fits */
	default: break;
	}
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
	c->allInMemory = true;
#endif
}
static uint32_t some_heads(void) { return (uint32_t)vr_rand() & 63; }
static uint32_t some_props(uint32_t avail) {
	uint32_t p = (uint32_t)vr_rand() & ((1u << NNAMES) - 1);
	if (vr_chance(5, 6)) p |= avail & (uint32_t)vr_rand();
	if (vr_chance(1, 2)) p |= avail;
	return p ? p : 1;
}
static void history(uint64_t n) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	char path[360]; static const char *what[] = { "file", "memory", "missing file", "damaged file", "damaged memory", "cut file", "cut memory", "no properties", "long name" };
	unsigned char *keep[64]; int nkeep = 0;
	snprintf(dir_, sizeof dir_, "%s/ds%d", vr_scratch(), (int)(n % 4)); mkdir(dir_, 0700);
	for (int i = 0; i < 2; i++) { snprintf(tdir[i], sizeof tdir[i], "%s/t%d", dir_, i); mkdir(tdir[i], 0700); tdirs[i] = tdir[i]; rm_all(tdir[i]); }
	vr_alloc_reset(); vr_alloc_no_fail();
	ds_live = ds_made = 0; memset(&mgr, 0, sizeof mgr);
	io_begin();
	config_make(1);
	cmp_bytes = vr_chance(1, 2) ? -1 : (long)(8 + vr_below(3) * 600);
	/* somebody else's file, which no reload may touch */
	char other[360]; snprintf(other, sizeof other, "%s/data-0-someone.tmp", tdir[0]); write_file(other, "not yours, different", 20);
	model cur = { 1, 0, 0 };
	uint32_t next = 2;
	snprintf(master, sizeof master, "%s/data.bin", dir_);
	image im = image_make(1, some_props(0) | 3, some_heads());
	write_file(master, im.b, im.n);
	int use_file = vr_chance(2, 3);
	keep[nkeep++] = im.b;
	if (!first(&cur, &im, use_file, master, (int)vr_below(3))) { io_end(); while (nkeep) free(keep[--nkeep]); return; }
	hold held[4]; int nheld = 0; uint64_t hist = 0;
	int steps = 3 + (int)vr_below(10);
	for (int s = 0; s < steps; s++) {
		uint32_t r = vr_below(10);
		if (r < 3 && nheld < 4) {
			ds *d = (ds *)fiftyoneDegreesDataSetGet(&mgr);
			VR_CHECK(d != NULL, "dataset:get", "no data set");
			if (!d) continue;
			held[nheld].d = d; held[nheld++].m = cur;
			verify_ds(d, cur.version, cur.avail, cur.heads, 0);
		} else if (r < 5 && nheld) {
			int i = (int)vr_below((uint32_t)nheld);
			verify_ds(held[i].d, held[i].m.version, held[i].m.avail, held[i].m.heads, 1);
			fiftyoneDegreesDataSetRelease(&held[i].d->b);
			held[i] = held[--nheld];
		} else {
			int kind = vr_chance(1, 2) ? (int)vr_below(2) : 2 + (int)vr_below(7);
			uint32_t v = next++, props = some_props(cur.avail), heads = some_heads();
			if (kind == 7) { props = ~cur.avail & ((1u << NNAMES) - 1); if (!props) kind = 0, props = cur.avail; }
			int good = kind < 2 && (props & cur.avail);
			if (vr_chance(1, 8) && kind < 2) { v = cur.version; next--; props = 0; }
			image m2;
			if (!props) { kind = 0; m2 = image_make(v, cur.avail, heads = cur.heads); good = 1; props = cur.avail; }
			else m2 = image_make(v, props, heads);
			size_t size = m2.n;
			if (kind == 3 || kind == 4) { size_t at = vr_chance(1, 3) ? vr_below(4) : vr_chance(1, 2) ? m2.n - 1 - vr_below(8) : 8 + vr_below(4); m2.b[at] ^= 0x81; }
			if (kind == 5 || kind == 6) size = vr_below((uint32_t)m2.n);
			int mem = kind == 1 || kind == 4 || kind == 6 || (kind == 7 && vr_chance(1, 2));
			unsigned char *src = NULL;
			if (mem) { src = malloc(size ? size : 1); memcpy(src, m2.b, size); }
			else {
				/* sometimes the master itself is updated in place of a new one,
				 * which only those who read a copy or from memory can survive */
				if ((seed_cfg.cfg.useTempFile || seed_cfg.cfg.allInMemory) && vr_chance(1, 2)) snprintf(path, sizeof path, "%s", master);
				else snprintf(path, sizeof path, "%s/v%u.bin", dir_, v);
				unlink(path);
				if (kind != 2) write_file(path, m2.b, size);
			}
			/* a fault somewhere in the reload */
			int fault = vr_opt_int("oom", 0) ? 1 : (int)vr_below(4);
			char longname[5000]; const char *file = path;
			if (kind == 8) { memset(longname, 'x', sizeof longname); longname[FIFTYONE_DEGREES_FILE_MAX_PATH - vr_below(2)] = 0; file = longname; }
			int before = ds_live;
			int files = io_open_files();
			size_t live = vr_alloc_live();
			if (fault == 1) vr_alloc_fail_at(1 + vr_below(vr_chance(1, 2) ? 60 : 12), vr_chance(1, 3));
			if (fault == 2) { io_fail_mask(vr_chance(1, 2) ? ~0u : 1u << vr_below(IO_NCLASS)); io_fail_any_at(1 + vr_below(vr_chance(1, 2) ? 8 : 60), vr_chance(1, 3)); }
			FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			evid_cut = good && vr_chance(1, 12);
			fiftyoneDegreesStatusCode st = mem
				? fiftyoneDegreesDataSetReloadManagerFromMemory(&mgr, src, (long)size, sizeof(ds), init_memory, exception)
				: fiftyoneDegreesDataSetReloadManagerFromFile(&mgr, file, sizeof(ds), init_file, exception);
			int faulted = fault == 1 ? vr_alloc_failed() : io_failed();
			if (fault != 1 && fault != 2) faulted = 0;
			vr_alloc_no_fail(); io_fail_any_at(0, 0);
			if (evid_cut == 2) { good = 0; vr_count("evidence_properties_cut", 1); }
			evid_cut = 0;
			vr_count("reloads", 1); vr_count(what[kind], 1);
			if (faulted) vr_count("reload_faults", 1);
			if (getenv("VR_TRACE")) fprintf(stderr, "step %d: v%u %s mem %d fault %d %d/%d status %d props %x avail %x path %s good %d\n", s, v, what[kind], mem, fault, faulted, io_failed_class(), st, props, cur.avail, path, good);
			vr_note_case("case %llu step %d: reload from %s, fault %s%s, status %d", (unsigned long long)n, s, what[kind], fault == 1 ? "allocation" : fault == 2 ? "file call" : "none", faulted ? "" : " (not reached)", st);
			if (!faulted) VR_CHECK((st == FIFTYONE_DEGREES_STATUS_SUCCESS) == !!good, "dataset:reload-status", "reload from %s gives status %d, expected %s", what[kind], st, good ? "success" : "an error");
			else if (!good) VR_CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "dataset:reload-status", "reload from %s with a failure gives success", what[kind]);
			VR_CHECK(io_open_files() <= files || st == FIFTYONE_DEGREES_STATUS_SUCCESS, "dataset:handle-leak", "a refused reload from %s leaves %d files more open", what[kind], io_open_files() - files);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS && (good || faulted)) {
				vr_count("reloaded", 1);
				cur.version = v; cur.avail &= props; cur.heads = heads;
				if (mem) keep[nkeep++] = src;
			} else {
				vr_count("refused", 1);
				VR_CHECK(vr_alloc_live() == live && ds_live == before, "dataset:refused-leak", "a refused reload from %s leaves %zu blocks more and %d data sets more", what[kind], vr_alloc_live() - live, ds_live - before);
				if (mem) free(src);
			}
			VR_CHECK(access(other, F_OK) == 0, "dataset:others-file", "a reload from %s removed a file that is not its own", what[kind]);
			if (kind != 2 && kind != 8 && !mem) VR_CHECK(access(path, F_OK) == 0, "dataset:master-gone", "the data file is gone after a reload from %s", what[kind]);
			free(m2.b);
			ds *d = (ds *)fiftyoneDegreesDataSetGet(&mgr);
			verify_ds(d, cur.version, cur.avail, cur.heads, 0);
			fiftyoneDegreesDataSetRelease(&d->b);
			for (int i = 0; i < nheld; i++) verify_ds(held[i].d, held[i].m.version, held[i].m.avail, held[i].m.heads, 0);
			hist = vr_mix(hist, (uint64_t)kind * 64 + (uint64_t)fault * 16 + (uint64_t)(faulted != 0) * 8 + (st == 0) * 4 + (uint64_t)nheld + seed_cfg.cfg.allInMemory * 1000u + seed_cfg.cfg.useTempFile * 2000u);
			vr_distinct("nontrivial", hist);
		}
		if (nkeep > 60) break;
	}
	int late = nheld && vr_chance(1, 2);
	if (!late) while (nheld) { nheld--; verify_ds(held[nheld].d, held[nheld].m.version, held[nheld].m.avail, held[nheld].m.heads, 0); fiftyoneDegreesDataSetRelease(&held[nheld].d->b); }
	fiftyoneDegreesResourceManagerFree(&mgr);
	while (nheld) { nheld--; verify_ds(held[nheld].d, held[nheld].m.version, held[nheld].m.avail, held[nheld].m.heads, 1); fiftyoneDegreesDataSetRelease(&held[nheld].d->b); }
	char b[200] = ""; vr_alloc_describe_live(b, sizeof b);
	VR_CHECK(vr_alloc_live() == 0 && ds_live == 0, "dataset:leak", "at the end %zu blocks and %d data sets are left %s", vr_alloc_live(), ds_live, b);
	if (!io_failed_of(IO_REMOVE)) VR_CHECK(count_files(tdir[0], "data-0-someone.tmp") + count_files(tdir[1], NULL) == 0, "dataset:temp-left", "%d temporary files are left", count_files(tdir[0], "data-0-someone.tmp") + count_files(tdir[1], NULL));
	VR_CHECK(io_open_files() == 0 && io_open_dirs() == 0, "dataset:handle-leak", "at the end %d files and %d directories are open", io_open_files(), io_open_dirs());
	io_end();
	while (nkeep) free(keep[--nkeep]);
	for (int i = 0; i < 2; i++) rm_all(tdir[i]);
	rm_all(dir_);
	if (vr_want_sample()) vr_sample("case %llu: %d steps, all in memory %d, temp %d reuse %d, version %u at the end", (unsigned long long)n, steps, seed_cfg.cfg.allInMemory, seed_cfg.cfg.useTempFile, seed_cfg.cfg.reuseTempFile, cur.version);
}
#ifdef VR_SCHED
/* ---- threads ---- */
static struct { image im; char path[360]; int done; } ver[16]; static int nver;
static uint32_t last_done; static int nreload;
typedef struct { int reloader, ops; uint64_t rng; int lo, hi; } actor;
static void user(actor *a) {
	uint32_t seen = 0;
	for (int k = 0; k < a->ops; k++) {
		uint32_t floor_ = last_done;
		ds *d = (ds *)fiftyoneDegreesDataSetGet(&mgr);
		sched_hold(1);
		if (d && d->canary == 0xC0FFEE5151515151ull) {
			VR_CHECK(d->version >= 1 && d->version <= (uint32_t)nver, "dataset:version", "version %u was never loaded", d->version);
			if (nreload == 1) {
				VR_CHECK(d->version >= floor_, "dataset:stale", "a user gets version %u after the reload of %u completed", d->version, floor_);
				VR_CHECK(d->version >= seen, "dataset:went-back", "a user gets version %u after it had %u", d->version, seen);
			}
			seen = d->version;
		} else { vr_fail("dataset:freed-while-held", "a user gets a data set that is freed"); sched_hold(0); return; }
		sched_hold(0);
		sched_point();
		verify_ds(d, seen, 3, ver[seen - 1].im.heads, 0);
		if (vr_rand_s(&a->rng) % 2) sched_point();
		verify_ds(d, seen, 3, ver[seen - 1].im.heads, 0);
		fiftyoneDegreesDataSetRelease(&d->b);
		vr_count("concurrent_uses", 1);
	}
}
static void reloader(actor *a) {
	fiftyoneDegreesException ex_, *exception = &ex_;
	for (int v = a->lo; v < a->hi; v++) {
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		int bad = (v * 7 + a->ops) % 5 == 0;
		fiftyoneDegreesStatusCode st;
		if (bad) st = fiftyoneDegreesDataSetReloadManagerFromMemory(&mgr, ver[v].im.b, (long)ver[v].im.n - 1, sizeof(ds), init_memory, exception);
		else if (ver[v].path[0]) st = fiftyoneDegreesDataSetReloadManagerFromFile(&mgr, ver[v].path, sizeof(ds), init_file, exception);
		else st = fiftyoneDegreesDataSetReloadManagerFromMemory(&mgr, ver[v].im.b, (long)ver[v].im.n, sizeof(ds), init_memory, exception);
		VR_CHECK((st == FIFTYONE_DEGREES_STATUS_SUCCESS) == !bad, "dataset:reload-status", "concurrent reload of %s data gives status %d", bad ? "damaged" : "good", st);
		if (!bad && nreload == 1) last_done = (uint32_t)v + 1;
		vr_count("concurrent_reloads", 1);
	}
}
static void run_actor(void *p) { actor *a = p; if (a->reloader) reloader(a); else user(a); }
static void on_sched_error(const char *what) { vr_fail("dataset:schedule", "%s", what); }
static void threads(uint64_t n) {
	actor ac[6]; int nu = 1 + (int)vr_below(3);
	snprintf(dir_, sizeof dir_, "%s/dst", vr_scratch()); mkdir(dir_, 0700);
	for (int i = 0; i < 2; i++) { snprintf(tdir[i], sizeof tdir[i], "%s/t%d", dir_, i); mkdir(tdir[i], 0700); tdirs[i] = tdir[i]; }
	vr_alloc_reset(); vr_alloc_no_fail(); ds_live = 0; memset(&mgr, 0, sizeof mgr);
	nreload = vr_chance(1, 2) ? 1 : 2;
	config_make(nu + 2);
	if (seed_cfg.cc.capacity) seed_cfg.cc.capacity = 300u * seed_cfg.cc.concurrency;
	if (seed_cfg.cfg.useTempFile && vr_chance(2, 3)) seed_cfg.cfg.useTempFile = seed_cfg.cfg.reuseTempFile = false;
	seed_cfg.cfg.reuseTempFile = false;
	nver = 2 + (int)vr_below(4);
	int any_file = vr_chance(1, 2);
	for (int v = 0; v < nver; v++) {
		ver[v].im = image_make((uint32_t)v + 1, 3u | (v ? (uint32_t)vr_rand() & 1020 : 0), some_heads());
		ver[v].path[0] = 0;
		if (any_file && vr_chance(1, 2)) { snprintf(ver[v].path, sizeof ver[v].path, "%s/v%d.bin", dir_, v); write_file(ver[v].path, ver[v].im.b, ver[v].im.n); }
	}
	model m;
	last_done = 1;
	sched_begin(vr_rand());
	sched_hold(1);
	int okay = first(&m, &ver[0].im, 0, NULL, 2);
	sched_hold(0);
	if (okay) {
		int na = 0;
		for (int i = 0; i < nu; i++) { ac[na] = (actor){ 0, 1 + (int)vr_below(4), vr_rand(), 0, 0 }; na++; }
		int mid = nreload == 2 ? 1 + (nver - 1) / 2 : nver;
		ac[na++] = (actor){ 1, (int)vr_below(5), vr_rand(), 1, mid };
		if (nreload == 2) ac[na++] = (actor){ 1, (int)vr_below(5), vr_rand(), mid, nver };
		for (int i = 0; i < na; i++) sched_spawn(run_actor, &ac[i]);
		sched_on_error = on_sched_error;
		int rc = sched_run(20000000);
		if (rc == SCHED_STEPS) vr_fail("dataset:no-progress", "no end after 20000000 steps");
		vr_count("switches", sched_switches());
		vr_distinct("nontrivial", sched_trace_hash());
		if (rc == SCHED_OK) {
			fiftyoneDegreesResourceManagerFree(&mgr);
			VR_CHECK(vr_alloc_live() == 0 && ds_live == 0, "dataset:leak", "at the end %zu blocks and %d data sets are left", vr_alloc_live(), ds_live);
		}
	}
	for (int v = 0; v < nver; v++) { free(ver[v].im.b); if (ver[v].path[0]) unlink(ver[v].path); }
	for (int i = 0; i < 2; i++) { VR_CHECK(count_files(tdir[i], NULL) == 0, "dataset:temp-left", "temporary files are left after concurrent reloads"); rm_all(tdir[i]); }
	if (vr_want_sample()) vr_sample("case %llu: %d users, %d reloaders, %d versions, %llu switches (%s)", (unsigned long long)n, nu, nreload, nver, (unsigned long long)sched_switches(), sched_mode());
}
#else
static void threads(uint64_t n) { (void)n; }
#endif
void vr_setup(void) { vr_alloc_install(); vr_alloc_scribble(1); }
void vr_run_case(uint64_t i) { if (vr_opt_int("threads", 0)) threads(i); else history(i); }
void vr_teardown(void) {}
