/* Calls made by several threads at once on data of their own, and reads of
 * objects they share, against the same calls made by one thread alone: as
 * fibers under controlled schedules, or with --opt real=1 as threads. */
#include "vrt.h"
#include "sched.h"
#include "fiftyone.h"
#include "textfile.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
const char *vr_harness = "reent";
#define MAXT 4
#define MAXOP 40
#define SEP '\x1F'
static uint32_t below(uint64_t *r, uint32_t n) { return (uint32_t)((vr_rand_s(r) >> 20) % n); }
static char *copy(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
static uint64_t H(uint64_t h, const void *p, size_t n) { return vr_mix(h, vr_hash(p, n, 77)); }
static uint64_t HS(uint64_t h, const char *s) { return s ? H(h, s, strlen(s) + 1) : vr_mix(h, 3); }
#define HI(h, v) vr_mix(h, (uint64_t)(v))
static void text(uint64_t *r, char *o, uint32_t max) {
	uint32_t n = 1 + below(r, max);
	for (uint32_t i = 0; i < n; i++) o[i] = below(r, 12) ? (char)('a' + below(r, 26)) : "AZ09-_.%"[below(r, 8)];
	o[n] = 0;
}
/* ---------------------------------------------- objects all threads read */
static char hname[24][80]; static int nhname;
static char pname[24][40]; static int npname;
static fiftyoneDegreesHeaders *headers;
static fiftyoneDegreesPropertiesAvailable *avail;
static fiftyoneDegreesOverridePropertyArray *oprops;
static fiftyoneDegreesTreeRoot troot; static fiftyoneDegreesTreeNode tnode[60]; static int ntnode;
enum { STR, PROP, VAL, PROF, OFF, NC };
static fiftyoneDegreesCollection *coll[NC]; static unsigned char cbuf[NC][20000]; static uint32_t clen[NC], ccount[NC];
static int nval[6], nprop, nprof;
static char tdir[400];
static void release(fiftyoneDegreesCollectionItem *i) { free(i->data.ptr); i->data.ptr = NULL; }
static fiftyoneDegreesCollection item_coll = { .release = release };
static fiftyoneDegreesString *give(fiftyoneDegreesCollectionItem *item, const char *s) {
	size_t n = strlen(s) + 1;
	fiftyoneDegreesString *p = malloc(offsetof(fiftyoneDegreesString, value) + n);
	p->size = (int16_t)n; memcpy((char *)p + offsetof(fiftyoneDegreesString, value), s, n);
	item->data.ptr = (unsigned char *)p; item->data.used = item->data.allocated = 0; item->handle = NULL; item->collection = &item_coll;
	return p;
}
typedef struct { char (*name)[80]; int n; } hstate;
static long get_header(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	hstate *s = state;
	if ((int)i >= s->n) return -1;
	give(item, s->name[i]); return (long)i + 1;
}
typedef struct { char (*name)[40]; int n; } pstate;
static fiftyoneDegreesString *get_property(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	pstate *s = state;
	return (int)i >= s->n ? NULL : give(item, s->name[i]);
}
static uint32_t get_evidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	(void)state;
	if (e) for (uint32_t i = 0; i < e->capacity; i++) e->items[i] = p->propertyIndex * 3 + i;
	return p->propertyIndex % 3;
}
static bool allow(void *state, uint32_t i) { (void)state; (void)i; return true; }
static uint32_t put(int k, const void *p, size_t n) { uint32_t at = clen[k]; memcpy(cbuf[k] + at, p, n); clen[k] += (uint32_t)n; return at; }
static uint32_t put_text(const char *s) { int16_t n = (int16_t)(strlen(s) + 1); uint32_t at = put(STR, &n, 2); put(STR, s, (size_t)n); return at; }
static void vname(int p, int v, char *o) { sprintf(o, "V%c%03d", 'a' + p, v * 3); }
static void make_names(uint64_t *r, char (*h)[80], int *nh, char (*p)[40], int *np) {
	static const char *b[] = { "User-Agent", "Sec-CH-UA", "Sec-CH-UA-Mobile", "Accept", "x", "Device-Stock-UA", "Sec-CH-UA-Platform", "y" };
	*nh = 2 + (int)below(r, 20);
	for (int i = 0; i < *nh; i++) {
		strcpy(h[i], b[below(r, 8)]);
		int k = below(r, 3) ? 0 : 1 + (int)below(r, 2);
		while (k--) { char t[2] = { SEP, 0 }; strcat(h[i], t); strcat(h[i], b[below(r, 8)]); }
		if (!below(r, 4)) { char t[20]; text(r, t, 8); strcat(h[i], t); }
	}
	*np = 2 + (int)below(r, 20);
	for (int i = 0; i < *np; i++) { text(r, p[i], 10); sprintf(p[i] + strlen(p[i]), "%d", i); }
}
static void make_shared(void) {
	uint64_t rng = vr_rand(), *r = &rng;
	fiftyoneDegreesException ex_, *exception = &ex_; FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	make_names(r, hname, &nhname, pname, &npname);
	hstate hs = { hname, nhname }; pstate ps = { pname, npname };
	headers = fiftyoneDegreesHeadersCreate(below(r, 2), &hs, get_header);
	fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault;
	avail = fiftyoneDegreesPropertiesCreate(&req, &ps, get_property, get_evidence);
	oprops = fiftyoneDegreesOverridePropertiesCreate(avail, below(r, 2), NULL, allow);
	if (!headers || !avail || !oprops) vr_harness_error("cannot make the shared objects");
	fiftyoneDegreesTreeRootInit(&troot); ntnode = 5 + (int)below(r, 50);
	for (int i = 0; i < ntnode; i++) {
		fiftyoneDegreesTreeNodeInit(&tnode[i], &troot); tnode[i].key = (int64_t)i * 7 % ntnode * 10;
		if (fiftyoneDegreesTreeFind(&troot, tnode[i].key) == NULL) fiftyoneDegreesTreeInsert(&tnode[i]);
	}
	/* collections in memory */
	memset(clen, 0, sizeof clen); nprop = 2 + (int)below(r, 4); nprof = 3 + (int)below(r, 20);
	uint32_t first[6], v = 0; char t[40];
	put_text("");
	for (int p = 0; p < nprop; p++) {
		nval[p] = 1 + (int)below(r, 12); first[p] = v;
		for (int i = 0; i < nval[p]; i++, v++) {
			vname(p, i, t); int32_t at = (int32_t)put_text(t); sprintf(t, "d%d", i); int32_t d = (int32_t)put_text(t);
			fiftyoneDegreesValue x = { .propertyIndex = (int16_t)p, .nameOffset = at, .descriptionOffset = d, .urlOffset = -1 };
			put(VAL, &x, sizeof x);
		}
		sprintf(t, "Prop%d", p); uint32_t at = put_text(t);
		fiftyoneDegreesProperty x = { .componentIndex = 0, .valueType = (byte)p, .defaultValueIndex = first[p], .nameOffset = at, .descriptionOffset = at, .categoryOffset = at, .urlOffset = at, .firstValueIndex = first[p], .lastValueIndex = v - 1 };
		put(PROP, &x, sizeof x);
	}
	for (int i = 0; i < nprof; i++) {
		uint32_t vals[6], n = 0; for (int p = 0; p < nprop; p++) if (below(r, 4)) vals[n++] = first[p] + below(r, (uint32_t)nval[p]);
		fiftyoneDegreesProfile x = { .componentIndex = 0, .profileId = (uint32_t)i * 5 + 2, .valueCount = n };
		uint32_t at = put(PROF, &x, sizeof x); put(PROF, vals, sizeof *vals * n);
		fiftyoneDegreesProfileOffset y = { .profileId = (uint32_t)i * 5 + 2, .offset = at };
		put(OFF, &y, sizeof y);
	}
	ccount[STR] = ccount[PROF] = 0; ccount[PROP] = (uint32_t)nprop; ccount[VAL] = v; ccount[OFF] = (uint32_t)nprof;
	for (int k = 0; k < NC; k++) {
		fiftyoneDegreesMemoryReader m; m.startByte = m.current = cbuf[k]; m.length = (long)clen[k]; m.lastByte = cbuf[k] + clen[k];
		fiftyoneDegreesCollectionHeader hd = { 0, clen[k], ccount[k] };
		coll[k] = fiftyoneDegreesCollectionCreateFromMemory(&m, hd);
		if (!coll[k]) vr_harness_error("no collection %d", k);
	}
	snprintf(tdir, sizeof tdir, "%s/t", vr_scratch()); mkdir(tdir, 0700);
}
static void drop_shared(void) {
	for (int k = 0; k < NC; k++) FIFTYONE_DEGREES_COLLECTION_FREE(coll[k]);
	fiftyoneDegreesOverridePropertiesFree(oprops); fiftyoneDegreesPropertiesFree(avail); fiftyoneDegreesHeadersFree(headers);
}
/* ------------------------------------------------------------ the calls */
enum { O_IP, O_FLOAT, O_STRING, O_STATUS, O_EVIDENCE, O_PREFIX, O_HEADER_FIND, O_HEADERS, O_PROP_FIND, O_PROPS, O_OVERRIDES, O_PSEUDO, O_PROFILE_IDS, O_TREE, O_TREE_FIND, O_TEXT, O_YAML, O_FILE, O_TEMP, O_LOOKUP, O_SEARCH, O_POOL, O_CACHE, O_RESOURCE, O_MEMORY, NOPS };
static const char *oname[NOPS] = { "addresses", "floats", "strings", "messages", "evidence", "prefixes", "headers found", "headers made", "properties found", "properties made", "overrides", "composed evidence", "profile ids", "trees", "tree found", "text", "yaml", "files", "temporary files", "look ups", "searches", "pools", "caches", "resources", "memory" };
static uint64_t done[NOPS];
static bool on_pair(void *s, fiftyoneDegreesEvidenceKeyValuePair *p) { uint64_t *h = s; *h = HS(HS(HI(*h, p->prefix), p->field), p->originalValue); return true; }
static void on_line(const char *l, void *s) { uint64_t *h = s; *h = HS(*h, l); }
static void on_doc(fiftyoneDegreesKeyValuePair *k, uint16_t n, void *s) { uint64_t *h = s; for (int i = 0; i < n; i++) *h = HS(HS(*h, k[i].key), k[i].value); *h = HI(*h, n); }
static void on_id(void *s, uint32_t id) { uint64_t *h = s; *h = HI(*h, id); }
static bool on_value(void *s, fiftyoneDegreesCollectionItem *i) {
	uint64_t *h = s; fiftyoneDegreesValue *v = (fiftyoneDegreesValue *)i->data.ptr; *h = HI(*h, v->nameOffset); return true;
}
static bool on_profile(void *s, fiftyoneDegreesCollectionItem *i) { uint64_t *h = s; *h = HI(*h, ((fiftyoneDegreesProfile *)i->data.ptr)->profileId); return true; }
static int by_id(void *s, fiftyoneDegreesCollectionItem *i, long at, fiftyoneDegreesException *e) { (void)at; (void)e; uint32_t a = ((fiftyoneDegreesProfileOffset *)i->data.ptr)->profileId, b = *(uint32_t *)s; return a < b ? -1 : a > b; }
static void on_node(void *s, fiftyoneDegreesTreeNode *n) { uint64_t *h = s; *h = HI(*h, n->key); }
static void *make_item(fiftyoneDegreesPool *p, void *s, fiftyoneDegreesException *e) { (void)p; (void)s; (void)e; return malloc(8); }
static void free_item(fiftyoneDegreesPool *p, void *i) { (void)p; free(i); }
static void load(const void *s, fiftyoneDegreesData *d, const void *key, fiftyoneDegreesException *e) {
	(void)s; (void)e; uint32_t k = *(const uint32_t *)key;
	if (fiftyoneDegreesDataMalloc(d, 8)) { uint64_t v = vr_mix(k, 9); memcpy(d->ptr, &v, 8); d->used = 8; }
}
static void freed(void *p) { *(int *)p = -1; }
static void path_of(int t, const char *n, char *o) { sprintf(o, "%s/%s%d", vr_scratch(), n, t); }
static void put_file(const char *p, const void *b, size_t n) { FILE *f = fopen(p, "wb"); if (!f || fwrite(b, 1, n, f) != n) vr_harness_error("cannot write %s", p); fclose(f); }
static uint64_t slurp_hash(const char *p) { FILE *f = fopen(p, "rb"); if (!f) return 1; unsigned char b[3000]; size_t n = fread(b, 1, sizeof b, f); fclose(f); return H(n, b, n); }
static uint64_t one(int op, uint64_t *r, int t) {
	uint64_t h = (uint64_t)op; char a[400], b[400], c[600];
	fiftyoneDegreesException ex_, *exception = &ex_; FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	fiftyoneDegreesCollectionItem item, item2; memset(&item, 0, sizeof item); memset(&item2, 0, sizeof item2);
	fiftyoneDegreesDataReset(&item.data); fiftyoneDegreesDataReset(&item2.data);
	switch (op) {
	case O_IP: {
		int six = (int)below(r, 2), k = 1 + (int)below(r, 3); a[0] = 0;
		for (int i = 0; i < k; i++) {
			if (i) strcat(a, ",");
			if (six) sprintf(a + strlen(a), "%x:%x::%x:%x", below(r, 65536), below(r, 65536), below(r, 65536), below(r, 65536));
			else sprintf(a + strlen(a), "%u.%u.%u.%u", below(r, 256), below(r, 256), below(r, 256), below(r, 256));
		}
		char *s = copy(a);
		fiftyoneDegreesEvidenceIpAddress *l = fiftyoneDegreesIpParseAddresses(malloc, s);
		for (fiftyoneDegreesEvidenceIpAddress *x = l; x; x = x->next) {
			h = HI(h, x->type); if (x->type != FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) h = H(h, x->address, x->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16);
			if (x->next && x->type == x->next->type) { int d = fiftyoneDegreesCompareIpAddresses(x->address, x->next->address, x->type); h = HI(h, (d > 0) - (d < 0)); }
		}
		fiftyoneDegreesIpFreeAddresses(free, l); free(s);
	} break;
	case O_FLOAT: for (int i = 0; i < 20; i++) {
		uint32_t u = (uint32_t)vr_rand_s(r); float f; memcpy(&f, &u, 4); if (f != f || f > 3e38f || f < -3e38f) f = 1.5f;
		fiftyoneDegreesFloatInternal x = fiftyoneDegreesNativeToFloat(f); float g = fiftyoneDegreesFloatToNative(x);
		h = H(H(h, &x, sizeof x), &g, 4); h = HI(h, fiftyoneDegreesFloatIsEqual(x, x));
	} break;
	case O_STRING: for (int i = 0; i < 8; i++) {
		text(r, a, 12); text(r, b, 3); if (below(r, 2)) strcpy(b, a);
		int d = fiftyoneDegreesStringCompare(a, b), e = fiftyoneDegreesStringCompareLength(a, b, 1 + below(r, (uint32_t)strlen(strlen(a) < strlen(b) ? a : b)));
		char *s = fiftyoneDegreesStringSubString(a, b);
		h = HI(HI(HI(h, (d > 0) - (d < 0)), (e > 0) - (e < 0)), s ? s - a : -1);
	} break;
	case O_STATUS: for (int i = 0; i < 4; i++) {
		text(r, a, 30); fiftyoneDegreesStatusCode s = (fiftyoneDegreesStatusCode)below(r, 45);
		char *m = (char *)fiftyoneDegreesStatusGetMessage(s, a); h = HS(h, m); fiftyoneDegreesFree(m);
		if (s != FIFTYONE_DEGREES_STATUS_NOT_SET) {
			exception->status = s; exception->file = "here.c"; exception->func = a; exception->line = (int)below(r, 1000);
			m = (char *)fiftyoneDegreesExceptionGetMessage(exception); h = HS(h, m); fiftyoneDegreesFree(m);
		}
	} break;
	case O_EVIDENCE: case O_PSEUDO: case O_OVERRIDES: case O_PROFILE_IDS: {
		int n = 1 + (int)below(r, 8); char f[8][120], v[8][60];
		fiftyoneDegreesEvidenceKeyValuePairArray *e = fiftyoneDegreesEvidenceCreate((uint32_t)n), *ps = NULL;
		static const fiftyoneDegreesEvidencePrefix px[] = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_SERVER };
		for (int i = 0; i < n; i++) {
			text(r, v[i], 20);
			if (op == O_OVERRIDES) { snprintf(f[i], sizeof f[i], "%s%s", below(r, 2) ? "51D_" : "", pname[below(r, (uint32_t)npname)]); }
			else if (op == O_PROFILE_IDS) { strcpy(f[i], below(r, 3) ? "51D_ProfileIds" : "x"); sprintf(v[i], "%u-%u|%u", below(r, 9999), below(r, 9999), below(r, 99)); }
			else { const char *q = headers->count ? headers->items[below(r, headers->count)].name : "x"; snprintf(f[i], sizeof f[i], "%s", q); }
			fiftyoneDegreesEvidenceAddString(e, px[below(r, op == O_EVIDENCE ? 4 : 2)], f[i], v[i]);
		}
		if (op == O_PSEUDO) {
			e->pseudoEvidence = ps = fiftyoneDegreesEvidenceCreate(headers->count + 1);
			fiftyoneDegreesPseudoHeadersAddEvidence(e, headers, 300, px, 2, exception);
			h = HI(HI(h, exception->status), ps->count);
		} else if (op == O_OVERRIDES) {
			fiftyoneDegreesOverrideValueArray *ov = fiftyoneDegreesOverrideValuesCreate(10);
			h = HI(h, fiftyoneDegreesOverridesExtractFromEvidence(oprops, ov, e));
			for (int i = 0; i < npname; i++) {
				fiftyoneDegreesString *s = fiftyoneDegreesOverrideValuesGetFirst(ov, (uint32_t)i, &item);
				h = HS(h, s ? FIFTYONE_DEGREES_STRING(s) : NULL);
				h = HI(h, fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex(avail, (uint32_t)i));
			}
			fiftyoneDegreesOverrideValuesReset(ov); fiftyoneDegreesOverrideValuesFree(ov);
		} else if (op == O_PROFILE_IDS) fiftyoneDegreesOverrideProfileIds(e, &h, on_id);
		uint32_t k = fiftyoneDegreesEvidenceIterate(e, op == O_PSEUDO ? 0xff : (int)(px[below(r, 4)] | px[below(r, 4)]), &h, on_pair);
		h = HI(h, k);
		if (ps) { fiftyoneDegreesPseudoHeadersRemoveEvidence(e, 300); fiftyoneDegreesEvidenceFree(ps); e->pseudoEvidence = NULL; }
		fiftyoneDegreesEvidenceFree(e);
	} break;
	case O_PREFIX: for (int i = 0; i < 6; i++) {
		static const char *k[] = { "server.x", "header.user-agent", "query.a", "cookie.b", "serve", "none.x", "header.", "" };
		fiftyoneDegreesEvidencePrefixMap *m = fiftyoneDegreesEvidenceMapPrefix(k[below(r, 8)]);
		h = m ? HI(HS(h, m->prefix), m->prefixEnum) : HI(h, 5);
		h = HS(h, fiftyoneDegreesEvidencePrefixString((fiftyoneDegreesEvidencePrefix)(1 << below(r, 7))));
	} break;
	case O_HEADER_FIND: for (int i = 0; i < 10; i++) {
		if (below(r, 3)) strcpy(a, headers->count ? headers->items[below(r, headers->count)].name : "x"); else strcpy(a, hname[below(r, (uint32_t)nhname)]);
		if (!below(r, 3)) { strcpy(b, "HTTP_"); strcat(b, a); for (char *p = b; *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32; } else strcpy(b, a);
		h = HI(h, fiftyoneDegreesHeaderGetIndex(headers, b, strlen(b)));
		fiftyoneDegreesHeader *x = fiftyoneDegreesHeadersGetHeaderFromUniqueId(headers, below(r, 26)); h = HS(h, x ? x->name : NULL);
		h = HI(h, fiftyoneDegreesHeadersIsPseudo(a));
		fiftyoneDegreesEvidenceKeyValuePair p = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, b, "v", NULL }; h = HI(h, fiftyoneDegreesHeadersIsHttp(headers, &p));
	} break;
	case O_HEADERS: {
		char hn[24][80], pn[24][40]; int nh, np; make_names(r, hn, &nh, pn, &np);
		hstate hs = { hn, nh }; fiftyoneDegreesHeaders *x = fiftyoneDegreesHeadersCreate(below(r, 2), &hs, get_header);
		h = HI(h, x ? x->count : 99);
		for (uint32_t i = 0; x && i < x->count; i++) { h = HI(HI(HS(h, x->items[i].name), x->items[i].uniqueId), x->items[i].isDataSet); if (x->items[i].segments) for (uint32_t j = 0; j < x->items[i].segments->count; j++) h = H(h, x->items[i].segments->items[j].segment, x->items[i].segments->items[j].length); }
		if (x) fiftyoneDegreesHeadersFree(x);
	} break;
	case O_PROP_FIND: for (int i = 0; i < 10; i++) {
		strcpy(a, pname[below(r, (uint32_t)npname)]); if (!below(r, 4)) a[0] ^= 2;
		int k = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(avail, a);
		h = HI(HI(h, k), fiftyoneDegreesPropertiesGetPropertyIndexFromName(avail, a));
		h = HI(h, fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(avail, k));
		if (k >= 0) h = HS(h, FIFTYONE_DEGREES_STRING(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(avail, k)));
		h = HI(h, fiftyoneDegreesPropertiesIsSetHeaderAvailable(avail));
	} break;
	case O_PROPS: {
		fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault; a[0] = 0; pstate ps = { pname, npname };
		const char *arr[5]; int k = 1 + (int)below(r, 5), how = (int)below(r, 4);
		for (int i = 0; i < k; i++) { arr[i] = pname[below(r, (uint32_t)npname)]; if (i) strcat(a, ","); strcat(a, arr[i]); }
		if (how == 0) { req.array = arr; req.count = k; } else if (how == 1) req.string = a; else if (how == 2) req.existing = avail;
		fiftyoneDegreesPropertiesAvailable *x = fiftyoneDegreesPropertiesCreate(&req, &ps, get_property, get_evidence);
		for (uint32_t i = 0; x && i < x->count; i++) h = HI(HS(h, FIFTYONE_DEGREES_STRING(x->items[i].name.data.ptr)), x->items[i].propertyIndex);
		if (x) {
			fiftyoneDegreesOverridePropertyArray *op2 = fiftyoneDegreesOverridePropertiesCreate(x, below(r, 2), NULL, allow);
			h = HI(h, op2 ? op2->count : 99); if (op2) fiftyoneDegreesOverridePropertiesFree(op2);
			fiftyoneDegreesPropertiesFree(x);
		}
	} break;
	case O_TREE: {
		fiftyoneDegreesTreeRoot root; fiftyoneDegreesTreeNode n[30]; int k = 1 + (int)below(r, 30);
		fiftyoneDegreesTreeRootInit(&root);
		for (int i = 0; i < k; i++) { fiftyoneDegreesTreeNodeInit(&n[i], &root); n[i].key = (int64_t)below(r, 1000) * 40 + i; fiftyoneDegreesTreeInsert(&n[i]); }
		for (int i = 0; i < k; i++) if (!below(r, 3)) fiftyoneDegreesTreeDelete(&n[i]);
		h = HI(h, fiftyoneDegreesTreeCount(&root)); fiftyoneDegreesTreeIterateNodes(&root, &h, on_node);
	} break;
	case O_TREE_FIND: for (int i = 0; i < 10; i++) {
		fiftyoneDegreesTreeNode *n = fiftyoneDegreesTreeFind(&troot, (int64_t)below(r, 600));
		h = HI(h, n ? n->key : -1);
		if (i == 0) { h = HI(h, fiftyoneDegreesTreeCount(&troot)); fiftyoneDegreesTreeIterateNodes(&troot, &h, on_node); }
	} break;
	case O_TEXT: case O_YAML: {
		path_of(t, "text", c); char d[3000]; size_t n = 0; int docs = 1 + (int)below(r, 4);
		for (int i = 0; i < docs; i++) {
			if (op == O_YAML) n += (size_t)sprintf(d + n, "---\n");
			int lines = 1 + (int)below(r, 5);
			for (int j = 0; j < lines; j++) { text(r, a, 20); for (char *p = a; *p; p++) if (*p == '.' || *p == '-' || *p == '%') *p = 'q'; text(r, b, 20); for (char *p = b; *p; p++) if (*p == '.' || *p == '-') *p = 'q'; n += (size_t)sprintf(d + n, op == O_YAML ? "%s: %s\n" : "%s %s\r\n", a, b); }
		}
		put_file(c, d, n); char buf[200];
		if (op == O_TEXT) fiftyoneDegreesTextFileIterateWithLimit(c, buf, sizeof buf, below(r, 2) ? -1 : 3, &h, on_line);
		else {
			fiftyoneDegreesKeyValuePair kv[8]; char key[8][50], val[8][50];
			for (int i = 0; i < 8; i++) { kv[i].key = key[i]; kv[i].keyLength = 50; kv[i].value = val[i]; kv[i].valueLength = 50; }
			h = HI(h, fiftyoneDegreesYamlFileIterateWithLimit(c, buf, sizeof buf, kv, 8, below(r, 2) ? -1 : 2, &h, on_doc));
		}
	} break;
	case O_FILE: {
		char p[600], q[600]; unsigned char d[2000]; size_t n = 1 + below(r, 1999); for (size_t i = 0; i < n; i++) d[i] = (unsigned char)vr_rand_s(r);
		path_of(t, "src", p); path_of(t, "dst", q);
		h = HI(h, fiftyoneDegreesFileWrite(p, d, n)); h = HI(h, fiftyoneDegreesFileCopy(p, q)); h = HI(HI(h, fiftyoneDegreesFileGetSize(q)), slurp_hash(q));
		fiftyoneDegreesMemoryReader m; memset(&m, 0, sizeof m);
		fiftyoneDegreesStatusCode s = fiftyoneDegreesFileReadToByteArray(q, &m); h = HI(h, s);
		if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) { h = H(h, m.startByte, (size_t)m.length); fiftyoneDegreesFree(m.startByte); }
		h = HI(h, fiftyoneDegreesFileDelete(q)); h = HI(h, access(q, F_OK)); h = HS(h, fiftyoneDegreesFileGetFileName(p));
		char dir[600]; path_of(t, "mk", dir); h = HI(h, fiftyoneDegreesFileCreateDirectory(dir)); h = HI(h, access(dir, F_OK)); rmdir(dir);
	} break;
	case O_TEMP: {
		char p[600], own[600]; unsigned char d[2000]; size_t n = 1 + below(r, 1999); for (size_t i = 0; i < n; i++) d[i] = (unsigned char)vr_rand_s(r);
		path_of(t, "master", p); put_file(p, d, n); path_of(t, "own", own); mkdir(own, 0700);
		char dest[FIFTYONE_DEGREES_FILE_MAX_PATH]; int mine = (int)below(r, 2); const char *l[2] = { mine ? own : tdir, own };
		h = HI(h, fiftyoneDegreesFileNewTempFile(p, l, 2, dest, sizeof dest)); h = HI(h, slurp_hash(dest));
		h = HI(h, !strncmp(dest, l[0], strlen(l[0])));
		char found[FIFTYONE_DEGREES_FILE_MAX_PATH]; bool g = fiftyoneDegreesFileGetExistingTempFile(p, l, 1, -1, found); h = HI(h, g); if (g) h = HI(h, slurp_hash(found));
		if (mine) h = HI(h, fiftyoneDegreesFileDeleteUnusedTempFiles(p, l, 1, -1)); else h = HI(h, fiftyoneDegreesFileDelete(dest));
		h = HI(h, access(dest, F_OK)); rmdir(own);
	} break;
	case O_LOOKUP: for (int i = 0; i < 4; i++) {
		uint32_t p = below(r, (uint32_t)nprop); sprintf(a, "Prop%u", p);
		fiftyoneDegreesProperty *pr = fiftyoneDegreesPropertyGetByName(coll[PROP], coll[STR], a, &item, exception);
		h = HI(h, pr ? pr->firstValueIndex : 999);
		if (pr) {
			vname((int)p, (int)below(r, (uint32_t)nval[p] + 2), b);
			h = HI(h, fiftyoneDegreesValueGetIndexByName(coll[VAL], coll[STR], pr, b, exception));
			fiftyoneDegreesValue *v = fiftyoneDegreesValueGetByName(coll[VAL], coll[STR], pr, b, &item2, exception);
			h = HI(h, v ? v->nameOffset : -5); if (v) FIFTYONE_DEGREES_COLLECTION_RELEASE(coll[VAL], &item2);
			fiftyoneDegreesDataReset(&item2.data);
			uint32_t id = below(r, (uint32_t)nprof * 5 + 5); if (below(r, 4)) id = below(r, (uint32_t)nprof) * 5 + 2;
			fiftyoneDegreesProfile *f = fiftyoneDegreesProfileGetByProfileId(coll[OFF], coll[PROF], id, &item2, exception);
			if (f) { h = HI(h, f->valueCount); h = HI(h, fiftyoneDegreesProfileIterateValuesForProperty(coll[VAL], f, pr, &h, on_value, exception)); FIFTYONE_DEGREES_COLLECTION_RELEASE(coll[PROF], &item2); }
			else h = HI(h, 77);
			h = HI(h, fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(coll[STR], coll[PROP], coll[VAL], coll[PROF], coll[OFF], a, b, &h, on_profile, exception));
			FIFTYONE_DEGREES_COLLECTION_RELEASE(coll[PROP], &item);
		}
		fiftyoneDegreesDataReset(&item.data); fiftyoneDegreesDataReset(&item2.data);
		h = HI(h, fiftyoneDegreesPropertyGetValueType(coll[PROP], p, exception)); h = HI(h, exception->status); FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	} break;
	case O_SEARCH: for (int i = 0; i < 6; i++) {
		uint32_t id = below(r, (uint32_t)nprof * 5 + 5);
		long at = fiftyoneDegreesCollectionBinarySearch(coll[OFF], &item, 0, (uint32_t)nprof - 1, &id, by_id, exception); h = HI(HI(h, at), exception->status);
		if (at >= 0) FIFTYONE_DEGREES_COLLECTION_RELEASE(coll[OFF], &item);
		fiftyoneDegreesDataReset(&item.data);
		h = HI(h, fiftyoneDegreesCollectionGetInteger32(coll[OFF], below(r, (uint32_t)nprof), exception)); h = HI(h, fiftyoneDegreesCollectionGetCount(coll[OFF])); FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	} break;
	case O_POOL: {
		fiftyoneDegreesPool p; uint16_t n = (uint16_t)(1 + below(r, 5)); fiftyoneDegreesPoolInit(&p, n, NULL, make_item, free_item, exception);
		fiftyoneDegreesPoolItem *x[6]; int k = 0; for (int i = 0; i < 6; i++) { x[k] = fiftyoneDegreesPoolItemGet(&p, exception); if (x[k]) k++; h = HI(HI(h, k), exception->status); FIFTYONE_DEGREES_EXCEPTION_CLEAR; }
		while (k) fiftyoneDegreesPoolItemRelease(x[--k]);
		fiftyoneDegreesPoolFree(&p);
	} break;
	case O_CACHE: {
		fiftyoneDegreesCache *k = fiftyoneDegreesCacheCreate(1 + below(r, 6), 1, load, fiftyoneDegreesCacheHash32, NULL);
		for (int i = 0; k && i < 12; i++) { uint32_t key = below(r, 9); fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(k, &key, exception); h = HI(h, exception->status); if (n) { h = H(h, n->data.ptr, n->data.used); fiftyoneDegreesCacheRelease(n); } }
		if (k) { h = HI(HI(h, k->hits), k->misses); fiftyoneDegreesCacheFree(k); }
	} break;
	case O_RESOURCE: {
		fiftyoneDegreesResourceManager m; int res[3] = { 1, 2, 3 }; fiftyoneDegreesResourceHandle *hd[3], *u;
		fiftyoneDegreesResourceManagerInit(&m, &res[0], &hd[0], freed);
		u = fiftyoneDegreesResourceHandleIncUse(&m); h = HI(h, fiftyoneDegreesResourceHandleGetUse(u));
		h = HI(h, fiftyoneDegreesResourceReplace(&m, &res[1], &hd[1])); h = HI(h, res[0]); fiftyoneDegreesResourceHandleDecUse(u); h = HI(h, res[0]);
		fiftyoneDegreesResourceManagerFree(&m); h = HI(h, res[1]);
	} break;
	default: {
		fiftyoneDegreesMemoryReader m; unsigned char d[40]; m.startByte = m.current = d; m.length = 40; m.lastByte = d + 40;
		for (int i = 0; i < 6; i++) { bool g = fiftyoneDegreesMemoryAdvance(&m, below(r, 20)); h = HI(HI(h, g), m.current - d); }
		fiftyoneDegreesData dt; fiftyoneDegreesDataReset(&dt); for (int i = 0; i < 4; i++) { size_t n = 1 + below(r, 60); unsigned char *p = fiftyoneDegreesDataMalloc(&dt, n); if (p) { memset(p, i, n); h = HI(h, dt.allocated >= n); } }
		if (dt.ptr) fiftyoneDegreesFree(dt.ptr);
		void *p = fiftyoneDegreesMallocAligned(16, 100); h = HI(h, ((uintptr_t)p & 15)); fiftyoneDegreesFreeAligned(p);
	}
	}
	return h;
}
/* ---------------------------------------------------------- the threads */
typedef struct { uint64_t seed; int n, id, op[MAXOP]; uint64_t got[MAXOP]; } body;
static body B[MAXT];
static int real_;
static void hurry(void) {
#ifdef VR_SCHED
	sched_point();
#else
	usleep(0);
#endif
}
static void work(void *p) {
	body *b = p;
	for (int i = 0; i < b->n; i++) { uint64_t r = vr_mix(b->seed, (uint64_t)i); b->got[i] = one(b->op[i], &r, b->id); hurry(); }
}
static void *work_real(void *p) { work(p); return NULL; }
void vr_setup(void) { real_ = (int)vr_opt_int("real", 0); vr_alloc_install(); }
void vr_teardown(void) { for (int i = 0; i < NOPS; i++) { char k[60]; snprintf(k, sizeof k, "%s", oname[i]); vr_count(k, done[i]); } }
void vr_run_case(uint64_t n) {
	vr_alloc_reset(); vr_alloc_no_fail();
	make_shared();
	int nt = 2 + (int)vr_below(MAXT - 1), few = vr_chance(1, 2) ? 1 + (int)vr_below(4) : NOPS, pick[4], differ = 0;
	for (int i = 0; i < 4; i++) pick[i] = (int)vr_below(NOPS);
	uint64_t want[MAXT][MAXOP];
	for (int t = 0; t < nt; t++) {
		body *b = &B[t]; b->seed = vr_rand(); b->id = t; b->n = few < NOPS ? 2 + (int)vr_below(6) : 4 + (int)vr_below(real_ ? MAXOP - 4 : 10);
		for (int i = 0; i < b->n; i++) { b->op[i] = few < NOPS ? pick[vr_below((uint32_t)few)] : (int)vr_below(NOPS); done[b->op[i]]++; }
	}
	/* alone */
	for (int t = 0; t < nt; t++) { for (int i = 0; i < B[t].n; i++) { uint64_t r = vr_mix(B[t].seed, (uint64_t)i); want[t][i] = one(B[t].op[i], &r, B[t].id); } }
	size_t live = vr_alloc_live(); int fds = vr_open_fds();
	/* together */
	uint64_t trace = n;
#ifdef VR_SCHED
	sched_begin(vr_rand());
	for (int t = 0; t < nt; t++) sched_spawn(work, &B[t]);
	int rc = sched_run(20000000);
	VR_CHECK(rc == SCHED_OK, "reent:endless", "the threads do not come to an end");
	trace = sched_trace_hash(); vr_count("switches", sched_switches());
	(void)work_real;
#else
	FIFTYONE_DEGREES_THREAD th[MAXT];
	for (int t = 0; t < nt; t++) FIFTYONE_DEGREES_THREAD_CREATE(th[t], work_real, &B[t]);
	for (int t = 0; t < nt; t++) FIFTYONE_DEGREES_THREAD_JOIN(th[t]);
#endif
	for (int t = 0; t < nt; t++) for (int i = 0; i < B[t].n; i++) {
		vr_note_case("case %llu: thread %d of %d, call %d (%s)", (unsigned long long)n, t, nt, i, oname[B[t].op[i]]);
		VR_CHECK(B[t].got[i] == want[t][i], "reent:other-result", "the result of call %d (%s) differs with %d threads at once", i, oname[B[t].op[i]], nt);
		differ += B[t].got[i] != want[t][i];
	}
	VR_CHECK(vr_alloc_live() == live, "reent:leak", "%zu blocks are held after the calls, %zu before", vr_alloc_live(), live);
#if !__has_feature(thread_sanitizer) /* whose reports open files */
	VR_CHECK(vr_open_fds() == fds, "reent:files", "%d files are open after the calls, %d before", vr_open_fds(), fds);
#endif
	(void)fds;
	DIR *d = opendir(tdir); struct dirent *x; int left = 0;
	while (d && (x = readdir(d))) if (x->d_name[0] != '.') { left++; if (differ) { char p[700]; snprintf(p, sizeof p, "%s/%s", tdir, x->d_name); unlink(p); } }
	if (d) closedir(d);
	VR_CHECK(left == 0, "reent:copies", "%d temporary copies are left", left);
	drop_shared();
	VR_CHECK(vr_alloc_live() == 0, "reent:leak", "%zu blocks are held at the end", vr_alloc_live());
	vr_distinct("nontrivial", vr_mix(trace, B[0].seed));
	if (vr_want_sample()) vr_sample("case %llu: %d threads of %d.. calls, %s", (unsigned long long)n, nt, B[0].n, few < NOPS ? oname[pick[0]] : "all kinds");
}
