/* Header lists against a plain model of the names and their parts. */
#include "hitem.h"
const char *vr_harness = "headers";
#define SEP '\x1F'
#define MAXH 24
#define BIGH 400
#define MAXP 700
#define MAXL 140000
static char arena[8 << 20]; static size_t arena_used;
static char *keep(const char *s, size_t n) {
	if (arena_used + n + 1 > sizeof arena) vr_harness_error("arena");
	char *r = arena + arena_used; arena_used += n + 1;
	memcpy(r, s, n); r[n] = 0; return r;
}
typedef struct { char *s; size_t n; int data; uint32_t id; } name_t;
static name_t src[BIGH]; static int nsrc;
static name_t model[BIGH * 12]; static int nmodel;
static int gets, short_at; static uint32_t last_count;
static long get(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	(void)state; gets++;
	if ((int)i >= nsrc) return -1;
	if (short_at && gets == short_at) return -1;
	hitem_string(item, src[i].s);
	return (long)src[i].id;
}
static int find(const char *s, size_t n) { for (int i = 0; i < nmodel; i++) if (same_nocase(model[i].s, model[i].n, s, n)) return i; return -1; }
static void put(const char *s, size_t n, int data, uint32_t id) {
	if (find(s, n) >= 0) return;
	name_t *m = &model[nmodel++];
	m->s = keep(s, n); m->n = n; m->data = data; m->id = id;
}
static int parts(const char *s, const char **p, size_t *l) {
	int k = 0; const char *a = s;
	for (;; s++) if (*s == SEP || !*s) { if (s > a) { p[k] = a; l[k++] = (size_t)(s - a); } a = s + 1; if (!*s) break; }
	return k;
}
static const char *base[] = { "User-Agent", "user-agent", "Sec-CH-UA", "Sec-CH-UA-Mobile", "Sec-CH-UA-Full-Version-List", "x", "X", "Accept", "a", "ab", "abc", "Device-Stock-UA", "caf\xC3\xA9", "sec-ch-ua", "HT", "HTTP", "z-0", "[a]", "{A}", "@", "`" };
#define NBASE (int)(sizeof base / sizeof *base)
static void make_name(char *o, int upper) {
	o[0] = 0;
	if (vr_chance(1, 3)) {
		int k = vr_chance(1, 5) ? 0 : 1 + (int)vr_below(4);
		for (int i = 0; i < k; i++) {
			if (i ? 1 : vr_chance(1, 12)) strcat(o, "\x1F");
			if (vr_chance(1, 12)) strcat(o, "\x1F");
			strcat(o, base[vr_below(NBASE)]);
		}
		while (vr_chance(1, 10) || (k == 0 && vr_chance(1, 2))) strcat(o, "\x1F");
	} else if (vr_chance(1, 30)) ;
	else if (!upper && vr_chance(1, 20)) { strcat(o, "HTTP_"); strcat(o, base[vr_below(NBASE)]); }
	else strcat(o, base[vr_below(NBASE)]);
	if (vr_chance(1, 4)) flip_case(o, strlen(o), 0);
}
/* 1: many names, 2: long names, 3: names of many parts */
static int scale; static char longname[2][MAXL / 2];
static void make_scaled(char *o) {
	char d[40];
	o[0] = 0;
	if (scale == 1) {
		int k = vr_chance(1, 3) ? 2 + (int)vr_below(2) : 1;
		for (int i = 0; i < k; i++) { snprintf(d, sizeof d, "%s%s-%u", i ? "\x1F" : "", base[vr_below(3)], vr_below(300)); strcat(o, d); }
	} else if (scale == 2) {
		int k = vr_chance(1, 2) ? 2 : 1;
		for (int i = 0; i < k; i++) { if (i) strcat(o, "\x1F"); strcat(o, vr_chance(1, 2) ? longname[vr_below(2)] : base[vr_below(NBASE)]); }
	} else {
		int k = vr_chance(1, 3) ? 1 : vr_chance(1, 2) ? 120 + (int)vr_below(20) : 250 + (int)vr_below(300);
		for (int i = 0; i < k; i++) { snprintf(d, sizeof d, "%s%s%u", i ? "\x1F" : "", base[vr_below(3)], vr_below(60)); strcat(o, d); }
	}
}
static void check_find(fiftyoneDegreesHeaders *h, const char *s, size_t n, int upper) {
	char *q = exact(s, n, 0);
	int i = fiftyoneDegreesHeaderGetIndex(h, q, n);
	const char *l = s; size_t ln = n;
	if (upper && n > 5 && same_nocase(s, 5, "HTTP_", 5)) { l += 5; ln -= 5; }
	int want = find(l, ln) >= 0;
	VR_CHECK((i >= 0) == want, "headers:find", "name '%s' (prefix %sexpected): index %d, expected it %s", vr_esc(s, n), upper ? "" : "not ", i, want ? "found" : "absent");
	if (i >= 0 && want) {
		VR_CHECK((uint32_t)i < h->count && same_nocase(h->items[i].name, h->items[i].nameLength, l, ln), "headers:find-other", "name '%s': index %d is another header", vr_esc(s, n), i);
		vr_count("found", 1);
	} else vr_count("absent", 1);
	free(q);
	if (memchr(s, 0, n)) return;
	char *t = exact(s, n, 1);
	fiftyoneDegreesEvidenceKeyValuePair pair; memset(&pair, 0, sizeof pair); pair.field = t;
	VR_CHECK(fiftyoneDegreesHeadersIsHttp(h, &pair) == (want != 0), "headers:is-http", "evidence field '%s' is %sa header, expected otherwise", vr_esc(s, n), want ? "not " : "");
	VR_CHECK(fiftyoneDegreesHeadersIsPseudo(t) == (strchr(t, SEP) != NULL), "headers:is-pseudo", "'%s'", vr_esc(s, n));
	free(t);
}
static void verify(fiftyoneDegreesHeaders *h, int upper) {
	int pseudo = 0;
	VR_CHECK(h->count == (uint32_t)nmodel, "headers:count", "%u headers, expected %d", h->count, nmodel);
	VR_CHECK(h->count <= h->capacity, "headers:capacity", "%u headers in room for %u", h->count, h->capacity);
	for (uint32_t i = 0; i < h->count; i++) {
		fiftyoneDegreesHeader *x = &h->items[i];
		VR_CHECK(strlen(x->name) == x->nameLength, "headers:name-length", "header '%s' has length %zu", vr_esc(x->name, strlen(x->name)), x->nameLength);
		int m = find(x->name, x->nameLength);
		VR_CHECK(m >= 0, "headers:unknown", "header '%s' is neither a name of the data nor a part of one", vr_esc(x->name, x->nameLength));
		if (m < 0) continue;
		for (uint32_t j = 0; j < i; j++) VR_CHECK(!same_nocase(x->name, x->nameLength, h->items[j].name, h->items[j].nameLength), "headers:repeated", "header '%s' is there twice", vr_esc(x->name, x->nameLength));
		VR_CHECK(x->isDataSet == (model[m].data != 0), "headers:from-data", "header '%s': from the data %d, expected %d", vr_esc(x->name, x->nameLength), x->isDataSet, model[m].data);
		if (model[m].data) VR_CHECK(x->uniqueId == model[m].id && !memcmp(x->name, model[m].s, model[m].n), "headers:id", "header '%s' has id %u, expected %u of '%s'", vr_esc(x->name, x->nameLength), x->uniqueId, model[m].id, vr_esc(model[m].s, model[m].n));
		static const char *p[MAXP]; static size_t l[MAXP];
		int k = parts(model[m].data ? model[m].s : x->name, p, l);
		if (k > 1) pseudo++;
		VR_CHECK(x->segments && x->segments->count == (uint32_t)k, "headers:parts", "header '%s' has %u parts, expected %d", vr_esc(x->name, x->nameLength), x->segments ? x->segments->count : 0, k);
		if (x->segments && x->segments->count == (uint32_t)k) for (int s = 0; s < k; s++)
			VR_CHECK(x->segments->items[s].length == l[s] && !memcmp(x->segments->items[s].segment, p[s], l[s]), "headers:part", "part %d of header '%s' is '%s'", s, vr_esc(x->name, x->nameLength), vr_esc(x->segments->items[s].segment, x->segments->items[s].length));
	}
	VR_CHECK(h->pseudoHeadersCount == (uint32_t)pseudo, "headers:pseudo-count", "%u combined headers, expected %d", h->pseudoHeadersCount, pseudo);
	for (int m = 0; m < nmodel; m++) {
		static char b[MAXL + 20];
		check_find(h, model[m].s, model[m].n, upper);
		memcpy(b, model[m].s, model[m].n); flip_case(b, model[m].n, vr_chance(1, 2)); check_find(h, b, model[m].n, upper);
		memcpy(b, vr_chance(1, 2) ? "HTTP_" : vr_chance(1, 2) ? "http_" : "HTTP-", 5); memcpy(b + 5, model[m].s, model[m].n); check_find(h, b, model[m].n + 5, upper);
		check_find(h, model[m].s, model[m].n - 1, upper);
		memcpy(b, model[m].s, model[m].n); b[model[m].n] = "x\x1F- "[vr_below(4)]; check_find(h, b, model[m].n + 1, upper);
		if (model[m].data && model[m].id) {
			int f = 0; while (!(model[f].data && model[f].id == model[m].id)) f++;
			fiftyoneDegreesHeader *x = fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, model[m].id);
			VR_CHECK(x && same_nocase(x->name, x->nameLength, model[f].s, model[f].n), "headers:from-id", "id %u gives header '%s', expected '%s'", model[m].id, x ? vr_esc(x->name, x->nameLength) : "none", vr_esc(model[f].s, model[f].n));
		}
	}
	VR_CHECK(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, 77777) == NULL, "headers:from-id", "an unknown id gives a header");
	static const char *odd[] = { "", "HTTP_", "HTTP", "HTTP_H", "\x1F", "none", "User-Agent", "HTTP_HTTP_x", "x", "HTTP_x", "http_A" };
	for (size_t i = 0; i < sizeof odd / sizeof *odd; i++) check_find(h, odd[i], strlen(odd[i]), upper);
	vr_count("lists_verified", 1); vr_count("combined_headers", (uint64_t)pseudo);
}
void vr_setup(void) { vr_alloc_install(); vr_alloc_scribble(1); }
void vr_teardown(void) {}
void vr_run_case(uint64_t n) {
	int oom = vr_opt_int("oom", 0);
	vr_alloc_reset(); vr_alloc_no_fail(); hitem_begin();
	int upper = vr_chance(1, 2);
	nsrc = vr_chance(1, 20) ? 0 : 1 + (int)vr_below(vr_chance(1, 3) ? MAXH - 1 : 6);
	nmodel = 0; arena_used = 0; scale = !oom && vr_chance(1, 1500) ? 1 + (int)vr_below(3) : 0;
	if (scale == 1) nsrc = 250 + (int)vr_below(150);
	if (scale > 1) nsrc = 1 + (int)vr_below(4);
	if (scale) vr_count(scale == 1 ? "many_names" : scale == 2 ? "long_names" : "many_parts", 1);
	if (scale == 2) for (int i = 0; i < 2; i++) {
		size_t l = vr_chance(1, 3) ? 65530 + vr_below(300) : vr_chance(1, 4) ? 32760 + vr_below(20) : 120 + vr_below(400);
		memset(longname[i], 'q', l); longname[i][l] = 0; longname[i][vr_below((uint32_t)l)] = 'Q'; longname[i][vr_below((uint32_t)l)] = '-';
	}
	uint64_t hash = (uint64_t)upper;
	for (int i = 0; i < nsrc; i++) {
		static char o[MAXL];
		if (scale && (scale > 1 || !vr_chance(1, 10))) make_scaled(o); else make_name(o, upper);
		src[i].n = strlen(o); src[i].s = keep(o, src[i].n);
		src[i].id = vr_chance(1, 10) ? vr_below(5) : vr_chance(1, 10) ? 0x7FFFFFFFu : (uint32_t)i * 3 + 1;
		if (vr_chance(1, 6) && i) { memcpy(&src[i], &src[vr_below((uint32_t)i)], sizeof *src); src[i].s = keep(src[i].s, src[i].n); src[i].id = (uint32_t)i * 3 + 1; flip_case(src[i].s, src[i].n, 0); }
		hash = vr_hash(src[i].s, src[i].n + 1, hash);
	}
	for (int i = 0; i < nsrc; i++) { static const char *p[MAXP]; static size_t l[MAXP]; if (src[i].n && parts(src[i].s, p, l)) put(src[i].s, src[i].n, 1, src[i].id); }
	int nd = nmodel;
	for (int i = 0; i < nd; i++) { static const char *p[MAXP]; static size_t l[MAXP]; int k = parts(model[i].s, p, l); for (int s = 0; s < k; s++) put(p[s], l[s], 0, 0); }
	gets = short_at = 0;
	int reps = oom ? 40 : 1;
	for (int a = 1; a <= reps; a++) {
		if (oom) vr_alloc_fail_at((uint64_t)a, vr_chance(1, 3));
		else if (vr_chance(1, 15)) short_at = 1 + (int)vr_below((uint32_t)nsrc * 2 + 2);
		gets = 0;
		fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(upper, NULL, get);
		int failed = vr_alloc_failed(); vr_alloc_no_fail();
		VR_CHECK(hitem_live == 0, "headers:items-held", "%d names are not released", hitem_live); hitem_live = 0;
		if (oom && failed) {
			VR_CHECK(h == NULL, "headers:oom", "a list although allocation %d failed", a);
			vr_count("allocation_failures", 1); vr_distinct("nontrivial", vr_mix(hash, (uint64_t)a));
		} else if (!short_at) VR_CHECK(h != NULL, "headers:none", "no list of %d names", nsrc);
		if (h) {
			if (!short_at) { verify(h, upper); if (!oom) vr_distinct("nontrivial", hash); if (!failed && !scale) VR_CHECK(vr_alloc_largest() <= fiftyoneDegreesHeadersSize((int)h->capacity), "headers:size", "%zu bytes, more than the size given for %u headers", vr_alloc_largest(), h->capacity); }
			else vr_count("short_reads", 1);
			fiftyoneDegreesHeadersFree(h);
		}
		VR_CHECK(vr_alloc_live() == 0, "headers:leak", "%zu blocks left", vr_alloc_live());
		vr_alloc_reset();
		if (oom && !failed) break;
	}
	fiftyoneDegreesHeadersFree(NULL);
	if (vr_want_sample()) vr_sample("case %llu: %d names, %d headers, prefix %d, first '%s'", (unsigned long long)n, nsrc, nmodel, upper, nsrc ? vr_esc(src[0].s, src[0].n) : "");
}
