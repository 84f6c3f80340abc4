/* Look ups of profiles, values, properties and components against a plain
 * scan of the records the data file was written from. */
#define MAXC 6
#include "coll_common.h"
#include "hitem.h"
const char *vr_harness = "lookup";
enum { STR, COMP, PROP, VAL, PROF, OFF };
static const char *cname[] = { "string", "component", "property", "value", "profile", "profile offset" };
enum { T_TEXT, T_COORD, T_IP };
typedef struct { uint32_t off; int size; } text_t;         /* a string record */
typedef struct { char text[64]; unsigned char raw[64]; int rawlen; uint32_t str; unsigned char rec[14]; } mval;
typedef struct { char name[32]; int type; uint32_t first, last; int n; unsigned char rec[64]; uint32_t str; } mprop;
#define BIG 70000
typedef struct { uint32_t id, off; int n; uint32_t *v; int len; uint32_t pos; } mprof;
typedef struct { char name[32]; int nkv; uint32_t *kv; uint32_t off, def; int len; int defprof; } mcomp;
static mval V[BIG]; static int nv;
static mprop P[420]; static int np;
static mprof F[BIG]; static int nf;       /* in order of id */
static mcomp K[310]; static int nk;
static int big; /* 1: very many values, 2: profiles, 3: properties, components and pairs */
static uint32_t words[700000]; static size_t nwords; /* the values of profiles and pairs of components */
static cfile f;
static unsigned char *buf[MAXC]; static uint32_t len[MAXC];
static opened o;
static int oom, faulty;

/* ---- what is held ---- */
static fiftyoneDegreesCollectionGetMethod real_get[MAXC];
static void (*real_release[MAXC])(fiftyoneDegreesCollectionItem *);
typedef struct { int k; void *p; } held_t;
static held_t held[600]; static int nheld;
static uint64_t gets[MAXC];
static void *w_get(int k, fiftyoneDegreesCollection *c, uint32_t i, fiftyoneDegreesCollectionItem *it, fiftyoneDegreesException *e) {
	void *p = real_get[k](c, i, it, e);
	gets[k]++;
	if (p && nheld < 600) { held[nheld].k = k; held[nheld++].p = it->data.ptr; }
	return p;
}
static void w_release(int k, fiftyoneDegreesCollectionItem *it) {
	int i, other = -1;
	for (i = nheld - 1; i >= 0; i--) { if (held[i].p == it->data.ptr) { if (held[i].k == k) break; other = held[i].k; } }
	if (i >= 0) held[i] = held[--nheld];
	else if (other >= 0) { vr_fail("lookup:wrong-collection", "a %s is released to the %s collection", cname[other], cname[k]); return; }
	else if (it->data.ptr) { vr_fail("lookup:not-held", "a %s that is not held is released", cname[k]); return; }
	real_release[k](it);
}
#define W(k) static void *g##k(fiftyoneDegreesCollection *c, uint32_t i, fiftyoneDegreesCollectionItem *it, fiftyoneDegreesException *e) { return w_get(k, c, i, it, e); } \
	static void r##k(fiftyoneDegreesCollectionItem *it) { w_release(k, it); }
W(0) W(1) W(2) W(3) W(4) W(5)
static const fiftyoneDegreesCollectionGetMethod G[] = { g0, g1, g2, g3, g4, g5 };
static void (*const R[])(fiftyoneDegreesCollectionItem *) = { r0, r1, r2, r3, r4, r5 };
static void wrap(void) {
	nheld = 0;
	for (int k = 0; k < MAXC; k++) {
		real_get[k] = o.c[k]->get; o.c[k]->get = G[k];
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
		real_release[k] = o.c[k]->release; o.c[k]->release = R[k];
#endif
	}
}
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
#define HELD(n) ((void)R, nheld = 0)
#else
#define HELD(n) do { VR_CHECK(nheld == (n), "lookup:held", "%s: %d items held, expected %d (first a %s)", what, nheld, (n), nheld ? cname[held[0].k] : "-"); nheld = (n); } while (0)
#endif

/* ---- making the data ---- */
static void add(int k, const void *p, size_t n) { memcpy(buf[k] + len[k], p, n); len[k] += (uint32_t)n; }
static uint32_t add_raw(const void *p, int n) { uint32_t at = len[STR]; int16_t s = (int16_t)n; add(STR, &s, 2); add(STR, p, (size_t)n); return at; }
static uint32_t add_text(const char *s) { return add_raw(s, (int)strlen(s) + 1); }
static int cmp_text(const void *a, const void *b) { return strcmp(((const mval *)a)->text, ((const mval *)b)->text); }
static int cmp_ip(const void *a, const void *b) {
	const mval *x = a, *y = b; int n = x->rawlen < y->rawlen ? x->rawlen : y->rawlen, d = memcmp(x->raw + 1, y->raw + 1, (size_t)n - 1);
	return d ? d : x->rawlen - y->rawlen;
}
static int cmp_raw(const void *a, const void *b) { return memcmp(((const mval *)a)->raw, ((const mval *)b)->raw, 9); }
static int cmp_u32(const void *a, const void *b) { uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b; return x < y ? -1 : x > y; }
static const float co[] = { 2.0f, 8.0f, 32.0f, 128.0f };
static void make_text(char *s) {
	static const char *w[] = { "True", "False", "a", "ab", "abc", "N/A", "Unknown", "10", "9", "2", "Apple", "apple", "\xC3\xA9t\xC3\xA9", "z" };
	s[0] = 0;
	strcat(s, w[vr_below(14)]);
	while (vr_chance(1, 2) && strlen(s) < 20) strcat(s, w[vr_below(14)]);
	if (vr_chance(1, 4)) s[vr_below((uint32_t)strlen(s))] = (char)('A' + vr_below(26));
}
static void make_ip(mval *m, int six) {
	m->raw[0] = FIFTYONE_DEGREES_STRING_IP_ADDRESS;
	if (!six) {
		for (int i = 0; i < 4; i++) m->raw[1 + i] = (unsigned char)(vr_chance(1, 2) ? vr_below(3) : vr_rand());
		m->rawlen = 5;
		sprintf(m->text, "%d.%d.%d.%d", m->raw[1], m->raw[2], m->raw[3], m->raw[4]);
	} else {
		char *t = m->text;
		for (int i = 0; i < 8; i++) {
			uint32_t g = vr_chance(1, 2) ? vr_below(3) : vr_below(65536);
			m->raw[1 + 2 * i] = (unsigned char)(g >> 8); m->raw[2 + 2 * i] = (unsigned char)g;
			t += sprintf(t, "%s%x", i ? ":" : "", g);
		}
		m->rawlen = 17;
	}
}
static void make_coord(mval *m) {
	float a = co[vr_below(4)], b = co[vr_below(4)];
	m->raw[0] = FIFTYONE_DEGREES_STRING_COORDINATE;
	fiftyoneDegreesFloat x = FIFTYONE_DEGREES_NATIVE_TO_FLOAT(a), y = FIFTYONE_DEGREES_NATIVE_TO_FLOAT(b);
	memcpy(m->raw + 1, &x, 4); memcpy(m->raw + 5, &y, 4);
	m->rawlen = 9;
	sprintf(m->text, vr_chance(1, 2) ? "%.0f,%.0f" : "%.2f,%.3f", a, b);
}
static int same_value(int type, const mval *a, const mval *b) {
	if (type == T_TEXT) return !strcmp(a->text, b->text);
	return a->rawlen == b->rawlen && !memcmp(a->raw, b->raw, (size_t)a->rawlen);
}
static void make_value(mval *m, int type) {
	memset(m, 0, sizeof *m);
	if (type == T_TEXT) make_text(m->text);
	else if (type == T_COORD) make_coord(m);
	else make_ip(m, vr_chance(1, 2));
}
static void make(void) {
	memset(&f, 0, sizeof f);
	for (int k = 0; k < MAXC; k++) { buf[k] = malloc(big ? 6000000 : 100000); len[k] = 0; }
	nwords = 0;
	nv = nf = 0;
	np = big == 3 ? 257 + (int)vr_below(150) : big ? 1 + (int)vr_below(3) : vr_chance(1, 20) ? 0 : 1 + (int)vr_below(12);
	uint32_t texts[30]; int nt = 1 + (int)vr_below(12);
	for (int i = 0; i < nt; i++) { char t[40]; make_text(t); texts[i] = add_text(t); }
	/* properties and their values */
	for (int i = 0; i < np; i++) {
		mprop *p = &P[i];
		for (;;) { int j; if (big) sprintf(p->name, "p%u", vr_below(2000)); else make_text(p->name); for (j = 0; j < i && strcmp(P[j].name, p->name); j++) ; if (j == i) break; }
		p->type = vr_chance(2, 3) ? T_TEXT : vr_chance(1, 2) ? T_COORD : T_IP;
		int want = vr_chance(1, 8) ? 0 : vr_chance(1, 3) ? 1 + (int)vr_below(2) : 1 + (int)vr_below(25);
		if (p->type == T_COORD && want > 12) want = 12;
		if (big == 3 && want > 4) want = 4;
		if (big == 1 && i == np / 2) {
			p->type = vr_chance(1, 3) ? T_IP : T_TEXT;
			want = p->type == T_TEXT && vr_chance(1, 4) ? (vr_chance(1, 3) ? 32700 + (int)vr_below(200) : 65400 + (int)vr_below(400)) : 250 + (int)vr_below(500);
		}
		int a = nv;
		while (nv - a < want) {
			int j;
			make_value(&V[nv], p->type);
			if (want > 40 && p->type == T_TEXT) { memset(V[nv].text, 0, sizeof V[nv].text); sprintf(V[nv].text, "v%06d", (nv - a) * 3); nv++; continue; }
			for (j = a; j < nv && !same_value(p->type, &V[j], &V[nv]); j++) ;
			if (j == nv) nv++;
		}
		qsort(V + a, (size_t)want, sizeof *V, p->type == T_TEXT ? cmp_text : p->type == T_IP ? cmp_ip : cmp_raw);
		p->n = want;
		p->first = want ? (uint32_t)a : 0xFFFFFFFF; p->last = want ? (uint32_t)(nv - 1) : 0xFFFFFFFF;
		for (int j = a; j < nv; j++) {
			mval *v = &V[j];
			v->str = p->type == T_TEXT ? add_text(v->text) : add_raw(v->raw, v->rawlen);
			int16_t pi = (int16_t)i; uint32_t d = texts[vr_below((uint32_t)nt)], u = texts[vr_below((uint32_t)nt)];
			memcpy(v->rec, &pi, 2); memcpy(v->rec + 2, &v->str, 4); memcpy(v->rec + 6, &d, 4); memcpy(v->rec + 10, &u, 4);
			add(VAL, v->rec, 14);
		}
		p->str = add_text(p->name);
		unsigned char *r = p->rec;
		for (int j = 0; j < 8; j++) r[j] = (unsigned char)vr_below(j == 7 ? 9 : 2);
		uint32_t w[9] = { want ? p->first + vr_below((uint32_t)want) : 0, p->str, texts[vr_below((uint32_t)nt)], texts[vr_below((uint32_t)nt)], texts[vr_below((uint32_t)nt)], p->first, p->last, 0, 0 };
		memcpy(r + 8, w, sizeof w);
		add(PROP, r, 44);
	}
	if (sizeof(fiftyoneDegreesProperty) != 44 || sizeof(fiftyoneDegreesValue) != 14 || sizeof(fiftyoneDegreesProfile) != 9 || sizeof(fiftyoneDegreesComponent) != 19) vr_harness_error("record sizes changed");
	/* profiles */
	nf = big == 2 ? vr_chance(1, 3) ? 65500 + (int)vr_below(1000) : 250 + (int)vr_below(300) : big ? 1 + (int)vr_below(6) : vr_chance(1, 15) ? 0 : vr_chance(1, 4) ? 1 + (int)vr_below(3) : 1 + (int)vr_below(40);
	static int order[BIG];
	static uint32_t ids[BIG];
	for (int i = 0; i < nf; i++) {
		if (nf > 100) { ids[i] = i ? ids[i - 1] + 1 + vr_below(60000) : 1 + vr_below(5); order[i] = i; continue; }
		for (;;) { int j; ids[i] = vr_chance(1, 2) ? 1 + vr_below(60) : vr_chance(1, 4) ? 0xFFFFFFFF - vr_below(3) : (uint32_t)vr_rand(); if (!ids[i]) continue; for (j = 0; j < i && ids[j] != ids[i]; j++) ; if (j == i) break; }
		order[i] = i;
	}
	qsort(ids, (size_t)nf, 4, cmp_u32);
	for (int i = nf - 1; i > 0; i--) { int j = (int)vr_below((uint32_t)i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
	for (int q = 0; q < nf; q++) {
		mprof *m = &F[order[q]];
		m->id = ids[order[q]]; m->n = 0; m->pos = len[PROF];
		int dense = nf > 1000 ? 4 : big == 1 && vr_chance(1, 2) ? 3 : (int)vr_below(4);
		m->v = words + nwords;
		if (dense == 4) { int v = nv ? (int)vr_below((uint32_t)nv) : 0; for (int j = 0; j < 3 && v < nv; j++, v += 1 + (int)vr_below(3)) m->v[m->n++] = (uint32_t)v; }
		else for (int v = 0; v < nv; v++) if (dense == 3 || vr_chance(1, dense == 0 ? 20 : 3)) m->v[m->n++] = (uint32_t)v;
		nwords += (size_t)m->n; if (nwords > 690000) vr_harness_error("words");
		unsigned char c = (unsigned char)vr_below(3); uint32_t n = (uint32_t)m->n;
		add(PROF, &c, 1); add(PROF, &m->id, 4); add(PROF, &n, 4); add(PROF, m->v, 4 * n);
		m->len = 9 + 4 * m->n;
	}
	for (int i = 0; i < nf; i++) { add(OFF, &F[i].id, 4); add(OFF, &F[i].pos, 4); }
	/* components */
	nk = big == 3 && vr_chance(1, 2) ? 250 + (int)vr_below(50) : 1 + (int)vr_below(5);
	for (int i = 0; i < nk; i++) {
		mcomp *c = &K[i];
		make_text(c->name); uint32_t s = add_text(c->name);
		c->nkv = big == 3 && i == nk / 2 ? vr_chance(1, 3) ? 65535 - (int)vr_below(2) : vr_chance(1, 2) ? 32760 + (int)vr_below(20) : 250 + (int)vr_below(20) : vr_chance(1, 4) ? 0 : 1 + (int)vr_below(7);
		c->kv = words + nwords; nwords += 2 * (size_t)c->nkv; if (nwords > 690000) vr_harness_error("words"); c->off = len[COMP];
		c->defprof = nf ? (int)vr_below((uint32_t)nf) : -1;
		c->def = nf ? F[c->defprof].pos : 0;
		for (int j = 0; j < 2 * c->nkv; j++) c->kv[j] = (uint32_t)vr_rand();
		unsigned char id = (unsigned char)i; uint16_t n = (uint16_t)c->nkv;
		add(COMP, &id, 1); add(COMP, &s, 4); add(COMP, &c->def, 4); add(COMP, &n, 2); add(COMP, c->kv, 8 * n);
		c->len = 11 + 8 * c->nkv;
	}
	/* the file */
	f.nc = MAXC; { size_t all = 1000; for (int k = 0; k < MAXC; k++) all += len[k]; f.b = malloc(all); }
	size_t at = 1 + vr_below(20);
	memset(f.b, 0xEE, at);
	uint32_t cnt[] = { 0, (uint32_t)nk, (uint32_t)np, (uint32_t)nv, (uint32_t)nf, (uint32_t)nf }, es[] = { 0, 0, 44, 14, 0, 8 };
	for (int k = 0; k < MAXC; k++) {
		coll *c = &f.c[k];
		c->fixed = es[k] != 0; c->es = es[k]; c->is_count = c->fixed && vr_chance(1, 2); c->n = cnt[k] ? cnt[k] : k == STR ? 50 : 0;
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
		c->read = k == STR ? fiftyoneDegreesStringRead : k == COMP ? fiftyoneDegreesComponentReadFromFile : k == PROF ? fiftyoneDegreesProfileReadFromFile : NULL;
#endif
#endif
		c->len = len[k];
		c->hpos = (long)at; put32(f.b + at, c->is_count ? c->n : len[k]); at += 4; c->pos = (long)at;
		memcpy(f.b + at, buf[k], len[k]); at += len[k];
	}
	f.size = at;
	for (int k = 0; k < MAXC; k++) free(buf[k]);
}

/* ---- the checks ---- */
static fiftyoneDegreesException ex_; static fiftyoneDegreesException *const exception = &ex_;
static int broken;   /* an injected failure hit this call */
static const char *what = "";
/* Injects a failure into the next call with some chance. */
static void arm(void) {
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	broken = 0;
	if (!faulty || vr_chance(1, 2)) return;
	if (faulty == 1) io_fail_at(vr_chance(1, 2) ? IO_FREAD : IO_FSEEK, 1 + vr_below(vr_chance(1, 2) ? 4 : 40), 0);
	else vr_alloc_fail_at(1 + vr_below(vr_chance(1, 2) ? 3 : 30), vr_chance(1, 3));
}
/* After it: nonzero if the result counts. */
static int done(int absent_result) {
	if (faulty == 1) { broken = io_failed() != 0; io_fail_at(IO_FREAD, 0, 0); io_fail_at(IO_FSEEK, 0, 0); }
	if (faulty == 2) { broken = vr_alloc_failed() != 0; vr_alloc_no_fail(); }
	if (!broken) return 1;
	vr_count("faulted_calls", 1);
	if (FIFTYONE_DEGREES_EXCEPTION_FAILED) { vr_count("faults_reported", 1); VR_CHECK(absent_result, "lookup:result-of-failure", "%s: a failure is reported and a result is given", what); return 0; }
	return 1;
}
#define OK() VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "lookup:error", "%s: status %d", what, (int)exception->status)
#define FAILED() VR_CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED, "lookup:no-error", "%s: no error", what)
static fiftyoneDegreesCollectionItem item; 
static void fresh(void) { memset(&item, 0xA5, sizeof item); fiftyoneDegreesDataReset(&item.data); item.handle = NULL; item.collection = NULL; }
static void drop(int k) {
	HELD(1);
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	if (nheld) RELEASE(o.c[k], &item);
#endif
	HELD(0);
	(void)k;
}
static void check_profile(fiftyoneDegreesProfile *p, int want) {
	if (!done(p == NULL)) { HELD(0); return; }
	if (want < 0) { VR_CHECK(p == NULL, "lookup:absent", "%s: a profile is returned", what); vr_count("absent", 1); if (!p) { HELD(0); return; } }
	else {
		OK();
		VR_CHECK(p != NULL, "lookup:missed", "%s: nothing returned, expected profile %u", what, F[want].id);
		if (p) VR_CHECK(p->profileId == F[want].id && !memcmp(p, f.b + f.c[PROF].pos + F[want].pos, (size_t)F[want].len), "lookup:profile", "%s: profile %u, expected %u", what, p->profileId, F[want].id);
		vr_count("found", 1);
	}
	if (p) drop(PROF); else HELD(0);
}
static uint32_t pick_id(int *want) {
	uint32_t id = vr_chance(1, 20) ? 0 : vr_chance(1, 2) ? (uint32_t)vr_rand() : vr_below(70);
	if (nf && vr_chance(2, 3)) { id = F[vr_below((uint32_t)nf)].id; if (vr_chance(1, 3)) id += vr_chance(1, 2) ? 1 : 0xFFFFFFFF; }
	*want = -1;
	for (int i = 0; i < nf; i++) if (F[i].id == id) *want = i;
	return id;
}
static char note[200];
static void profiles(void) {
	int want; uint32_t id = pick_id(&want), off = 0;
	if (id == 0) return;
	if (vr_chance(1, 3)) {
		what = "offset of a profile id"; arm();
		uint32_t *r = fiftyoneDegreesProfileGetOffsetForProfileId(o.c[OFF], id, &off, exception);
		if (done(r == NULL)) {
			OK();
			VR_CHECK((r != NULL) == (want >= 0), "lookup:offset", "profile %u of %d: %s", id, nf, r ? "found, is not there" : "not found");
			if (r && want >= 0) VR_CHECK(*r == F[want].pos && off == F[want].pos, "lookup:offset", "profile %u at %u, expected %u", id, *r, F[want].pos);
			vr_count(r ? "found" : "absent", 1);
		}
		HELD(0);
	} else if (vr_chance(1, 2)) {
		what = "profile of an id"; arm(); fresh();
		fiftyoneDegreesProfile *p = fiftyoneDegreesProfileGetByProfileId(o.c[OFF], o.c[PROF], id, &item, exception);
		if (want < 0 && !faulty) OK();
		check_profile(p, want);
	} else {
		uint32_t i = vr_chance(1, 8) ? (uint32_t)nf + vr_below(3) : vr_below((uint32_t)nf + 1);
		what = "profile of an index"; arm(); fresh();
		fiftyoneDegreesProfile *p = fiftyoneDegreesProfileGetByIndex(o.c[OFF], o.c[PROF], i, &item, exception);
		if ((int)i >= nf) FAILED();
		check_profile(p, (int)i < nf ? (int)i : -1);
	}
}
/* a name to look a value of property p up by; the value expected or -1 */
static void pick_value(const mprop *p, char *t, int *want) {
	mval m;
	*want = -1;
	if (p->n && vr_chance(1, 2)) m = V[p->first + vr_below((uint32_t)p->n)];
	else make_value(&m, p->type);
	for (int i = 0; i < p->n; i++) if (same_value(p->type, &V[p->first + (uint32_t)i], &m)) *want = (int)p->first + i;
	strcpy(t, m.text);
	if (p->type == T_TEXT && vr_chance(1, 4)) {
		if (vr_chance(1, 4)) t[0] = 0; else if (vr_chance(1, 2)) strcat(t, "0"); else t[strlen(t) - 1] = 0;
		*want = -1;
		for (int i = 0; i < p->n; i++) if (!strcmp(V[p->first + (uint32_t)i].text, t)) *want = (int)p->first + i;
	}
	if (p->type == T_IP && vr_chance(1, 4)) { static const char *bad[] = { "", "nonsense", "Unknown", "address", "N/A" }; strcpy(t, bad[vr_below(5)]); *want = -1; }
	if (p->type == T_COORD && vr_chance(1, 4)) { static const char *bad[] = { "", "nonsense", "2", "2;8", "Unknown" }; strcpy(t, bad[vr_below(5)]); *want = -1; }
}
static fiftyoneDegreesProperty *prop_of(const mprop *p) { return (fiftyoneDegreesProperty *)p->rec; }
static void values(void) {
	if (!np) return;
	mprop *p = &P[vr_below((uint32_t)np)];
	char t[80]; int want;
	pick_value(p, t, &want);
	char *q = exact(t, strlen(t), 1);
	unsigned char *pc = malloc(44); memcpy(pc, p->rec, 44);
	snprintf(note, sizeof note, "value '%s' of %d of property '%s'", vr_esc(t, strlen(t)), p->n, vr_esc(p->name, strlen(p->name)));
	what = note;
	arm();
	if (vr_chance(1, 2)) {
		long i = fiftyoneDegreesValueGetIndexByName(o.c[VAL], o.c[STR], (fiftyoneDegreesProperty *)pc, q, exception);
		if (done(i < 0)) {
			OK();
			VR_CHECK(i == want, "lookup:value-index", "%s: index %ld, expected %d", what, i, want);
			vr_count(i >= 0 ? "found" : "absent", 1);
		}
		HELD(0);
	} else {
		fresh();
		fiftyoneDegreesValue *v = fiftyoneDegreesValueGetByName(o.c[VAL], o.c[STR], (fiftyoneDegreesProperty *)pc, q, &item, exception);
		if (done(v == NULL)) {
			OK();
			VR_CHECK((v != NULL) == (want >= 0), "lookup:value", "%s: %s", what, v ? "found, is not there" : "not found");
			if (v && want >= 0) VR_CHECK(!memcmp(v, V[want].rec, 14), "lookup:value", "%s: another value", what);
			vr_count(v ? "found" : "absent", 1);
			if (v) drop(VAL); else HELD(0);
		} else HELD(0);
	}
	free(q); free(pc);
}
static void check_string(fiftyoneDegreesString *s, uint32_t off) {
	if (!done(s == NULL)) { HELD(0); return; }
	OK();
	int16_t n; memcpy(&n, f.b + f.c[STR].pos + off, 2);
	VR_CHECK(s && !memcmp(s, f.b + f.c[STR].pos + off, 2u + (size_t)n), "lookup:string", "%s: another string", what);
	vr_count("strings", 1);
	if (s) drop(STR); else HELD(0);
}
static uint32_t u32(const unsigned char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static void value_by_index(void) {
	uint32_t i = nv && vr_chance(5, 6) ? vr_below((uint32_t)nv) : (uint32_t)nv + vr_below(vr_chance(1, 2) ? 3 : 0x7FFFFFFF);
	snprintf(note, sizeof note, "value %u of %d", i, nv); what = note; fresh(); arm();
	fiftyoneDegreesValue *v = fiftyoneDegreesValueGet(o.c[VAL], i, &item, exception);
	if (!done(v == NULL)) { HELD(0); return; }
	if ((int)i >= nv || (int)i < 0) { VR_CHECK(v == NULL, "lookup:value", "%s is returned", what); vr_count("absent", 1); if (v) drop(VAL); else HELD(0); return; }
	OK();
	VR_CHECK(v && !memcmp(v, V[i].rec, 14), "lookup:value", "%s: %s", what, v ? "another value" : "nothing");
	vr_count("found", 1); if (v) drop(VAL); else HELD(0);
}
static void strings(void) {
	int which = (int)vr_below(8);
	if (which < 3 && nv) {
		mval *v = &V[vr_below((uint32_t)nv)];
		what = "string of a value"; fresh(); arm();
		fiftyoneDegreesString *s = (which == 0 ? fiftyoneDegreesValueGetName : which == 1 ? fiftyoneDegreesValueGetDescription : fiftyoneDegreesValueGetUrl)(o.c[STR], (fiftyoneDegreesValue *)v->rec, &item, exception);
		check_string(s, u32(v->rec + 2 + 4 * which));
	} else if (which < 7 && np && which >= 3) {
		mprop *p = &P[vr_below((uint32_t)np)];
		what = "string of a property"; fresh(); arm();
		fiftyoneDegreesString *s = (which == 3 ? fiftyoneDegreesPropertyGetName : which == 4 ? fiftyoneDegreesPropertyGetDescription : which == 5 ? fiftyoneDegreesPropertyGetCategory : fiftyoneDegreesPropertyGetUrl)(o.c[STR], prop_of(p), &item, exception);
		check_string(s, u32(p->rec + 12 + 4 * (which - 3)));
	} else {
		int i = (int)vr_below((uint32_t)nk);
		mcomp *c = &K[i];
		unsigned char *b = malloc((size_t)c->len < sizeof(fiftyoneDegreesComponent) ? sizeof(fiftyoneDegreesComponent) : (size_t)c->len);
		memcpy(b, f.b + f.c[COMP].pos + c->off, (size_t)c->len);
		fiftyoneDegreesComponent *C = (fiftyoneDegreesComponent *)b;
		if (vr_chance(1, 3)) {
			what = "name of a component"; fresh(); arm();
			check_string(fiftyoneDegreesComponentGetName(o.c[STR], C, &item, exception), u32(b + 1));
		} else if (vr_chance(1, 2)) {
			what = "default profile"; arm();
			uint32_t id = fiftyoneDegreesComponentGetDefaultProfileId(o.c[PROF], C, exception);
			if (done(id == 0) && nf) { OK(); VR_CHECK(id == F[c->defprof].id, "lookup:default-profile", "component %d: default profile %u, expected %u", i, id, F[c->defprof].id); vr_count("found", 1); }
			HELD(0);
		} else {
			uint32_t k = vr_chance(1, 3) ? (uint32_t)c->nkv + vr_below(3) * vr_below(5) : vr_chance(1, 20) ? 65535 : vr_below((uint32_t)c->nkv + 1);
			what = "key value pair"; FIFTYONE_DEGREES_EXCEPTION_CLEAR;
			const fiftyoneDegreesComponentKeyValuePair *kv = fiftyoneDegreesComponentGetKeyValuePair(C, (uint16_t)k, exception);
			if ((int)k < c->nkv) {
				OK();
				VR_CHECK(kv && !memcmp(kv, &c->kv[2 * k], 8), "lookup:pair", "pair %u of %d: another", k, c->nkv);
				vr_count("found", 1);
			} else {
				VR_CHECK(kv == NULL, "lookup:pair-absent", "pair %u of %d: returned", k, c->nkv);
				FAILED(); vr_count("absent", 1);
			}
		}
		free(b);
	}
}
static void properties(void) {
	char t[40]; int want = -1;
	if (np && vr_chance(2, 3)) strcpy(t, P[vr_below((uint32_t)np)].name); else make_text(t);
	if (vr_chance(1, 6)) { if (vr_chance(1, 2)) strcat(t, "x"); else t[strlen(t) - 1] = 0; }
	if (vr_chance(1, 10)) flip_case(t, strlen(t), 1);
	for (int i = np - 1; i >= 0; i--) if (!strcmp(P[i].name, t)) want = i;
	uint32_t i = vr_below((uint32_t)np + 2);
	fiftyoneDegreesProperty *p;
	int how = (int)vr_below(4);
	fresh(); arm();
	if (how == 3) {
		what = "value type of a property";
		unsigned char b = fiftyoneDegreesPropertyGetValueType(o.c[PROP], i, exception);
		if (done(b == 0)) {
			if ((int)i < np) { OK(); VR_CHECK(b == P[i].rec[7], "lookup:value-type", "property %u: type %d, expected %d", i, b, P[i].rec[7]); vr_count("found", 1); }
			else { FAILED(); vr_count("absent", 1); }
		}
		HELD(0);
		return;
	}
	if (how == 2) { what = "property of an index"; p = fiftyoneDegreesPropertyGet(o.c[PROP], i, &item, exception); want = (int)i < np ? (int)i : -1; }
	else {
		char *q = exact(t, strlen(t), 1);
		snprintf(note, sizeof note, "property '%s' of %d", vr_esc(t, strlen(t)), np); what = note;
		p = fiftyoneDegreesPropertyGetByName(o.c[PROP], o.c[STR], q, &item, exception);
		free(q);
	}
	if (done(p == NULL)) {
		if (how == 2 && want < 0) FAILED(); else OK();
		VR_CHECK((p != NULL) == (want >= 0), "lookup:property", "%s: %s", what, p ? "found, is not there" : "not found");
		if (p && want >= 0) VR_CHECK(!memcmp(p, P[want].rec, 44), "lookup:property", "%s: another property", what);
		vr_count(p ? "found" : "absent", 1);
		if (p) drop(PROP); else HELD(0);
	} else HELD(0);
}
/* iterations */
typedef struct { int stop, n, keep; uint64_t canary; const void *data[64]; int nd; } it_state;
static it_state S; static uint32_t S_v[BIG], S_ids[BIG];
static int kept; static fiftyoneDegreesCollectionItem keeps[16];
static bool cb_value(void *state, fiftyoneDegreesCollectionItem *it) {
	if (state != &S) { vr_fail("lookup:state", "another state"); return false; }
	/* which value it is: by its record */
	uint32_t v = 0xFFFFFFFF;
	uint32_t str; memcpy(&str, (const unsigned char *)it->data.ptr + 2, 4);
	int lo = 0, hi = nv; /* their strings are in their order */
	while (lo < hi) { int mid = (lo + hi) / 2; if (V[mid].str < str) lo = mid + 1; else hi = mid; }
	if (lo < nv && !memcmp(it->data.ptr, V[lo].rec, 14)) v = (uint32_t)lo;
	if (S.n < BIG) S_v[S.n] = v;
	S.n++;
	if (kept < S.keep && kept < 16) keeps[kept++] = *it;
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	else RELEASE(o.c[VAL], it);
#endif
	return S.n != S.stop;
}
static bool cb_profile(void *state, fiftyoneDegreesCollectionItem *it) {
	if (state != &S) { vr_fail("lookup:state", "another state"); return false; }
	if (S.n < BIG) S_ids[S.n] = ((fiftyoneDegreesProfile *)it->data.ptr)->profileId;
	S.n++;
	return S.n != S.stop;
}
static void iterate_values(void) {
	if (!np || !nf) return;
	mprop *p = &P[vr_below((uint32_t)np)]; mprof *m = &F[vr_below((uint32_t)nf)];
	/* the profile and the property in blocks of exactly their size */
	unsigned char *pb = malloc((size_t)m->len), *rb = malloc(44);
	memcpy(pb, f.b + f.c[PROF].pos + m->pos, (size_t)m->len); memcpy(rb, p->rec, 44);
	static uint32_t want[BIG]; int n = 0;
	for (int i = 0; i < m->n; i++) if (m->v[i] >= p->first && m->v[i] <= p->last) want[n++] = m->v[i];
	memset(&S, 0, sizeof S);
	S.stop = vr_chance(1, 3) ? 1 + (int)vr_below(5) : 0;
	S.keep = faulty ? 0 : (int)vr_below((uint32_t)o.s[VAL].hold);
	kept = 0;
	if (S.stop && S.stop < n) { n = S.stop; vr_count("stopped", 1); }
	what = "values of a profile"; arm();
	uint32_t r = fiftyoneDegreesProfileIterateValuesForProperty(o.c[VAL], (fiftyoneDegreesProfile *)pb, (fiftyoneDegreesProperty *)rb, &S, cb_value, exception);
	int counts = done(1);
	if (counts) OK();
	VR_CHECK(r == (uint32_t)S.n, "lookup:count", "%s: %u returned after %d callbacks", what, r, S.n);
	VR_CHECK(counts ? S.n == n : S.n <= n, "lookup:calls", "%s: %d callbacks, expected %d (profile of %d values, property of %d, stop at %d)", what, S.n, n, m->n, p->n, S.stop);
	for (int i = 0; i < S.n && i < n; i++) VR_CHECK(S_v[i] == want[i], "lookup:order", "%s: callback %d has value %u, expected %u", what, i, S_v[i], want[i]);
	HELD(kept);
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	while (kept) { kept--; VR_CHECK(!memcmp(keeps[kept].data.ptr, V[S_v[kept]].rec, 14), "lookup:kept", "a kept value changed"); RELEASE(o.c[VAL], &keeps[kept]); }
	HELD(0);
#endif
	vr_count("iterated_values", (uint64_t)S.n); vr_count("iterations", 1);
	free(pb); free(rb);
}
static void iterate_profiles(void) {
	if (!np) return;
	mprop *p = &P[vr_below((uint32_t)np)];
	char t[80], nm[40]; int want;
	pick_value(p, t, &want);
	strcpy(nm, p->name);
	if (vr_chance(1, 10)) { strcat(nm, "?"); want = -1; }
	static uint32_t ids[BIG]; int n = 0;
	for (int i = 0; i < nf && want >= 0; i++) for (int j = 0; j < F[i].n; j++) if (F[i].v[j] == (uint32_t)want) ids[n++] = F[i].id;
	memset(&S, 0, sizeof S);
	S.stop = vr_chance(1, 3) ? 1 + (int)vr_below(5) : 0;
	if (S.stop && S.stop < n) { n = S.stop; vr_count("stopped", 1); }
	char *a = exact(nm, strlen(nm), 1), *b = exact(t, strlen(t), 1);
	snprintf(note, sizeof note, "profiles with '%s' of '%s'", vr_esc(t, strlen(t)), vr_esc(nm, strlen(nm))); what = note; arm();
	uint32_t r = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(o.c[STR], o.c[PROP], o.c[VAL], o.c[PROF], o.c[OFF], a, b, &S, cb_profile, exception);
	int counts = done(1);
	if (counts) OK();
	VR_CHECK(r == (uint32_t)S.n, "lookup:count", "%s: %u returned after %d callbacks", what, r, S.n);
	VR_CHECK(counts ? S.n == n : S.n <= n, "lookup:calls", "%s: %d callbacks, expected %d (stop at %d)", what, S.n, n, S.stop);
	for (int i = 0; i < S.n && i < n; i++) VR_CHECK(S_ids[i] == ids[i], "lookup:order", "%s: callback %d has profile %u, expected %u", what, i, S_ids[i], ids[i]);
	HELD(0);
	vr_count("iterated_profiles", (uint64_t)S.n); vr_count("iterations", 1);
	free(a); free(b);
}
static void components(void) {
	if (o.s[COMP].cfg.capacity && o.s[COMP].hold < nk) return;
	fiftyoneDegreesList l;
	fiftyoneDegreesListReset(&l);
	what = "list of components"; arm();
	fiftyoneDegreesComponentInitList(o.c[COMP], &l, (uint32_t)nk, exception);
	if (done(1)) {
		OK();
		VR_CHECK(l.count == (uint32_t)nk, "lookup:components", "%u components, expected %d", l.count, nk);
		vr_count("component_lists", 1);
	}
	HELD((int)l.count);
	for (uint32_t i = 0; i < l.count && (int)i < nk; i++) VR_CHECK(!memcmp(l.items[i].data.ptr, f.b + f.c[COMP].pos + K[i].off, (size_t)K[i].len), "lookup:component", "component %u is another", i);
	fiftyoneDegreesListFree(&l);
	nheld = 0;
}

void vr_setup(void) { oom = (int)vr_opt_int("oom", 0); vr_alloc_install(); }
void vr_teardown(void) {}
void vr_run_case(uint64_t i) {
	(void)i;
	char path[500];
	int handles = 1 + (int)vr_below(4), before = vr_open_fds(), st = (int)vr_below(ST_N + 1) - 1, inject = vr_opt_int("faults", 0) != 0;
	snprintf(path, sizeof path, "%s/data.bin", vr_scratch());
	big = vr_chance(1, 700) ? 1 + (int)vr_below(3) : 0;
	if (big) vr_count(big == 1 ? "very_many_values" : big == 2 ? "very_many_profiles" : "very_many_properties", 1);
	make();
	if (vr_chance(1, 150)) { f.base = vr_chance(1, 2) ? 0x7FFFFFFFl - (long)vr_below((uint32_t)f.size) : 0xFFFFFFFFl - (long)f.size - (long)vr_below(100); vr_count("far_in_file", 1); }
	cfile_write(&f, path, f.size);
	vr_alloc_reset(); faulty = 0;
	io_begin();
	if (open_all(&o, &f, path, f.size, st, handles, 1) != MAXC) {
		vr_fail("lookup:open", "%s: collection %d refused (%s)", st < 0 ? "mixed" : st_name[st], o.opened, o.err ? o.err : ""); goto end;
	}
	for (int k = 0; k < MAXC; k++) if (o.s[k].st == ST_CACHE || o.s[k].st == ST_PARTIAL_CACHE) vr_count("cached", 1);
	wrap();
	vr_count("data_sets", 1);
	for (int s = 40; s > 0; s--) {
		faulty = inject ? oom ? 2 : 1 : 0;
		switch (vr_below(8)) {
		case 0: profiles(); break;
		case 1: case 2: values(); break;
		case 3: if (vr_chance(1, 3)) value_by_index(); else strings(); break;
		case 4: properties(); break;
		case 5: iterate_values(); break;
		case 6: iterate_profiles(); break;
		default: components(); break;
		}
	}
	if (vr_want_sample()) vr_sample("%d properties, %d values, %d profiles, %d components as %s", np, nv, nf, nk, st < 0 ? "mixed" : st_name[st]);
	vr_distinct("nontrivial", vr_mix(vr_hash(f.b, f.size, 1), (uint64_t)st + 1));
	check_handles(&o, handles, "lookup:handles");
end:
	close_all(&o);
	VR_CHECK(io_open_files() == 0 && vr_open_fds() == before, "lookup:open-files", "%d files left open", io_open_files());
	io_end();
	if (vr_alloc_live()) { char b[300]; vr_alloc_describe_live(b, sizeof b); VR_CHECK(0, "lookup:leak", "%s", b); }
	free(f.b);
}
