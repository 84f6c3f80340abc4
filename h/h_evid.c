/* Evidence, evidence composed for combined headers, and overrides in evidence,
 * against plain models. mode: 0 evidence, 1 combined headers, 2 overrides. */
#include "hitem.h"
const char *vr_harness = "evid";
typedef fiftyoneDegreesEvidenceKeyValuePair pair;
typedef fiftyoneDegreesEvidenceKeyValuePairArray pairs;
#define SEP '\x1F'
#define P_HEADER FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING
#define P_IPS FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_IP_ADDRESSES
#define P_SERVER FIFTYONE_DEGREES_EVIDENCE_SERVER
#define P_QUERY FIFTYONE_DEGREES_EVIDENCE_QUERY
#define P_COOKIE FIFTYONE_DEGREES_EVIDENCE_COOKIE
#define P_IGNORE FIFTYONE_DEGREES_EVIDENCE_IGNORE
static const fiftyoneDegreesEvidencePrefix prefixes[] = { P_HEADER, P_IPS, P_SERVER, P_QUERY, P_COOKIE, P_IGNORE };
static int mode, oom;
/* ---- the evidence as it was added ---- */
#define ME 70000
#define MEV 64 /* in the cases of few pairs */
typedef struct { int prefix; char *f, *v; } mev;
static mev E[ME]; static int nE;
static int text_least; /* 1: never empty */
static char *text(uint32_t max) {
	uint32_t n = vr_chance(1, 10) ? (uint32_t)text_least : vr_below(max) + 1; char *s = malloc(n + 1);
	for (uint32_t i = 0; i < n; i++) s[i] = vr_chance(1, 12) ? (char)(1 + vr_below(255)) : (char)('a' + vr_below(26));
	s[n] = 0; return s;
}
static void drop_evidence(void) { for (int i = 0; i < nE; i++) { free(E[i].f); free(E[i].v); } nE = 0; }
/* true if it was added */
static int add(pairs *ev, int prefix, char *f, char *v) {
	uint32_t before = ev->count;
	pair *p = fiftyoneDegreesEvidenceAddString(ev, (fiftyoneDegreesEvidencePrefix)prefix, f, v);
	if (before == ev->capacity) {
		VR_CHECK(p == NULL && ev->count == before, "evidence:over-capacity", "a pair was added to full evidence of %u", before);
		vr_count("adds_refused", 1); free(f); free(v); return 0;
	}
	VR_CHECK(p == &ev->items[before] && ev->count == before + 1, "evidence:add", "pair %u was not added", before);
	if (p) VR_CHECK(p->field == f && p->originalValue == v && (int)p->prefix == prefix, "evidence:added", "pair %u is not what was added", before);
	E[nE].prefix = prefix; E[nE].f = f; E[nE++].v = v;
	return 1;
}
/* ---- iteration ---- */
typedef struct { const pair *p; const char *f; const void *v; int prefix; } want;
static want W[ME * 2]; static int nW, seen, stop_at;
static bool on_pair(void *state, pair *p) {
	VR_CHECK(state == (void*)W, "evidence:state", "another state was given");
	if (seen >= nW) vr_fail("evidence:extra", "pair '%s' was given after the %d wanted", p->field, nW);
	else {
		want *w = &W[seen];
		VR_CHECK(p == w->p && p->field == w->f && p->originalValue == w->v && (int)p->prefix == w->prefix, "evidence:order", "callback %d of %d has '%s' and not '%s'", seen, nW, p->field, w->f);
		VR_CHECK(p->parsedValue == w->v, "evidence:value", "the value of '%s' was changed", p->field);
	}
	seen++; vr_count("pairs_seen", 1);
	return seen != stop_at;
}
static void expect(const pairs *a, int mask) {
	for (uint32_t i = 0; i < a->count; i++) if (((int)a->items[i].prefix & mask) == (int)a->items[i].prefix) {
		W[nW].p = &a->items[i]; W[nW].f = a->items[i].field; W[nW].v = a->items[i].originalValue; W[nW++].prefix = (int)a->items[i].prefix;
	}
}
static void iterate(pairs *ev) {
	int mask = 0;
	for (size_t i = 0; i < sizeof prefixes / sizeof *prefixes; i++) if (vr_chance(1, 2)) mask |= (int)prefixes[i];
	if (vr_chance(1, 6)) mask = 0xff;
	nW = 0; seen = 0; expect(ev, mask); if (ev->pseudoEvidence) expect(ev->pseudoEvidence, mask);
	stop_at = vr_chance(1, 3) ? 1 + (int)vr_below((uint32_t)nW + 2) : 0;
	int exp = stop_at && stop_at < nW ? stop_at : nW;
	uint32_t r = fiftyoneDegreesEvidenceIterate(ev, mask, W, on_pair);
	VR_CHECK(seen == exp, "evidence:count", "%d callbacks for %d wanted pairs, stopping at %d", seen, nW, stop_at);
	VR_CHECK(r == (uint32_t)exp, "evidence:returned", "%u returned after %d callbacks", r, exp);
	if (stop_at && stop_at < nW) vr_count("stopped", 1);
}
static void check_kept(pairs *ev) {
	if (nE > 1000 && !vr_chance(1, 3000)) return;
	for (int i = 0; i < nE && i < (int)ev->count; i++)
		VR_CHECK(ev->items[i].field == E[i].f && ev->items[i].originalValue == E[i].v && (int)ev->items[i].prefix == E[i].prefix, "evidence:kept", "pair %d changed", i);
}
static void map_prefix(void) {
	static const struct { const char *s; int p; } known[] = { { "server.", P_SERVER }, { "header.", P_HEADER }, { "query.", P_QUERY }, { "cookie.", P_COOKIE } };
	char k[80] = ""; int w = -1;
	switch (vr_below(4)) {
	case 0: case 1: strcpy(k, known[vr_below(4)].s); break;
	case 2: strcpy(k, known[vr_below(4)].s); k[vr_below((uint32_t)strlen(k))] = "xsS.h\0"[vr_below(6)]; break;
	default: break;
	}
	char *t = text(20); if (!vr_chance(1, 5)) strcat(k, t);
	free(t);
	for (int i = 0; i < 4; i++) if (!strncmp(k, known[i].s, strlen(known[i].s)) && strlen(k) > strlen(known[i].s)) w = i;
	char *e = exact(k, strlen(k), 1);
	fiftyoneDegreesEvidencePrefixMap *m = fiftyoneDegreesEvidenceMapPrefix(e);
	VR_CHECK((m != NULL) == (w >= 0), "evidence:prefix", "key '%s' %s a prefix", vr_esc(k, strlen(k)), m ? "was given" : "was not given");
	if (m && w >= 0) VR_CHECK((int)m->prefixEnum == known[w].p && m->prefixLength == strlen(known[w].s) && !strcmp(m->prefix, known[w].s), "evidence:prefix-other", "key '%s' has prefix '%s'", vr_esc(k, strlen(k)), m->prefix);
	if (w >= 0) vr_count("prefixes_found", 1);
	free(e);
	for (size_t i = 0; i < sizeof prefixes / sizeof *prefixes; i++) {
		const char *s = fiftyoneDegreesEvidencePrefixString(prefixes[i]), *x = NULL;
		for (int j = 0; j < 4; j++) if (known[j].p == (int)prefixes[i]) x = known[j].s;
		VR_CHECK(x ? s && !strcmp(s, x) : !s, "evidence:prefix-string", "prefix %d is '%s'", (int)prefixes[i], s ? s : "none");
	}
}
static void evidence_case(void) {
	uint32_t cap = vr_chance(1, 12000) ? 65500 + vr_below(400) : vr_chance(1, 600) ? 250 + vr_below(20) : vr_chance(1, 12) ? 0 : 1 + vr_below(vr_chance(1, 4) ? 40 : 6); uint64_t h = cap;
	pairs *ev = fiftyoneDegreesEvidenceCreate(cap), *second = NULL; uint32_t sc = vr_below(5);
	if (!ev) vr_harness_error("no evidence");
	VR_CHECK(ev->count == 0 && ev->capacity == cap && !ev->pseudoEvidence, "evidence:new", "new evidence is not empty");
	char *sf[5], *sv[5]; uint32_t sn = 0;
	if (vr_chance(1, 2)) { second = fiftyoneDegreesEvidenceCreate(sc); ev->pseudoEvidence = second; }
	for (int ops = (int)vr_below(cap * 2 + 8); ops > 0; ops--) {
		if (vr_chance(2, 3) || (cap > 1000 && !vr_chance(1, 4000)) || (cap > 200 && !vr_chance(1, 10))) { int p = (int)prefixes[vr_below(6)]; char *f = text(12), *v = text(40); h = vr_hash(f, strlen(f), vr_mix(h, (uint64_t)p)); if (nE < ME) add(ev, p, f, v); else { free(f); free(v); } }
		else if (second && sn < sc && vr_chance(1, 2)) { sf[sn] = text(9); sv[sn] = text(9); fiftyoneDegreesEvidenceAddString(second, prefixes[vr_below(6)], sf[sn], sv[sn]); sn++; }
		else iterate(ev);
		check_kept(ev);
	}
	iterate(ev); check_kept(ev); map_prefix();
	if (nE > 60000) vr_count("pairs_over_60000", 1); else if (nE > 255) vr_count("pairs_over_255", 1);
	if (cap > 1) vr_distinct("nontrivial", h);
	if (vr_want_sample()) vr_sample("evidence of %u pairs, capacity %u, second %u", ev->count, cap, sn);
	fiftyoneDegreesEvidenceFree(second); fiftyoneDegreesEvidenceFree(ev);
	for (uint32_t i = 0; i < sn; i++) { free(sf[i]); free(sv[i]); }
	drop_evidence();
	VR_CHECK(vr_alloc_live() == 0, "evidence:leak", "%zu blocks left", vr_alloc_live());
}
/* ---- combined headers ---- */
/* a formatting call that fails */
#include <stdarg.h>
static int print_at, print_failed;
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
	if (print_at > 0 && --print_at == 0) { print_failed = 1; return -1; }
	va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a);
	return r;
}
/* evidence that makes a combined value of exactly n characters */
static void add_total(pairs *ev, int prefix, const char *name, uint32_t n) {
	uint32_t k = 0;
	for (const char *s = name; *s; ) { size_t l = strcspn(s, "\x1F"); if (l) k++; s += l; if (*s) s++; }
	if (!k || n < 2 * k) return;
	n -= k - 1;
	for (const char *s = name; *s; ) {
		size_t l = strcspn(s, "\x1F");
		if (l) {
			uint32_t m = k == 1 ? n : 1 + vr_below(n - k); k--; n -= m;
			char *v = malloc(m + 1); memset(v, 'x', m); v[m] = 0;
			if (ev->count < ev->capacity) add(ev, prefix, exact(s, l, 1), v); else free(v);
		}
		s += l; if (*s) s++;
	}
	vr_count("exact_totals", 1);
}
#define MH 320
static char H[MH][1400]; static int nH;
static long get(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	(void)state;
	if ((int)i >= nH) return -1;
	hitem_string(item, H[i]);
	return (long)i + 1;
}
static char longpart[300];
static const char *part[] = { "a", "User-Agent", "Sec-CH-UA", "Sec-CH-UA-Mobile", "b", "A-b", "Sec-CH-UA-M", longpart };
#define NPART 7
static int accepted(int p, const fiftyoneDegreesEvidencePrefix *o, size_t n) { for (size_t i = 0; i < n; i++) if ((int)o[i] == p) return 1; return 0; }
static const char *value_of(const char *s, size_t n, int prefix) {
	for (int i = 0; i < nE; i++) if (E[i].prefix == prefix && same_nocase(E[i].f, strlen(E[i].f), s, n)) return E[i].v;
	return NULL;
}
static void pseudo_case(void) {
	int single = vr_chance(1, 8); uint64_t h = 3;
	int scale = vr_chance(1, 1500) ? 1 + (int)vr_below(5) : 0, nparts = scale == 2 ? NPART + 1 : NPART; /* 1: many headers, 2: long names, 3: long values, 4: many pairs, 5: many parts */
	nH = scale == 1 ? 260 + (int)vr_below(60) : 1 + (int)vr_below(10);
	if (scale) { size_t l = 250 + vr_below(12); memset(longpart, 'q', l); longpart[l] = 0; vr_count((const char *[]){ "", "many_headers", "long_names", "long_values", "many_pairs", "header_of_many_parts" }[scale], 1); }
	for (int i = 0; i < nH; i++) {
		H[i][0] = 0; int k = scale == 5 && i == 0 ? 256 + (int)vr_below(60) : scale != 1 && vr_chance(1, 4) ? 1 : 2 + (int)vr_below(3);
		for (int j = 0; j < k; j++) { if (j) strcat(H[i], "\x1F"); if (single && vr_chance(1, 6)) strcat(H[i], "\x1F"); strcat(H[i], part[k > 255 ? 4 * vr_below(2) : vr_below((uint32_t)nparts)]); }
		if (single && vr_chance(1, 4)) strcat(H[i], "\x1F");
		h = vr_hash(H[i], strlen(H[i]) + 1, h);
	}
	fiftyoneDegreesHeaders *hs = fiftyoneDegreesHeadersCreate(vr_chance(1, 2), NULL, get);
	if (!hs) vr_harness_error("no headers");
	uint32_t pc = (uint32_t)hs->pseudoHeadersCount;
	if (vr_chance(1, 6)) pc = vr_below(pc + 2);
	size_t size = scale == 3 && vr_chance(1, 2) ? 65500 + vr_below(400) : scale ? 200 + vr_below(400) : 2 + vr_below(vr_chance(1, 3) ? 12 : 120);
	pairs *pe = fiftyoneDegreesEvidenceCreate(pc); char *b[MH * 2];
	if (!pe || pc >= MH * 2) vr_harness_error("pseudo evidence");
	for (uint32_t i = 0; i < pc; i++) { b[i] = malloc(size); memset(b[i], 0, size); pe->items[i].originalValue = b[i]; }
	text_least = single; /* a composed value is never empty */
	for (int round = 1 + (int)vr_below(3); round > 0; round--) {
		pairs *ev = fiftyoneDegreesEvidenceCreate(scale == 4 ? 800 : MEV); ev->pseudoEvidence = pe;
		fiftyoneDegreesEvidencePrefix order[3]; size_t on = 1 + vr_below(3); static const fiftyoneDegreesEvidencePrefix po[] = { P_QUERY, P_HEADER, P_COOKIE };
		if (vr_chance(2, 3)) { on = 2; order[0] = P_QUERY; order[1] = P_HEADER; }
		else { uint32_t s = vr_below(3); for (size_t i = 0; i < on; i++) order[i] = po[(s + i) % 3]; }
		if (vr_chance(1, 60)) add_total(ev, (int)order[0], H[vr_below((uint32_t)nH)], scale == 3 && vr_chance(1, 2) ? 65536 : vr_chance(1, 2) ? 256 : vr_chance(1, 2) ? 512 : (uint32_t)size + vr_below(3) - 1);
		if (scale && scale != 3 && vr_chance(1, 2)) for (int j = 0; j < nparts; j++) add(ev, (int)order[0], exact(part[j], strlen(part[j]), 1), text(8));
		if (scale == 2 && vr_chance(1, 2)) { const char *n = H[vr_below((uint32_t)nH)]; add(ev, (int)order[on - 1], exact(n, strlen(n), 1), text(8)); }
		for (int n = scale == 4 ? 250 + (int)vr_below(400) : (int)vr_below(16); n > 0; n--) {
			char f[1500]; strcpy(f, vr_chance(1, 8) ? H[vr_below((uint32_t)nH)] : part[vr_below((uint32_t)nparts)]);
			if (vr_chance(1, 2)) flip_case(f, strlen(f), 0);
			if (vr_chance(1, 20)) f[strlen(f) - 1]++;
			char *v = vr_chance(1, 20) ? NULL : text(scale == 3 && vr_chance(1, 2) ? (size > 65000 ? 40000 : 300) : vr_chance(1, 8) ? 100 : 8);
			if (scale == 4 && vr_chance(4, 5)) f[strlen(f) - 1]++; /* of no header, mostly */
			add(ev, vr_chance(1, 8) ? (int)P_SERVER : vr_chance(1, 8) ? (int)P_COOKIE : vr_chance(1, 2) ? (int)P_QUERY : (int)P_HEADER, exact(f, strlen(f), 1), v);
			h = vr_hash(f, strlen(f), h);
		}
		if (vr_chance(1, 50)) { /* without one of its arguments nothing is composed */
			fiftyoneDegreesException xn; xn.status = FIFTYONE_DEGREES_STATUS_NOT_SET; uint32_t was = pe->count; int which = (int)vr_below(2);
			fiftyoneDegreesPseudoHeadersAddEvidence(which == 0 ? NULL : ev, which == 1 ? NULL : hs, size, order, on, &xn);
			VR_CHECK(xn.status == FIFTYONE_DEGREES_STATUS_NULL_POINTER && pe->count == was, "combined:null", "a call without its argument %d gives status %d and %u composed", which, (int)xn.status, pe->count - was);
			vr_count("null_arguments", 1);
		}
		uint32_t before = pe->count; fiftyoneDegreesException ex; fiftyoneDegreesException *exception = &ex;
		FIFTYONE_DEGREES_EXCEPTION_CLEAR;
		print_failed = 0; print_at = vr_chance(1, 40) ? 1 + (int)vr_below(4) : 0;
		fiftyoneDegreesPseudoHeadersAddEvidence(ev, hs, size, order, on, &ex);
		print_at = 0;
		if (print_failed) {
			VR_CHECK(ex.status == FIFTYONE_DEGREES_STATUS_ENCODING_ERROR, "combined:failure", "a value that could not be written gave status %d", (int)ex.status);
			VR_CHECK(pe->count == 0, "combined:failure-left", "%u composed left after a failure", pe->count);
			for (uint32_t i = 0; i < pc; i++) {
				VR_CHECK(pe->items[i].originalValue == b[i], "combined:buffer", "buffer %u changed", i);
				if (i >= before) continue; /* not in use */
				for (size_t k = 0; k < size; k++) if (b[i][k]) { vr_fail("combined:failure-left", "byte %zu of buffer %u is not cleared after a failure", k, i); break; }
			}
			check_kept(ev); iterate(ev); vr_count("failures_reported", 1);
			fiftyoneDegreesEvidenceFree(ev); drop_evidence();
			continue;
		}
		VR_CHECK(ex.status == FIFTYONE_DEGREES_STATUS_NOT_SET, "combined:status", "status %d", (int)ex.status);
		uint32_t at = before;
		for (uint32_t i = 0; i < hs->count; i++) {
			const char *name = hs->items[i].name; size_t nl = strlen(name); int supplied = 0;
			if (!strchr(name, SEP)) continue;
			for (int e = 0; e < nE; e++) supplied |= accepted(E[e].prefix, order, on) && same_nocase(E[e].f, strlen(E[e].f), name, nl);
			if (supplied) { vr_count("supplied", 1); continue; }
			static char full[400000]; int pref = 0, parts = 0;
			for (size_t o = 0; o < on && !pref; o++) {
				int ok = 1; full[0] = 0; parts = 0;
				for (const char *s = name; ok && *s; ) {
					size_t l = strcspn(s, "\x1F");
					if (l) { const char *v = value_of(s, l, (int)order[o]); if (!v) ok = 0; else { if (parts++) strcat(full, "\x1F"); strcat(full, v); } }
					s += l; if (*s) s++;
				}
				if (ok && parts) { pref = (int)order[o]; if (o) vr_count("from_later_prefix", 1); }
			}
			if (!pref) { vr_count("not_composed", 1); continue; }
			if (at >= pc) { vr_count("no_space", 1); continue; }
			if (at >= pe->count) { vr_fail("combined:missing", "nothing was composed for '%s'", vr_esc(name, nl)); break; }
			pair *p = &pe->items[at];
			VR_CHECK(p->field && same_nocase(p->field, strlen(p->field), name, nl), "combined:name", "'%s' was composed instead of '%s'", p->field ? vr_esc(p->field, strlen(p->field)) : "none", vr_esc(name, nl));
			VR_CHECK((int)p->prefix == pref, "combined:prefix", "'%s' was composed from %d and not %d", vr_esc(name, nl), (int)p->prefix, pref);
			VR_CHECK(p->originalValue == b[at], "combined:buffer", "'%s' has another buffer", vr_esc(name, nl));
			const char *g = b[at]; size_t gl = strnlen(g, size), fl = strlen(full), el = fl < size ? fl : size - 1;
			VR_CHECK(gl < size, "combined:ended", "the value of '%s' is not ended", vr_esc(name, nl));
			VR_CHECK(gl == el && !memcmp(g, full, el), "combined:value", "'%s' is '%s' and not '%s' (%zu bytes)", vr_esc(name, nl), vr_esc(g, gl), vr_esc(full, el), size);
			if (fl >= size) vr_count("cut", 1);
			at++; vr_count("composed", 1);
		}
		VR_CHECK(pe->count == at, "combined:count", "%u composed and not %u", pe->count, at);
		VR_CHECK(pe->count <= pe->capacity, "combined:capacity", "%u composed in space for %u", pe->count, pe->capacity);
		check_kept(ev); iterate(ev);
		if (vr_chance(3, 4) || round == 1) {
			fiftyoneDegreesPseudoHeadersRemoveEvidence(ev, size);
			VR_CHECK(pe->count == 0, "combined:removed", "%u left after they were removed", pe->count);
			for (uint32_t i = 0; i < at; i++) {
				VR_CHECK(pe->items[i].originalValue == b[i] && pe->items[i].field == NULL, "combined:removed", "composed evidence %u is not removed", i);
				for (size_t k = 0; k < size; k++) if (b[i][k]) { vr_fail("combined:cleared", "byte %zu of composed evidence %u is not cleared", k, i); break; }
			}
			check_kept(ev); iterate(ev); vr_count("removed", 1);
		}
		fiftyoneDegreesEvidenceFree(ev); drop_evidence();
	}
	vr_distinct("nontrivial", h);
	if (vr_want_sample()) vr_sample("%d names, %u headers, %u combined, space for %u of %zu bytes", nH, hs->count, (unsigned)hs->pseudoHeadersCount, pc, size);
	for (uint32_t i = 0; i < pc; i++) free(b[i]);
	fiftyoneDegreesEvidenceFree(pe); fiftyoneDegreesHeadersFree(hs);
	VR_CHECK(vr_alloc_live() == 0, "combined:leak", "%zu blocks left", vr_alloc_live());
}
/* ---- overrides ---- */
#define MP 440
static const char *pname[] = { "IsMobile", "ScreenPixelsWidth", "ScreenPixelsWidthJavaScript", "X", "Is", "Javascript", "ScreenPixelsHeight", "51Degrees", "y", "IsMobileX", "ProfileIds", "SuspiciouslyLongPropertyNameForTheseChecks" };
#define NNAME 12
static char bigname[470][16];
static int nnames;
static const char *name_of(int k) { return k < NNAME ? pname[k] : bigname[k]; }
static int allowed[MP];
static bool filter(void *state, uint32_t i) { VR_CHECK(state == (void*)allowed, "override:state", "another state"); return allowed[i] != 0; }
static uint32_t ids[2000]; static int nids; static uint32_t gids[2000]; static int ngids;
static void on_id(void *state, uint32_t id) { VR_CHECK(state == (void*)ids, "profile:state", "another state"); if (ngids < 2000) gids[ngids] = id; ngids++; }
static const char *strip(const char *f, int prefix) { return prefix && strlen(f) > 4 && same_nocase(f, 4, "51D_", 4) ? f + 4 : f; }
static struct { int idx; char *v; } mv[MP]; static int nmv;
static char *copy_of(const char *s) { return exact(s, strlen(s), 1); }
static int lost; /* an allocation failed: what has no value is not known */
static int model_add(int idx, const char *v, int cap) {
	int i = 0; while (i < nmv && mv[i].idx != idx) i++;
	if (i == nmv) { if (nmv == cap) return 0; mv[nmv].v = NULL; mv[nmv++].idx = idx; }
	free(mv[i].v); mv[i].v = copy_of(v); return 1;
}
static void model_clear(void) { for (int i = 0; i < nmv; i++) free(mv[i].v); nmv = 0; }
static void check_values(fiftyoneDegreesOverrideValueArray *va, int np, int cap) {
	int found = 0;
	VR_CHECK(va->count <= (uint32_t)cap && va->capacity == (uint32_t)cap, "override:capacity", "%u values in space for %d", va->count, cap);
	for (int i = 0; i < np + 2; i++) {
		int m = 0; while (m < nmv && mv[m].idx != i) m++;
		const char *w = m < nmv ? mv[m].v : NULL;
		fiftyoneDegreesCollectionItem item; memset(&item, 0x5A, sizeof item);
		fiftyoneDegreesString *s = fiftyoneDegreesOverrideValuesGetFirst(va, (uint32_t)i, &item);
		bool has = fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(va, (uint32_t)i);
		VR_CHECK(has == (s != NULL), "override:has", "property %d has a value %d and gives %s", i, has, s ? "one" : "none");
		if (lost) { if (!s) continue; found++; VR_CHECK(w && !strcmp(&s->value, w), "override:value-lost-memory", "property %d is '%s'", i, vr_esc(&s->value, strlen(&s->value))); }
		else VR_CHECK((s != NULL) == (w != NULL), "override:present", "property %d %s a value", i, s ? "has" : "does not have");
		if (s && w) {
			size_t n = strlen(w) + 1;
			VR_CHECK(!strcmp(&s->value, w), "override:value", "property %d is '%s' and not '%s'", i, vr_esc(&s->value, strlen(&s->value)), vr_esc(w, n - 1));
			VR_CHECK(s->size == (int)(n > 32767 ? 32767 : n), "override:size", "size %d of %zu bytes", s->size, n);
			VR_CHECK(item.data.allocated == 0 && item.data.used == 0, "override:item", "the item owns the memory of the value"); item.collection->release(&item); vr_count("values_found", 1);
		}
		fiftyoneDegreesList l; uint32_t lc = vr_below(3);
		if (fiftyoneDegreesListInit(&l, lc ? lc : 1)) {
			if (!lc) l.capacity = 0;
			uint32_t k = fiftyoneDegreesOverrideValuesAdd(va, (uint32_t)i, &l);
			VR_CHECK(k == (s && lc ? 1u : 0u) && l.count == k, "override:list", "%u values of property %d were added to space for %u", k, i, lc);
			if (k) VR_CHECK(fiftyoneDegreesListGetAsString(&l, 0) == s, "override:list-value", "another value was added");
			fiftyoneDegreesListFree(&l);
		}
	}
	if (lost) VR_CHECK(va->count == (uint32_t)found, "override:count", "%u values and %d found", va->count, found);
}
static void profile_ids(void) {
	int many = vr_chance(1, 2000); if (many) vr_count("many_profile_ids", 1);
	pairs *ev = fiftyoneDegreesEvidenceCreate(8); nids = ngids = 0;
	for (int n = (int)vr_below(5); n > 0; n--) {
		static const char *const keys[] = { "ProfileIds", "51D_ProfileIds", "profileids", "51d_PROFILEIDS", "ProfileId", "51D_", "51DProfileIds", "51D_51D_ProfileIds", "ProfileIdsX" };
		const char *k = keys[vr_below(9)]; int p = (int)prefixes[vr_below(6)]; static char v[20000]; v[0] = 0;
		for (int j = many ? 255 + (int)vr_below(100) : (int)vr_below(8); j > 0; j--) {
			char d[40]; uint64_t x = vr_chance(1, 4) ? 4294967290u + vr_below(12) : vr_chance(1, 6) ? vr_rand() : vr_chance(1, 4) ? 2147483640u + vr_below(16) : vr_below(100000);
			snprintf(d, sizeof d, "%s%llu%s", vr_chance(1, 10) ? "000" : "", (unsigned long long)x, vr_chance(1, 12) ? "0123456789012" : "");
			strcat(v, d);
			static const char *const sep[] = { "-", "|", ",", " ", "--", "x", ".", "\xC3\xA9" }; strcat(v, sep[vr_chance(1, 2) ? 0 : vr_below(8)]);
		}
		if (v[0] && vr_chance(1, 2)) v[strlen(v) - 1] = 0;
		if ((p == (int)P_QUERY || p == (int)P_COOKIE) && same_nocase(strip(k, 1), strlen(strip(k, 1)), "ProfileIds", 10))
			for (char *s = v; *s; ) if (*s >= '0' && *s <= '9') { char *e; unsigned __int128 x = 0; for (e = s; *e >= '0' && *e <= '9'; e++) if (x < ((unsigned __int128)1 << 100)) x = x * 10 + (unsigned)(*e - '0'); if (x <= UINT32_MAX) ids[nids++] = (uint32_t)x; s = e; } else s++;
		add(ev, p, copy_of(k), copy_of(v));
	}
	fiftyoneDegreesOverrideProfileIds(ev, ids, on_id);
	VR_CHECK(ngids == nids, "profile:count", "%d profile ids and not %d", ngids, nids);
	for (int i = 0; i < nids && i < ngids; i++) VR_CHECK(gids[i] == ids[i], "profile:id", "profile id %d is %u and not %u", i, gids[i], ids[i]);
	vr_count("profile_ids", (uint64_t)ngids);
	fiftyoneDegreesEvidenceFree(ev); drop_evidence();
}
static void override_case(void) {
	int big = vr_chance(1, 3000), np = big ? 380 + (int)vr_below(50) : 1 + (int)vr_below(10), used[470] = { 0 }, nov = 0; uint64_t h = 7; const char *names[MP];
	fiftyoneDegreesPropertiesAvailable av; fiftyoneDegreesPropertyAvailable *ai = malloc(sizeof *ai * (size_t)np); memset(ai, 0, sizeof *ai * (size_t)np);
	av.items = ai; av.count = av.capacity = (uint32_t)np; lost = 0;
	nnames = big ? 460 : NNAME;
	if (big) { for (int k = NNAME; k < 460; k++) snprintf(bigname[k], sizeof bigname[k], "Prop%d", k); vr_count("many_properties", 1); }
	for (int i = 0; i < np; i++) {
		int k; do k = (int)vr_below((uint32_t)nnames); while (used[k]);
		used[k] = 1; names[i] = name_of(k); hitem_string(&ai[i].name, name_of(k)); h = vr_mix(h, (uint64_t)k);
		allowed[i] = vr_chance(3, 4); nov += allowed[i];
	}
	for (int i = 0; i < np; i++) {
		int w = -1; for (int j = np - 1; j >= 0; j--) if (j != i && strlen(names[j]) > strlen(names[i]) && !strncmp(names[j], names[i], strlen(names[i]))) w = j;
		int g = fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex(&av, (uint32_t)i);
		VR_CHECK(g == w, "override:overriding", "property '%s' may be overridden by %d and not %d", names[i], g, w);
	}
	int prefix = vr_chance(1, 2), cap = vr_chance(1, 3) ? (int)vr_below((uint32_t)nov + 1) : nov;
	fiftyoneDegreesOverridePropertyArray *op = fiftyoneDegreesOverridePropertiesCreate(&av, prefix, allowed, filter);
	VR_CHECK((op != NULL) == (nov > 0), "override:none", "%d properties can be overridden", nov);
	if (op) VR_CHECK(op->count == (uint32_t)nov, "override:properties", "%u properties and not %d", op->count, nov);
	fiftyoneDegreesOverrideValueArray *va = fiftyoneDegreesOverrideValuesCreate((uint32_t)cap);
	if (!va) vr_harness_error("no values");
	for (int round = 1 + (int)vr_below(4); round > 0; round--) {
		pairs *ev = fiftyoneDegreesEvidenceCreate(big ? 2500 : MEV); uint32_t matched = 0;
		if (oom) vr_alloc_fail_at(1 + vr_below(6), vr_chance(1, 3));

		if (vr_chance(1, 4)) { /* added one by one */
			for (int n = (int)vr_below(6); n > 0; n--) {
				int idx = (int)vr_below((uint32_t)np + 1) - 1; char *v = text(20);
				int f0 = vr_alloc_failed();
				bool r = fiftyoneDegreesOverridesAdd(va, idx, v);
				if (vr_alloc_failed() > f0) { VR_CHECK(!r, "override:add-memory", "added without memory"); lost = 1; int m = 0; while (m < nmv && mv[m].idx != idx) m++; if (m < nmv) { free(mv[m].v); mv[m] = mv[--nmv]; } }
				else { int w = idx >= 0 && model_add(idx, v, cap); VR_CHECK(lost || r == w, "override:add", "adding a value of property %d gave %d", idx, r); }
				free(v);
			}
		}
		for (int n = big ? 400 + (int)vr_below(2000) : (int)vr_below(20); n > 0; n--) {
			char f[100] = ""; if (vr_chance(1, 2)) strcpy(f, vr_chance(1, 10) ? "51D" : "51D_");
			strcat(f, vr_chance(2, 3) ? names[vr_below((uint32_t)np)] : name_of((int)vr_below((uint32_t)nnames))); if (vr_chance(1, 15)) f[strlen(f) - 1]++;
			if (vr_chance(1, 2)) flip_case(f, strlen(f), 0);
			char *v;
			if (vr_chance(1, 200)) { size_t big = 32760 + vr_below(20); if (vr_chance(1, 3)) big = 70000; v = malloc(big + 1); memset(v, 'v', big); v[big] = 0; } else v = text(vr_chance(1, 3) ? 60 : 8);
			h = vr_hash(f, strlen(f), h);
			add(ev, vr_chance(1, 4) ? (int)prefixes[vr_below(6)] : vr_chance(1, 2) ? (int)P_QUERY : (int)P_COOKIE, copy_of(f), v);
		}
		int f0 = vr_alloc_failed(), first = nmv;
		uint32_t r = fiftyoneDegreesOverridesExtractFromEvidence(op, va, ev);
		if (vr_alloc_failed() > f0) lost = 1;
		if (oom) { vr_count("allocation_failures", (uint64_t)vr_alloc_failed()); vr_alloc_no_fail(); }
		if (op) for (int e = 0; e < nE; e++) if (E[e].prefix == (int)P_QUERY || E[e].prefix == (int)P_COOKIE) {
			const char *s = strip(E[e].f, prefix); int idx = -1;
			for (int i = 0; i < np; i++) if (allowed[i] && same_nocase(names[i], strlen(names[i]), s, strlen(s))) idx = i;
			if (idx >= 0) { matched++; if (!model_add(idx, E[e].v, lost ? MP : cap)) vr_count("no_space", 1); }
		}
		VR_CHECK(r <= matched, "override:extracted", "%u values were extracted and %u were given", r, matched);
		if (!lost) VR_CHECK(r >= (uint32_t)(nmv - first), "override:extracted", "%u values were extracted and there are %d", r, nmv - first);
		if (lost) { /* only that what is there is one of the values given */
			VR_CHECK(va->count <= va->capacity, "override:capacity", "%u values", va->count);
			for (int i = 0; i < np; i++) {
				fiftyoneDegreesCollectionItem item; fiftyoneDegreesString *s = fiftyoneDegreesOverrideValuesGetFirst(va, (uint32_t)i, &item);
				VR_CHECK((s != NULL) == fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(va, (uint32_t)i), "override:has", "property %d", i);
				if (s) { vr_count("values_found", 1); (void)strlen(&s->value); }
			}
		} else check_values(va, np, cap);
		vr_count("overrides_given", matched);
		fiftyoneDegreesEvidenceFree(ev); drop_evidence();
		if (lost || vr_chance(1, 2)) {
			fiftyoneDegreesOverrideValuesReset(va); model_clear(); lost = 0; vr_count("resets", 1);
			check_values(va, np, cap);
		}
	}
	profile_ids();
	vr_distinct("nontrivial", h);
	if (vr_want_sample()) vr_sample("%d properties, %d can be overridden, space for %d, prefix %d: %d values", np, nov, cap, prefix, nmv);
	model_clear();
	fiftyoneDegreesOverrideValuesFree(va); fiftyoneDegreesOverridePropertiesFree(op);
	for (int i = 0; i < np; i++) hitem_release(&ai[i].name);
	free(ai);
	VR_CHECK(vr_alloc_live() == 0, "override:leak", "%zu blocks left", vr_alloc_live());
	fiftyoneDegreesOverrideValuesFree(NULL); fiftyoneDegreesOverrideValuesReset(NULL);
}
void vr_run_case(uint64_t i) {
	(void)i;
	vr_alloc_reset(); vr_alloc_no_fail(); hitem_begin();
	if (mode == 0) evidence_case(); else if (mode == 1) pseudo_case(); else override_case();
}
void vr_setup(void) { mode = (int)vr_opt_int("mode", 0); oom = (int)vr_opt_int("oom", 0); vr_alloc_install(); vr_alloc_scribble(1); }
void vr_teardown(void) {}
