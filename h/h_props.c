/* Required and available properties against a plain model of sets of names. */
#include "hitem.h"
const char *vr_harness = "props";
#define FEWP 40
#define MAXP 400
#define MAXL 40000
static char arena[4 << 20]; static size_t arena_used;
static char *keep_text(const char *s) {
	size_t n = strlen(s) + 1;
	if (arena_used + n > sizeof arena) vr_harness_error("arena");
	char *r = arena + arena_used; arena_used += n;
	return memcpy(r, s, n);
}
static const char *names[MAXP]; static int nnames;
/* 1: many names, 2: long names */
static int scale; static char longname[3][MAXL];
static int gets, fail_at;
static fiftyoneDegreesString *get(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	(void)state; gets++;
	if ((int)i >= nnames) return NULL;
	if (fail_at && gets == fail_at) return NULL;
	return hitem_string(item, names[i]);
}
static uint32_t evid_of(uint32_t p, uint32_t k) { return (uint32_t)vr_mix(p * 31 + k, (uint64_t)strlen(names[p])) & 0xFFFFFF; }
static uint32_t evid_n(uint32_t p) { return (uint32_t)(vr_mix(p, names[p][0]) % 4); }
static uint32_t evid(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	(void)state;
	if (p->propertyIndex >= (uint32_t)nnames) { vr_fail("props:evidence-index", "evidence properties asked for property %u of %d", p->propertyIndex, nnames); return 0; }
	uint32_t n = evid_n(p->propertyIndex);
	if (e) {
		VR_CHECK(e->capacity == n, "props:evidence-capacity", "room for %u of %u evidence properties", e->capacity, n);
		for (uint32_t i = 0; i < n && i < e->capacity; i++) e->items[i] = evid_of(p->propertyIndex, i);
	}
	return n;
}
static const char *base[] = { "IsMobile", "ismobile2", "SetHeaderBrowserAccept-CH", "SetHeaderPlatform", "setheader", "SetHead", "Set", "S", "Id", "a", "A_", "AB", "A-B", "a[", "Z", "z{", "_x", "BrowserName", "BrowserVersion", "JavascriptHardwareProfile", "PlatformName", "ScreenPixelsWidth", "screenpixelswidthJavaScript", "caf\xC3\xA9", "\xC3\x89t", "9lives", "x.y", "MySetHeader" };
#define NBASE (int)(sizeof base / sizeof *base)
static int find(const char *s, size_t n) { for (int i = 0; i < nnames; i++) if (same_nocase(names[i], strlen(names[i]), s, n)) return i; return -1; }
static void make_names(int keep) {
	const char *old[MAXP]; int nold = keep ? nnames : 0;
	memcpy(old, names, sizeof old); nnames = 0;
	int want = scale == 1 ? 250 + (int)vr_below(140) : scale == 2 ? 1 + (int)vr_below(5) : 1 + (int)vr_below(vr_chance(1, 3) ? FEWP - 1 : 8);
	for (int t = 0; t < (scale == 1 ? 2000 : 400) && nnames < want; t++) {
		static char b[MAXL];
		if (scale == 2 && vr_chance(2, 3)) { strcpy(b, longname[vr_below(3)]); if (vr_chance(1, 3)) b[strlen(b) - 1] = "xyz"[vr_below(3)]; }
		else if (scale == 1 && vr_chance(4, 5)) sprintf(b, "%s%u", base[vr_below(4)], vr_below(600));
		else if (nold && vr_chance(2, 3)) strcpy(b, old[vr_below((uint32_t)nold)]);
		else if (vr_chance(1, 3)) { int l = 1 + (int)vr_below(12); for (int i = 0; i < l; i++) b[i] = "abcXYZ_-[]09."[vr_below(13)]; b[l] = 0; }
		else strcpy(b, base[vr_below(NBASE)]);
		if (vr_chance(1, 4)) flip_case(b, strlen(b), 0);
		if (find(b, strlen(b)) >= 0) continue;
		names[nnames++] = keep_text(b);
	}
}
static void lookup(fiftyoneDegreesPropertiesAvailable *a, const char *s, const char *in) {
	char *q = exact(s, strlen(s), 1);
	int r = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, q);
	int p = fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, q);
	int m = find(s, strlen(s)); if (m >= 0 && !in[m]) m = -1;
	VR_CHECK((r >= 0) == (m >= 0), "props:find", "property '%s': required index %d, expected %savailable", s, r, m >= 0 ? "" : "un");
	VR_CHECK(p == m, "props:find-index", "property '%s': property index %d, expected %d", s, p, m);
	if (r >= 0 && m >= 0) {
		vr_count("found", 1);
		VR_CHECK(r < (int)a->count && fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, r) == m, "props:index", "property '%s': its required index is that of another property", s);
		fiftyoneDegreesString *n = fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, r);
		VR_CHECK(n && !strcmp(&n->value, names[m]), "props:name", "property '%s' has the name '%s'", s, n ? &n->value : "none");
	} else vr_count("absent", 1);
	free(q);
}
static void verify(fiftyoneDegreesPropertiesAvailable *a, const char *in) {
	int want = 0, sh = 0;
	for (int i = 0; i < nnames; i++) { want += in[i] != 0; sh |= in[i] && strlen(names[i]) >= 9 && same_nocase(names[i], 9, "SetHeader", 9); }
	VR_CHECK(a->count == (uint32_t)want && a->count <= a->capacity, "props:count", "%u available properties in room for %u, expected %d", a->count, a->capacity, want);
	char seen[MAXP] = { 0 };
	for (uint32_t i = 0; i < a->count; i++) {
		uint32_t p = a->items[i].propertyIndex;
		VR_CHECK(p < (uint32_t)nnames && in[p] && !seen[p], "props:member", "available property %u is property %u, which %s", i, p, p >= (uint32_t)nnames ? "does not exist" : !in[p] ? "was not asked for" : "is there already");
		if (p >= (uint32_t)nnames) continue;
		seen[p] = 1;
		fiftyoneDegreesEvidenceProperties *e = a->items[i].evidenceProperties;
		VR_CHECK(e && e->count == evid_n(p), "props:evidence", "property '%s' has %u evidence properties, expected %u", names[p], e ? e->count : 0, evid_n(p));
		if (e) for (uint32_t k = 0; k < e->count && k < evid_n(p); k++) VR_CHECK(e->items[k] == evid_of(p, k), "props:evidence", "evidence property %u of '%s' is that of another", k, names[p]);
	}
	for (int i = 0; i < nnames; i++) {
		static char b[MAXL + 10];
		lookup(a, names[i], in);
		strcpy(b, names[i]); flip_case(b, strlen(b), vr_chance(1, 2)); lookup(a, b, in);
		strcat(b, "x"); lookup(a, b, in);
		strcpy(b, names[i]); b[strlen(b) - 1] = 0; lookup(a, b, in);
	}
	for (int i = 0; i < NBASE; i++) lookup(a, base[i], in);
	lookup(a, "zzzzzz", in); lookup(a, "!", in);
	static const int odd[] = { -1, -2147483647 - 1, 2147483647 };
	for (int i = 0; i < 3; i++) VR_CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, odd[i]) == -1, "props:index-range", "required index %d has a property", odd[i]);
	VR_CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, (int)a->count) == -1, "props:index-range", "the required index after the last has a property");
	VR_CHECK(fiftyoneDegreesPropertiesIsSetHeaderAvailable(a) == sh, "props:set-header", "a SetHeader property is %savailable, expected otherwise", sh ? "not " : "");
	vr_count("lists_verified", 1); if (sh) vr_count("with_set_header", 1);
}
void vr_setup(void) { vr_alloc_install(); vr_alloc_scribble(1); }
void vr_teardown(void) {}
void vr_run_case(uint64_t n) {
	int oom = vr_opt_int("oom", 0);
	vr_alloc_reset(); vr_alloc_no_fail(); hitem_begin(); gets = fail_at = 0; nnames = 0; arena_used = 0;
	scale = !oom && vr_chance(1, 1200) ? 1 + (int)vr_below(2) : 0;
	if (scale) vr_count(scale == 1 ? "many_names" : "long_names", 1);
	if (scale == 2) for (int i = 0; i < 3; i++) {
		size_t l = vr_chance(1, 4) ? 32000 + vr_below(700) : 120 + vr_below(1100);
		if (i && vr_chance(1, 2)) { l = strlen(longname[0]) - vr_below(3) * 128; if (l > 33000) l = 200; } 
		memset(longname[i], 'q', l); longname[i][l] = 0; if (vr_chance(1, 2)) longname[i][vr_below((uint32_t)l)] = "pr"[vr_below(2)];
		if (vr_chance(1, 3)) memcpy(longname[i], "SetHeader", 9);
	}
	make_names(0);
	fiftyoneDegreesPropertiesAvailable *prev = NULL; char in[MAXP], in2[MAXP]; uint64_t hash = 1;
	int rounds = oom ? 1 : 1 + (int)vr_below(4);
	for (int r = 0; r < rounds; r++) {
		fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault, *rp = &req;
		int how = prev && vr_chance(2, 3) ? 4 : (int)vr_below(4);
		char *arr[620]; int na = 0; static char str[2000000]; str[0] = 0;
		memset(in2, 0, sizeof in2);
		int wanted = 0;
		if (how == 4) {
			const char *oldn[MAXP]; int nold = nnames; memcpy(oldn, names, sizeof names);
			make_names(1);
			for (int i = 0; i < nold; i++) if (in[i]) { int f = find(oldn[i], strlen(oldn[i])); if (f >= 0) in2[f] = 1, wanted++; }
			req.existing = prev;
			/* the existing list decides whatever else is asked for */
			if (vr_chance(1, 4)) req.string = "IsMobile";
		} else if (how == 0) {
			memset(in2, 1, sizeof in2);
			if (vr_chance(1, 3)) rp = NULL; else if (vr_chance(1, 2)) req.string = "";
			else if (vr_chance(1, 2)) { req.array = (const char **)arr; req.count = 0; }
		} else {
			int k = scale == 1 ? 250 + (int)vr_below(350) : 1 + (int)vr_below(vr_chance(1, 4) && !scale ? 100 : 8);
			for (int i = 0; i < k; i++) {
				static char b[MAXL + 10];
				if (vr_chance(1, 5)) strcpy(b, base[vr_below(NBASE)]);
				else if (vr_chance(1, 8)) { strcpy(b, names[vr_below((uint32_t)nnames)]); if (vr_chance(1, 2)) strcat(b, "s"); else if (b[1]) b[strlen(b) - 1] = 0; }
				else strcpy(b, names[vr_below((uint32_t)nnames)]);
				if (vr_chance(1, 3)) flip_case(b, strlen(b), 0);
				int f = find(b, strlen(b)); if (f >= 0) in2[f] = 1, wanted++;
				arr[na++] = exact(b, strlen(b), 1);
				if (i || vr_chance(1, 10)) do strncat(str, "|, " + vr_below(3), 1); while (vr_chance(1, 6));
				strcat(str, b);
			}
			if (vr_chance(1, 8)) strcat(str, ",");
			if (how == 1) { req.array = (const char **)arr; req.count = na; if (vr_chance(1, 6)) req.string = "a"; }
			else req.string = str;
		}
		char *xstr = NULL; if (req.string == str) req.string = xstr = exact(str, strlen(str), 1);
		hash = vr_hash(in2, (size_t)nnames, vr_mix(hash, (uint64_t)how)); for (int i = 0; i < nnames; i++) hash = vr_hash(names[i], strlen(names[i]), hash);
		int base_live = hitem_live; size_t base_alloc = vr_alloc_live();
		int held = prev ? (int)prev->count : 0; (void)held;
		int reps = oom ? 200 : 1;
		for (int t = 1; t <= reps; t++) {
			gets = fail_at = 0;
			if (oom) vr_alloc_fail_at((uint64_t)t, vr_chance(1, 3));
			else if (vr_chance(1, 12)) fail_at = 1 + (int)vr_below((uint32_t)nnames * 6);
			fiftyoneDegreesPropertiesAvailable *a = fiftyoneDegreesPropertiesCreate(rp, NULL, get, evid);
			int failed = vr_alloc_failed(); vr_alloc_no_fail();
			if (oom && failed) {
				vr_count("allocation_failures", 1); vr_distinct("nontrivial", vr_mix(hash, (uint64_t)t));
				/* reported by no list, or a property without its evidence properties */
				int missing = a == NULL;
				if (a) for (uint32_t i = 0; i < a->count; i++) missing |= a->items[i].evidenceProperties == NULL;
				VR_CHECK(missing, "props:oom", "no sign that allocation %d failed", t);
			} else if (!fail_at) {
				/* a required string of which nothing exists gives no list */
				if (how == 2 || how == 3) VR_CHECK((a != NULL) == (wanted > 0), "props:none", "%s list for the required '%s'", a ? "a" : "no", str);
				else VR_CHECK(a != NULL, "props:none", "no list of properties");
				if (a) { verify(a, in2); vr_distinct("nontrivial", hash); }
			} else vr_count("failed_reads", 1);
			if (a && !fail_at && !failed && HITEM_COUNTED) VR_CHECK(hitem_live == base_live + (int)a->count, "props:items-held", "%d names held for %u properties", hitem_live - base_live, a->count);
			if (!a) VR_CHECK(hitem_live == base_live, "props:items-held", "%d names held without a list", hitem_live - base_live);
			if (oom || fail_at || r == rounds - 1 || !a) {
				fiftyoneDegreesPropertiesFree(a);
				VR_CHECK(hitem_live == base_live && vr_alloc_live() == base_alloc, "props:leak", "%d names and %zu blocks left", hitem_live - base_live, vr_alloc_live() - base_alloc);
				if (!oom) { r = rounds; }
			} else {
				if (prev) { fiftyoneDegreesPropertiesFree(prev); }
				prev = a; memcpy(in, in2, sizeof in);
			}
			if (oom && !failed) break;
		}
		for (int i = 0; i < na; i++) free(arr[i]);
		free(xstr);
		if (r >= rounds) break;
	}
	fiftyoneDegreesPropertiesFree(prev);
	VR_CHECK(hitem_live == 0 && vr_alloc_live() == 0, "props:leak", "at the end %d names and %zu blocks are left", hitem_live, vr_alloc_live());
	if (vr_want_sample()) vr_sample("case %llu: %d names, first '%s'", (unsigned long long)n, nnames, nnames ? names[0] : "");
}
