/* Strings against character by character definitions, on exact blocks */
#include "vrt.h"
#include "fiftyone.h"
#include <stdlib.h>
#include <string.h>
const char *vr_harness = "string";
void vr_setup(void) { vr_alloc_install(); }
void vr_teardown(void) {}

static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int any; /* bytes above 127 too */
static char letter(void) {
	static const char few[] = "aAbBzZ@[`{ 0";
	if (any && vr_chance(1, 3)) return (char)(128 + vr_below(128));
	if (vr_chance(1, 6)) return (char)(1 + vr_below(127));
	return few[vr_below(vr_chance(1, 2) ? 4 : 12)];
}
static size_t gen(char *s, size_t max) {
	size_t n = vr_below((uint32_t)max + 1);
	for (size_t i = 0; i < n; i++) s[i] = letter();
	s[n] = 0;
	return n;
}
/* a copy of n bytes with nothing readable after them */
static char *block(const char *s, size_t n) { char *p = malloc(n ? n : 1); memcpy(p, s, n); return p; }
static int sign(int v) { return (v > 0) - (v < 0); }
static int def_cmp(const char *a, const char *b, size_t n) {
	for (size_t i = 0; i < n; i++) {
		int x = lower((unsigned char)a[i]), y = lower((unsigned char)b[i]);
		if (x != y) return x < y ? -1 : 1;
		if (!x) return 0;
	}
	return 0;
}
/* b made from a: other case, one character changed, cut, extended */
static size_t vary(const char *a, size_t n, char *b, size_t max) {
	memcpy(b, a, n + 1);
	for (size_t i = 0; i < n; i++) if (vr_chance(1, 2)) {
		if (b[i] >= 'a' && b[i] <= 'z') b[i] -= 32;
		else if (b[i] >= 'A' && b[i] <= 'Z') b[i] += 32;
	}
	switch (vr_below(5)) {
	case 0: if (n) b[vr_below((uint32_t)n)] = letter(); break;
	case 1: if (n) b[n = vr_below((uint32_t)n)] = 0; break;
	case 2: while (n < max && vr_chance(2, 3)) b[n++] = letter(); b[n] = 0; break;
	case 3: if (n) b[vr_below((uint32_t)n)] ^= 32; for (size_t i = 0; i < n; i++) if (!b[i]) b[i] = ' '; break;
	default: break;
	}
	return n;
}
static void compare(void) {
	char a[64], b[80];
	size_t n = gen(a, 40), m = vr_chance(1, 6) ? gen(b, 40) : vary(a, n, b, 60);
	char *x = block(a, n + 1), *y = block(b, m + 1);
	int want = def_cmp(a, b, 1000), got = fiftyoneDegreesStringCompare(x, y), rev = fiftyoneDegreesStringCompare(y, x);
	VR_CHECK((got == 0) == (want == 0), "string:compare", "'%s' and '%s' compare as %d", vr_esc(a, n), vr_esc(b, m), got);
	VR_CHECK(sign(got) == -sign(rev), "string:compare-antisymmetric", "'%s' and '%s' compare as %d and back as %d", vr_esc(a, n), vr_esc(b, m), got, rev);
	if (!any) VR_CHECK(sign(got) == want, "string:compare-order", "'%s' and '%s' compare as %d", vr_esc(a, n), vr_esc(b, m), got);
	vr_count(want ? "different" : "same", 1);
	vr_distinct("nontrivial", vr_hash(a, n, vr_hash(b, m, 24)));
	if (vr_want_sample()) vr_sample("compare '%s' with '%s': %d", vr_esc(a, n), vr_esc(b, m), got);
	free(x); free(y);
	/* transitive */
	if (!any) {
		char c[100]; size_t o = vary(b, m, c, 90);
		char *z = block(c, o + 1); x = block(a, n + 1);
		VR_CHECK(sign(fiftyoneDegreesStringCompare(x, z)) == def_cmp(a, c, 1000), "string:compare-order", "'%s' and '%s'", vr_esc(a, n), vr_esc(c, o));
		free(z); free(x);
	}
}
static void compare_length(void) {
	char a[64], b[80];
	size_t n = gen(a, 40), m = vr_chance(1, 6) ? gen(b, 40) : vary(a, n, b, 60), len = n < m ? n : m;
	if (vr_chance(1, 3)) len = vr_below((uint32_t)len + 1);
	/* neither terminated: only len bytes may be read */
	char *x = block(a, len), *y = block(b, len);
	if (len == 0) { char *e = x; x = e + 1; y++; }
	int want = def_cmp(a, b, len), got = fiftyoneDegreesStringCompareLength(x, y, len);
	VR_CHECK((got == 0) == (want == 0), "string:length", "'%s' and '%s' over %zu compare as %d", vr_esc(a, n), vr_esc(b, m), len, got);
	if (!any) VR_CHECK(sign(got) == want, "string:length-order", "'%s' and '%s' over %zu compare as %d", vr_esc(a, n), vr_esc(b, m), len, got);
	vr_count(want ? "length_different" : "length_same", 1);
	if (len == 0) { x--; y--; }
	free(x); free(y);
	/* a difference at character k decides and nothing after it is needed */
	if (want && len) {
		size_t k = 0;
		while (lower((unsigned char)a[k]) == lower((unsigned char)b[k])) k++;
		x = block(a, k + 1); y = block(b, k + 1);
		got = fiftyoneDegreesStringCompareLength(x, y, k + 1);
		VR_CHECK(got != 0, "string:length", "'%s' and '%s' over %zu are equal", vr_esc(a, n), vr_esc(b, m), k + 1);
		got = fiftyoneDegreesStringCompareLength(x, y, k);
		VR_CHECK(got == 0, "string:length", "'%s' and '%s' over %zu differ", vr_esc(a, n), vr_esc(b, m), k);
		free(x); free(y);
	}
}
static void sub_string(void) {
	char a[64], b[80];
	size_t n = gen(a, 50), m;
	if (vr_chance(1, 4)) { /* few letters: many near misses */
		for (size_t i = 0; i < n; i++) a[i] = "abAB"[vr_below(4)];
	}
	if (n && vr_chance(3, 4)) {
		size_t at = vr_below((uint32_t)n), l = 1 + vr_below((uint32_t)(n - at));
		char t[64]; memcpy(t, a + at, l); t[l] = 0;
		m = vary(t, l, b, 60);
	} else m = gen(b, 6);
	if (m == 0) { b[0] = letter(); b[m = 1] = 0; } /* an empty one: not specified */
	long want = -1;
	for (size_t i = 0; i + m <= n && want < 0; i++) {
		size_t k = 0;
		while (k < m && lower((unsigned char)a[i + k]) == lower((unsigned char)b[k])) k++;
		if (k == m) want = (long)i;
	}
	char *x = block(a, n + 1), *y = block(b, m + 1), *r = fiftyoneDegreesStringSubString(x, y);
	long got = r ? (long)(r - x) : -1;
	VR_CHECK(got == want, "string:substring", "'%s' in '%s' found at %ld, is at %ld", vr_esc(b, m), vr_esc(a, n), got, want);
	vr_count(want >= 0 ? "contained" : "not_contained", 1);
	if (want > 0) vr_count("contained_later", 1);
	free(x); free(y);
}
static void macros(void) {
	char buf[40]; size_t n = 1 + vr_below(20);
	int16_t size = (int16_t)n;
	memcpy(buf, &size, 2);
	for (size_t i = 0; i < n; i++) buf[2 + i] = vr_chance(1, 4) ? (char)vr_rand() : 'v';
	int type = (int)vr_below(4);
	if (type < 3) buf[2] = (char)type;
	char *x = block(buf, n + 2);
	fiftyoneDegreesString *s = (fiftyoneDegreesString *)x, *none = NULL;
	const char *v = FIFTYONE_DEGREES_STRING(s), *ip = FIFTYONE_DEGREES_IP_ADDRESS(s);
	VR_CHECK(v == x + 2, "string:value", "value of a string starts at %ld", v ? (long)(v - x) : -1);
	VR_CHECK(ip == (buf[2] == FIFTYONE_DEGREES_STRING_IP_ADDRESS ? x + 3 : NULL), "string:ip", "a string of type %d has IP address at %ld", buf[2], ip ? (long)(ip - x) : -1);
	v = FIFTYONE_DEGREES_STRING(none); ip = FIFTYONE_DEGREES_IP_ADDRESS(none);
	VR_CHECK(v == NULL && ip == NULL, "string:null", "no string gives a value");
	vr_count("string_values", 1);
	free(x);
	int i = vr_chance(1, 2) ? (int)vr_below(5) - 2 : vr_chance(1, 2) ? (int)(vr_rand() & 0xFFFFFF00) : (int)vr_rand();
	VR_CHECK(fiftyoneDegreesIntToBool(i) == (i != 0), "bool:int", "%d is %d", i, fiftyoneDegreesIntToBool(i));
	VR_CHECK(fiftyoneDegreesBoolToInt(true) == 1 && fiftyoneDegreesBoolToInt(false) == 0, "bool:back", "true is %d", fiftyoneDegreesBoolToInt(true));
	vr_count("bools", 1);
}
/* the same where lengths and places do not fit in a byte or in two */
static void long_ones(void) {
	static const size_t round[] = { 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 65537, 131072 };
	size_t n = vr_chance(1, 3) ? 200 + vr_below(70000) : round[vr_below(13)] + vr_below(4);
	char *a = malloc(n + 1), *b;
	for (size_t i = 0; i < n; i++) a[i] = "abcdEFGh"[vr_below(8)];
	a[n] = 0;
	b = malloc(n + 1); memcpy(b, a, n + 1);
	for (size_t i = 0; i < n; i++) if (vr_chance(1, 4)) b[i] = (char)(b[i] >= 'a' ? b[i] - 32 : b[i] + 32);
	VR_CHECK(fiftyoneDegreesStringCompare(a, b) == 0, "string:compare", "a string of %zu characters differs from itself in other case", n);
	VR_CHECK(fiftyoneDegreesStringCompareLength(a, b, n) == 0, "string:length", "a string of %zu characters differs from itself in other case over its length", n);
	size_t k = vr_chance(1, 2) ? n - 1 : vr_below((uint32_t)n); char c = b[k];
	b[k] = 'z';
	VR_CHECK(sign(fiftyoneDegreesStringCompare(a, b)) == -1 && sign(fiftyoneDegreesStringCompare(b, a)) == 1, "string:compare", "strings of %zu characters that differ at %zu do not compare as they should", n, k);
	VR_CHECK(sign(fiftyoneDegreesStringCompareLength(a, b, n)) == -1, "string:length", "strings of %zu characters that differ at %zu do not compare as they should", n, k);
	VR_CHECK(fiftyoneDegreesStringCompareLength(a, b, k) == 0, "string:length", "strings of %zu characters that differ at %zu are not the same before", n, k);
	VR_CHECK(fiftyoneDegreesStringCompareLength(a, b, k + 1) != 0, "string:length", "strings of %zu characters that differ at %zu are the same over %zu", n, k, k + 1);
	b[k] = c;
	size_t cut = vr_chance(1, 2) && n > 256 ? n - 256 : vr_chance(1, 2) && n > 65536 ? n - 65536 : n - 1;
	c = b[cut]; b[cut] = 0;
	VR_CHECK(sign(fiftyoneDegreesStringCompare(a, b)) == 1 && sign(fiftyoneDegreesStringCompare(b, a)) == -1, "string:compare", "a string of %zu characters and its first %zu compare as the same", n, cut);
	b[cut] = c;
	/* a part that is there once, early or late, short or long */
	size_t l = vr_chance(1, 3) ? 1 + vr_below(20) : vr_chance(1, 2) ? 250 + vr_below(20) : 65530 + vr_below(20);
	if (l > n) l = n;
	size_t at = vr_chance(1, 2) ? n - l : vr_below((uint32_t)(n - l) + 1);
	char *t = malloc(l + 1); memcpy(t, b + at, l); t[l] = 0;
	a[at] = 'x'; t[0] = 'X';
	char *r = fiftyoneDegreesStringSubString(a, t);
	VR_CHECK(r == a + at, "string:substring", "%zu characters at %zu of %zu are found at %ld", l, at, n, r ? (long)(r - a) : -1L);
	t[l - 1] = 'y';
	r = fiftyoneDegreesStringSubString(a, t);
	VR_CHECK(r == NULL, "string:substring", "%zu characters that are not there are found at %ld of %zu", l, r ? (long)(r - a) : -1L, n);
	free(t); free(b); free(a);
	vr_count(n > 65536 ? "strings_over_65536" : "long_strings", 1);
}
void vr_run_case(uint64_t i) {
	if (vr_chance(1, 200)) long_ones();
	any = (i & 3) == 3;
	for (int k = 0; k < 10; k++) { compare(); compare_length(); sub_string(); macros(); }
}
