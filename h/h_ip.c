/* IP address text against inet_pton, and hostile text for memory safety. */
#include "vrt.h"
#include "fiftyone.h"
#include <arpa/inet.h>
#include <stdlib.h>
#include <string.h>
const char *vr_harness = "ip";
typedef fiftyoneDegreesEvidenceIpAddress Ip;
void vr_setup(void) { vr_alloc_install(); }
void vr_teardown(void) {}

static volatile unsigned sink;
/* every byte of the address must be defined (MSan build) and addressable */
static void touch(const Ip *ip) {
	int n = ip->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16;
	unsigned s = 0;
	for (int i = 0; i < n; i++) s = s * 31 + ip->address[i];
	if (s == 12345) sink++;
}
static int gen4(char *out, unsigned char *b) {
	for (int i = 0; i < 4; i++) b[i] = vr_chance(1, 4) ? (vr_chance(1, 2) ? 255 : 0) : (unsigned char)vr_rand();
	return sprintf(out, "%u.%u.%u.%u", b[0], b[1], b[2], b[3]);
}
static int grp(char *out, unsigned v, int style) {
	if (style == 0) return sprintf(out, "%x", v);
	if (style == 1) return sprintf(out, "%X", v);
	if (style == 2) return sprintf(out, "%04x", v);
	return sprintf(out, vr_chance(1, 2) ? "%03X" : "%02x", v);
}
static int gen6(char *out, unsigned char *b, const char **kind) {
	unsigned g[8];
	int o = 0, style = (int)vr_below(4), v4 = vr_chance(1, 5), ng = v4 ? 6 : 8;
	for (int i = 0; i < 8; i++) g[i] = vr_chance(1, 3) ? 0 : vr_chance(1, 3) ? vr_below(256) : vr_below(65536);
	if (vr_chance(1, 10)) for (int i = 0; i < 8; i++) g[i] = 0;
	/* optionally compress a run */
	int from = -1, len = 0;
	if (vr_chance(2, 3)) {
		from = (int)vr_below((uint32_t)ng); len = 1 + (int)vr_below((uint32_t)(ng - from));
		if (vr_chance(1, 4)) { from = 0; len = 1 + (int)vr_below((uint32_t)ng); }
		if (vr_chance(1, 4)) { len = 1 + (int)vr_below((uint32_t)ng); from = ng - len; }
		for (int i = from; i < from + len; i++) g[i] = 0;
	}
	for (int i = 0; i < ng; i++) {
		if (i == from) {
			o += sprintf(out + o, "::");
			i += len - 1;
			continue;
		}
		if (o > 0 && out[o - 1] != ':') out[o++] = ':';
		o += grp(out + o, g[i], style);
	}
	if (v4) {
		if (o > 0 && out[o - 1] != ':') out[o++] = ':';
		o += sprintf(out + o, "%u.%u.%u.%u", g[6] >> 8, g[6] & 255, g[7] >> 8, g[7] & 255);
	}
	out[o] = 0;
	*kind = v4 ? "ipv6 with ipv4 tail" : from < 0 ? "ipv6 full" : from == 0 ? "ipv6 abbreviated start" : from + len == ng ? "ipv6 abbreviated end" : "ipv6 abbreviated middle";
	for (int i = 0; i < 8; i++) { b[2 * i] = (unsigned char)(g[i] >> 8); b[2 * i + 1] = (unsigned char)g[i]; }
	unsigned char chk[16];
	if (inet_pton(AF_INET6, out, chk) != 1 || memcmp(chk, b, 16) != 0) vr_harness_error("bad generated address %s", out);
	return o;
}
/* copy in a block of exactly the size so that reads past it are seen */
static char *exact(const char *s, size_t n) {
	char *p = malloc(n + 1);
	memcpy(p, s, n); p[n] = 0;
	return p;
}
static void one_valid(void) {
	char text[128]; unsigned char b[16]; const char *kind = "ipv4";
	int v6 = vr_chance(2, 3), n;
	n = v6 ? gen6(text, b, &kind) : gen4(text, b);
	char *s = exact(text, (size_t)n);
	vr_note_case("parse '%s'", text);
	Ip *ip = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, s, s + n);
	vr_count(kind, 1);
	VR_CHECK(ip != NULL, "ip:parse", "'%s' not parsed", text);
	if (ip) {
		touch(ip);
		VR_CHECK(ip->type == (v6 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4), "ip:type", "'%s' (%s) has type %d", text, kind, ip->type);
		VR_CHECK(memcmp(ip->address, b, v6 ? 16 : 4) == 0, "ip:bytes", "'%s' (%s) parsed to the wrong bytes", text, kind);
		VR_CHECK(ip->next == NULL, "ip:next", "single address '%s' has a successor", text);
		vr_distinct("nontrivial", vr_hash(text, (size_t)n, 1));
		fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, ip);
	}
	VR_CHECK(vr_alloc_live() == 0, "ip:leak", "'%s': %zu blocks left after free", text, vr_alloc_live());
	vr_sample("%s: '%s'", kind, text);
	free(s);
}
static void one_list(void) {
	int n = 1 + (int)vr_below(10), o = 0;
	if (vr_chance(1, 300)) { n = vr_opt_int("long", 0) && vr_chance(1, 10) ? 65530 + (int)vr_below(500) : 250 + (int)vr_below(400); vr_count(n > 65000 ? "lists_over_65000" : "lists_over_250", 1); }
	char *text = malloc((size_t)n * 64 + 64); unsigned char (*b)[16] = malloc((size_t)n * 16); int *ty = malloc((size_t)n * sizeof *ty);
	const char *kind;
	static const char *seps[] = { " ", ",", ", " };
	for (int i = 0; i < n; i++) {
		if (i) o += sprintf(text + o, "%s", seps[vr_below(3)]);
		ty[i] = vr_chance(1, 2);
		o += ty[i] ? gen6(text + o, b[i], &kind) : gen4(text + o, b[i]);
	}
	char *s = exact(text, (size_t)o);
	vr_note_case("list '%.900s'", text);
	Ip *list = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, s), *ip = list;
	int k = 0, bad = 0;
	for (; ip; ip = ip->next) {
		touch(ip);
		if (ip->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) continue;
		if (k >= n || ip->type != (ty[k] ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) || memcmp(ip->address, b[k], ty[k] ? 16 : 4)) { bad = 1; break; }
		k++;
	}
	VR_CHECK(!bad && k == n, "ip:list", "list '%.600s': address %d wrong or missing", text, k);
	vr_count("lists", 1);
	vr_distinct("nontrivial", vr_hash(text, (size_t)o, 2));
	fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, list);
	VR_CHECK(vr_alloc_live() == 0, "ip:leak", "list '%.600s': %zu blocks left after free", text, vr_alloc_live());
	free(text); free(b); free(ty);
	free(s);
}
static void one_hostile(void) {
	static const char *alpha[] = { "0123456789.", "0123456789abcdefABCDEF:", "0123456789abcdef:.", "0123456789abcdef:., []/%x-;=\"", ":", ".", ":." };
	char text[400]; int o = 0, v4 = 0; unsigned char b4[16]; const char *kind;
	int style = (int)vr_below(12);
	if (style < 7) {
		const char *a = alpha[style]; int n = (int)vr_below(vr_chance(1, 8) ? 300 : 40);
		for (; o < n; o++) text[o] = a[vr_below((uint32_t)strlen(a))];
	}
	else if (style == 7) { o = gen4(text, b4); o += sprintf(text + o, ":%u", vr_below(65536)); }
	else if (style == 8) { o = gen6(text, b4, &kind); o += sprintf(text + o, "%s", (const char *[]){ "/64", "%eth0", ":1:2", "::", ".1", ".1.2.3.4.5" }[vr_below(6)]); }
	else if (style == 9) { o = sprintf(text, "%d.%d.%d.%d", vr_between(-5, 400), vr_between(0, 70000), vr_between(-2147483647, 2147483647), vr_between(250, 260)); v4 = 1; }
	else if (style == 10) { int n = (int)vr_below(300); for (; o < n; o++) text[o] = (char)(1 + vr_below(255)); }
	else { o = gen6(text, b4, &kind); int m = 1 + (int)vr_below(3); while (m-- && o) text[vr_below((uint32_t)o)] = ":.0f, "[vr_below(6)]; }
	text[o] = 0;
	char *s = exact(text, (size_t)o);
	vr_note_case("hostile %s", vr_esc(text, (size_t)o));
	Ip *ip = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, s, s + o);
	VR_CHECK(ip != NULL, "ip:parse", "no result for %s", vr_esc(text, (size_t)o));
	if (ip) {
		touch(ip);
		VR_CHECK(ip->type == 0 || ip->type == 1 || ip->type == 2, "ip:type", "type %d for %s", ip->type, vr_esc(text, (size_t)o));
		if (v4) {
			int v[4]; sscanf(text, "%d.%d.%d.%d", v, v + 1, v + 2, v + 3);
			for (int i = 0; i < 4; i++) {
				int e = v[i] < 0 ? 0 : v[i] > 255 ? 255 : v[i];
				VR_CHECK(ip->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 && ip->address[i] == e, "ip:clamp", "'%s': byte %d is %d, not %d", text, i, ip->address[i], e);
			}
			vr_count("octets_out_of_range", 1);
		}
		fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, ip);
	}
	Ip *list = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, s);
	int k = 0;
	for (ip = list; ip; ip = ip->next) { touch(ip); k++; }
	VR_CHECK(k <= o + 1, "ip:list", "%d addresses out of %d characters", k, o);
	fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, list);
	VR_CHECK(vr_alloc_live() == 0, "ip:leak", "%zu blocks left after free for %s", vr_alloc_live(), vr_esc(text, (size_t)o));
	vr_count("hostile_texts", 1);
	vr_distinct("hostile", vr_hash(text, (size_t)o, 3));
	free(s);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void one_compare(void) {
	int t = (int)vr_below(3), n = t == 0 ? 4 : t == 1 ? 16 : 0;
	unsigned char *a = malloc((size_t)n + 1), *b = malloc((size_t)n + 1), *c;
	c = realloc(NULL, 1); free(c);
	unsigned char *x = n ? malloc((size_t)n) : a, *y = n ? malloc((size_t)n) : b;
	for (int i = 0; i < n; i++) x[i] = y[i] = (unsigned char)vr_rand();
	if (n && vr_chance(3, 4)) { int p = (int)vr_below((uint32_t)n); y[p] = (unsigned char)vr_rand(); if (vr_chance(1, 2)) for (int i = p + 1; i < n; i++) y[i] = (unsigned char)vr_rand(); }
	int r = fiftyoneDegreesCompareIpAddresses(x, y, (fiftyoneDegreesEvidenceIpType)t);
	int m = n ? memcmp(x, y, (size_t)n) : 0;
	VR_CHECK(sgn(r) == sgn(m), "ip:compare", "compare of type %d gave %d, bytes compare %d", t, r, m);
	VR_CHECK(sgn(fiftyoneDegreesCompareIpAddresses(y, x, (fiftyoneDegreesEvidenceIpType)t)) == -sgn(r), "ip:compare", "compare not antisymmetric");
	vr_count("comparisons", 1);
	if (n) { free(x); free(y); }
	free(a); free(b);
}
void vr_run_case(uint64_t ci) {
	vr_alloc_reset();
	vr_alloc_scribble((int)(ci & 1));
	for (int k = 0; k < 8; k++) { one_valid(); one_list(); one_hostile(); one_hostile(); one_compare(); }
}
