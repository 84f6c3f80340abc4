/* Text files by line and YAML files by document, through every buffer size. */
#include "vrt.h"
#include "wrapio.h"
#include "textfile.h"
#include "fiftyone.h"
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
const char *vr_harness = "text";
static char path[400]; static int yaml;
static char *f; static size_t fn, fcap;
static void out(const char *s, size_t n) {
	if (fn + n > fcap) { fcap = (fn + n) * 2 + 64; f = realloc(f, fcap); }
	if (n) memcpy(f + fn, s, n);
	fn += n;
}
static void outs(const char *s) { out(s, strlen(s)); }
static void put(void) {
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, f, fn) != (ssize_t)fn) vr_harness_error("cannot write %s", path);
	close(fd);
}
static char any_char(void) {
	if (vr_chance(1, 6)) { static const char s[] = "'\"-.:# \t"; return s[vr_below(sizeof s - 1)]; }
	if (vr_chance(1, 30)) { char c; do c = (char)(1 + vr_below(255)); while (c == '\n' || c == '\r' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z')); return c; }
	return (char)('a' + vr_below(26));
}
/* ---- lines ---- */
#define NL 67000
typedef struct { char *t; size_t n, end; } line;
static line L[NL]; static int nl, at, pieces, got; static size_t pos; static int buflen, limit, faulty;
static int too_long(int i) { return L[i].n + L[i].end > (size_t)buflen; }
static void on_line(const char *t, void *st) {
	size_t n = strlen(t);
	VR_CHECK(st == (void*)&got, "line:state", "the callback was given another state");
	got++; vr_count("lines_seen", 1);
	/* parts of a line that does not fit are in order and of that line */
	for (;;) {
		if (at >= nl) { vr_fail("line:extra", "a line was returned that is not in the file: \"%s\" after %d lines, buffer %d", vr_esc(t, n), nl, buflen); return; }
		if (!too_long(at)) {
			if (n == L[at].n && !memcmp(t, L[at].t, n)) { at++; pos = 0; return; }
			/* a read that failed ends the file early */
			if (faulty && io_failed() && n < L[at].n && !memcmp(t, L[at].t, n)) { at = nl; pieces++; return; }
			vr_fail("line:text", "line %d of the file is \"%s\" and \"%s\" was returned, buffer %d", at, vr_esc(L[at].t, L[at].n), vr_esc(t, n), buflen);
			at = nl; return;
		}
		char *p = NULL;
		for (size_t i = pos; n && i + n <= L[at].n; i++) if (!memcmp(L[at].t + i, t, n)) { p = L[at].t + i; break; }
		if (p) { pos = (size_t)(p - L[at].t) + n; pieces++; return; }
		at++; pos = 0;
	}
}
static void free_lines(void) { for (int i = 0; i < nl; i++) free(L[i].t); nl = 0; }
static void text_case(void) {
	int n = vr_chance(1, 12) ? 0 : 1 + (int)vr_below(vr_chance(1, 4) ? 60 : 8), longs = 0;
	/* now and then more lines than small integers count */
	if (vr_chance(1, 2000)) { n = vr_chance(1, 8) ? (vr_chance(1, 2) ? 66000 : 33000) : 200 + (int)vr_below(500); vr_count(n > 1000 ? "long_files" : "longer_files", 1); }
	fn = 0; free_lines(); at = got = pieces = 0; pos = 0;
	buflen = 1 + (int)vr_below(vr_chance(1, 2) ? 16 : 120);
	if (n < 60 && vr_chance(1, 1500)) { buflen = (int)((vr_chance(1, 2) ? 256 : vr_chance(1, 2) ? 32768 : 65536) + vr_below(9)) - 4; if (n > 5) n = 5; vr_count(buflen > 1000 ? "buffers_over_32764" : "buffers_over_251", 1); }
	int crlf = (int)vr_below(3), over = vr_chance(1, 3);
	for (int i = vr_chance(1, 6) ? (int)vr_below(6) : 0; i > 0; i--) outs(vr_chance(1, 2) ? "\n" : "\r\n");
	for (int i = 0; i < n; i++) {
		line *x = &L[nl];
		x->end = crlf == 0 || (crlf == 2 && vr_chance(1, 2)) ? 1 : 2;
		if (over && vr_chance(1, 5)) x->n = (size_t)buflen + vr_below((uint32_t)buflen * 3);
		else x->n = vr_chance(1, 3) ? (size_t)buflen - (x->end <= (size_t)buflen ? x->end : (size_t)buflen) : vr_below((uint32_t)buflen + 1);
		if (vr_chance(1, 10)) x->n = 0;
		int unended = i == n - 1 && vr_chance(1, 2);
		if (unended) x->end = 1; /* only its null has to fit */
		x->t = malloc(x->n + 1); for (size_t k = 0; k < x->n; k++) x->t[k] = x->n + x->end > (size_t)buflen ? "0123456789ABCDEFGHIJKLMNOP"[vr_below(26)] : any_char(); /* parts of these lines are not mistaken for other lines */
		out(x->t, x->n);
		if (!unended) for (int k = vr_chance(1, 8) ? 1 + (int)vr_below((uint32_t)buflen * 2) : 1; k > 0; k--) outs(x->end == 1 ? "\n" : "\r\n");
		if (x->n == 0) { free(x->t); vr_count("empty_lines", 1); } else { longs += too_long(nl); nl++; }
	}
	put();
	limit = vr_chance(1, 3) ? (nl > 60 && vr_chance(1, 2) ? nl - (int)vr_below(20) : (int)vr_below((uint32_t)nl + 3)) : -1;
	faulty = vr_chance(1, 8);
	char *buf = malloc((size_t)buflen); memset(buf, 'Z', (size_t)buflen);
	io_begin();
	if (faulty) { io_fail_mask(1u << IO_FOPEN | 1u << IO_FREAD); io_fail_any_at(1 + vr_below(8), 1); }
	if (limit < 0 && vr_chance(1, 2)) fiftyoneDegreesTextFileIterate(path, buf, buflen, &got, on_line);
	else fiftyoneDegreesTextFileIterateWithLimit(path, buf, buflen, limit, &got, on_line);
	VR_CHECK(io_open_files() == 0, "line:open", "the file was left open");
	int failed = io_failed(); io_end();
	VR_CHECK(limit < 0 || got <= limit, "line:limit", "%d lines were returned with a limit of %d", got, limit);
	if (!failed && !longs) {
		int want = limit >= 0 && limit < nl ? limit : nl;
		VR_CHECK(got == want, "line:count", "%d of %d lines were returned, limit %d, buffer %d, file \"%s\"", got, nl, limit, buflen, vr_esc(f, fn));
	}
	else if (!failed && limit < 0) { /* every line that fits follows */
		while (at < nl && too_long(at)) at++;
		VR_CHECK(at >= nl, "line:lost", "lines from %d of %d were not returned, buffer %d", at, nl, buflen);
	}
	if (nl > 1) { uint64_t h = vr_hash(&buflen, sizeof buflen, 5); for (int i = 0; i < nl; i++) h = vr_hash(&L[i].n, sizeof(size_t), h); vr_distinct("nontrivial", h); }
	if (longs) vr_count("files_with_too_long_lines", 1); else if (fn > (size_t)buflen) vr_count("refilled_files", 1);
	if (failed) vr_count("text_faults", 1);
	if (vr_want_sample()) vr_sample("%d lines, %zu bytes, buffer %d, limit %d: %d returned", nl, fn, buflen, limit, got);
	free(buf);
}
/* ---- documents ---- */
#define ND 12
#define NP 14
#define MD 67000
typedef struct { char *k, *v, *raw; } pair;
static struct { pair *p; int n; } D[MD]; static int nd, docs, garbage; static KeyValuePair *kv; static int cap; static int cut;
static char *word(uint32_t n, int key) {
	static const char ch[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-";
	char *s = malloc(n + 1);
	for (uint32_t i = 0; i < n; i++) s[i] = key ? (vr_chance(1, 6) ? "-._ '"[vr_below(5)] : ch[vr_below(sizeof ch - 1)]) : any_char();
	s[n] = 0;
	if (key && (!strncmp(s, "---", 3) || !strncmp(s, "...", 3))) s[2] = 'k';
	if (!key && s[0] == '\'') s[0] = 'q';
	return s;
}
static int fits(const char *s, size_t n) { return strlen(s) < n; }
static void on_doc(KeyValuePair *p, uint16_t n, void *st) {
	VR_CHECK(st == (void*)&docs && p == kv, "yaml:state", "the callback was given another state or pairs");
	VR_CHECK(n <= cap, "yaml:capacity", "%d pairs were returned and there is space for %d", n, cap);
	if (n > cap) n = (uint16_t)cap;
	int d = docs++; vr_count("documents_seen", 1);
	for (int i = 0; i < n; i++) {
		VR_CHECK(memchr(p[i].key, 0, p[i].keyLength), "yaml:ended", "key %d is not ended in its %zu bytes", i, p[i].keyLength);
		VR_CHECK(memchr(p[i].value, 0, p[i].valueLength), "yaml:ended", "value %d is not ended in its %zu bytes", i, p[i].valueLength);
		vr_count("pairs_seen", 1);
	}
	if (garbage) return;
	if (d >= nd) { vr_fail("yaml:extra", "document %d was returned and there are %d", d, nd); return; }
	int want = D[d].n < cap ? D[d].n : cap;
	VR_CHECK(n == want, "yaml:pairs", "document %d has %d pairs, space for %d, and %d were returned", d, D[d].n, cap, n);
	for (int i = 0; i < n && i < want; i++) {
		pair *x = &D[d].p[i]; const char *k = p[i].key, *v = p[i].value;
		size_t kn = strnlen(k, p[i].keyLength), vn = strnlen(v, p[i].valueLength);
		if (fits(x->k, p[i].keyLength)) VR_CHECK(!strcmp(k, x->k), "yaml:key", "document %d key %d is \"%s\" and not \"%s\"", d, i, vr_esc(k, kn), vr_esc(x->k, strlen(x->k)));
		else { cut++; VR_CHECK(!strncmp(k, x->k, kn), "yaml:key-cut", "document %d key %d is \"%s\" and not the start of \"%s\"", d, i, vr_esc(k, kn), vr_esc(x->k, strlen(x->k))); }
		if (fits(x->raw, p[i].valueLength)) VR_CHECK(!strcmp(v, x->v), "yaml:value", "document %d key \"%s\" has \"%s\" and not \"%s\"", d, i < n ? x->k : "", vr_esc(v, vn), vr_esc(x->v, strlen(x->v)));
		else { cut++; VR_CHECK(!strncmp(v, x->raw, vn), "yaml:value-cut", "document %d value %d is \"%s\" and not the start of \"%s\"", d, i, vr_esc(v, vn), vr_esc(x->raw, strlen(x->raw))); }
	}
}
static void yaml_case(void) {
	int quoted = 0, over = vr_chance(1, 3), big = vr_chance(1, 3), refills;
	fn = 0; docs = cut = 0; nd = 0;
	garbage = vr_chance(1, 5);
	cap = vr_chance(1, 40) ? 0 : 1 + (int)vr_below(vr_chance(1, 2) ? 4 : 12);
	uint32_t kl = 1 + vr_below(20), vl = 1 + vr_below(30);
	/* 1: many documents, 2: many pairs, 3: long keys and values, 4: many line ends, 5: long document marks; very: more than 16 bits count */
	int scale = vr_chance(1, 1000) ? 1 + (int)vr_below(5) : 0, very = scale && vr_chance(1, 12);
	if (scale) { garbage = 0; vr_count((const char *[]){ "", "many_documents", "many_pairs", "long_pairs", "many_line_ends", "long_marks" }[scale], 1); if (very) vr_count("very_many", 1); }
	if (scale == 2) cap = very ? 65535 : 250 + (int)vr_below(300);
	if (scale == 3) { kl = very ? 65400 + vr_below(300) : 230 + vr_below(100); vl = very ? 65400 + vr_below(300) : 230 + vr_below(100); if (cap > 4) cap = 4; }
	kv = calloc((size_t)cap + !cap, sizeof *kv);
	if (!cap) { free(kv); kv = malloc(1); }
	for (int i = 0; i < cap; i++) {
		kv[i].keyLength = over ? 1 + vr_below(kl + 1) : kl + 1; kv[i].valueLength = over ? 1 + vr_below(vl + 3) : vl + 3;
		kv[i].key = malloc(kv[i].keyLength); kv[i].value = malloc(kv[i].valueLength);
		memset((void*)kv[i].key, 'K', kv[i].keyLength); memset((void*)kv[i].value, 'V', kv[i].valueLength);
	}
	const char *nlc = vr_chance(1, 2) ? "\n" : "\r\n";
	if (garbage) {
		static const char *const tok[] = {"---", "...", "--", ".", "\n", "\r\n", "\n\n", ": ", ":", "'", "''", "k: v", "key", "k: '", "a: 'b'\n", "-", " ", "..", "\r"};
		for (int i = (int)vr_below(60); i > 0; i--) vr_chance(1, 8) ? out((char[]){(char)vr_below(256)}, 1) : outs(tok[vr_below(sizeof tok / sizeof *tok)]);
	} else {
		int n = scale == 1 ? (very ? 65530 + (int)vr_below(300) : 250 + (int)vr_below(200)) : scale ? 1 + (int)vr_below(3) : (int)vr_below(ND + 1), first = vr_chance(3, 4);
		for (int i = vr_chance(1, 6) ? (int)vr_below(4) : 0; i > 0; i--) outs(nlc);
		for (int d = 0; d < n; d++) {
			if (scale == 4) for (int i = very ? 65530 + (int)vr_below(20) : 250 + (int)vr_below(20); i > 0; i--) outs(nlc);
			if (d || first) { outs("---"); if (scale == 5) for (int i = very ? 65530 + (int)vr_below(20) : 250 + (int)vr_below(20); i > 0; i--) outs("-"); if (vr_chance(1, 10)) outs(vr_chance(1, 2) ? " # note: 'x'" : "-"); outs(nlc); }
			int np = (int)vr_below(big ? NP + 1 : 5); 
			if (scale == 1) np = 1 + (np > 3);
			if (scale == 2 && vr_chance(1, 2)) np = very ? 65530 + (int)vr_below(20) : cap - 3 + (int)vr_below(6);
			D[nd].p = malloc(sizeof(pair) * (size_t)(np + 1));
			for (int i = 0; i < np; i++) {
				pair *x = &D[nd].p[i];
				x->k = word(scale == 3 && vr_chance(2, 3) ? (very ? 65530 : 250) + vr_below(8) : 1 + vr_below(kl), 1); x->v = word(vr_chance(1, 10) ? 0 : vr_chance(1, 3) ? vl : vr_below(vl + 1), 0);
				int q = vr_chance(1, 2); size_t vn = strlen(x->v);
				x->raw = malloc(vn + 2); memcpy(x->raw, x->v, vn); x->raw[vn] = 0;
				outs(x->k); outs(":");
				if (q) { outs(" '"); strcat(x->raw, "'"); outs(x->raw); quoted++; } else if (vn || vr_chance(1, 2)) { outs(" "); outs(x->v); }
				if (i < np - 1 || d < n - 1 || vr_chance(2, 3)) for (int k = vr_chance(1, 8) ? 3 : 1; k > 0; k--) outs(nlc);
			}
			D[nd].n = np; if (np > 0) nd++; else free(D[nd].p);
		}
		if (vr_chance(1, 2)) {
			if (fn && f[fn - 1] != '\n') outs(nlc);
			outs("..."); if (scale == 5) for (int i = very ? 65530 + (int)vr_below(20) : 250 + (int)vr_below(20); i > 0; i--) outs("."); if (vr_chance(2, 3)) outs(nlc);
			if (vr_chance(1, 4)) { outs(nlc); outs("after: end"); outs(nlc); }
		}
	}
	put();
	limit = vr_chance(1, 3) ? nd > 60 && vr_chance(1, 2) ? nd - (int)vr_below(20) : (int)vr_below((uint32_t)nd + 3) : -1;
	buflen = 1 + (int)vr_below(vr_chance(1, 2) ? 16 : 300); if (scale && vr_chance(1, 3)) buflen = vr_chance(1, 2) ? 65536 + (int)vr_below(9) - 4 : 256 + (int)vr_below(9) - 4;
	refills = fn > (size_t)buflen;
	faulty = vr_chance(1, 8);
	char *buf = malloc((size_t)buflen); StatusCode s;
	io_begin();
	if (faulty) { io_fail_mask(1u << IO_FOPEN | 1u << IO_FREAD); io_fail_any_at(1 + vr_below(6), 1); }
	if (limit < 0 && vr_chance(1, 2)) s = fiftyoneDegreesYamlFileIterate(path, buf, (size_t)buflen, kv, (uint16_t)cap, &docs, on_doc);
	else s = fiftyoneDegreesYamlFileIterateWithLimit(path, buf, (size_t)buflen, kv, (uint16_t)cap, limit, &docs, on_doc);
	VR_CHECK(io_open_files() == 0, "yaml:open", "the file was left open");
	int failed = io_failed(); io_end();
	VR_CHECK(limit < 0 || docs <= limit, "yaml:limit", "%d documents were returned with a limit of %d", docs, limit);
	if (failed) VR_CHECK(s != SUCCESS, "yaml:status", "a file that could not be read gave success");
	else if (!garbage) {
		int want = 0; for (int i = 0; i < nd; i++) want += limit < 0 || want < limit;
		if (cap == 0) want = 0;
		VR_CHECK(docs == want || s != SUCCESS, "yaml:count", "%d of %d documents were returned, limit %d, buffer %d, file \"%s\"", docs, nd, limit, buflen, vr_esc(f, fn));
		VR_CHECK(s == SUCCESS || cut || over || big, "yaml:refused", "a file whose pairs all fit gave status %d", s);
	}
	if (!garbage && nd) { uint64_t h = vr_hash(f, fn, (uint64_t)buflen); vr_distinct("nontrivial", vr_hash(&cap, sizeof cap, h)); }
	vr_count("values_cut", (uint64_t)cut); vr_count("values_quoted", (uint64_t)quoted); if (refills) vr_count("refilled_files", 1);
	if (failed) vr_count("text_faults", 1);
	if (garbage) vr_count("arbitrary_files", 1);
	if (vr_want_sample()) vr_sample("%d documents, %zu bytes, buffer %d, space for %d pairs, limit %d: %d returned", nd, fn, buflen, cap, limit, docs);
	for (int i = 0; i < cap; i++) { free((void*)kv[i].key); free((void*)kv[i].value); }
	free(kv); free(buf);
	for (int d = 0; d < nd; d++) for (int i = 0; i < D[d].n; i++) { free(D[d].p[i].k); free(D[d].p[i].v); free(D[d].p[i].raw); }
	for (int d = 0; d < nd; d++) free(D[d].p);
}
void vr_run_case(uint64_t i) { (void)i; if (yaml) yaml_case(); else text_case(); }
void vr_setup(void) { yaml = (int)vr_opt_int("yaml", 0); vr_alloc_install(); snprintf(path, sizeof path, "%s/text", vr_scratch()); }
void vr_teardown(void) { free_lines(); free(f); }
