/* Temporary copies of a master file, and copying, writing and loading files,
 * with failing file calls. Everything happens in the scratch directory; a
 * helper process holds files open like another user of the data would. */
#include "vrt.h"
#include "wrapio.h"
#include "fiftyone.h"
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
const char *vr_harness = "file";
#define NF 64
/* ---- files the harness knows of; POSIX calls, which the monitor ignores ---- */
typedef struct { char path[600]; unsigned char *b; size_t n; int used; int fd; int isdir; } ent;
static ent e[NF]; static int ne;
static char root[300], dirs[6][400]; static int ndirs;
static void put_file(const char *path, const void *b, size_t n) {
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, b, n) != (ssize_t)n) vr_harness_error("cannot write %s", path);
	close(fd);
}
static unsigned char *slurp(const char *path, size_t *n) {
	int fd = open(path, O_RDONLY); struct stat st;
	if (fd < 0 || fstat(fd, &st)) { if (fd >= 0) close(fd); return NULL; }
	unsigned char *b = malloc((size_t)st.st_size + 1); *n = (size_t)st.st_size;
	if (read(fd, b, *n) != (ssize_t)*n) { free(b); b = NULL; }
	close(fd);
	return b;
}
static ent *add(const char *path, const void *b, size_t n) {
	if (ne == NF) vr_harness_error("too many files");
	ent *x = &e[ne++]; memset(x, 0, sizeof *x); x->fd = -1;
	snprintf(x->path, sizeof x->path, "%s", path);
	x->b = malloc(n + 1); if (n) memcpy(x->b, b, n); x->n = n;
	return x;
}
static ent *find(const char *path) { for (int i = 0; i < ne; i++) if (!strcmp(e[i].path, path)) return &e[i]; return NULL; }
static void del(ent *x) { if (x->fd >= 0) close(x->fd); free(x->b); *x = e[--ne]; }
/* ---- another process ---- */
static int to[2], from[2]; static pid_t kid; static char kid_has[600];
static void helper(void) {
	char p[601]; int fd = -1;
	for (;;) {
		if (read(to[0], p, 600) != 600) _exit(0);
		if (fd >= 0) close(fd);
		fd = p[0] ? open(p, O_RDONLY) : -1;
		if (write(from[1], fd >= 0 || !p[0] ? "y" : "n", 1) != 1) _exit(0);
	}
}
static void kid_hold(const char *path) {
	char p[600] = "", a;
	if (path) snprintf(p, sizeof p, "%s", path);
	if (write(to[1], p, 600) != 600 || read(from[0], &a, 1) != 1 || a != 'y') vr_harness_error("helper process");
	strcpy(kid_has, p);
}
static void rm_tree(const char *d) {
	struct dirent **l; int k = scandir(d, &l, NULL, NULL); char p[900]; struct stat st;
	for (int i = 0; i < k; i++) {
		if (strcmp(l[i]->d_name, ".") && strcmp(l[i]->d_name, "..")) {
			snprintf(p, sizeof p, "%s/%s", d, l[i]->d_name);
			if (!lstat(p, &st) && S_ISDIR(st.st_mode)) { rm_tree(p); rmdir(p); } else (unlink)(p);
		}
		free(l[i]);
	}
	if (k >= 0) free(l);
}
static const char *name_of(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static void dir_of(const char *p, char *o) { strcpy(o, p); char *s = strrchr(o, '/'); if (s) *s = 0; else strcpy(o, "."); }
static char masterp[600]; static ent *master_(void) { return find(masterp); }
static void base_of(const char *name, char *o) { strcpy(o, name); char *d = strrchr(o, '.'); if (d) *d = 0; }
static int is_copy(ent *x, long cmp) {
	char b[600]; ent *m = master_(); base_of(name_of(masterp), b);
	if (x == m || x->isdir || strncmp(name_of(x->path), b, strlen(b)) || !strcmp(name_of(x->path), name_of(masterp))) return 0;
	if (x->n != m->n) return 0;
	size_t k = cmp < 0 || (size_t)cmp > m->n ? m->n : (size_t)cmp;
	return !memcmp(x->b, m->b, k);
}
static int in_dirs(const char *path, const char **ds, int n) {
	char d[600]; dir_of(path, d);
	if (!ds || n == 0) return !strcmp(d, dirs[0]); /* the working directory */
	for (int i = 0; i < n; i++) { char x[700], *r = realpath(ds[i][0] ? ds[i] : ".", NULL); snprintf(x, sizeof x, "%s", r ? r : "?"); free(r); if (!strcmp(x, d)) return 1; }
	return 0;
}
static int usable(const char *d) { struct stat st; return d[0] == 0 || (!stat(d, &st) && S_ISDIR(st.st_mode)); }
/* Everything below the root is what is known. Files that are not known or are
 * missing are reported in the arrays. */
static int extra_n, missing_n; static char extra[32][600], missing[64][600];
static void scan(const char *d) {
	struct dirent **l; int k = scandir(d, &l, NULL, NULL); char p[900]; struct stat st;
	for (int i = 0; i < k; i++) {
		if (strcmp(l[i]->d_name, ".") && strcmp(l[i]->d_name, "..")) {
			snprintf(p, sizeof p, "%s/%s", d, l[i]->d_name);
			if (!lstat(p, &st) && S_ISDIR(st.st_mode)) scan(p);
			ent *x = find(p);
			if (x) x->used = 1;
			else if (!S_ISDIR(st.st_mode) && extra_n < 32) snprintf(extra[extra_n++], 600, "%s", p);
		}
		free(l[i]);
	}
	if (k >= 0) free(l);
}
static void compare(void) {
	extra_n = missing_n = 0;
	for (int i = 0; i < ne; i++) e[i].used = 0;
	scan(root);
	for (int i = 0; i < ne; i++) {
		if (!e[i].used) { snprintf(missing[missing_n++], 600, "%s", e[i].path); continue; }
		if (e[i].isdir) continue;
		size_t n; unsigned char *b = slurp(e[i].path, &n);
		VR_CHECK(b && n == e[i].n && !memcmp(b, e[i].b, n), "file:changed", "the content of %s changed", name_of(e[i].path));
		free(b);
	}
}
static void random_bytes(unsigned char *b, size_t n) { uint64_t s = vr_rand() | 1; for (size_t i = 0; i < n; i++) b[i] = (unsigned char)vr_rand_s(&s); }
static size_t some_size(void) {
	static const size_t z[] = { 0, 1, 2, 100, 1023, 1024, 1025, 2047, 2048, 2049, 8191, 8192, 8193, 16384, 20000, 65537 };
	return vr_chance(1, 3) ? vr_below(5000) : z[vr_below(sizeof z / sizeof *z)];
}
static const char *fault_name[] = { "none", "one call", "all calls from one on", "one kind" };
static int coarse_; /* a name taken already and a failing check of it at once is too much to ask */
static int arm(void) {
	int f = (int)vr_below(8);
	if (f > 3 || coarse_) f = 0;
	io_fail_mask(~0u);
	uint32_t at = 1 + vr_below(vr_chance(1, 2) ? 8 : vr_chance(1, 2) ? 40 : 400);
	if (f == 1) io_fail_any_at(at, 0);
	if (f == 2) io_fail_any_at(at, 1);
	if (f == 3) { io_fail_mask(1u << vr_below(IO_NCLASS)); io_fail_any_at(1 + vr_below(vr_chance(2, 3) ? 4 : 30), vr_chance(1, 2)); }
	if (f == 0) io_fail_any_at(0, 0);
	return f;
}
static void temps(uint64_t n) {
	static const char *mnames[] = { "data.dat", "data", "a.b.c", "Lite-V4.1.hash", "x.bin", ".hidden", "da%dta.bin", "data-1-.bin", "d" };
	snprintf(root, sizeof root, "%s/f%d", vr_scratch(), (int)(n % 8)); mkdir(root, 0700); rm_tree(root);
	char *real = realpath(root, NULL); snprintf(root, sizeof root, "%s", real); free(real);
	io_begin(); vr_alloc_reset(); vr_alloc_no_fail();
	ne = 0; kid_has[0] = 0; ndirs = 4;
	char sub[420]; snprintf(sub, sizeof sub, "%s/m.x", root); mkdir(sub, 0700);
	for (int i = 0; i < 4; i++) snprintf(dirs[i], sizeof dirs[i], "%s/%s", root, (const char *[]){ "t0", "t1.d", "missing", "afile" }[i]);
	mkdir(dirs[0], 0700); mkdir(dirs[1], 0700); put_file(dirs[3], "not a directory", 15); add(dirs[3], "not a directory", 15);
	const char *mn = mnames[vr_below(9)]; int where = (int)vr_below(4);
	snprintf(masterp, sizeof masterp, "%s/%s", where < 2 ? sub : dirs[where - 2], mn);
	size_t len = some_size(); static unsigned char content[70000]; random_bytes(content, len);
	put_file(masterp, content, len); add(masterp, content, len);
	long cmp = vr_chance(1, 2) ? -1 : vr_chance(1, 3) ? (long)vr_below(3) : (long)vr_below((uint32_t)len * 2 + 2);
	/* other files */
	char base[200]; base_of(mn, base);
	int k = (int)vr_below(7);
	for (int i = 0; i < k; i++) {
		char p[600], nm[300]; static unsigned char c[70001]; size_t cl = len; memcpy(c, content, len);
		switch (vr_below(7)) {
		case 0: snprintf(nm, sizeof nm, "%s-%d-OTHERCOPY%d", base, 12, i); break;
		case 1: snprintf(nm, sizeof nm, "%s%d.bak", base, i); break;
		case 2: snprintf(nm, sizeof nm, "other%d.dat", i); break;
		case 3: snprintf(nm, sizeof nm, "%s", mn); break;
		case 4: snprintf(nm, sizeof nm, "z%s", mn); break;
		case 5: snprintf(nm, sizeof nm, "%.*s", (int)strlen(base) - 1, base); if (!nm[0] || !strcmp(nm, ".")) strcpy(nm, "q"); break;
		default: snprintf(nm, sizeof nm, "%s-copy%d", base, i); break;
		}
		switch (vr_below(6)) {
		case 0: if (cl) c[vr_below((uint32_t)cl)] ^= 1; break;
		case 1: if (cl) c[cl - 1] ^= 1; break;
		case 2: if (cl) c[0] ^= 1; break;
		case 3: if (cl) { if (vr_chance(1, 2)) cl--; else c[cl++] = 7; } break;
		default: if (cmp >= 0 && (size_t)cmp < cl && vr_chance(1, 2)) c[(size_t)cmp] ^= 1; break;
		}
		snprintf(p, sizeof p, "%s/%s", vr_chance(1, 5) ? sub : dirs[vr_below(2)], nm);
		if (find(p)) continue;
		put_file(p, c, cl); add(p, c, cl);
	}
	if (vr_chance(1, 4)) { char p[600]; snprintf(p, sizeof p, "%s/%s-dir", dirs[0], base); if (!find(p)) { mkdir(p, 0700); add(p, "", 0)->isdir = 1; } }
	if (chdir(dirs[0])) vr_harness_error("chdir");
	const char *mpath = where == 2 && vr_chance(1, 2) ? mn : masterp;
	uint64_t hist = vr_mix(len, (uint64_t)cmp);
	int steps = 2 + (int)vr_below(5);
	io_coarse_clock((unsigned)(coarse_ = vr_chance(1, 3) ? 2 + (int)vr_below(5) : 0));
	for (int s = 0; s < steps; s++) {
		/* directories in order of preference */
		const char *list[5]; static char lp[5][420]; int nl = (int)vr_below(5), real_nl;
		for (int i = 0; i < nl; i++) {
			int d = vr_chance(2, 3) ? (int)vr_below(2) : (int)vr_below(4);
			if (d == 0 && vr_chance(1, 6)) strcpy(lp[i], vr_chance(1, 2) ? "." : "");
			else snprintf(lp[i], 420, "%s%s", dirs[d], vr_chance(1, 3) ? "/" : "");
			list[i] = lp[i];
		}
		if (nl && vr_chance(1, 12)) { /* a directory with a long path */
			static char lng[5000]; size_t want = 4000 + vr_below(120), at = 0; memset(lng, 0, sizeof lng);
			at = (size_t)snprintf(lng, sizeof lng, "%s", dirs[vr_below(2)]);
			while (at + 2 <= want) { memcpy(lng + at, "/.", 2); at += 2; }
			list[vr_below((uint32_t)nl)] = lng;
		}
		const char **lpp = nl == 0 && vr_chance(1, 2) ? NULL : list; real_nl = nl;
		int op = vr_chance(1, 10) ? 6 : (int)vr_below(6);
		int rm_failed = io_failed_of(IO_REMOVE), od_failed = io_failed_of(IO_OPENDIR);
		if (op < 2) {
			size_t room = vr_chance(1, 3) ? 1 + vr_below(400) : FIFTYONE_DEGREES_FILE_MAX_PATH;
			if (op == 1) room = FIFTYONE_DEGREES_FILE_MAX_PATH;
			char *dest = malloc(room); memset(dest, 'q', room);
			int f = arm();
			fiftyoneDegreesStatusCode st = op == 0 ? fiftyoneDegreesFileNewTempFile(mpath, lpp, real_nl, dest, room) : fiftyoneDegreesFileCreateTempFile(mpath, lpp, real_nl, dest);
			int failed = f && io_failed(); io_fail_any_at(0, 0);
			vr_note_case("case %llu step %d: %s temp file, %d directories, failing %s%s, status %d", (unsigned long long)n, s, op ? "legacy" : "new", nl, fault_name[f], failed ? "" : " (not reached)", st);
			compare();
			VR_CHECK(missing_n == 0, "temp:removed", "making a copy removed %s", missing_n ? name_of(missing[0]) : "");
			int any = nl == 0; for (int i = 0; i < nl; i++) any |= usable(list[i]) && strlen(list[i]) < 3900;
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
				vr_count("temp_files_made", 1);
				int zero = memchr(dest, 0, room) != NULL;
				VR_CHECK(zero, "temp:name", "the name of the copy is not terminated");
				char *rp = zero ? realpath(dest, NULL) : NULL;
				VR_CHECK(rp && extra_n == 1 && !strcmp(extra[0], rp), "temp:made", "%d new files, named '%s'", extra_n, zero ? dest : "");
				if (rp && extra_n == 1) {
					size_t cn; unsigned char *cb = slurp(rp, &cn);
					VR_CHECK(cb && cn == len && !memcmp(cb, content, len), "temp:content", "the copy of %zu bytes has %zu bytes or other content", len, cn);
					VR_CHECK(in_dirs(rp, lpp, real_nl), "temp:where", "the copy %s is not in the directories given", rp);
					if (!failed) { if (getenv("VR_TRACE")) for (int i = 0; i < nl; i++) fprintf(stderr, "  op %d list %d: %zu %.80s\n", op, i, strlen(list[i]), list[i]);
						const char *want = NULL; for (int i = 0; i < nl && !want; i++) if (usable(list[i])) want = list[i];
						if (want && strlen(want) > 3900) want = NULL; /* may be too long */
						const char *one[1] = { want };
						if (want && room > 1000) VR_CHECK(in_dirs(rp, one, 1), "temp:first", "the copy %s is not in the first usable directory %s", rp, want);
					}
					if (op == 0) { char b[300]; snprintf(b, sizeof b, "%s-", base); VR_CHECK(!strncmp(name_of(rp), b, strlen(b)), "temp:name", "the copy %s is not named after its master", rp); }
					add(rp, cb, cn); free(cb);
				}
				free(rp);
			} else {
				vr_count("temp_files_refused", 1);
				VR_CHECK(extra_n == 0 || io_failed_of(IO_REMOVE) > rm_failed, "temp:left-behind", "%s is left after status %d", extra_n ? name_of(extra[0]) : "", st);
				for (int i = 0; i < extra_n; i++) (unlink)(extra[i]);
				if (!failed && room > 1000) VR_CHECK(!any, "temp:refused", "no copy made, status %d, although a directory is usable", st);
				if (!any) VR_CHECK(1, "temp:refused", "-");
			}
			if (failed) vr_count("temp_faults", 1);
			free(dest);
			hist = vr_mix(hist, (uint64_t)op * 64 + (uint64_t)f * 16 + (st == 0) * 8 + (uint64_t)nl);
		} else if (op == 2) {
			char *dest = malloc(FIFTYONE_DEGREES_FILE_MAX_PATH); strcpy(dest, "unset");
			int f = arm();
			bool got = fiftyoneDegreesFileGetExistingTempFile(mpath, lpp, real_nl, cmp, dest);
			int failed = f && io_failed(); io_fail_any_at(0, 0);
			vr_note_case("case %llu step %d: existing temp file, %d directories, %ld bytes compared, failing %s, %s", (unsigned long long)n, s, nl, cmp, fault_name[f], got ? "found" : "none");
			compare();
			VR_CHECK(!missing_n && !extra_n, "temp:search-changes", "looking for a copy changed the files");
			int want = 0; for (int i = 0; i < ne; i++) want |= is_copy(&e[i], cmp) && in_dirs(e[i].path, lpp, real_nl);
			int lng = 0; for (int i = 0; i < nl; i++) lng |= strlen(list[i]) > 3900;
			if (got) {
				char *rp = realpath(dest, NULL); ent *x = rp ? find(rp) : NULL;
				VR_CHECK(x && is_copy(x, cmp) && in_dirs(rp, lpp, real_nl), "temp:not-a-copy", "'%s' is given as a copy of %s and is not", dest, mn);
				free(rp); vr_count("copies_found", 1);
			} else {
				vr_count("copies_absent", 1);
				if (!failed && !lng) VR_CHECK(!want, "temp:not-found", "no copy found although there is one");
			}
			if (failed) vr_count("temp_faults", 1);
			free(dest);
			hist = vr_mix(hist, (uint64_t)(got * 2 + want) * 4 + (uint64_t)f);
		} else if (op == 3) {
			int f = arm();
			int r = fiftyoneDegreesFileDeleteUnusedTempFiles(mpath, lpp, real_nl, cmp);
			int failed = f && io_failed(); io_fail_any_at(0, 0);
			vr_note_case("case %llu step %d: delete of temp files, %d directories, %ld bytes compared, failing %s, %d deleted", (unsigned long long)n, s, nl, cmp, fault_name[f], r);
			compare();
			VR_CHECK(extra_n == 0, "temp:delete-makes", "cleaning up made a file");
			VR_CHECK(r == missing_n, "temp:deleted-count", "%d deleted, %d files are gone", r, missing_n);
			int lng = 0; for (int i = 0; i < nl; i++) lng |= strlen(list[i]) > 3900;
			for (int i = 0; i < missing_n; i++) {
				ent *x = find(missing[i]);
				VR_CHECK(is_copy(x, cmp) && in_dirs(x->path, lpp, real_nl), "temp:deleted-other", "%s is deleted and %s", name_of(x->path), x == master_() ? "is the master" : "is no copy in the directories given");
				VR_CHECK((x->fd < 0 && strcmp(kid_has, x->path)) || io_failed_of(IO_OPENDIR) > od_failed, "temp:deleted-used", "%s is deleted while in use%s", name_of(x->path), x->fd < 0 ? " by another process" : "");
				if (x == master_()) { put_file(masterp, content, len); continue; }
				del(x);
			}
			vr_count("copies_deleted", (uint64_t)missing_n);
			if (!failed && !lng) for (int i = 0; i < ne; i++) {
				int used = e[i].fd >= 0 || !strcmp(kid_has, e[i].path);
				if (is_copy(&e[i], cmp) && in_dirs(e[i].path, lpp, real_nl)) { VR_CHECK(used, "temp:not-deleted", "the unused copy %s is left", name_of(e[i].path)); if (used) vr_count("used_copies_kept", 1); }
			}
			if (failed) vr_count("temp_faults", 1);
			hist = vr_mix(hist, (uint64_t)r * 4 + (uint64_t)f);
		} else if (op == 6) { /* a name of a copy to be made by the caller */
			char head[420]; head[0] = 0; if (vr_chance(5, 6)) snprintf(head, sizeof head, "%s/", dirs[vr_below(2)]);
			size_t at = strlen(head), room = vr_chance(1, 2) ? 100 + vr_below(200) : 1 + vr_below(60);
			char *dest = malloc(at + room); memcpy(dest, head, at); memset(dest + at, 'q', room);
			int f = arm();
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileAddTempFileName(mn, dest, at, room);
			int failed = f && io_failed(); io_fail_any_at(0, 0);
			vr_note_case("case %llu step %d: name of a copy of %s in room for %zu, failing %s%s, status %d", (unsigned long long)n, s, mn, room, fault_name[f], failed ? "" : " (not reached)", st);
			compare();
			VR_CHECK(!missing_n && !extra_n, "temp:name-changes", "making a name changed the files");
			VR_CHECK(!memcmp(dest, head, at), "temp:name-head", "the text before the name is changed");
			char *nm = dest + at; int zero = memchr(nm, 0, room) != NULL; char b[300]; int bl = snprintf(b, sizeof b, "%s-%ld-", base, (long)getpid());
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
				VR_CHECK(zero && !strncmp(nm, b, (size_t)bl) && strlen(nm) > (size_t)bl, "temp:made-name", "the name of a copy of %s is %s", mn, vr_esc(nm, zero ? strlen(nm) : room));
				if (zero && !failed) VR_CHECK(access(dest, F_OK) != 0, "temp:taken-name", "the name %s is taken", nm);
				vr_count("names_made", 1);
			} else {
				int blank = 1; for (size_t i = 0; i < room; i++) blank &= nm[i] == 0;
				VR_CHECK(failed || st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "temp:name-status", "status %d", st);
				VR_CHECK(failed || (blank && room < 100), "temp:name-refused", "no name in room for %zu%s", room, blank ? "" : ", and part of one is left");
				vr_count("names_refused", 1);
			}
			free(dest);
			hist = vr_mix(hist, 600 + (uint64_t)st);
		} else if (op == 4) {
			ent *x = &e[vr_below((uint32_t)ne)]; /* prefer a copy */
			for (int t = 0; t < 3 && !is_copy(x, cmp); t++) x = &e[vr_below((uint32_t)ne)];
			if (x->isdir || x == master_()) continue;
			if (vr_chance(1, 3)) kid_hold(x->path);
			else if (x->fd < 0) x->fd = open(x->path, O_RDONLY);
		} else {
			ent *x = &e[vr_below((uint32_t)ne)];
			if (vr_chance(1, 3)) { if (kid_has[0]) kid_hold(NULL); }
			else if (x->fd >= 0) { close(x->fd); x->fd = -1; }
		}
		VR_CHECK(io_open_files() == 0 && io_open_dirs() == 0, "temp:handle-leak", "%d files and %d directories are left open", io_open_files(), io_open_dirs());
	}
	vr_distinct("nontrivial", hist);
	io_end();
	if (kid_has[0]) kid_hold(NULL);
	while (ne) del(&e[0]);
	if (chdir(vr_scratch())) vr_harness_error("chdir");
	rm_tree(root);
	if (vr_want_sample()) vr_sample("case %llu: master %s of %zu bytes, %ld compared, %d steps", (unsigned long long)n, mn, len, cmp, steps);
}
/* many copies, among many other files, and many directories to look in */
static void many(uint64_t n) {
	snprintf(root, sizeof root, "%s/f%d", vr_scratch(), (int)(n % 8)); mkdir(root, 0700); rm_tree(root);
	char *real = realpath(root, NULL); snprintf(root, sizeof root, "%s", real); free(real);
	io_begin(); io_coarse_clock(0); vr_alloc_reset(); vr_alloc_no_fail();
	char d[400], p[700]; snprintf(d, sizeof d, "%s/t", root); mkdir(d, 0700);
	snprintf(masterp, sizeof masterp, "%s/master.dat", root);
	unsigned char content[300]; size_t len = 1 + vr_below(sizeof content - 1); random_bytes(content, len); put_file(masterp, content, len);
	int copies = 130 + (int)vr_below(400), others = (int)vr_below(600), nd = vr_chance(1, 2) ? 1 : 256 + (int)vr_below(80), made = 0, left = 0;
	content[vr_below((uint32_t)len)] ^= 1;
	for (int i = 0; i < others; i++) { snprintf(p, sizeof p, vr_chance(1, 2) ? "%s/other%d" : "%s/master%d", d, i); put_file(p, content, len); }
	const char **list = malloc(sizeof *list * (size_t)nd);
	for (int i = 0; i < nd; i++) list[i] = i == nd - 1 ? d : "/nonexistent/directory";
	char (*name)[700] = malloc(sizeof *name * (size_t)copies);
	for (int i = 0; i < copies; i++) {
		char dest[FIFTYONE_DEGREES_FILE_MAX_PATH];
		if (fiftyoneDegreesFileNewTempFile(masterp, list, nd, dest, sizeof dest) != FIFTYONE_DEGREES_STATUS_SUCCESS) continue;
		snprintf(name[made++], sizeof *name, "%s", dest);
		for (int j = 0; j < made - 1; j++) if (!strcmp(name[j], dest)) { vr_fail("temp:twice", "the name %s is given to two copies", name_of(dest)); break; }
	}
	VR_CHECK(made == copies, "temp:many", "%d of %d copies are made in the last of %d directories", made, copies, nd);
	char found[FIFTYONE_DEGREES_FILE_MAX_PATH] = "";
	VR_CHECK(fiftyoneDegreesFileGetExistingTempFile(masterp, list, nd, -1, found) && access(found, F_OK) == 0, "temp:not-found", "none of %d copies is found in the last of %d directories", made, nd);
	int r = fiftyoneDegreesFileDeleteUnusedTempFiles(masterp, list, nd, -1);
	for (int i = 0; i < made; i++) left += access(name[i], F_OK) == 0;
	VR_CHECK(r == made && left == 0, "temp:deleted-count", "%d of %d copies are deleted, %d are left", r, made, left);
	struct dirent **l; int k = scandir(d, &l, NULL, NULL) - 2;
	for (int i = 0; i < k + 2; i++) free(l[i]);
	free(l);
	VR_CHECK(k == others && access(masterp, F_OK) == 0, "temp:deleted-other", "%d of %d other files are left, the master is%s", k, others, access(masterp, F_OK) ? " not" : "");
	VR_CHECK(vr_alloc_live() == 0 && io_open_files() == 0, "temp:leak", "%zu blocks and %d files are left", vr_alloc_live(), io_open_files());
	vr_count("copies_over_127", 1); if (nd > 1) vr_count("many_directories", 1);
	free(list); free(name); rm_tree(root);
	io_end();
}
/* ---- copying, writing and loading ---- */
static void files(uint64_t n) {
	snprintf(root, sizeof root, "%s/g%d", vr_scratch(), (int)(n % 8)); mkdir(root, 0700); rm_tree(root);
	char *real = realpath(root, NULL); snprintf(root, sizeof root, "%s", real); free(real);
	io_begin(); coarse_ = 0; vr_alloc_reset(); vr_alloc_no_fail();
	char a[400], b[400], c[400]; size_t len = some_size(); static unsigned char content[70000]; random_bytes(content, len);
	snprintf(a, sizeof a, "%s/a.bin", root); snprintf(c, sizeof c, "%s/missing", root);
	put_file(a, content, len);
	if (vr_chance(1, 100)) { /* longer than 2 and 4 GB, without taking up space */
		static const long big[] = { 0x7FFFFFFFL, 0x80000000L, 0x80000001L, 0xFFFFFFFFL, 0x100000000L, 0x100000001L, 0x1000000000L };
		long want = big[vr_below(7)], got;
		if (truncate(a, want)) vr_harness_error("cannot lengthen %s", a);
		got = fiftyoneDegreesFileGetSize(a);
		VR_CHECK(got == want, "file:size", "the size of a file of %ld bytes is given as %ld", want, got);
		vr_count("sizes_over_2g", 1);
		put_file(a, content, len);
	}
	for (int s = 0; s < 4; s++) {
		int op = (int)vr_below(7), exists = 0; size_t old = 0;
		snprintf(b, sizeof b, "%s/b%d.bin", root, s);
		if (vr_chance(1, 3)) { exists = 1; old = some_size(); static unsigned char o[70000]; random_bytes(o, old); put_file(b, o, old); }
		int gone = vr_chance(1, 12), nodir = vr_chance(1, 12);
		if (nodir) snprintf(b, sizeof b, "%s/none/b.bin", root), exists = 0;
		int f = op == 6 ? 0 : arm(), afail = f == 0 && op == 2 && vr_chance(1, 6);
		if (afail) vr_alloc_fail_at(1, 0);
		int rm = io_failed_of(IO_REMOVE);
		fiftyoneDegreesStatusCode st = 0; long size = -2;
		fiftyoneDegreesMemoryReader r; memset(&r, 0x5A, sizeof r);
		const char *src = gone ? c : a;
		switch (op) {
		case 0: case 5: st = fiftyoneDegreesFileCopy(src, b); break;
		case 1: { unsigned char *x = malloc(len ? len : 1); memcpy(x, content, len); st = fiftyoneDegreesFileWrite(b, x, len); free(x); break; }
		case 2: st = fiftyoneDegreesFileReadToByteArray(src, &r); break;
		case 3: size = fiftyoneDegreesFileGetSize(src); break;
		case 4: st = fiftyoneDegreesFileDelete(exists ? b : c); break;
		default: break;
		}
		int failed = (f && io_failed()) || (afail && vr_alloc_failed()); io_fail_any_at(0, 0); vr_alloc_no_fail();
		static const char *ops[] = { "copy", "write", "load", "size", "delete", "copy", "directory" };
		vr_note_case("case %llu step %d: %s of %zu bytes%s%s, failing %s%s, status %d", (unsigned long long)n, s, ops[op], len, gone ? " that are missing" : "", nodir ? " to no directory" : "", afail ? "allocation" : fault_name[f], failed ? "" : " (not reached)", st);
		if (failed) vr_count("file_faults", 1);
		vr_count(ops[op], 1);
		size_t bn = 0; unsigned char *bb = slurp(b, &bn);
		int whole = bb && bn == len && !memcmp(bb, content, len);
		if (op == 0 || op == 5 || op == 1) {
			int bad = nodir || (gone && op != 1);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) VR_CHECK(whole && !bad, op == 1 ? "file:write" : "file:copy", "success, and the destination has %zu of %zu bytes or other content", bn, len);
			else {
				if (!failed) VR_CHECK(bad, "file:refused", "%s gives status %d", ops[op], st);
				if (op != 1 && io_failed_of(IO_REMOVE) == rm) VR_CHECK(!bb || (exists && bn == old), "file:left-behind", "status %d, and a destination of %zu bytes is left", st, bn);
				vr_count("failures_reported", 1);
			}
		} else if (op == 2) {
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
				VR_CHECK(!gone && r.length == (long)len && r.current == r.startByte && r.current && r.lastByte == r.current + len && !memcmp(r.current, content, len), "file:load", "success, and the memory has %ld of %zu bytes or other content", r.length, len);
				if (r.startByte && r.startByte != (void *)0x5A5A5A5A5A5A5A5A) fiftyoneDegreesFree(r.startByte);
			} else { if (!failed) VR_CHECK(gone || len == 0, "file:refused", "load gives status %d", st); vr_count("failures_reported", 1); if (afail && vr_alloc_failed()) VR_CHECK(st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "file:load-status", "status %d when out of memory", st); }
			VR_CHECK(vr_alloc_live() == 0, "file:leak", "%zu blocks left after status %d", vr_alloc_live(), st);
		} else if (op == 3) {
			if (!failed) VR_CHECK(size == (gone ? -1 : (long)len), "file:size", "size %ld, expected %ld", size, gone ? -1L : (long)len);
			else VR_CHECK(size == -1 || size == (gone ? -1 : (long)len), "file:size", "size %ld after a failure, expected -1 or %ld", size, (long)len);
		} else if (op == 4) {
			VR_CHECK((st == FIFTYONE_DEGREES_STATUS_SUCCESS) == (exists && !bb), "file:delete", "delete gives status %d and the file is %s", st, bb ? "there" : "gone");
			if (!exists && !failed) VR_CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "file:delete-status", "deleting a missing file gives status %d", st);
		} else {
			char d[420]; snprintf(d, sizeof d, "%s/dir%d%s", root, s, vr_chance(1, 4) ? "/x" : "");
			int parent = !strchr(d + strlen(root) + 1, '/');
			if (vr_chance(1, 3)) { /* not allowed to make it, or no room for it */
				static const int why[] = { EACCES, EROFS, ENOSPC, ENOTDIR };
				io_mkdir_errno = why[vr_below(4)]; io_fail_at(IO_MKDIR, 1, 0);
				st = fiftyoneDegreesFileCreateDirectory(d);
				int denied = io_mkdir_errno == EACCES || io_mkdir_errno == EROFS;
				if (!io_failed()) rmdir(d); /* made in another way */
				else VR_CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS && (!denied || st == FIFTYONE_DEGREES_STATUS_FILE_PERMISSION_DENIED), "file:directory", "making a directory that fails with error %d gives status %d", io_mkdir_errno, st);
				io_fail_at(IO_MKDIR, 0, 0); io_mkdir_errno = 0; vr_count("directories_denied", 1);
			}
			st = fiftyoneDegreesFileCreateDirectory(d);
			struct stat sb; int there = !stat(d, &sb) && S_ISDIR(sb.st_mode);
			VR_CHECK((st == FIFTYONE_DEGREES_STATUS_SUCCESS) == parent && there == parent, "file:directory", "directory gives status %d and is %sthere", st, there ? "" : "not ");
			if (there) VR_CHECK(fiftyoneDegreesFileCreateDirectory(d) == FIFTYONE_DEGREES_STATUS_FILE_EXISTS_ERROR, "file:directory", "making a directory again is not refused");
			/* the path of a file in a sub folder of a parent of the working directory */
			char up[900], got[FIFTYONE_DEGREES_FILE_MAX_PATH], *small;
			snprintf(up, sizeof up, "%s/w", root); mkdir(up, 0700); strcat(up, "/v"); mkdir(up, 0700);
			if (chdir(up)) vr_harness_error("chdir");
			char name[60]; snprintf(name, sizeof name, "a.bin"); const char *folder = strrchr(root, '/') + 1;
			size_t room = vr_chance(1, 2) ? sizeof got : 1 + vr_below(300);
			small = malloc(room);
			st = fiftyoneDegreesFileGetPath(folder, gone ? "nothere" : name, small, room);
			if (gone) VR_CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "file:path", "a missing file is found, status %d", st);
			else if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { char *rp = memchr(small, 0, room) ? realpath(small, NULL) : NULL; VR_CHECK(rp && !strcmp(rp, a), "file:path", "path %s, expected %s", rp ? rp : "?", a); free(rp); }
			else VR_CHECK(room <= strlen(a) + 2, "file:path", "path not found in room for %zu, status %d", room, st);
			free(small);
			if (chdir(vr_scratch())) vr_harness_error("chdir");
		}
		free(bb);
		/* the source is never changed */
		size_t an; unsigned char *ab = slurp(a, &an);
		VR_CHECK(ab && an == len && !memcmp(ab, content, len), "file:source", "the source changed");
		free(ab);
		VR_CHECK(io_open_files() == 0, "file:handle-leak", "%d files are left open after status %d", io_open_files(), st);
		vr_distinct("nontrivial", vr_mix(len, (uint64_t)op * 1000 + (uint64_t)f * 100 + (uint64_t)(failed ? io_failed_class() + 1 : 0) * 4 + (uint64_t)gone * 2 + (uint64_t)nodir));
	}
	static const char *paths[][2] = { { "a/b.c", "b.c" }, { "b.c", "b.c" }, { "/b", "b" }, { "a\\b", "b" }, { "a/", "" }, { "", "" }, { "/x/y.z/w", "w" } };
	for (int i = 0; i < 7; i++) VR_CHECK(!strcmp(fiftyoneDegreesFileGetFileName(paths[i][0]), paths[i][1]), "file:name", "name of '%s' is '%s'", paths[i][0], fiftyoneDegreesFileGetFileName(paths[i][0]));
	io_end();
	rm_tree(root);
	if (vr_want_sample()) vr_sample("case %llu: file of %zu bytes", (unsigned long long)n, len);
}
void vr_setup(void) {
	vr_alloc_install(); vr_alloc_scribble(1);
	if (vr_opt_int("temp", 0)) {
		if (pipe(to) || pipe(from)) vr_harness_error("pipe");
		kid = fork();
		if (kid == 0) { close(to[1]); close(from[0]); helper(); }
		close(to[0]); close(from[1]);
	}
}
void vr_teardown(void) { if (kid > 0) { close(to[1]); waitpid(kid, NULL, 0); } }
void vr_run_case(uint64_t i) { if (vr_opt_int("temp", 0)) { if (vr_chance(1, 800)) many(i); else temps(i); } else files(i); }
