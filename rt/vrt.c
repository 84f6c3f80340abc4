#include <time.h>
#define _GNU_SOURCE
#include "vrt.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <pthread.h>
#include <malloc.h>
#include <signal.h>

static uint64_t seed_ = 1, case_ = 0, rng_[2];
static int thorough_ = 0;
static const char *out_path = NULL, *scratch_ = NULL;
static int out_fd = -1;
static char optbuf[64][2][256];
static int nopts;
static char *progress_;                    /* shared mapping read by run.py */
#define PROGRESS_SIZE 4096
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
extern int __real_pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak));
extern int __real_pthread_mutex_unlock(pthread_mutex_t *) __attribute__((weak));
static void LOCK(void) {
	if (__real_pthread_mutex_lock) __real_pthread_mutex_lock(&lk);
	else pthread_mutex_lock(&lk);
}
static void UNLOCK(void) {
	if (__real_pthread_mutex_unlock) __real_pthread_mutex_unlock(&lk);
	else pthread_mutex_unlock(&lk);
}

/* ---------------------------------------------------------------- random */
static uint64_t splitmix(uint64_t *s) {
	uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
uint64_t vr_rand_s(uint64_t *s) { return splitmix(s); }
uint64_t vr_rand(void) { return splitmix(&rng_[0]); }
uint32_t vr_below(uint32_t n) { return n == 0 ? 0 : (uint32_t)(vr_rand() % n); }
int32_t vr_between(int32_t lo, int32_t hi) {
	return (int32_t)(lo + (int64_t)(vr_rand() % ((uint64_t)((int64_t)hi - lo) + 1)));
}
int vr_chance(uint32_t num, uint32_t den) { return vr_below(den) < num; }
uint64_t vr_mix(uint64_t a, uint64_t b) {
	uint64_t s = a ^ (b * 0xff51afd7ed558ccdULL);
	return splitmix(&s);
}
uint64_t vr_hash(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = (const unsigned char *)p;
	h ^= 0xcbf29ce484222325ULL;
	for (size_t i = 0; i < n; i++) { h = (h ^ c[i]) * 0x100000001b3ULL; }
	return h;
}
static void reseed(uint64_t i) {
	uint64_t s = vr_mix(seed_, 0x51d) ^ vr_hash(vr_harness, strlen(vr_harness), 7);
	rng_[0] = vr_mix(s, i + 1);
	case_ = i;
}
uint64_t vr_seed(void) { return seed_; }
uint64_t vr_case_no(void) { return case_; }
int vr_thorough(void) { return thorough_; }
const char *vr_scratch(void) { return scratch_; }
const char *vr_opt(const char *name, const char *dflt) {
	for (int i = 0; i < nopts; i++) {
		if (strcmp(optbuf[i][0], name) == 0) return optbuf[i][1];
	}
	return dflt;
}
long vr_opt_int(const char *name, long dflt) {
	const char *v = vr_opt(name, NULL);
	return v ? strtol(v, NULL, 0) : dflt;
}

/* ----------------------------------------------------------- observation */
#define NCOUNT 1024
static struct { char name[96]; uint64_t n; int gauge; } counts[NCOUNT];
static int ncounts;
static int find_count(const char *e) {
	static int last;
	if (last < ncounts && strcmp(counts[last].name, e) == 0) return last;
	for (int i = 0; i < ncounts; i++) {
		if (strcmp(counts[i].name, e) == 0) return last = i;
	}
	if (ncounts == NCOUNT) return 0;
	snprintf(counts[ncounts].name, sizeof counts[0].name, "%s", e);
	counts[ncounts].n = 0;
	return last = ncounts++;
}
void vr_count(const char *e, uint64_t n) {
	LOCK(); counts[find_count(e)].n += n; UNLOCK();
}
uint64_t vr_counted(const char *e) {
	LOCK(); uint64_t n = counts[find_count(e)].n; UNLOCK(); return n;
}
void vr_max(const char *e, uint64_t v) {
	LOCK();
	int i = find_count(e);
	counts[i].gauge = 1;
	if (v > counts[i].n) counts[i].n = v;
	UNLOCK();
}
#define NSETS 24
#define SETMAX (1u << 18)
static struct { char name[64]; uint64_t *h; uint32_t n; uint32_t cap; int full; }
	sets[NSETS];
static int nsets;
static int set_add(int s, uint64_t hash) {
	uint32_t m = sets[s].cap - 1, k = (uint32_t)(hash ^ (hash >> 32)) & m;
	while (sets[s].h[k]) {
		if (sets[s].h[k] == hash) return 0;
		k = (k + 1) & m;
	}
	sets[s].h[k] = hash;
	sets[s].n++;
	return 1;
}
void vr_distinct(const char *label, uint64_t hash) {
	int s;
	if (hash == 0) hash = 1;
	LOCK();
	for (s = 0; s < nsets; s++) if (strcmp(sets[s].name, label) == 0) break;
	if (s == nsets) {
		if (nsets == NSETS) { UNLOCK(); return; }
		snprintf(sets[s].name, sizeof sets[s].name, "%s", label);
		sets[s].cap = 1024;
		sets[s].h = (uint64_t *)calloc(sets[s].cap, 8);
		sets[s].n = 0;
		nsets++;
	}
	if (sets[s].n * 2 >= sets[s].cap) {
		if (sets[s].cap < SETMAX * 2) {
			uint64_t *o = sets[s].h;
			uint32_t oc = sets[s].cap;
			sets[s].cap *= 2;
			sets[s].h = (uint64_t *)calloc(sets[s].cap, 8);
			sets[s].n = 0;
			for (uint32_t i = 0; i < oc; i++) if (o[i]) set_add(s, o[i]);
			free(o);
		}
		else { sets[s].full = 1; UNLOCK(); return; }
	}
	set_add(s, hash);
	UNLOCK();
}

static void json_str(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
__thread int vr_internal;
static void emit(const char *type, const char *key, const char *text) {
	vr_internal++;
	char *buf = NULL; size_t n = 0;
	FILE *f = open_memstream(&buf, &n);
	fprintf(f, "{\"t\":\"%s\",\"case\":%llu,\"key\":", type,
		(unsigned long long)case_);
	json_str(f, key);
	fprintf(f, ",\"text\":");
	json_str(f, text);
	fprintf(f, "}\n");
	fclose(f);
	if (out_fd >= 0) { ssize_t r = write(out_fd, buf, n); (void)r; }
	else { fputs(buf, stdout); fflush(stdout); }
	free(buf);
	vr_internal--;
}
static int nsamples;
int vr_want_sample(void) { return nsamples < 6; }
void vr_sample(const char *fmt, ...) {
	char b[900];
	if (nsamples >= 6) return;
	nsamples++;
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	LOCK(); emit("sample", "", b); UNLOCK();
}
static struct { char key[160]; int n; } fails[256];
static int nfails;
void vr_fail(const char *key, const char *fmt, ...) {
	char b[1600];
	int i;
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	LOCK();
	for (i = 0; i < nfails; i++) if (strcmp(fails[i].key, key) == 0) break;
	if (i == nfails && nfails < 256) {
		snprintf(fails[i].key, sizeof fails[i].key, "%s", key);
		nfails++;
	}
	if (i < 256 && fails[i].n++ < 3) emit("fail", key, b);
	UNLOCK();
}
void vr_note_case(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	if (progress_) {
		vsnprintf(progress_ + 64, PROGRESS_SIZE - 64, fmt, ap);
	}
	va_end(ap);
}
void vr_harness_error(const char *fmt, ...) {
	char b[1200];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	emit("harness_error", "", b);
	fprintf(stderr, "HARNESS ERROR: %s\n", b);
	_exit(77);
}
char *vr_esc(const void *p, size_t n) {
	static __thread char bufs[8][512];
	static __thread int k;
	char *b = bufs[k = (k + 1) & 7];
	const unsigned char *c = (const unsigned char *)p;
	size_t o = 0;
	if (p == NULL) return strcpy(b, "(null)");
	for (size_t i = 0; i < n && o < sizeof bufs[0] - 8; i++) {
		if (c[i] == '\\') { b[o++] = '\\'; b[o++] = '\\'; }
		else if (c[i] >= 0x20 && c[i] < 0x7f) b[o++] = (char)c[i];
		else o += (size_t)snprintf(b + o, 6, "\\x%02X", c[i]);
	}
	b[o] = 0;
	return b;
}
int vr_open_fds(void) {
	int n = 0;
	vr_internal++;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (readdir(d)) n++;
	closedir(d);
	vr_internal--;
	return n - 3;
}

/* ------------------------------------------------------------- allocator */
typedef struct blk { void *p; size_t size; uint64_t seq; int state; } blk;
/* open addressing by address; state 0 empty, 1 live, 2 freed (quarantined),
 * 3 tombstone */
static blk *tab; static size_t tabcap, tabused, live_, live_bytes, largest_;
static uint64_t total_;
static uint64_t fail_at; static int fail_sticky, failed_;
static int quarantine_, scribble_;
void (*vr_alloc_on_free)(void *p, size_t size);
static pthread_mutex_t alk = PTHREAD_MUTEX_INITIALIZER;
static void ALOCK(void) {
	if (__real_pthread_mutex_lock) __real_pthread_mutex_lock(&alk);
	else pthread_mutex_lock(&alk);
}
static void AUNLOCK(void) {
	if (__real_pthread_mutex_unlock) __real_pthread_mutex_unlock(&alk);
	else pthread_mutex_unlock(&alk);
}
static size_t slot(const void *p) {
	return (size_t)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 20) & (tabcap - 1);
}
static void tab_put(void *p, size_t size, uint64_t seq, int state) {
	size_t k = slot(p);
	while (tab[k].state != 0 && tab[k].state != 3 && tab[k].p != p) {
		k = (k + 1) & (tabcap - 1);
	}
	if (tab[k].state == 0) tabused++;
	tab[k].p = p; tab[k].size = size; tab[k].seq = seq; tab[k].state = state;
}
static void tab_grow(void) {
	blk *o = tab; size_t oc = tabcap;
	size_t want = 0;
	for (size_t i = 0; i < oc; i++) want += (o[i].state == 1 || o[i].state == 2);
	tabcap = 4096;
	while (tabcap < want * 4) tabcap *= 2;
	tab = (blk *)calloc(tabcap, sizeof *tab);
	tabused = 0;
	for (size_t i = 0; i < oc; i++) {
		if (o[i].state == 1 || o[i].state == 2) {
			tab_put(o[i].p, o[i].size, o[i].seq, o[i].state);
		}
	}
	free(o);
}
static blk *tab_find(const void *p) {
	if (tabcap == 0) return NULL;
	size_t k = slot(p), n = 0;
	while (tab[k].state != 0 && n++ < tabcap) {
		if (tab[k].p == p && tab[k].state != 3) return &tab[k];
		k = (k + 1) & (tabcap - 1);
	}
	return NULL;
}
static void *track(void *p, size_t size) {
	if (p) {
		if (tabcap == 0 || tabused * 2 >= tabcap) tab_grow();
		/* an address that was quarantined cannot come back; one that was
		 * really freed by plain free() can: drop the stale record */
		blk *b = tab_find(p);
		if (b && b->state == 1) { live_--; live_bytes -= b->size; b->state = 3; }
		tab_put(p, size, total_, 1);
		live_++; live_bytes += size;
	}
	return p;
}
static int inject(size_t size) {
	total_++;
	if (size > largest_) largest_ = size;
	if (fail_at && (total_ == fail_at || (fail_sticky && total_ > fail_at))) {
		failed_++;
		return 1;
	}
	return 0;
}
/* Requests this large come from unvalidated sizes; answered as a full machine
 * would, so that a workload cannot take the sandbox's memory. */
static size_t huge_request_ = (size_t)1 << 30;
void vr_alloc_allow(size_t most) { huge_request_ = most; }
static void *v_malloc(size_t n) {
	ALOCK();
	if (inject(n) || n > huge_request_) { AUNLOCK(); return NULL; }
	void *p = malloc(n);
	if (p && scribble_) memset(p, 0xA5, n);
	track(p, n);
	AUNLOCK();
	return p;
}
static void *v_malloc_aligned(int alignment, size_t n) {
	ALOCK();
	if (inject(n) || n > huge_request_) { AUNLOCK(); return NULL; }
	void *p = NULL;
	if (posix_memalign(&p, (size_t)alignment < sizeof(void *) ?
		sizeof(void *) : (size_t)alignment, n ? n : 1) != 0) p = NULL;
	if (p && scribble_) memset(p, 0xA5, n);
	track(p, n);
	AUNLOCK();
	return p;
}
static void v_free(void *p) {
	if (p == NULL) return;
	ALOCK();
	blk *b = tab_find(p);
	if (b == NULL || b->state != 1) {
		int freed = b != NULL && b->state == 2;
		AUNLOCK();
		vr_fail(freed ? "alloc:double-free" : "alloc:free-of-unknown",
			"free of %p which is %s", p,
			freed ? "already freed" : "not a live block of the library's allocator");
		if (!freed && b == NULL) {
			/* maybe malloc'ed directly: let the sanitizer judge */
			free(p);
		}
		return;
	}
	size_t size = b->size;
	live_--; live_bytes -= size;
	if (quarantine_) {
		b->state = 2;
	}
	else {
		b->state = 3;
	}
	AUNLOCK();
	if (vr_alloc_on_free) vr_alloc_on_free(p, size);
	if (!quarantine_) free(p);
}
/* the library's pointers; weak so that a harness without the C library links */
extern void *(*fiftyoneDegreesMalloc)(size_t) __attribute__((weak));
extern void *(*fiftyoneDegreesMallocAligned)(int, size_t) __attribute__((weak));
extern void (*fiftyoneDegreesFree)(void *) __attribute__((weak));
extern void (*fiftyoneDegreesFreeAligned)(void *) __attribute__((weak));
void vr_alloc_install(void) {
	fiftyoneDegreesMalloc = v_malloc;
	fiftyoneDegreesMallocAligned = v_malloc_aligned;
	fiftyoneDegreesFree = v_free;
	fiftyoneDegreesFreeAligned = v_free;
}
void vr_alloc_reset(void) {
	ALOCK();
	if (tabcap) memset(tab, 0, tabcap * sizeof *tab);
	tabused = 0; live_ = 0; live_bytes = 0; total_ = 0; largest_ = 0;
	fail_at = 0; failed_ = 0;
	AUNLOCK();
}
size_t vr_alloc_live(void) { return live_; }
size_t vr_alloc_live_bytes(void) { return live_bytes; }
uint64_t vr_alloc_total(void) { return total_; }
size_t vr_alloc_largest(void) { return largest_; }
void vr_alloc_fail_at(uint64_t n, int sticky) {
	ALOCK(); fail_at = n ? total_ + n : 0; fail_sticky = sticky; failed_ = 0; AUNLOCK();
}
void vr_alloc_no_fail(void) { fail_at = 0; }
int vr_alloc_failed(void) { return failed_; }
void vr_alloc_quarantine(int on) { quarantine_ = on; }
void vr_alloc_scribble(int on) { scribble_ = on; }
void vr_alloc_release_quarantine(void) {
	ALOCK();
	for (size_t i = 0; i < tabcap; i++) {
		if (tab[i].state == 2) { free(tab[i].p); tab[i].state = 3; }
	}
	AUNLOCK();
}
int vr_alloc_is_live(const void *p) {
	ALOCK(); blk *b = tab_find(p); int r = b && b->state == 1; AUNLOCK(); return r;
}
int vr_alloc_was_freed(const void *p) {
	ALOCK(); blk *b = tab_find(p); int r = b && b->state == 2; AUNLOCK(); return r;
}
void vr_alloc_describe_live(char *buf, size_t n) {
	size_t o = 0, k = 0;
	if (n) buf[0] = 0;
	ALOCK();
	for (size_t i = 0; i < tabcap && k < 6; i++) {
		if (tab[i].state == 1 && o + 40 < n) {
			o += (size_t)snprintf(buf + o, n - o, "[request #%llu, %zu bytes] ",
				(unsigned long long)tab[i].seq, tab[i].size);
			k++;
		}
	}
	AUNLOCK();
}

/* ------------------------------------------------------------------ main */
static void flush_all(void) {
	static int done;
	if (done++) return;
	char *buf = NULL; size_t n = 0;
	FILE *f = open_memstream(&buf, &n);
	for (int i = 0; i < ncounts; i++) {
		fprintf(f, "{\"t\":\"%s\",\"key\":", counts[i].gauge ? "max" : "count");
		json_str(f, counts[i].name);
		fprintf(f, ",\"n\":%llu}\n", (unsigned long long)counts[i].n);
	}
	for (int i = 0; i < nfails; i++) {
		fprintf(f, "{\"t\":\"failcount\",\"key\":");
		json_str(f, fails[i].key);
		fprintf(f, ",\"n\":%d}\n", fails[i].n);
	}
	fclose(f);
	if (out_fd >= 0) { ssize_t r = write(out_fd, buf, n); (void)r; }
	else fputs(buf, stdout);
	if (out_path) {
		char p[1024];
		snprintf(p, sizeof p, "%s.dist", out_path);
		FILE *d = fopen(p, "wb");
		if (d) {
			for (int s = 0; s < nsets; s++) {
				uint64_t hdr[2] = { sets[s].n, (uint64_t)sets[s].full };
				fwrite(sets[s].name, 1, sizeof sets[s].name, d);
				fwrite(hdr, 8, 2, d);
				for (uint32_t k = 0; k < sets[s].cap; k++) {
					if (sets[s].h[k]) fwrite(&sets[s].h[k], 8, 1, d);
				}
			}
			fclose(d);
		}
	}
}
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death(void) { vr_internal++; flush_all(); }
void vr_finish(void) {
	vr_internal++; flush_all(); _exit(0); }

int main(int argc, char **argv) {
	uint64_t from = 0, to = 1, until = 0;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed_ = strtoull(argv[++i], 0, 0);
		else if (!strcmp(argv[i], "--cases")) {
			char *e; from = strtoull(argv[++i], &e, 0);
			to = *e == ':' ? strtoull(e + 1, 0, 0) : from + 1;
		}
		else if (!strcmp(argv[i], "--until")) until = strtoull(argv[++i], 0, 0);
		else if (!strcmp(argv[i], "--out")) out_path = argv[++i];
		else if (!strcmp(argv[i], "--thorough")) thorough_ = 1;
		else if (!strcmp(argv[i], "--scratch")) scratch_ = argv[++i];
		else if (!strcmp(argv[i], "--opt") && nopts < 64) {
			char *v = argv[++i], *eq = strchr(v, '=');
			if (!eq) continue;
			snprintf(optbuf[nopts][0], 256, "%.*s", (int)(eq - v), v);
			snprintf(optbuf[nopts++][1], 256, "%s", eq + 1);
		}
	}
	if (out_path) {
		out_fd = open(out_path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		char p[1024];
		snprintf(p, sizeof p, "%s.progress", out_path);
		int fd = open(p, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
		if (fd >= 0 && ftruncate(fd, PROGRESS_SIZE) == 0) {
			progress_ = (char *)mmap(0, PROGRESS_SIZE, PROT_READ | PROT_WRITE,
				MAP_SHARED, fd, 0);
			close(fd);
			if (progress_ == MAP_FAILED) progress_ = NULL;
		}
	}
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	reseed(~0ULL);
	vr_setup();
	for (uint64_t i = from; i < to; i++) {
		/* only on a machine far too slow: the check must end in its time */
		if (until && (uint64_t)time(NULL) >= until) { vr_count("cases_stopped", to - i); break; }
		reseed(i);
		if (progress_) {
			progress_[64] = 0;
			snprintf(progress_, 64, "%llu", (unsigned long long)i);
		}
		vr_run_case(i);
		vr_count("cases", 1);
	}
	if (progress_) { progress_[64] = 0; snprintf(progress_, 64, "teardown"); }
	vr_teardown();
	flush_all();
	if (progress_) snprintf(progress_, 64, "done");
	fflush(NULL);
	_exit(0);
}
