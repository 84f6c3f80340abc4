/* Managed resources under controlled schedules: users, replacers and a final
 * free of the manager; conservation and lifetime of every resource. */
#include "vrt.h"
#include "sched.h"
#include "fiftyone.h"
#include <stdlib.h>
#include <string.h>
const char *vr_harness = "resource";
#define MAXR 64
typedef struct res {
	fiftyoneDegreesResourceHandle *handle;
	uint64_t canary[4];
	int id, freed, holders, installed, superseded, retired_when_freed;
	long repl_begin, repl_end;   /* logical times of the replacement that made it current */
} res;
static res rs_[MAXR]; static int nres;
static fiftyoneDegreesResourceManager *mgr;
static int handlemem;
static long now; static int in_op, mgr_freed, gets_over, want_free, reuse;
static const char *op_of[20];
typedef struct actor { int kind, ops; uint64_t rng; int holdmax; } actor;
static actor ac[16]; static int nac, users_left, repl_left;
/* retired handle memory */
static struct { char *p; size_t n; } dead[256]; static int ndead;
static char *pool_reuse[64]; static size_t pool_size[64]; static int npool;
static void *lib_malloc_aligned(int, size_t);

static const char *cur_op(void) { int s = sched_self(); const char *o = op_of[s < 0 ? 16 : s]; return o ? o : "none"; }
static uint64_t can(int id, int k) { return vr_mix((uint64_t)id * 1000003 + 7, (uint64_t)k); }
static void paint(res *r) { for (int k = 0; k < 4; k++) r->canary[k] = can(r->id, k); }
static const char *pfx(const char *k) {
	static char b[8][96]; static int n;
	char *o = b[n = (n + 1) & 7];
	snprintf(o, 96, "%s%s", reuse ? "reuse:" : "", k);
	return o;
}
static int intact(res *r) { for (int k = 0; k < 4; k++) if (((volatile uint64_t *)r->canary)[k] != can(r->id, k)) return 0; return 1; }
static void on_free(void *p) {
	if (p == NULL) { vr_fail(pfx("resource:free-of-null"), "free method called without a resource during %s", cur_op()); return; }
	res *r = p;
	vr_count("resources_freed", 1);
	if (r->freed) { vr_fail(pfx("resource:freed-twice"), "resource %d freed twice, now during %s", r->id, cur_op()); return; }
	if (r->holders) vr_fail(pfx("resource:freed-while-held"), "resource %d freed during %s while %d users hold it", r->id, cur_op(), r->holders);
	if (!mgr_freed && !want_free && mgr->active && mgr->active == r->handle) vr_fail(pfx("resource:freed-while-current"), "resource %d freed during %s while it is the current one", r->id, cur_op());
	if (!r->installed) vr_fail(pfx("resource:freed-uninstalled"), "resource %d freed before it was installed", r->id);
	r->freed++;
	memset(r->canary, 0xDD, sizeof r->canary);
}
static res *new_res(void) {
	if (nres == MAXR) vr_harness_error("too many resources");
	res *r = &rs_[nres];
	memset(r, 0, sizeof *r);
	r->id = nres++;
	paint(r);
	return r;
}
static void quiescent_(const char *when) {
	if (in_op || mgr_freed || want_free) return;
	vr_count("quiescent_checks", 1);
	fiftyoneDegreesResourceHandle *a = mgr->active;
	res *cur = NULL;
	for (int i = 0; i < nres; i++) if (rs_[i].installed && a && a->resource == &rs_[i] && a == rs_[i].handle) cur = &rs_[i];
	VR_CHECK(cur != NULL && !cur->freed && a->resource == cur, pfx("resource:current-lost"), "%s: the current resource is none of those installed, or freed", when);
	if (!cur) return;
	VR_CHECK(fiftyoneDegreesResourceHandleGetUse(a) == cur->holders, pfx("resource:use-count"), "%s: use count %d, %d users hold the current resource", when, fiftyoneDegreesResourceHandleGetUse(a), cur->holders);
	for (int i = 0; i < nres; i++) {
		res *r = &rs_[i];
		if (!r->installed || r == cur) continue;
		VR_CHECK(r->holders || r->freed, pfx("resource:leaked"), "%s: replaced resource %d has no users and is not freed", when, i);
	}
}
static void quiescent(const char *when) { sched_hold(1); quiescent_(when); sched_hold(0); }
static void begin(const char *op) { int s = sched_self(); op_of[s < 0 ? 16 : s] = op; in_op++; now++; }
static void end(const char *op) { int s = sched_self(); op_of[s < 0 ? 16 : s] = NULL; in_op--; now++; quiescent(op); }

static fiftyoneDegreesResourceHandle *get(res **out) {
	begin("IncUse");
	long t = now;
	fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(mgr);
	res *r = NULL;
	for (int i = 0; i < nres; i++) if (h != NULL && h == rs_[i].handle) r = &rs_[i];
	/* memory of a handle may be reused: the resource tells which */
	if (h && h->resource >= (const void *)rs_ && h->resource < (const void *)(rs_ + MAXR)) r = (res *)h->resource;
	VR_CHECK(r != NULL, pfx("resource:got-nothing"), "obtaining gave a handle of no installed resource");
	if (r) {
		r->holders++;
		vr_count("gets", 1);
		VR_CHECK(!r->freed && intact(r), pfx("resource:got-freed"), "obtained resource %d which is already freed", r->id);
		for (int i = 0; i < nres; i++) {
			res *n = &rs_[i];
			if (n != r && n->repl_end && n->repl_end < t && r->repl_end && r->repl_end < n->repl_begin)
				vr_fail(pfx("resource:got-retired"), "obtained resource %d although its replacement by %d had returned", r->id, n->id);
		}
	}
	end("IncUse");
	*out = r;
	return r ? h : NULL;
}
static void check_held(res *r) {
	VR_CHECK(!r->freed && intact(r), pfx("resource:changed-while-held"), "resource %d %s while held", r->id, r->freed ? "freed" : "changed");
}
static void put(fiftyoneDegreesResourceHandle *h, res *r) {
	check_held(r);
	begin("DecUse");
	if (!mgr_freed && r->handle == mgr->active) vr_count("releases_of_current", 1); else vr_count("releases_of_retired", 1);
	r->holders--;
	fiftyoneDegreesResourceHandleDecUse(h);
	end("DecUse");
}
static void replace(void) {
	res *n = new_res();
	begin("Replace");
	n->installed = 1; n->repl_begin = now;
	fiftyoneDegreesResourceReplace(mgr, n, &n->handle);
	n->repl_end = ++now;
	vr_count("replacements", 1);
	end("Replace");
}
static void user(void *a) {
	actor *me = a;
	fiftyoneDegreesResourceHandle *h[4]; res *r[4]; int nh = 0;
	for (int i = 0; i < me->ops; i++) {
		if (nh < me->holdmax && (nh == 0 || vr_rand_s(&me->rng) % 2)) {
			h[nh] = get(&r[nh]);
			if (h[nh]) nh++;
		}
		else {
			int k = (int)(vr_rand_s(&me->rng) % (uint64_t)nh);
			put(h[k], r[k]);
			nh--; h[k] = h[nh]; r[k] = r[nh];
		}
		for (int k = 0; k < nh; k++) check_held(r[k]);
		sched_point();
	}
	users_left--;   /* no more obtaining; holds may outlive the manager's free */
	for (int k = 0; k < (int)(vr_rand_s(&me->rng) % 12); k++) sched_point();
	while (nh) { nh--; for (int k = 0; k < 3; k++) sched_point(); put(h[nh], r[nh]); }
}
static void replacer(void *a) {
	actor *me = a;
	for (int i = 0; i < me->ops; i++) { replace(); sched_point(); }
	repl_left--;
}
static int single;
/* one thread doing everything, with real frees */
static void alone(void *x) {
	fiftyoneDegreesResourceHandle *h[6]; res *r[6]; int nh = 0, n = 5 + (int)vr_below(40);
	for (int i = 0; i < n; i++) {
		int op = (int)vr_below(5);
		if (op == 0 && nres < 40) replace();
		else if (op < 3 && nh < 6) { h[nh] = get(&r[nh]); if (h[nh]) nh++; }
		else if (nh) { int k = (int)vr_below((uint32_t)nh); put(h[k], r[k]); nh--; h[k] = h[nh]; r[k] = r[nh]; }
		for (int k = 0; k < nh; k++) check_held(r[k]);
	}
	if (vr_chance(1, 40) && nres < MAXR) {
		/* one resource held very many times at once, in part after it was replaced */
		int times = vr_chance(1, 4) ? 65500 + (int)vr_below(300) : vr_chance(1, 3) ? 32760 + (int)vr_below(20) : 125 + (int)vr_below(400), k;
		res *x = NULL;
		fiftyoneDegreesResourceHandle *hx = NULL;
		for (k = 0; k < times; k++) {
			res *y;
			fiftyoneDegreesResourceHandle *g = fiftyoneDegreesResourceHandleIncUse(mgr);
			y = (res *)g->resource;
			if (k == 0) { x = y; hx = g; }
			if (y != x || g != hx) { vr_fail(pfx("resource:got-nothing"), "use %d of resource %d gave another one", k, x->id); break; }
			x->holders++;
		}
		times = k;
		quiescent("many uses");
		int back = vr_chance(1, 2) ? (int)vr_below((uint32_t)times) : 0;
		for (k = 0; k < back; k++) { x->holders--; fiftyoneDegreesResourceHandleDecUse(hx); }
		quiescent("some of many given back");
		replace();
		check_held(x);
		for (; k < times; k++) {
			if (times - k < 5 || k % 251 == 0) check_held(x);
			x->holders--;
			fiftyoneDegreesResourceHandleDecUse(hx);
		}
		quiescent("many uses given back");
		vr_count("held_many_times", 1);
	}
	if (vr_chance(1, 2)) {
		begin("ManagerFree"); want_free = 1;
		fiftyoneDegreesResourceManagerFree(mgr);
		mgr_freed = 1; end("ManagerFree");
	}
	while (nh) { nh--; put(h[nh], r[nh]); }
	users_left = repl_left = 0;
}
static int may_free(void *x) { return users_left == 0 && repl_left == 0; }
static void freer(void *a) {
	sched_wait_until(may_free, NULL);
	begin("ManagerFree");
	want_free = 1;
	fiftyoneDegreesResourceManagerFree(mgr);
	mgr_freed = 1;
	end("ManagerFree");
}
static void *reuse_malloc(int al, size_t n) {
	if (reuse) for (int i = 0; i < npool; i++) if (pool_size[i] == n) {
		char *p = pool_reuse[i];
		pool_reuse[i] = pool_reuse[--npool]; pool_size[i] = pool_size[npool];
		vr_count("handle_memory_reused", 1);
		return p;
	}
	return lib_malloc_aligned(al, n);
}
static void *(*real_aligned)(int, size_t); static void (*real_free)(void *);
static void *lib_malloc_aligned(int al, size_t n) { return real_aligned(al, n); }
static void reuse_free(void *p) {
	if (reuse && npool < 64) { pool_reuse[npool] = p; pool_size[npool++] = sizeof(fiftyoneDegreesResourceHandle); return; }
	real_free(p);
}
static void note_free(void *p, size_t n) {
 if (ndead < 256) { dead[ndead].p = p; dead[ndead++].n = n; } }
static void on_access(void *a, unsigned size, int store) {
	char *c = a;
	if (handlemem) for (int i = 0; i < ndead; i++) if (c >= dead[i].p && c < dead[i].p + dead[i].n) {
		char k[80];
		snprintf(k, sizeof k, "handle-memory:used-after-free:during=%s", cur_op());
		vr_fail(k, "the library %s handle memory it had freed, during %s", store ? "wrote" : "read", cur_op());
	}
	if (c >= (char *)rs_ && c < (char *)(rs_ + nres)) {
		res *r = &rs_[(c - (char *)rs_) / sizeof(res)];
		if (c >= (char *)r->canary && c < (char *)(r->canary + 4)) vr_fail("resource:touched", "the library accessed the content of a resource");
	}
}
static void on_error(const char *w) { vr_fail("resource:mutex", "%s", w); }
void vr_setup(void) {
	vr_alloc_install();
	real_aligned = fiftyoneDegreesMallocAligned; real_free = fiftyoneDegreesFreeAligned;
	fiftyoneDegreesMallocAligned = reuse_malloc; fiftyoneDegreesFreeAligned = reuse_free;
	reuse = (int)vr_opt_int("reuse", 0); handlemem = (int)vr_opt_int("handlemem", 0);
	vr_alloc_on_free = note_free;
	sched_on_access = on_access; sched_on_error = on_error;
}
void vr_teardown(void) {}
void vr_run_case(uint64_t ci) {
	vr_alloc_reset();
	vr_alloc_quarantine(1);
	vr_alloc_scribble(0);
	nres = ndead = npool = nac = 0; now = 1; in_op = mgr_freed = want_free = 0;
	memset(op_of, 0, sizeof op_of);
	uint64_t seed = vr_rand();
	int nu = 1 + (int)vr_below(4), nr = vr_opt_int("replacers", 0) ? 2 + (int)vr_below(2) : (int)vr_below(3), fiberfree = vr_chance(1, 2);
	if (vr_opt_int("replacers", 0)) nu = (int)vr_below(3);
	if (vr_opt_int("single", 0)) { nu = nr = 0; single = 1; vr_alloc_quarantine(0); }
	vr_note_case("%d users, %d replacers%s", nu, nr, fiberfree ? ", freer" : "");
	mgr = malloc(sizeof *mgr);
	memset(mgr, 0, sizeof *mgr);
	res *first = new_res();
	first->installed = 1; first->repl_begin = now; first->repl_end = ++now;
	fiftyoneDegreesResourceManagerInit(mgr, first, &first->handle, on_free);
	quiescent("Init");
	sched_begin(seed);
	users_left = nu; repl_left = nr;
	for (int i = 0; i < nu + nr; i++) {
		actor *a = &ac[i];
		a->ops = 1 + (int)vr_below(i < nu ? 8 : 5); a->rng = vr_rand(); a->holdmax = 1 + (int)vr_below(3);
		sched_spawn(i < nu ? user : replacer, a);
	}
	if (fiberfree && !vr_opt_int("single", 0)) sched_spawn(freer, NULL);
	if (single) { sched_spawn(alone, NULL); users_left = repl_left = 1; }
	int r = sched_run(single ? 20000000 : 200000);
	VR_CHECK(r == SCHED_OK, pfx(r == SCHED_DEADLOCK ? "resource:deadlock" : "resource:no-progress"), "the threads do not finish");
	if (r == SCHED_OK) {
		quiescent("end");
		if (!mgr_freed) {
			fiftyoneDegreesResourceHandle *h[3]; res *q[3]; int k, n = (int)vr_below(3);
			for (k = 0; k < n; k++) h[k] = get(&q[k]);
			begin("ManagerFree"); want_free = 1;
			fiftyoneDegreesResourceManagerFree(mgr);
			mgr_freed = 1; end("ManagerFree");
			for (k = 0; k < n; k++) if (h[k]) put(h[k], q[k]);
		}
		for (int i = 0; i < nres; i++) VR_CHECK(rs_[i].freed == 1, pfx("resource:leaked"), "after everything, resource %d of %d has been freed %d times", i, nres, rs_[i].freed);
		char d[300]; vr_alloc_describe_live(d, sizeof d);
		if (!reuse) VR_CHECK(vr_alloc_live() == 0, pfx("resource:handle-leak"), "%zu blocks left: %s", vr_alloc_live(), d);
		vr_distinct("nontrivial", sched_trace_hash());
		vr_count("switches", sched_switches());
		vr_count(sched_mode(), 1);
		vr_sample("%d users, %d replacers, %llu switches in %llu steps (%s)", nu, nr, (unsigned long long)sched_switches(), (unsigned long long)sched_steps(), sched_mode());
	}
	else return; /* its threads are abandoned where they stand */
	vr_alloc_release_quarantine();
	for (int i = 0; i < npool; i++) real_free(pool_reuse[i]);
	vr_alloc_quarantine(0);
	vr_alloc_release_quarantine();
	free(mgr);
}
