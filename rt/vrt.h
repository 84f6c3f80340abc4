/* Runtime of the monitors: deterministic cases, event counters, distinct-state
 * sets, samples, violations, a tracking / faulting allocator. C and C++. */
#ifndef VRT_H
#define VRT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- supplied by each harness ---- */
extern const char *vr_harness;            /* name, part of the case seed */
void vr_setup(void);                      /* once, before the first case */
void vr_run_case(uint64_t i);             /* one case */
void vr_teardown(void);                   /* once, after the last case */

/* ---- arguments ---- */
uint64_t vr_seed(void);
uint64_t vr_case_no(void);
int vr_thorough(void);
const char *vr_opt(const char *name, const char *dflt);  /* --opt name=value */
long vr_opt_int(const char *name, long dflt);
const char *vr_scratch(void);             /* private existing directory */

/* ---- random (per case deterministic) ---- */
uint64_t vr_rand(void);
uint64_t vr_rand_s(uint64_t *state);
uint32_t vr_below(uint32_t n);            /* 0..n-1 */
int32_t vr_between(int32_t lo, int32_t hi); /* inclusive */
int vr_chance(uint32_t num, uint32_t den);
uint64_t vr_hash(const void *p, size_t n, uint64_t h);
uint64_t vr_mix(uint64_t a, uint64_t b);

/* ---- observation ---- */
void vr_count(const char *event, uint64_t n);
uint64_t vr_counted(const char *event);
void vr_max(const char *gauge, uint64_t v);
void vr_distinct(const char *label, uint64_t hash);
void vr_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int vr_want_sample(void);
void vr_fail(const char *key, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
void vr_note_case(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define VR_CHECK(cond, key, ...) do { vr_count("oracle_checks", 1); \
	if (!(cond)) { vr_fail(key, __VA_ARGS__); } } while (0)
/* A problem of the harness itself: exits with an error, never a violation. */
void vr_harness_error(const char *fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));

/* ---- tracked allocator put behind the library's allocation pointers ---- */
void vr_alloc_install(void);
void vr_alloc_reset(void);                /* forget what is live */
void vr_alloc_allow(size_t most);            /* larger requests are answered with NULL */
size_t vr_alloc_live(void);
size_t vr_alloc_live_bytes(void);
uint64_t vr_alloc_total(void);            /* allocation requests since reset */
size_t vr_alloc_largest(void);            /* biggest request since reset */
void vr_alloc_describe_live(char *buf, size_t n);
/* fail the n-th (1 based) request from now; sticky: and all following */
void vr_alloc_fail_at(uint64_t n, int sticky);
void vr_alloc_no_fail(void);
int vr_alloc_failed(void);                /* injected failures since fail_at */
void vr_alloc_quarantine(int on);         /* never give freed memory back */
void vr_alloc_release_quarantine(void);
int vr_alloc_is_live(const void *p);
int vr_alloc_was_freed(const void *p);    /* inside a quarantined block */
void vr_alloc_scribble(int on);           /* fill new memory with garbage */
/* optional callback on each free of a tracked block */
extern void (*vr_alloc_on_free)(void *p, size_t size);

void vr_finish(void);                     /* write everything, end the run */
int vr_open_fds(void);
char *vr_esc(const void *p, size_t n);    /* printable copy, rotating buffers */
#ifdef __cplusplus
}
#endif
#endif
