/* Controlled scheduler: runs N logical threads of a workload as fibers on one
 * OS thread and switches between them at coverage / load / store callbacks the
 * compiler inserted in the library (refactoring proof: no hook in the source),
 * following a random or priority (PCT) schedule that the seed determines. */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*sched_fn)(void *arg);
enum { SCHED_OK = 0, SCHED_DEADLOCK = 1, SCHED_STEPS = 2 };
void sched_begin(uint64_t seed);          /* forgets all fibers */
int sched_spawn(sched_fn fn, void *arg);
int sched_run(uint64_t max_steps);
void sched_point(void);
void sched_spurious(int percent);         /* waits on conditions wake unasked so often */
void sched_hold(int on);                  /* no switches while on (nests) */
int sched_self(void);                     /* -1 outside a fiber */
int sched_active(void);
uint64_t sched_trace_hash(void);
uint64_t sched_switches(void);
uint64_t sched_steps(void);
const char *sched_mode(void);
void sched_wait_until(int (*pred)(void *), void *arg); /* cooperative block */
extern void (*sched_on_access)(void *addr, unsigned size, int store);
extern void (*sched_on_error)(const char *what);
#ifdef __cplusplus
}
#endif
#endif
