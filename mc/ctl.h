/* ctl.h -- controlled scheduler for the real code's threads.
 *
 * The code's own pthread calls are redirected (ld --wrap) to a scheduler that lets exactly one
 * thread run at a time and takes every scheduling decision with mc_choose(), so that the engine
 * enumerates all interleavings of synchronisation operations up to a preemption bound (switches
 * away from a thread that could have continued; all other switches are free).  Objects compiled
 * with -fsanitize=thread report their memory accesses to the __tsan_* functions defined here:
 * a vector-clock detector flags every pair of conflicting accesses not ordered by
 * synchronisation in the explored execution, and every access to released memory.  Without data
 * races, interleaving synchronisation operations covers all interleavings of memory accesses. */
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
#include <pthread.h>
#include <time.h>
void sc_begin(int preemptions);        /* the calling thread becomes thread 0 */
void sc_end(void);                     /* fails unless every other thread has ended */
void sc_drain(void);                   /* waits until every other thread has ended (detached ones too) */
void sc_point(const char *what);       /* explicit interleaving point in harness callbacks */
void sc_event(const char *what, const void *obj); /* point + modelled internal lock (one atomic step on obj) */
void sc_race(const void *p, size_t n, int write, const char *what); /* report an access made by uninstrumented code */
int  sc_self(void);
int  sc_alive(void);                   /* threads not yet ended, thread 0 excluded */
extern int sc_spurious;                /* spurious wake-ups still allowed (set after sc_begin) */
extern int sc_timeouts;                /* time-outs of timed waits still allowed */
extern int sc_nocreate;                /* the n-th thread creation from now fails */
extern void (*sc_timed)(const struct timespec *), (*sc_timedout)(const struct timespec *); /* a timed wait begins with this deadline; runs into it */
extern int sc_active;
extern long sc_blocks;                 /* heap blocks allocated and not released since sc_begin */
extern long sc_points;                 /* scheduling points so far */
extern int sc_threads;                 /* threads created, thread 0 included */
#endif
