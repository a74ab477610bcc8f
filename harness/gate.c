/* Linear activations that steer the schedule of the threads calling them. */
#define _GNU_SOURCE
#include <stdatomic.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
static atomic_int waiting, generation;
static int parties = 0;
void gate_set(int n) { parties = n; atomic_store(&waiting, 0); }
static long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
/* all parties leave together (or after 3 ms): their next steps race as closely as they can */
static void meet(void) {
    if (parties < 2) return;
    int g = atomic_load(&generation);
    if (atomic_fetch_add(&waiting, 1) + 1 >= parties) { atomic_store(&waiting, 0); atomic_fetch_add(&generation, 1); return; }
    long t = now();
    while (atomic_load(&generation) == g) if (now() - t > 3000) { atomic_fetch_sub(&waiting, 1); return; }
}
void gate(int n, float *a) { (void) n; (void) a; meet(); }
void gate_derivative(int n, const float *act, float *d) { (void) n; (void) act; (void) d; meet(); }
/* a delay that differs from call to call and thread to thread */
static _Thread_local unsigned seed;
static void delay(void) {
    if (!seed) seed = (unsigned) (unsigned long) pthread_self() | 1;
    seed = seed * 1103515245u + 12345u;
    switch ((seed >> 16) % 5) { case 0: usleep((seed >> 20) % 300); break; case 1: sched_yield(); break; default: break; }
}
void jitter(int n, float *a) { (void) n; (void) a; delay(); }
void jitter_derivative(int n, const float *act, float *d) { (void) n; (void) act; (void) d; delay(); }
