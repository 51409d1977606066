// A small OpenMP runtime on plain pthreads, so that ThreadSanitizer sees every ordering there is (and no other):
// one thread per team member, created at the start of a region and joined at its end. It counts what it runs and
// can delay team members at start and at barriers.
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>

#define API extern "C" __attribute__((visibility("default")))

namespace
{
struct Loop {
    long next, end, incr, chunk;
};
struct Team {
    int n;
    pthread_barrier_t bar;
    pthread_mutex_t mu;
    Loop loop[64];      // work-sharing constructs met so far in the region (ring)
    long made;          // how many have been initialised
    long singles;
    void (*fn)(void *);
    void *data;
};
struct Self {
    Team *team;
    int id;
    long loops, singles;
    long cur;
    unsigned rng;
};
thread_local Self self = {0, 0, 0, 0, 0, 0};
thread_local Loop solo;
int g_threads = 2, g_delay = 0;
unsigned g_seed = 1;
long g_regions = 0, g_members = 0, g_barriers = 0, g_concurrent = 0;
pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER, g_crit = PTHREAD_MUTEX_INITIALIZER, g_atom = PTHREAD_MUTEX_INITIALIZER;

void jitter()
{
    if (!g_delay) return;
    self.rng = self.rng * 1664525u + 1013904223u;
    unsigned r = self.rng >> 24;
    if (r < 100) return;
    if (r < 180) sched_yield();
    else usleep((r - 170) * (unsigned)g_delay);
}

struct Arg {
    Team *t;
    int id;
    unsigned rng;
};
void *member(void *p)
{
    Arg *a = (Arg *)p;
    Self saved = self;
    self.team = a->t;
    self.id = a->id;
    self.loops = self.singles = self.cur = 0;
    self.rng = a->rng;
    jitter();
    a->t->fn(a->t->data);
    self = saved;
    return 0;
}
} // namespace

API void mg_set(int threads, int delay, unsigned seed)
{
    g_threads = threads;
    g_delay = delay;
    g_seed = seed;
}
API void mg_stats(long *out)
{
    pthread_mutex_lock(&g_mu);
    out[0] = g_regions; out[1] = g_members; out[2] = g_barriers; out[3] = g_concurrent;
    g_regions = g_members = g_barriers = g_concurrent = 0;
    pthread_mutex_unlock(&g_mu);
}
API int omp_get_thread_num() { return self.team ? self.id : 0; }
API int omp_get_num_threads() { return self.team ? self.team->n : 1; }
API int omp_get_max_threads() { return self.team ? 1 : g_threads; }
API int omp_get_num_procs() { return g_threads; }
API int omp_in_parallel() { return self.team && self.team->n > 1; }
API int omp_get_level() { return self.team ? 1 : 0; }
API int omp_get_dynamic() { return 0; }
API int omp_get_nested() { return 0; }
API void omp_set_num_threads(int) {}
API void omp_set_dynamic(int) {}
API double omp_get_wtime()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

static void region(void (*fn)(void *), void *data, unsigned num, const Loop *l)
{
    Team t;
    t.n = self.team ? 1 : (num ? (int)num : g_threads);
    if (t.n < 1) t.n = 1;
    if (t.n > 64) t.n = 64;
    t.fn = fn;
    t.data = data;
    t.made = 0;
    t.singles = 0;
    if (l) { t.loop[0] = *l; t.made = 1; }
    pthread_barrier_init(&t.bar, 0, t.n);
    pthread_mutex_init(&t.mu, 0);
    pthread_mutex_lock(&g_mu);
    g_regions++;
    g_members += t.n;
    if (t.n > 1) g_concurrent++;
    unsigned s = g_seed + 7919u * (unsigned)g_regions;
    pthread_mutex_unlock(&g_mu);
    pthread_t th[64];
    Arg a[64];
    for (int i = 1; i < t.n; i++) {
        a[i].t = &t; a[i].id = i; a[i].rng = s * 2654435761u + 40503u * i;
        if (pthread_create(&th[i], 0, member, &a[i])) { fprintf(stderr, "minigomp: cannot create a thread\n"); abort(); }
    }
    a[0].t = &t; a[0].id = 0; a[0].rng = s * 2654435761u;
    member(&a[0]);
    for (int i = 1; i < t.n; i++) pthread_join(th[i], 0);
    pthread_barrier_destroy(&t.bar);
    pthread_mutex_destroy(&t.mu);
}
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) { region(fn, data, num, 0); }
API void GOMP_barrier()
{
    if (!self.team || self.team->n == 1) return;
    pthread_mutex_lock(&g_mu);
    g_barriers++;
    pthread_mutex_unlock(&g_mu);
    jitter();
    pthread_barrier_wait(&self.team->bar);
    jitter();
}
API void GOMP_critical_start() { jitter(); pthread_mutex_lock(&g_crit); }
API void GOMP_critical_end() { pthread_mutex_unlock(&g_crit); }
API void GOMP_critical_name_start(void **) { GOMP_critical_start(); }
API void GOMP_critical_name_end(void **) { GOMP_critical_end(); }
API void GOMP_atomic_start() { pthread_mutex_lock(&g_atom); }
API void GOMP_atomic_end() { pthread_mutex_unlock(&g_atom); }
API bool GOMP_single_start()
{
    if (!self.team) return true;
    pthread_mutex_lock(&self.team->mu);
    bool mine = self.singles == self.team->singles;
    if (mine) self.team->singles++;
    self.singles++;
    pthread_mutex_unlock(&self.team->mu);
    return mine;
}

// work sharing with run-time distribution (schedule(dynamic), guided, runtime, auto): hand out chunks in arrival order
static Loop *cur() { return self.team ? &self.team->loop[self.cur % 64] : &solo; }
static bool take(long *b, long *e)
{
    jitter();
    if (self.team) pthread_mutex_lock(&self.team->mu);
    Loop *l = cur();
    bool ok = l->incr > 0 ? l->next < l->end : l->next > l->end;
    if (ok) {
        *b = l->next;
        long n = l->next + l->chunk * l->incr;
        if (l->incr > 0 ? n > l->end : n < l->end) n = l->end;
        *e = n;
        l->next = n;
    }
    if (self.team) pthread_mutex_unlock(&self.team->mu);
    return ok;
}
static bool start(long s, long e, long i, long c, long *b, long *f)
{
    Loop l = {s, e, i, c > 0 ? c : 1};
    if (!self.team) { solo = l; return take(b, f); }
    pthread_mutex_lock(&self.team->mu);
    self.cur = self.loops++;
    if (self.team->made == self.cur) { self.team->loop[self.cur % 64] = l; self.team->made++; }
    pthread_mutex_unlock(&self.team->mu);
    return take(b, f);
}
#define LOOPS(kind) \
    API bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *b, long *f) { return start(s, e, i, c, b, f); } \
    API bool GOMP_loop_##kind##_next(long *b, long *f) { return take(b, f); } \
    API void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) \
    { Loop l = {s, e, i, c > 0 ? c : 1}; region(fn, d, n, &l); }
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
#define RT(kind) \
    API bool GOMP_loop_##kind##_start(long s, long e, long i, long *b, long *f) { return start(s, e, i, 1, b, f); } \
    API bool GOMP_loop_##kind##_next(long *b, long *f) { return take(b, f); } \
    API void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) \
    { Loop l = {s, e, i, 1}; region(fn, d, n, &l); }
RT(runtime)
RT(nonmonotonic_runtime)
RT(maybe_nonmonotonic_runtime)
API void GOMP_loop_end() { GOMP_barrier(); }
API void GOMP_loop_end_nowait() {}
