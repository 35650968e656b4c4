// A small OpenMP runtime on top of pthreads, compiled with -fsanitize=thread and linked into the
// ThreadSanitizer builds of rankeval's extensions: libgomp synchronises with futexes that
// ThreadSanitizer does not see, which would hide/invent happens-before edges.  Every fork, join,
// barrier, critical section and loop hand-out goes through intercepted pthread primitives.
// Delays (MON_OMP_DELAY_US) are injected at thread start, barriers and loop hand-outs, from the
// generator seeded by MON_OMP_SEED, to diversify the interleavings.
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <atomic>
#include <vector>

namespace {
struct Team {
    int n;
    pthread_barrier_t barrier;
    pthread_mutex_t mu;
    // work-sharing loop
    bool loop_active = false;
    int loop_users = 0;
    long next, end, incr, chunk;
    // single
    unsigned single_seq = 0;
};
struct Ctx { Team *team; int id; unsigned single_seq; unsigned long rng; };
thread_local Ctx *cur = nullptr;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
std::atomic<unsigned long> g_regions{0}, g_threads{0}, g_barriers{0}, g_delays{0};
int g_nthreads = 0;

int default_threads() {
    if (g_nthreads > 0) return g_nthreads;
    const char *e = getenv("OMP_NUM_THREADS");
    int n = e ? atoi(e) : 0;
    return n > 0 ? n : 4;
}
void delay() {
    static const char *e = getenv("MON_OMP_DELAY_US");
    static const long us = e ? atol(e) : 0;
    if (us <= 0 || !cur) return;
    cur->rng = cur->rng * 6364136223846793005UL + 1442695040888963407UL;
    long d = (long)((cur->rng >> 33) % (unsigned long)(us + 1));
    if (d & 1) { g_delays.fetch_add(1, std::memory_order_relaxed); usleep((useconds_t)d); }
}
struct Start { void (*fn)(void *); void *data; Ctx ctx; };
void *entry(void *p) {
    Start *s = (Start *)p;
    cur = &s->ctx;
    delay();
    s->fn(s->data);
    cur = nullptr;
    return nullptr;
}
}  // namespace

extern "C" {
unsigned long mon_omp_regions() { return g_regions.load(); }
unsigned long mon_omp_threads() { return g_threads.load(); }
unsigned long mon_omp_barriers() { return g_barriers.load(); }
unsigned long mon_omp_delays() { return g_delays.load(); }

int omp_get_thread_num() { return cur ? cur->id : 0; }
int omp_get_num_threads() { return cur ? cur->team->n : 1; }
int omp_get_max_threads() { return default_threads(); }
int omp_get_num_procs() { return default_threads(); }
int omp_in_parallel() { return cur != nullptr && cur->team->n > 1; }
void omp_set_num_threads(int n) { g_nthreads = n; }
double omp_get_wtime() { return 0; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
    int nt = n ? (int)n : (cur ? 1 : default_threads());
    Team team;
    team.n = nt;
    pthread_barrier_init(&team.barrier, nullptr, nt);
    pthread_mutex_init(&team.mu, nullptr);
    static const char *se = getenv("MON_OMP_SEED");
    unsigned long seed = (se ? strtoul(se, nullptr, 10) : 1) * 1000003UL + g_regions.load();
    g_regions.fetch_add(1);
    g_threads.fetch_add(nt);
    std::vector<Start> st(nt);
    std::vector<pthread_t> th(nt);
    for (int i = 0; i < nt; ++i)
        st[i] = Start{fn, data, Ctx{&team, i, 0, seed * 131 + i * 7919UL + 1}};
    for (int i = 1; i < nt; ++i)
        if (pthread_create(&th[i], nullptr, entry, &st[i])) abort();
    Ctx *saved = cur;
    cur = &st[0].ctx;
    delay();
    fn(data);
    cur = saved;
    for (int i = 1; i < nt; ++i) pthread_join(th[i], nullptr);
    pthread_barrier_destroy(&team.barrier);
    pthread_mutex_destroy(&team.mu);
}
void GOMP_barrier() {
    if (!cur) return;
    g_barriers.fetch_add(1);
    delay();
    pthread_barrier_wait(&cur->team->barrier);
}
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
bool GOMP_single_start() {
    if (!cur) return true;
    pthread_mutex_lock(&cur->team->mu);
    bool first = cur->single_seq == cur->team->single_seq;
    if (first) cur->team->single_seq++;
    cur->single_seq++;
    pthread_mutex_unlock(&cur->team->mu);
    return first;
}

// dynamically scheduled loops
static bool loop_take(long *s, long *e) {
    Team *t = cur->team;
    delay();
    pthread_mutex_lock(&t->mu);
    bool ok = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (ok) {
        *s = t->next;
        long stop = t->next + t->chunk * t->incr;
        if (t->incr > 0 ? stop > t->end : stop < t->end) stop = t->end;
        *e = stop;
        t->next = stop;
    }
    pthread_mutex_unlock(&t->mu);
    return ok;
}
static bool loop_start(long start, long end, long incr, long chunk, long *s, long *e) {
    Team *t = cur->team;
    pthread_mutex_lock(&t->mu);
    if (!t->loop_active) {
        t->loop_active = true; t->loop_users = 0;
        t->next = start; t->end = end; t->incr = incr; t->chunk = chunk > 0 ? chunk : 1;
    }
    pthread_mutex_unlock(&t->mu);
    return loop_take(s, e);
}
static void loop_done() {
    Team *t = cur->team;
    pthread_mutex_lock(&t->mu);
    if (++t->loop_users == t->n) t->loop_active = false;
    pthread_mutex_unlock(&t->mu);
}
#define LOOP(kind)                                                                              \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long *s, long *e) {           \
        return loop_start(a, b, i, c, s, e); }                                                  \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return loop_take(s, e); }                  \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long a, long b,     \
                                   long i, long c, unsigned f) {                                \
        struct A { void (*fn)(void *); void *d; long a, b, i, c; } x{fn, d, a, b, i, c};        \
        GOMP_parallel([](void *p) {                                                             \
            A *x = (A *)p;                                                                      \
            Team *t = cur->team;                                                                \
            pthread_mutex_lock(&t->mu);                                                         \
            if (!t->loop_active) {                                                              \
                t->loop_active = true; t->loop_users = 0;                                       \
                t->next = x->a; t->end = x->b; t->incr = x->i; t->chunk = x->c > 0 ? x->c : 1;  \
            }                                                                                   \
            pthread_mutex_unlock(&t->mu);                                                       \
            x->fn(x->d);                                                                        \
        }, &x, n, f); }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
LOOP(runtime)
LOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { loop_done(); GOMP_barrier(); }
void GOMP_loop_end_nowait() { loop_done(); }
}
