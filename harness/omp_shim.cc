// The OpenMP runtime entry points the compiled code calls, on plain pthreads, so that the race detector sees every
// synchronisation that exists (the system's OpenMP runtime is not instrumented).  A team is always nthreads threads, all distinct.
#include <pthread.h>
#include <sched.h>
#include <vector>
#include <cstdlib>

namespace {
struct Team {
    int n;
    pthread_barrier_t bar;
    pthread_mutex_t mu;
    bool live;
    unsigned long long next, end, step, chunk;
    long loopId, singleId;
    void *copy;
};
int wanted = 2;
__thread Team *team = NULL;
__thread int tid = 0;
__thread long myLoop = 0, mySingle = 0;
pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomicMu = PTHREAD_MUTEX_INITIALIZER, namesMu = PTHREAD_MUTEX_INITIALIZER;
struct Arg { void (*fn)(void *); void *data; Team *t; int id; };
void *body(void *p) { Arg *a = (Arg *)p; team = a->t; tid = a->id; myLoop = mySingle = 0; a->fn(a->data); return NULL; }
}

extern "C" {
int omp_get_thread_num() { return tid; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return wanted; }
int omp_in_parallel() { return team != NULL; }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int n) { wanted = n; }
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
    if (n == 0) n = wanted;
    if (team) n = 1;
    Team t;
    t.n = n; t.loopId = 0; t.singleId = 0; t.live = false; t.copy = NULL;
    pthread_barrier_init(&t.bar, NULL, n);
    pthread_mutex_init(&t.mu, NULL);
    std::vector<pthread_t> th(n);
    std::vector<Arg> a(n);
    for (unsigned i = 0; i < n; i++) { a[i].fn = fn; a[i].data = data; a[i].t = &t; a[i].id = i; }
    for (unsigned i = 1; i < n; i++) if (pthread_create(&th[i], NULL, body, &a[i])) abort();
    Team *ot = team; int oi = tid; long ol = myLoop, os = mySingle;
    body(&a[0]);
    team = ot; tid = oi; myLoop = ol; mySingle = os;
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&t.bar);
    pthread_mutex_destroy(&t.mu);
}
void GOMP_barrier() { if (team) pthread_barrier_wait(&team->bar); }
void GOMP_critical_start() { pthread_mutex_lock(&critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&namesMu); if (!*p) { pthread_mutex_t *m = new pthread_mutex_t; pthread_mutex_init(m, NULL); *p = m; } pthread_mutex_t *m = (pthread_mutex_t *)*p; pthread_mutex_unlock(&namesMu); pthread_mutex_lock(m); }
void GOMP_critical_name_end(void **p) { pthread_mutex_lock(&namesMu); pthread_mutex_t *m = (pthread_mutex_t *)*p; pthread_mutex_unlock(&namesMu); pthread_mutex_unlock(m); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomicMu); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomicMu); }
bool GOMP_single_start() { if (!team) return true; pthread_mutex_lock(&team->mu); bool r = team->singleId == mySingle++; if (r) team->singleId++; pthread_mutex_unlock(&team->mu); return r; }

// loops whose iterations are handed out at run time
static bool give(Team *t, unsigned long long *s, unsigned long long *e)
{
    bool r = t->live && t->next < t->end;
    if (r) { unsigned long long k = t->chunk ? t->chunk : 1; *s = t->next; *e = t->next + k * t->step < t->end ? t->next + k * t->step : t->end; t->next = *e; }
    return r;
}
static bool begin(unsigned long long s, unsigned long long e, unsigned long long st, unsigned long long c, unsigned long long *a, unsigned long long *b)
{
    static Team solo; static pthread_mutex_t soloMu = PTHREAD_MUTEX_INITIALIZER;
    Team *t = team;
    if (!t) { (void)solo; (void)soloMu; if (s >= e) return false; *a = s; *b = e; return true; }
    pthread_mutex_lock(&t->mu);
    if (t->loopId == myLoop) { t->loopId++; t->next = s; t->end = e; t->step = st; t->chunk = c; t->live = true; }
    myLoop++;
    bool r = give(t, a, b);
    pthread_mutex_unlock(&t->mu);
    return r;
}
static bool nextOf(unsigned long long *a, unsigned long long *b)
{
    if (!team) return false;
    pthread_mutex_lock(&team->mu);
    bool r = give(team, a, b);
    pthread_mutex_unlock(&team->mu);
    return r;
}
#define ULL unsigned long long
#define LOOPS(K) \
bool GOMP_loop_ull_##K##_start(bool, ULL s, ULL e, ULL st, ULL c, ULL *a, ULL *b) { return begin(s, e, st, c, a, b); } \
bool GOMP_loop_ull_##K##_next(ULL *a, ULL *b) { return nextOf(a, b); } \
bool GOMP_loop_##K##_start(long s, long e, long st, long c, long *a, long *b) { return begin(s, e, st, c, (ULL *)a, (ULL *)b); } \
bool GOMP_loop_##K##_next(long *a, long *b) { return nextOf((ULL *)a, (ULL *)b); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
}
