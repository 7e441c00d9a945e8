// Simulation runtime for pyBBN's C++ collision integrals.
//
//  * a GSL stand-in (adaptive Gauss-Kronrod `qag`, workspaces, error handler) with fault injection;
//  * a libgomp stand-in: the OpenMP team is made of real pthreads, but exactly one of them runs at
//    a time and a seeded PRNG decides who runs next at every yield point (GSL calls, integrand
//    evaluations, critical sections, barriers and -- in the instrumented build -- every k-th
//    memory access, through our own __tsan_* callbacks);
//  * `operator new` with injected std::bad_alloc.
//
// One seed is one exactly repeatable execution.  Compiled without -ffast-math and uninstrumented.
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <new>
#include <vector>
#include <map>
#include "gsl/gsl_errno.h"
#include "gsl/gsl_integration.h"

#define EXPORT extern "C" __attribute__((visibility("default")))

// ---------------------------------------------------------------- configuration
struct Config {
    uint64_t seed = 1;
    int threads = 1;          // simulated team size
    int policy = 0;           // 0 random switch, 1 run-to-completion in random order, 2 pct-like priorities
    int switch_ppm = 100000;  // probability of switching at a coarse yield point (per million)
    int mem_period = 0;       // mean number of instrumented accesses between switches (0: never)
    long fail_ws = 0;         // n-th workspace allocation fails (1-based, 0: never)
    long fail_qag = 0;        // n-th qag call reports an error
    long fail_qag_len = 1;    // and so do the following ones
    int fail_qag_mode = 0;    // what it leaves as result: 0 nothing, 1 too much with a small error, 2 too little with a large one, 3 NaN
    int fail_qag_code = GSL_EMAXITER;
    long fail_new = 0;        // n-th operator new (while armed) throws bad_alloc
    long nan_eval = 0;        // n-th integrand evaluation returns NaN
};
static Config cfg;
struct Stats {
    long regions, members, switches, ws_alloc, ws_free, qag, evals, news, faults, yields;
    uint64_t trace;           // FNV hash of the sequence of scheduling decisions
};
static Stats st;
static bool armed = false;

static uint64_t rng_state = 88172645463325252ull;
static uint64_t rnd() {
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void trace(uint64_t v) { st.trace = (st.trace ^ v) * 1099511628211ull; }

EXPORT void sim_configure(uint64_t seed, int threads, int policy, int switch_ppm, int mem_period) {
    cfg = Config();
    cfg.seed = seed; cfg.threads = threads < 1 ? 1 : threads; cfg.policy = policy;
    cfg.switch_ppm = switch_ppm; cfg.mem_period = mem_period;
    rng_state = seed * 0x9E3779B97F4A7C15ull + 12345;
    memset(&st, 0, sizeof st);
    st.trace = 1469598103934665603ull;
    armed = true;
}
EXPORT void sim_faults(long fail_ws, long fail_qag, int code, long fail_new, long nan_eval) {
    cfg.fail_ws = fail_ws; cfg.fail_qag = fail_qag; cfg.fail_qag_code = code;
    cfg.fail_new = fail_new; cfg.nan_eval = nan_eval;
    cfg.fail_qag_len = 1; cfg.fail_qag_mode = 0;
}
EXPORT void sim_faults_qag(long len, int mode) { cfg.fail_qag_len = len; cfg.fail_qag_mode = mode; }
EXPORT void sim_disarm() { armed = false; cfg.threads = 1; cfg.mem_period = 0;
    cfg.fail_ws = cfg.fail_qag = cfg.fail_new = cfg.nan_eval = 0; }
EXPORT void sim_stats(long *out) {
    out[0] = st.regions; out[1] = st.members; out[2] = st.switches; out[3] = st.ws_alloc;
    out[4] = st.ws_free; out[5] = st.qag; out[6] = st.evals; out[7] = st.news; out[8] = st.faults;
    out[9] = st.yields; out[10] = (long)(st.trace >> 1);
}

// ---------------------------------------------------------------- the simulated team
struct Member {
    int id; bool done; bool waiting; int prio; void *lock;
    pthread_t th; pthread_cond_t cv;
};
struct Loop { // work-sharing loop state (dynamic/guided/runtime/ull)
    bool active = false; uint64_t next, end, incr, chunk; bool up; bool guided; int left; long sincr;
};
struct Team {
    int n = 1; std::vector<Member *> m; int current = 0; int alive = 1;
    pthread_mutex_t mu; void (*fn)(void *); void *data;
    Loop loop; std::map<void *, int> locks; int barrier_wait = 0; unsigned barrier_gen = 0;
    int single_winner = -1; unsigned single_gen = 0; std::vector<unsigned> single_seen;
    long mem_left = 0;
};
static Team *team = nullptr;
static thread_local int tid = 0;

static int pick(Team *t, bool include_self) {
    int cand[256], k = 0;
    for (int i = 0; i < t->n; ++i)
        if (!t->m[i]->done && !t->m[i]->waiting && (include_self || i != t->current)) cand[k++] = i;
    if (!k) return -1;
    if (cfg.policy == 2) {
        int best = cand[0];
        for (int i = 1; i < k; ++i) if (t->m[cand[i]]->prio > t->m[best]->prio) best = cand[i];
        return best;
    }
    return cand[rnd() % k];
}
static void pass_to(Team *t, int next) {       // with mu held; blocks until we are current again
    int me = tid;
    if (next == me) return;
    st.switches++;
    trace(next + 1);
    t->current = next;
    pthread_cond_signal(&t->m[next]->cv);
    while (t->current != me) pthread_cond_wait(&t->m[me]->cv, &t->mu);
}
static void reset_mem() {
    if (team && cfg.mem_period > 0) team->mem_left = 1 + (long)(rnd() % (2 * (uint64_t)cfg.mem_period));
}
static void do_yield(bool force) {
    Team *t = team;
    if (!t || t->n < 2) return;
    st.yields++;
    if (cfg.policy == 1 && !force) return;
    if (cfg.policy == 2) {
        if (rnd() % 1000000 < (uint64_t)cfg.switch_ppm) t->m[tid]->prio = -(int)(rnd() % 1000);
    } else if (!force && rnd() % 1000000 >= (uint64_t)cfg.switch_ppm) return;
    pthread_mutex_lock(&t->mu);
    int next = pick(t, true);
    if (next >= 0) pass_to(t, next);
    pthread_mutex_unlock(&t->mu);
}
static void sim_yield() { do_yield(false); }
static void block_until_other() {              // current member cannot proceed
    Team *t = team;
    pthread_mutex_lock(&t->mu);
    int next = pick(t, false);
    if (next >= 0) pass_to(t, next);
    else { fprintf(stderr, "simrt: deadlock in simulated OpenMP team\n"); fflush(stderr); _Exit(86); }
    pthread_mutex_unlock(&t->mu);
}

// instrumented memory accesses
static inline void mem() {
    Team *t = team;
    if (!t || cfg.mem_period <= 0) return;
    if (--t->mem_left > 0) return;
    reset_mem();
    do_yield(true);
}

static void finish_member(Team *t) {           // member returns from the region function
    pthread_mutex_lock(&t->mu);
    t->m[tid]->done = true;
    t->alive--;
    int next = pick(t, false);
    if (next >= 0) { trace(100 + next); t->current = next; pthread_cond_signal(&t->m[next]->cv); }
    else if (t->alive) { fprintf(stderr, "simrt: deadlock in simulated OpenMP team\n"); _Exit(86); }
    else if (tid != 0) { t->current = 0; pthread_cond_signal(&t->m[0]->cv); }
    pthread_mutex_unlock(&t->mu);
}
static void *member_main(void *arg) {
    Member *m = (Member *)arg;
    Team *t = team;
    tid = m->id;
    pthread_mutex_lock(&t->mu);
    while (t->current != tid) pthread_cond_wait(&m->cv, &t->mu);
    pthread_mutex_unlock(&t->mu);
    t->fn(t->data);
    finish_member(t);
    return nullptr;
}
static void run_team(void (*fn)(void *), void *data, unsigned num_threads, const Loop *loop) {
    st.regions++;
    int n = num_threads ? (int)num_threads : cfg.threads;
    if (n > 200) n = 200;
    if (n < 1) n = 1;
    if (num_threads && armed && cfg.threads < n) n = cfg.threads;   // the runtime may grant fewer
    st.members += n;
    Team *outer = team;
    if (outer) n = 1;                                                // nested regions are serialised
    Team t;
    t.n = n; t.fn = fn; t.data = data; t.alive = n;
    if (loop) t.loop = *loop;
    t.single_seen.assign(n, 0);
    pthread_mutex_init(&t.mu, nullptr);
    int save_tid = tid;
    for (int i = 0; i < n; ++i) {
        Member *m = new Member();
        m->id = i; m->done = m->waiting = false; m->lock = nullptr; m->prio = (int)(rnd() % 100000);
        pthread_cond_init(&m->cv, nullptr);
        t.m.push_back(m);
    }
    t.loop.left = n;
    if (n == 1) {
        team = outer ? outer : nullptr;
        Team *keep = team; Team single; (void)keep;
        // a team of one still needs loop state for work-sharing constructs
        team = &t; tid = 0;
        fn(data);
        team = outer; tid = save_tid;
    } else {
        team = &t; tid = 0;
        reset_mem();
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
        for (int i = 1; i < n; ++i) pthread_create(&t.m[i]->th, &at, member_main, t.m[i]);
        pthread_attr_destroy(&at);
        pthread_mutex_lock(&t.mu);
        t.current = 0;
        int first = pick(&t, true);
        trace(1000 + first);
        if (first != 0) pass_to(&t, first);
        pthread_mutex_unlock(&t.mu);
        fn(data);
        finish_member(&t);
        pthread_mutex_lock(&t.mu);
        while (t.alive || t.current != 0) pthread_cond_wait(&t.m[0]->cv, &t.mu);
        pthread_mutex_unlock(&t.mu);
        for (int i = 1; i < n; ++i) pthread_join(t.m[i]->th, nullptr);
        team = outer; tid = save_tid;
    }
    for (auto m : t.m) delete m;
}

// ---------------------------------------------------------------- libgomp entry points
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
EXPORT int omp_get_num_threads() { return team ? team->n : 1; }
EXPORT int omp_get_thread_num() { return team ? tid : 0; }
EXPORT int omp_get_max_threads() { return cfg.threads; }
EXPORT int omp_get_num_procs() { return cfg.threads; }
EXPORT int omp_in_parallel() { return team && team->n > 1; }
EXPORT void omp_set_num_threads(int n) { cfg.threads = n < 1 ? 1 : n; }
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_level() { return team ? 1 : 0; }
EXPORT int omp_get_thread_limit() { return 200; }
EXPORT double omp_get_wtime() { return 0.; }
EXPORT int GOMP_cancellation_point(int) { return 0; }
EXPORT int GOMP_cancel(int, int) { return 0; }

static void acquire(void *key) {
    Team *t = team;
    if (!t || t->n < 2) return;
    sim_yield();
    while (true) {
        auto it = t->locks.find(key);
        if (it == t->locks.end()) { t->locks[key] = tid; return; }
        t->m[tid]->lock = key;
        t->m[tid]->waiting = true;
        block_until_other();
    }
}
static void release(void *key) {
    Team *t = team;
    if (!t || t->n < 2) return;
    t->locks.erase(key);
    for (auto m : t->m) if (m->lock == key) { m->lock = nullptr; m->waiting = false; }
    sim_yield();
}
static int crit_key, atomic_key;
EXPORT void GOMP_critical_start() { acquire(&crit_key); }
EXPORT void GOMP_critical_end() { release(&crit_key); }
EXPORT void GOMP_critical_name_start(void **p) { acquire(p); }
EXPORT void GOMP_critical_name_end(void **p) { release(p); }
EXPORT void GOMP_atomic_start() { acquire(&atomic_key); }
EXPORT void GOMP_atomic_end() { release(&atomic_key); }
EXPORT void omp_init_lock(void **l) { *l = nullptr; }
EXPORT void omp_destroy_lock(void **) {}
EXPORT void omp_set_lock(void **l) { acquire(l); }
EXPORT void omp_unset_lock(void **l) { release(l); }
EXPORT void GOMP_barrier() {
    Team *t = team;
    if (!t || t->n < 2) return;
    unsigned gen = t->barrier_gen;
    if (++t->barrier_wait == t->n) { t->barrier_wait = 0; t->barrier_gen++;
        for (auto m : t->m) if (!m->lock) m->waiting = false;
        sim_yield(); return; }
    t->m[tid]->waiting = true;
    while (t->barrier_gen == gen) block_until_other();
}
EXPORT bool GOMP_single_start() {
    Team *t = team;
    if (!t) return true;
    unsigned mine = t->single_seen[tid]++;
    if (mine == t->single_gen) { t->single_gen++; return true; }
    return false;
}

// work-sharing loops (long and unsigned long long; dynamic, guided, runtime)
static Loop mk(bool up, uint64_t start, uint64_t end, uint64_t incr, uint64_t chunk, bool guided) {
    Loop l; l.active = true; l.up = up; l.next = start; l.end = end; l.incr = incr;
    l.chunk = chunk ? chunk : 1; l.guided = guided; l.left = 1; l.sincr = 0; return l;
}
static bool grab(uint64_t *a, uint64_t *b) {
    Team *t = team;
    static Loop dummy;
    Loop &l = t ? t->loop : dummy;
    sim_yield();
    bool some = l.up ? (int64_t)(l.end - l.next) > 0 : (int64_t)(l.next - l.end) > 0;
    if (!some) return false;
    uint64_t step = l.up ? l.incr : (uint64_t)(-(int64_t)l.incr);
    uint64_t span = l.up ? l.end - l.next : l.next - l.end;
    uint64_t left = (span + step - 1) / step;
    uint64_t take = l.chunk;
    if (l.guided) { uint64_t g = left / (t ? t->n : 1); if (g > take) take = g; }
    if (take > left) take = left;
    *a = l.next;
    l.next += take * l.incr;
    *b = take == left ? l.end : l.next;
    sim_yield();
    return true;
}
static bool start_loop(const Loop &proto, uint64_t *a, uint64_t *b) {
    Team *t = team;
    if (t && !t->loop.active) { t->loop = proto; t->loop.left = t->n; }
    return grab(a, b);
}
static void end_loop() {
    Team *t = team;
    if (t && t->loop.active && --t->loop.left <= 0) t->loop.active = false;
}
#define LOOPS(SCHED, GUIDED)                                                                       \
    EXPORT bool GOMP_loop_##SCHED##_start(long s, long e, long i, long c, long *a, long *b) {       \
        return start_loop(mk(i > 0, s, e, i, c, GUIDED), (uint64_t *)a, (uint64_t *)b); }           \
    EXPORT bool GOMP_loop_##SCHED##_next(long *a, long *b) { return grab((uint64_t *)a, (uint64_t *)b); } \
    EXPORT bool GOMP_loop_ull_##SCHED##_start(bool up, unsigned long long s, unsigned long long e,  \
            unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { \
        return start_loop(mk(up, s, e, i, c, GUIDED), (uint64_t *)a, (uint64_t *)b); }              \
    EXPORT bool GOMP_loop_ull_##SCHED##_next(unsigned long long *a, unsigned long long *b) {        \
        return grab((uint64_t *)a, (uint64_t *)b); }                                               \
    EXPORT void GOMP_parallel_loop_##SCHED(void (*fn)(void *), void *d, unsigned n, long s, long e, \
            long i, long c, unsigned) { Loop l = mk(i > 0, s, e, i, c, GUIDED); run_team(fn, d, n, &l); }
LOOPS(dynamic, false)
LOOPS(nonmonotonic_dynamic, false)
LOOPS(guided, true)
LOOPS(nonmonotonic_guided, true)
LOOPS(static, false)
#define LOOPS_RT(SCHED)                                                                            \
    EXPORT bool GOMP_loop_##SCHED##_start(long s, long e, long i, long *a, long *b) {               \
        return start_loop(mk(i > 0, s, e, i, 1, false), (uint64_t *)a, (uint64_t *)b); }            \
    EXPORT bool GOMP_loop_##SCHED##_next(long *a, long *b) { return grab((uint64_t *)a, (uint64_t *)b); } \
    EXPORT bool GOMP_loop_ull_##SCHED##_start(bool up, unsigned long long s, unsigned long long e,  \
            unsigned long long i, unsigned long long *a, unsigned long long *b) {                   \
        return start_loop(mk(up, s, e, i, 1, false), (uint64_t *)a, (uint64_t *)b); }               \
    EXPORT bool GOMP_loop_ull_##SCHED##_next(unsigned long long *a, unsigned long long *b) {        \
        return grab((uint64_t *)a, (uint64_t *)b); }                                               \
    EXPORT void GOMP_parallel_loop_##SCHED(void (*fn)(void *), void *d, unsigned n, long s, long e, \
            long i, unsigned) { Loop l = mk(i > 0, s, e, i, 1, false); run_team(fn, d, n, &l); }
LOOPS_RT(runtime)
LOOPS_RT(nonmonotonic_runtime)
LOOPS_RT(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end() { GOMP_barrier(); end_loop(); }
EXPORT void GOMP_loop_end_nowait() { end_loop(); }

// ---------------------------------------------------------------- allocation
static long thread_safe_inc(long &v) { return ++v; }     // only one member runs at a time
void *operator new(size_t n) {
    if (armed && team) {                                   // inside a simulated region
        long k = thread_safe_inc(st.news);
        if (cfg.fail_new && k == cfg.fail_new) { st.faults++; throw std::bad_alloc(); }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- GSL
static gsl_error_handler_t *handler = nullptr;
static bool handler_off = false;
static void no_handler(const char *, const char *, int, int) {}
EXPORT gsl_error_handler_t *gsl_set_error_handler(gsl_error_handler_t *h) {
    gsl_error_handler_t *o = handler_off ? no_handler : handler;
    handler = h == no_handler ? nullptr : h; handler_off = h == no_handler; return o; }
EXPORT gsl_error_handler_t *gsl_set_error_handler_off(void) {
    gsl_error_handler_t *o = handler_off ? no_handler : handler; handler_off = true; return o; }
EXPORT void sim_reset_gsl_handler() { handler = nullptr; handler_off = false; }
static int gsl_err(const char *reason, int code) {
    if (handler_off) return code;
    if (handler) { handler(reason, "simrt.cpp", 0, code); return code; }
    fprintf(stderr, "gsl: ERROR: %s\nDefault GSL error handler invoked.\n", reason);
    fflush(stderr);
    abort();
}
EXPORT const char *gsl_strerror(const int e) {
    switch (e) {
        case GSL_SUCCESS: return "success"; case GSL_EFAILED: return "generic failure";
        case GSL_ENOMEM: return "malloc failed"; case GSL_EMAXITER: return "exceeded max number of iterations";
        case GSL_EROUND: return "failed because of roundoff error"; case GSL_ESING: return "apparent singularity detected";
        case GSL_EBADTOL: return "user specified an invalid tolerance"; case GSL_EINVAL: return "invalid argument supplied by user";
        case GSL_EDIVERGE: return "integral or series is divergent"; default: return "unknown error code"; }
}
EXPORT gsl_integration_workspace *gsl_integration_workspace_alloc(const size_t n) {
    sim_yield();
    st.ws_alloc++;
    if (armed && cfg.fail_ws && st.ws_alloc == cfg.fail_ws) {
        st.faults++;
        gsl_err("failed to allocate space for workspace struct", GSL_ENOMEM);
        return nullptr;
    }
    if (n == 0) { gsl_err("workspace length n must be positive integer", GSL_EDOM); return nullptr; }
    gsl_integration_workspace *w = (gsl_integration_workspace *)malloc(sizeof *w);
    memset(w, 0, sizeof *w);
    w->limit = n;
    // one block; lazily paged
    double *d = (double *)malloc(n * (4 * sizeof(double) + 2 * sizeof(size_t)));
    if (!d) { free(w); gsl_err("failed to allocate workspace", GSL_ENOMEM); return nullptr; }
    w->alist = d; w->blist = d + n; w->rlist = d + 2 * n; w->elist = d + 3 * n;
    w->order = (size_t *)(d + 4 * n); w->level = w->order + n;
    return w;
}
EXPORT void gsl_integration_workspace_free(gsl_integration_workspace *w) {
    if (!w) return;
    st.ws_free++;
    free(w->alist);
    memset(w, 0xAB, sizeof *w);          // a later use of a freed workspace faults loudly
    free(w);
    sim_yield();
}

static double eval(const gsl_function *f, double x) {
    if (team) sim_yield();
    double v = GSL_FN_EVAL(f, x);
    long k = ++st.evals;
    if (armed && cfg.nan_eval && k == cfg.nan_eval) { st.faults++; return NAN; }
    return v;
}
// 15-point Kronrod (QUADPACK qk15) and 21-point (qk21)
static const double xgk15[8] = {0.991455371120812639206854697526329, 0.949107912342758524526189684047851,
    0.864864423359769072789712788640926, 0.741531185599394439863864773280788, 0.586087235467691130294144691693013,
    0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.000000000000000000000000000000000};
static const double wg7[4] = {0.129484966168869693270611432679082, 0.279705391489276667901467771423780,
    0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
static const double wgk15[8] = {0.022935322010529224963732008058970, 0.063092092629978553290700663189204,
    0.104790010322250183839876322541518, 0.140653259715525918745189590510238, 0.169004726639267902826583426598550,
    0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714};
static const double xgk21[11] = {0.995657163025808080735527280689003, 0.973906528517171720077964012084452,
    0.930157491355708226001207180059508, 0.865063366688984510732096688423493, 0.780817726586416897063717578345042,
    0.679409568299024406234327365114874, 0.562757134668604683339000099272694, 0.433395394129247190799265943165784,
    0.294392862701460198131126603103866, 0.148874338981631210884826001129720, 0.000000000000000000000000000000000};
static const double wg10[5] = {0.066671344308688137593568809893332, 0.149451349150580593145863396957658,
    0.219086362515982043995534934228163, 0.269266719309996355091226921569469, 0.295524224714752870173815619188769};
static const double wgk21[11] = {0.011694638867371874278064396062192, 0.032558162307964727478818972459390,
    0.054755896574351996031381300244580, 0.075039674810919952767043140916190, 0.093125454583697605535065465083366,
    0.109387158802297641899210590325805, 0.123491976262065851077958109585166, 0.134709217311473325928054001771707,
    0.142775938577060080797094273138717, 0.147739104901338491374841515972068, 0.149445554002916905664936468389821};
static double rescale(double err, const double resabs, const double resasc) {
    err = fabs(err);
    if (resasc != 0 && err != 0) {
        double scale = pow((200 * err / resasc), 1.5);
        err = scale < 1 ? resasc * scale : resasc;
    }
    if (resabs > DBL_MIN / (50 * DBL_EPSILON)) {
        double m = 50 * DBL_EPSILON * resabs;
        if (m > err) err = m;
    }
    return err;
}
static void qk(int n, const double *xgk, const double *wg, const double *wgk, const gsl_function *f,
               double a, double b, double *result, double *abserr, double *resabs, double *resasc) {
    const double center = 0.5 * (a + b), half = 0.5 * (b - a), ah = fabs(half);
    double fv1[16], fv2[16];
    const double fc = eval(f, center);
    double rg = 0, rk = fc * wgk[n - 1], ra = fabs(rk);
    if (n % 2 == 0) rg = fc * wg[n / 2 - 1];
    for (int j = 0; j < (n - 1) / 2; j++) {
        int t = j * 2 + 1;
        double x = half * xgk[t], f1 = eval(f, center - x), f2 = eval(f, center + x), s = f1 + f2;
        fv1[t] = f1; fv2[t] = f2;
        rg += wg[j] * s; rk += wgk[t] * s; ra += wgk[t] * (fabs(f1) + fabs(f2));
    }
    for (int j = 0; j < n / 2; j++) {
        int t = j * 2;
        double x = half * xgk[t], f1 = eval(f, center - x), f2 = eval(f, center + x);
        fv1[t] = f1; fv2[t] = f2;
        rk += wgk[t] * (f1 + f2); ra += wgk[t] * (fabs(f1) + fabs(f2));
    }
    double mean = rk * 0.5, rs = wgk[n - 1] * fabs(fc - mean);
    for (int j = 0; j < n - 1; j++) rs += wgk[j] * (fabs(fv1[j] - mean) + fabs(fv2[j] - mean));
    double err = (rk - rg) * half;
    *result = rk * half; *resabs = ra * ah; *resasc = rs * ah;
    *abserr = rescale(err, *resabs, *resasc);
}
static void rule(int key, const gsl_function *f, double a, double b, double *r, double *e, double *ra, double *rs) {
    if (key <= GSL_INTEG_GAUSS15) qk(8, xgk15, wg7, wgk15, f, a, b, r, e, ra, rs);
    else qk(11, xgk21, wg10, wgk21, f, a, b, r, e, ra, rs);
}
static int qag(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                               size_t limit, int key, gsl_integration_workspace *w,
                               double *result, double *abserr) {
    *result = 0; *abserr = 0;
    if (!w) { // real GSL dereferences the pointer
        volatile size_t crash = w->limit; (void)crash; }
    if (limit > w->limit) return gsl_err("iteration limit exceeds available workspace", GSL_EINVAL);
    w->size = 0; w->nrmax = 0; w->i = 0; w->maximum_level = 0;
    if (epsabs <= 0 && (epsrel < 50 * DBL_EPSILON || epsrel < 0.5e-28))
        return gsl_err("tolerance cannot be achieved with given epsabs and epsrel", GSL_EBADTOL);
    double r0, e0, resabs0, resasc0;
    rule(key, f, a, b, &r0, &e0, &resabs0, &resasc0);
    w->size = 1; w->alist[0] = a; w->blist[0] = b; w->rlist[0] = r0; w->elist[0] = e0; w->order[0] = 0; w->level[0] = 0;
    double tol = fmax(epsabs, epsrel * fabs(r0)), roff = 50 * DBL_EPSILON * resabs0;
    *result = r0; *abserr = e0;
    if (e0 <= roff && e0 > tol) return gsl_err("cannot reach tolerance because of roundoff error on first attempt", GSL_EROUND);
    if ((e0 <= tol && e0 != resasc0) || e0 == 0.0) return GSL_SUCCESS;
    if (limit == 1) return gsl_err("a maximum of one iteration was insufficient", GSL_EMAXITER);
    double area = r0, errsum = e0;
    size_t it = 1; int error_type = 0, ro1 = 0, ro2 = 0;
    do {
        size_t k = 0;                                    // interval with the largest error
        for (size_t j = 1; j < w->size; ++j) if (w->elist[j] > w->elist[k]) k = j;
        double a1 = w->alist[k], b2 = w->blist[k], r_i = w->rlist[k], e_i = w->elist[k];
        double b1 = 0.5 * (a1 + b2), a2 = b1, A1, A2, E1, E2, rb1, rb2, rs1, rs2;
        rule(key, f, a1, b1, &A1, &E1, &rb1, &rs1);
        rule(key, f, a2, b2, &A2, &E2, &rb2, &rs2);
        double A12 = A1 + A2, E12 = E1 + E2;
        errsum += E12 - e_i; area += A12 - r_i;
        if (rs1 != E1 && rs2 != E2) {
            double delta = r_i - A12;
            if (fabs(delta) <= 1.0e-5 * fabs(A12) && E12 >= 0.99 * e_i) ro1++;
            if (it >= 10 && E12 > e_i) ro2++;
        }
        tol = fmax(epsabs, epsrel * fabs(area));
        if (errsum > tol) {
            if (ro1 >= 6 || ro2 >= 20) error_type = 2;
            double tmp = (1 + 100 * DBL_EPSILON) * (fabs(a2) + 1000 * DBL_MIN);
            if (fabs(a1) <= tmp && fabs(b2) <= tmp) error_type = 3;
        }
        size_t n = w->size++;
        w->alist[n] = a2; w->blist[n] = b2; w->rlist[n] = A2; w->elist[n] = E2;
        w->blist[k] = b1; w->rlist[k] = A1; w->elist[k] = E1;
        it++;
    } while (it < limit && !error_type && errsum > tol);
    double sum = 0;
    for (size_t j = 0; j < w->size; ++j) sum += w->rlist[j];
    *result = sum; *abserr = errsum;
    if (errsum <= tol) return GSL_SUCCESS;
    if (error_type == 2) return gsl_err("roundoff error prevents tolerance from being achieved", GSL_EROUND);
    if (error_type == 3) return gsl_err("bad integrand behavior found in the integration interval", GSL_ESING);
    if (it == limit) return gsl_err("maximum number of subdivisions reached", GSL_EMAXITER);
    return gsl_err("could not integrate function", GSL_EFAILED);
}
EXPORT int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                               size_t limit, int key, gsl_integration_workspace *w,
                               double *result, double *abserr) {
    sim_yield();
    long call = ++st.qag;
    if (!(armed && cfg.fail_qag && call >= cfg.fail_qag && call < cfg.fail_qag + cfg.fail_qag_len))
        return qag(f, a, b, epsabs, epsrel, limit, key, w, result, abserr);
    int mode = cfg.fail_qag_mode, code = cfg.fail_qag_code;
    st.faults++;
    if (mode == 0) {
        w->size = 1; *result = *abserr = 0;
    } else {
        int own = qag(f, a, b, epsabs, epsrel, limit, key, w, result, abserr);
        if (own) return own;
        if (mode == 1) { *result *= 1.5; *abserr = 0.01 * fabs(*result); }
        else if (mode == 2) { *result *= 0.7; *abserr = 10 * fabs(*result); }
        else *result = *abserr = NAN;
    }
    return gsl_err("injected integration failure", code);
}
EXPORT int gsl_integration_qags(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                                size_t limit, gsl_integration_workspace *w, double *r, double *e) {
    return gsl_integration_qag(f, a, b, epsabs, epsrel, limit, GSL_INTEG_GAUSS21, w, r, e);
}

// ---------------------------------------------------------------- -fsanitize=thread callbacks
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
#define ACC(name) EXPORT void __tsan_##name(void *) { mem(); }
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16)
ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16)
ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8)
ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8)
EXPORT void __tsan_read_range(void *, long) { mem(); }
EXPORT void __tsan_write_range(void *, long) { mem(); }
EXPORT void __tsan_vptr_update(void **, void *) { mem(); }
EXPORT void __tsan_vptr_read(void **) { mem(); }
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int) {}
#define ATOMS(N, T)                                                                                     \
    EXPORT T __tsan_atomic##N##_load(const volatile T *p, int) { mem(); return __atomic_load_n(p, 5); }  \
    EXPORT void __tsan_atomic##N##_store(volatile T *p, T v, int) { mem(); __atomic_store_n(p, v, 5); }  \
    EXPORT T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { mem(); return __atomic_exchange_n(p, v, 5); } \
    EXPORT T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { mem(); return __atomic_fetch_add(p, v, 5); } \
    EXPORT T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { mem(); return __atomic_fetch_sub(p, v, 5); } \
    EXPORT T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { mem(); return __atomic_fetch_and(p, v, 5); } \
    EXPORT T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { mem(); return __atomic_fetch_or(p, v, 5); }   \
    EXPORT T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { mem(); return __atomic_fetch_xor(p, v, 5); } \
    EXPORT bool __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {         \
        mem(); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }                               \
    EXPORT bool __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {           \
        mem(); return __atomic_compare_exchange_n(p, e, v, true, 5, 5); }
ATOMS(8, uint8_t) ATOMS(16, uint16_t) ATOMS(32, uint32_t) ATOMS(64, uint64_t)
