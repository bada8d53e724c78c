// An OpenMP runtime (GCC ABI) for exploring schedules: the threads of a team are real threads, but only one of them
// runs at a time and a seeded generator decides at every scheduling point (start, end, critical section, barrier,
// next chunk of a loop, ...) which one goes on, how large the team is and how dynamic loops are cut into chunks.
// No standard containers here: their code could be merged with the instrumented code of the program.
// This file is compiled without instrumentation and hands control over with raw futexes, so that a race detector
// sees only the synchronisation the OpenMP program itself asks for (announced below through acquire/release).
#include <climits>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
}

namespace {

void acquire(void* a) { if (__tsan_acquire) __tsan_acquire(a); }
void release(void* a) { if (__tsan_release) __tsan_release(a); }

uint64_t rng_state = 88172645463325252ull;
uint64_t rnd() { uint64_t x = rng_state; x ^= x << 13; x ^= x >> 7; x ^= x << 17; rng_state = x; return x * 2685821657736338717ull; }
unsigned below(unsigned n) { return n ? (unsigned)((rnd() >> 33) % n) : 0; }

int dynamic_team = 0;     // teams may be smaller than requested
int default_threads = 1;
unsigned long switches = 0;

enum State { IDLE, RUN, WAIT_BARRIER, WAIT_LOCK, DONE };
const unsigned MAXT = 64, RING = 256;

struct Worker { int go = 0; State st = IDLE; void* lock = nullptr; pthread_t th; };
struct Work { long start, end, incr, chunk, cur; int kind; bool up; unsigned id; bool live; };
struct Single { unsigned id; bool live; void* copy; };

struct Team {
    void (*fn)(void*); void* data; unsigned n; unsigned arrived = 0; unsigned alive;
    Work works[RING]; Single singles[RING];
    unsigned seq[MAXT], sseq[MAXT]; // work-sharing constructs met by each thread
    char fork_sync, join_sync, bar_sync[2]; unsigned bar_phase = 0;
    void init(void (*f)(void*), void* d, unsigned k, const Work* w) {
        fn = f; data = d; n = alive = k; arrived = 0; bar_phase = 0;
        for (Work& x : works) x.live = false;
        for (Single& x : singles) x.live = false;
        for (unsigned i = 0; i < MAXT; i++) seq[i] = sseq[i] = 0;
        if (w) { works[0] = *w; works[0].id = 0; works[0].live = true; }
    }
};

Worker pool_mem[MAXT]; unsigned pool_n = 0; // pool[0] is the master
Worker* pool[MAXT];
Team team_mem, nested_mem;
Team* team = nullptr;
Team* nested = nullptr;
thread_local unsigned tid = 0;
struct Lock { void* a; int owner; char sync; } locks[1024]; unsigned nlocks = 0;
Lock& lock_of(void* a) { for (unsigned i = 0; i < nlocks; i++) if (locks[i].a == a) return locks[i]; if (nlocks == 1024) _exit(95); locks[nlocks].a = a; return locks[nlocks++]; }

void fwait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// gives control to a random runnable thread (possibly the caller, when it is runnable)
void reschedule(bool wait_for_turn = true) {
    if (!team) return;
    unsigned me = tid, c = 0, cand[MAXT];
    for (unsigned i = 0; i < team->n; i++) if (pool[i]->st == RUN) cand[c++] = i;
    if (!c) _exit(97); // deadlock in the program
    unsigned t = cand[below(c)];
    if (t == me) return;
    switches++;
    fwake(&pool[t]->go);
    if (wait_for_turn) fwait(&pool[me]->go);
}

void finish_thread() {
    Team* t = team;
    release(&t->join_sync);
    t->alive--;
}

void* worker_main(void* a) {
    unsigned id = (unsigned)(uintptr_t)a;
    tid = id;
    for (;;) {
        fwait(&pool[id]->go);
        acquire(&team->fork_sync);
        team->fn(team->data);
        finish_thread();
        pool[id]->st = DONE;
        if (team->alive == 0) { pool[0]->st = RUN; fwake(&pool[0]->go); }
        else reschedule(false);
    }
    return nullptr;
}

// the calling thread waits; a random runnable thread goes on
void block() {
    unsigned c = 0, cand[MAXT];
    for (unsigned i = 0; i < team->n; i++) if (pool[i]->st == RUN) cand[c++] = i;
    if (!c) _exit(97); // deadlock in the program
    switches++;
    fwake(&pool[cand[below(c)]]->go);
    fwait(&pool[tid]->go);
}

void run_team(void (*fn)(void*), void* data, unsigned want, Work* w = nullptr) {
    if (nested) { fn(data); return; } // more deeply nested: not supported by work-sharing, never used here
    if (team) { // nested region: a team of one, run without interruption
        Team* outer = team; unsigned me = tid;
        nested_mem.init(fn, data, 1, w);
        team = nullptr; nested = &nested_mem; tid = 0;
        fn(data);
        nested = nullptr; team = outer; tid = me;
        return;
    }
    unsigned n = want ? want : default_threads;
    if (n < 1) n = 1;
    if (n > MAXT) n = MAXT;
    if (dynamic_team && n > 1 && below(3) == 0) n = 1 + below(n);
    if (pool_n == 0) { pool[0] = &pool_mem[0]; pool_n = 1; }
    while (pool_n < n) {
        pool[pool_n] = &pool_mem[pool_n];
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
        if (pthread_create(&pool[pool_n]->th, &at, worker_main, (void*)(uintptr_t)pool_n)) _exit(96);
        pool_n++;
    }
    Team& t = team_mem;
    t.init(fn, data, n, w);
    release(&t.fork_sync);
    for (unsigned i = 0; i < n; i++) pool[i]->st = RUN;
    team = &t; tid = 0;
    reschedule();
    fn(data);
    finish_thread();
    pool[0]->st = DONE;
    if (t.alive) block();
    acquire(&t.join_sync);
    team = nullptr;
}

Team* cur() { return nested ? nested : team; }

void lock(void* a) {
    Lock& l = lock_of(a);
    if (team) {
        reschedule();
        while (l.owner) { pool[tid]->st = WAIT_LOCK; pool[tid]->lock = a; block(); }
        l.owner = tid + 1;
    }
    acquire(&l.sync);
}
void unlock(void* a) {
    Lock& l = lock_of(a);
    release(&l.sync);
    if (!team) return;
    l.owner = 0;
    for (unsigned i = 0; i < team->n; i++) if (pool[i]->st == WAIT_LOCK && pool[i]->lock == a) pool[i]->st = RUN;
    reschedule();
}

bool next_chunk(Work& w, long* s, long* e, unsigned n) {
    long left = w.up ? (w.end - w.cur + w.incr - 1) / w.incr : (w.cur - w.end - w.incr - 1) / -w.incr;
    if (w.up ? w.cur >= w.end : w.cur <= w.end) return false;
    long k = w.chunk > 0 ? w.chunk : 1;
    if (w.kind == 2) { long g = left / (2 * (long)n); if (g > k) k = g; }
    if (k > left) k = left;
    *s = w.cur; w.cur += k * w.incr; *e = w.cur;
    if (w.up ? *e > w.end : *e < w.end) *e = w.end;
    return true;
}

Work make_work(long s, long e, long inc, long chunk, int kind) { Work w; w.start = s; w.end = e; w.incr = inc; w.chunk = chunk; w.cur = s; w.kind = kind; w.up = inc > 0; w.live = true; return w; }

bool loop_start(long s, long e, long inc, long chunk, int kind, long* is, long* ie) {
    Team* t = cur();
    if (!t) { if (inc > 0 ? s >= e : s <= e) return false; *is = s; *ie = e; return true; }
    unsigned k = t->seq[tid]; // loop currently being worked on by this thread
    Work& w = t->works[k % RING];
    if (!w.live || w.id != k) { w = make_work(s, e, inc, chunk, kind); w.id = k; }
    reschedule();
    return next_chunk(w, is, ie, t->n);
}
bool loop_next(long* is, long* ie) {
    Team* t = cur();
    if (!t) return false;
    reschedule();
    return next_chunk(t->works[t->seq[tid] % RING], is, ie, t->n);
}
void ws_leave() { Team* t = cur(); if (t) t->seq[tid]++; }

} // namespace

extern "C" {

void vs_seed(unsigned long seed, int dyn) { rng_state = seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng_state) rng_state = 1; for (int i = 0; i < 8; i++) rnd(); dynamic_team = dyn; switches = 0; }
static int reports = 0;
__attribute__((visibility("default"))) void __tsan_on_report(void*) { reports++; }
int vs_reports() { int r = reports; reports = 0; return r; }   // since the last call
unsigned long vs_switches() { return switches; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n); }
void GOMP_barrier() {
    Team* t = cur();
    if (!t || t->n == 1) return;
    char* b = &t->bar_sync[t->bar_phase & 1];
    release(b);
    if (++t->arrived == t->n) {
        t->arrived = 0; t->bar_phase++;
        for (unsigned i = 0; i < t->n; i++) if (pool[i]->st == WAIT_BARRIER) pool[i]->st = RUN;
        reschedule();
    } else {
        pool[tid]->st = WAIT_BARRIER;
        block();
    }
    acquire(b);
}
static char critical_token, atomic_token;
void GOMP_critical_start() { lock(&critical_token); }
void GOMP_critical_end() { unlock(&critical_token); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_token); }
void GOMP_atomic_end() { unlock(&atomic_token); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}

bool GOMP_single_start() {
    Team* t = cur();
    if (!t) return true;
    reschedule();
    unsigned k = t->sseq[tid]++;
    Single& g = t->singles[k % RING];
    if (g.live && g.id == k) return false;
    g.live = true; g.id = k;
    return true;
}
void* GOMP_single_copy_start() { Team* t = cur(); if (!t) return nullptr; unsigned k = t->sseq[tid]; if (GOMP_single_start()) return nullptr; GOMP_barrier(); return t->singles[k % RING].copy; }
void GOMP_single_copy_end(void* d) { Team* t = cur(); if (!t) return; t->singles[(t->sseq[tid] - 1) % RING].copy = d; GOMP_barrier(); }

unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { ws_leave(); GOMP_barrier(); }
void GOMP_sections_end_nowait() { ws_leave(); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Work w = make_work(1, (long)count + 1, 1, 1, 1); run_team(fn, data, n, &w); }

#define LOOP(name, kind) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, kind, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next(is, ie); } \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { Work w = make_work(s, e, i, c, kind); run_team(fn, d, n, &w); } \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return loop_start((long)s, (long)e, (long)i, (long)c, kind, (long*)is, (long*)ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*)is, (long*)ie); }
#define LOOPR(name, kind) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1 + below(5), kind, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next(is, ie); } \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Work w = make_work(s, e, i, 1 + below(5), kind); run_team(fn, d, n, &w); }
LOOP(static, 1)
LOOP(dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_dynamic, 1)
LOOP(nonmonotonic_guided, 2)
LOOPR(runtime, 1)
LOOPR(nonmonotonic_runtime, 1)
LOOPR(maybe_nonmonotonic_runtime, 1)
void GOMP_loop_end() { ws_leave(); GOMP_barrier(); }
void GOMP_loop_end_nowait() { ws_leave(); }

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (align < 1) align = 1;
    char* b = (char*)malloc(size + align + 16); char* p = (char*)(((uintptr_t)b + align) & ~(uintptr_t)(align - 1));
    if (cpy) cpy(p, data); else __builtin_memcpy(p, data, size);
    fn(p); free(b);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return cur() ? (int)tid : 0; }
int omp_get_num_threads() { Team* t = cur(); return t ? (int)t->n : 1; }
int omp_get_max_threads() { return default_threads; }
void omp_set_num_threads(int n) { default_threads = n > 0 ? n : 1; }
int omp_in_parallel() { Team* t = cur(); return t && t->n > 1; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return 64; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return dynamic_team; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return team ? 1 : 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }

} // extern "C"
