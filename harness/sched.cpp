// See sched.hpp.  Compiled without sanitizers: it must not add any ordering that
// the thread sanitizer would take for the program's own.
#include "sched.hpp"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_usleep(unsigned);
int __real_sched_yield();
}
namespace sc {
static Shared* S;
enum Block { None, OnMutex, OnCond, OnJoin };
struct Thread { int word; Block block; void* obj; pthread_mutex_t* back; bool signalled, timed, sleeping, finished; pthread_t id; unsigned prio; };
static const int MAX = 64, MM = 512;
static Thread T[MAX];
static volatile int n, cur;
static volatile bool active, loose;
static struct { void* m; int owner; } M[MM];
static int nm;
static Policy P;
static unsigned long long rs;
static int changeAt[16];
static __thread int me = -1;
static int counters[16];

static unsigned rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 16); }
static long fut(int* w, int op, int v, const struct timespec* t) { return syscall(SYS_futex, w, op, v, t, 0, 0); }
static int& owner(void* m) {
    int free_ = -1;
    for (int i = 0; i < nm; i++) { if (M[i].m == m) return M[i].owner; if (M[i].owner < 0 && free_ < 0) free_ = i; }
    int i = nm < MM ? nm++ : free_;
    M[i].m = m; M[i].owner = -1; return M[i].owner;
}
Shared* shared() {
    if (!S) S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return S;
}
void reset() { Shared* s = shared(); s->nlog = 0; s->nchoices = 0; s->verdict = 0; s->steps = 0; s->threads = 0; }
void log(const char* s, size_t k) {
    static volatile int lock; while (__atomic_exchange_n(&lock, 1, __ATOMIC_SEQ_CST)) ;
    int p = S->nlog;
    if (p + k + 2 < sizeof S->log) { for (size_t i = 0; i < k; i++) ((volatile char*)S->log)[p + i] = s[i]; ((volatile char*)S->log)[p + k] = '\n'; S->nlog = p + k + 1; }
    __atomic_store_n(&lock, 0, __ATOMIC_SEQ_CST);
}
int counter(int k, int add) { return __atomic_add_fetch(&counters[k], add, __ATOMIC_SEQ_CST); }
static bool enabled(int t) {
    Thread& x = T[t];
    if (x.finished) return false;
    switch (x.block) {
        case None: return true;
        case OnMutex: return owner(x.obj) < 0;
        case OnCond: return (x.signalled || x.timed) && owner(x.back) < 0;
        default: { for (int i = 0; i < n; i++) if (T[i].finished && pthread_equal(T[i].id, (pthread_t)x.obj)) return true; return false; }
    }
}
static void over(int verdict) { S->verdict = verdict; syscall(SYS_exit_group, 98); }
static void wakeAll() { for (int i = 0; i < n; i++) { __atomic_store_n(&T[i].word, 1, __ATOMIC_SEQ_CST); fut(&T[i].word, FUTEX_WAKE, 64, 0); } }
static void await(int t) {
    int last = -1, quiet = 0;
    while (!__atomic_load_n(&T[t].word, __ATOMIC_SEQ_CST)) {
        struct timespec ts = {0, 500000000};
        fut(&T[t].word, FUTEX_WAIT, 0, &ts);
        if (loose) return;
        // a thread that goes round without any operation on anything: let all go
        if (S->steps == last) { if (++quiet >= 6) { loose = true; S->verdict = 4; wakeAll(); return; } } else { last = S->steps; quiet = 0; }
    }
    __atomic_store_n(&T[t].word, 0, __ATOMIC_SEQ_CST);
}
static void give(int t) { cur = t; __atomic_store_n(&T[t].word, 1, __ATOMIC_SEQ_CST); fut(&T[t].word, FUTEX_WAKE, 64, 0); }
// the next thread; the options are listed with the current one first
static int pick(bool mayStay) {
    int opt[MAX], k = 0;
    bool stay = mayStay && enabled(me);
    if (stay) opt[k++] = me;
    for (int i = 1; i < n; i++) { int t = (me + i) % n; if (enabled(t) && !T[t].sleeping) opt[k++] = t; }
    if (k == 0) for (int i = 1; i < n; i++) { int t = (me + i) % n; if (enabled(t)) opt[k++] = t; }
    if (k == 0 && enabled(me)) opt[k++] = me;
    if (k == 0) return -1;
    if (k == 1) return opt[0];
    int c = 0;
    if (P.kind == Random) c = stay && (int)(rnd() % 1000) >= P.permille ? 0 : (int)(rnd() % k);
    else if (P.kind == Priorities) { for (int i = 1; i < k; i++) if (T[opt[i]].prio > T[opt[c]].prio) c = i; }
    else {
        int d = S->nchoices;
        if (d < P.nlist) c = P.list[d] < k ? P.list[d] : 0;
        if (d < 4096) { S->choices[d].options = k; S->choices[d].taken = c; S->choices[d].could = stay; S->choices[d].preempts = (d ? S->choices[d - 1].preempts : 0) + (stay && c ? 1 : 0); S->nchoices = d + 1; }
    }
    return opt[c];
}
static void go(int t) { if (t != me) { give(t); await(me); } T[me].sleeping = false; }
static void point(bool sleeping = false) {
    if (!active || me < 0 || loose) return;
    if (++S->steps > 60000) over(2);
    if (P.kind == Priorities) for (int i = 0; i < P.changes; i++) if (changeAt[i] == S->steps) T[me].prio = i;
    if (P.spurious && P.kind != List && rnd() % 40 == 0) { int t = rnd() % n; if (T[t].block == OnCond) T[t].signalled = true; }
    T[me].sleeping = sleeping;
    if (sleeping && P.kind == Priorities) T[me].prio = rnd() % 8 + 16; // does not keep others from running for ever
    int t = pick(!sleeping);
    if (t >= 0) go(t);
}
static void blockHere() { // until enabled
    if (++S->steps > 60000) over(2);
    int t = pick(false);
    if (t < 0) over(1);
    go(t);
}
void begin(Policy const& p) {
    P = p; rs = 88172645463325252ULL ^ ((unsigned long long)p.seed * 2654435761ULL << 7); for (int i = 0; i < 8; i++) rnd();
    for (int i = 0; i < 16; i++) changeAt[i] = 1 + rnd() % (p.length > 0 ? p.length : 100);
    nm = 0; loose = false; for (int i = 0; i < 16; i++) counters[i] = 0;
    T[0].word = 0; T[0].block = None; T[0].obj = 0; T[0].back = 0; T[0].signalled = T[0].timed = T[0].sleeping = T[0].finished = false;
    n = 1; cur = 0; me = 0; T[0].id = pthread_self(); T[0].prio = 1000 + rnd() % 1000; active = true;
}
void end() { active = false; S->verdict = S->verdict ? (int)S->verdict : 3; }
struct Start { void* (*f)(void*); void* a; int t; };
static void* trampoline(void* p) {
    Start s = *(Start*)p; free(p);
    me = s.t; await(me);
    void* r = s.f(s.a);
    T[me].finished = true; S->threads = n;
    if (active && !loose) { ++S->steps; int t = pick(false); if (t < 0) over(1); give(t); }
    me = -1;
    return r;
}
static bool on() { return active && me >= 0 && !loose; }
}
using namespace sc;
extern "C" {
int __wrap_pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if (!on() || n >= MAX) return __real_pthread_create(id, at, f, a);
    Start* s = (Start*)malloc(sizeof *s); s->f = f; s->a = a; s->t = n;
    Thread& x = T[n]; x.word = 0; x.block = None; x.obj = 0; x.back = 0; x.signalled = x.timed = x.sleeping = x.finished = false; x.prio = 1000 + rnd() % 1000;
    int r = __real_pthread_create(id, at, trampoline, s);
    if (r) { free(s); return r; }
    T[n].id = *id; n = n + 1;
    point();
    return 0;
}
int __wrap_pthread_join(pthread_t id, void** r) {
    if (on()) {
        point();
        T[me].block = OnJoin; T[me].obj = (void*)id;
        if (on() && !enabled(me)) blockHere();
        T[me].block = None;
    }
    int x = __real_pthread_join(id, r);
    for (int i = 0; i < n; i++) if (T[i].finished && pthread_equal(T[i].id, id)) T[i].id = 0;
    return x;
}
int __wrap_pthread_detach(pthread_t id) { return __real_pthread_detach(id); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (on()) {
        point();
        if (on() && owner(m) >= 0) { T[me].block = OnMutex; T[me].obj = m; blockHere(); T[me].block = None; }
        owner(m) = me;
    }
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (on()) { point(); if (on() && owner(m) >= 0) return EBUSY; owner(m) = me; return __real_pthread_mutex_lock(m); }
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    if (active && me >= 0) { owner(m) = -1; point(); }
    return r;
}
static int waitCond(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    point();
    __real_pthread_mutex_unlock(m); owner(m) = -1;
    Thread& x = T[me]; x.block = OnCond; x.obj = c; x.back = m; x.signalled = false; x.timed = timed; x.sleeping = timed;
    if (on()) blockHere();
    x.block = None; bool s = x.signalled; x.timed = false;
    if (loose) { struct timespec ts = {0, 1000000}; __real_nanosleep(&ts, 0); __real_pthread_mutex_lock(m); return timed ? ETIMEDOUT : 0; }
    owner(m) = me;
    __real_pthread_mutex_lock(m);
    return s || !timed ? 0 : ETIMEDOUT;
}
static int looseWait(pthread_mutex_t* m, bool timed) { // after the leash is off: wake-ups without cause are allowed
    __real_pthread_mutex_unlock(m); struct timespec ts = {0, 1000000}; __real_nanosleep(&ts, 0); __real_pthread_mutex_lock(m); return timed ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? waitCond(c, m, false) : loose ? looseWait(m, false) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return on() ? waitCond(c, m, true) : __real_pthread_cond_timedwait(c, m, t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return on() ? waitCond(c, m, true) : __real_pthread_cond_clockwait(c, m, k, t); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) return __real_pthread_cond_signal(c);
    point();
    int w[MAX], k = 0; for (int i = 0; i < n; i++) if (T[i].block == OnCond && T[i].obj == c && !T[i].signalled) w[k++] = i;
    if (k) T[w[P.kind == List ? 0 : rnd() % k]].signalled = true;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) return __real_pthread_cond_broadcast(c);
    point();
    for (int i = 0; i < n; i++) if (T[i].block == OnCond && T[i].obj == c) T[i].signalled = true;
    return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!on()) return __real_nanosleep(a, b); point(true); return 0; }
int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { if (!on()) return __real_clock_nanosleep(k, f, a, b); point(true); return 0; }
int __wrap_usleep(unsigned u) { if (!on()) return __real_usleep(u); point(true); return 0; }
int __wrap_sched_yield() { if (!on()) return __real_sched_yield(); point(true); return 0; }
#ifdef ATOMICS
// atomic accesses of the library, when it is compiled with the thread sanitizer
#define LOAD(b, T) T __real___tsan_atomic##b##_load(const volatile T*, int); T __wrap___tsan_atomic##b##_load(const volatile T* a, int m) { point(); return __real___tsan_atomic##b##_load(a, m); }
#define STORE(b, T) void __real___tsan_atomic##b##_store(volatile T*, T, int); void __wrap___tsan_atomic##b##_store(volatile T* a, T v, int m) { point(); __real___tsan_atomic##b##_store(a, v, m); }
#define RMW(b, T, op) T __real___tsan_atomic##b##_##op(volatile T*, T, int); T __wrap___tsan_atomic##b##_##op(volatile T* a, T v, int m) { point(); return __real___tsan_atomic##b##_##op(a, v, m); }
#define ALL(b, T) LOAD(b, T) STORE(b, T) RMW(b, T, exchange) 
ALL(8, unsigned char)
ALL(32, unsigned)
ALL(64, unsigned long)
#endif
}
