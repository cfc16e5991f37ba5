// Cooperative threads: pthread_create/join/mutex/cond run on coroutines, so that a schedule is a sequence of choices
// made through sym_choice().  Linked into the instrumented build always and into the replay build of schedule harnesses.
// Switch points: before a lock, after an unlock, after a signal/broadcast, after a create, and every blocking wait.
#include <ucontext.h>
#include <pthread.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include "coro.h"
#include "sym.h"

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals(); }

enum St { RUN, MUTEX, COND, JOIN, DONE };
struct Co { ucontext_t uc; void *(*fn)(void *); void *arg, *ret; St st; void *obj; void *m; int seq; char eh[16]; char *stack; };
static Co co[64]; static int nco = 0, cur = 0; static int seqNo;
static int mode;                 // 0 off (real pthreads), 1 deterministic, 2 explored, 3 deterministic except at chosen switch points
static int points, nat, at[8], who[8];
static int preempt, spurious;    // budgets left in explored mode
static int switches;
static const size_t STK = 1 << 20;
static int dfltLast;

extern "C" void coro_on(int m, int preemptions, int spur) {
    mode = m; points = nat = 0; preempt = preemptions; spurious = spur; nco = 1; cur = 0; switches = 0; seqNo = 0; memset(&co[0], 0, sizeof co[0]); co[0].st = RUN;
}
extern "C" int coro_points(void) { return points; }
// the n switch points (ascending) at which another thread than usual goes on
extern "C" void coro_delay(int n, const int *a, const int *w) { coro_on(3, 0, 0); nat = n; for (int i = 0; i < n; ++i) { at[i] = a[i]; who[i] = w[i]; } }
static int delayed() { int p = points++; for (int i = 0; i < nat; ++i) if (at[i] == p) return who[i]; return 0; }
extern "C" void coro_off(void) { mode = 0; }
extern "C" int coro_alive(void) { int n = 0; for (int i = 1; i < nco; ++i) if (co[i].st != DONE) ++n; return n; }
extern "C" void coro_spurious(int n) { spurious = n; }
extern "C" int coro_switches(void) { return switches; }
static void go(int t) {
    if (t == cur) return;
    ++switches;
    int o = cur;
    memcpy(co[o].eh, __cxxabiv1::__cxa_get_globals(), 16);
    cur = t;
    swapcontext(&co[o].uc, &co[t].uc);
    memcpy(__cxxabiv1::__cxa_get_globals(), co[cur].eh, 16);
}
static inline int &lk(void *m) { return ((pthread_mutex_t *)m)->__data.__lock; }
static bool runnable(int i) {
    Co &c = co[i];
    switch (c.st) {
    case RUN: return true;
    case MUTEX: return lk(c.obj) == 0;
    case JOIN: return co[(long)c.obj].st == DONE;
    default: return false;
    }
}
static void block(const char *) {       // current cannot continue
    for (;;) {
        int r[64], n = 0;
        for (int i = 0; i < nco; ++i) { int k = (cur + 1 + i) % nco; if (runnable(k)) r[n++] = k; }
        // a spurious wake-up of a waiter
        int sp = -1;
        if (mode == 2 && spurious > 0) for (int i = 0; i < nco; ++i) if (co[i].st == COND) { sp = i; break; }
        if (!n && sp < 0) { sym_check(0, "no-deadlock: every thread is blocked"); _exit(3); }
        int k = 0;
        if (mode == 2 && n + (sp >= 0) > 1) k = sym_choice(n + (sp >= 0));
        if (mode == 3 && n > 1) k = delayed() % n;
        if (k == n || !n) { --spurious; co[sp].st = MUTEX; co[sp].obj = co[sp].m; continue; }
        int t = r[k];
        if (t == cur) return;
        go(t);
        if (runnable(cur)) return;
    }
}
static void point(void) {               // voluntary switch point
    if (mode < 2 || (mode == 2 && preempt <= 0)) return;
    int r[64], n = 0; r[n++] = cur;
    for (int i = 0; i < nco; ++i) if (i != cur && runnable(i)) r[n++] = i;
    if (n == 1) return;
    int k = mode == 3 ? delayed() % n : sym_choice(n);
    if (k) { --preempt; go(r[k]); }
}
static void start(void) {
    int me = cur;
    memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
    co[me].ret = co[me].fn(co[me].arg);
    co[me].st = DONE;
    block("exit");
    abort();
}
// lets the others run; whether there was another that could
extern "C" int coro_yield(void) { if (!mode) return 0; int n = 0; for (int i = 0; i < nco; ++i) if (i != cur && runnable(i)) ++n; if (n) block("yield"); return n; }
template <class F> static F real(const char *n, F) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(n) static auto r = real(#n, &n)

extern "C" {
#pragma GCC visibility push(default)
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!mode) { REAL(pthread_create); return r(t, a, fn, arg); }
    int i = nco++; Co &c = co[i];
    memset(&c, 0, sizeof c);
    c.fn = fn; c.arg = arg; c.st = RUN;
    c.stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&c.uc); c.uc.uc_stack.ss_sp = c.stack; c.uc.uc_stack.ss_size = STK; c.uc.uc_link = 0;
    makecontext(&c.uc, start, 0);
    *t = (pthread_t)(0x10000 + i);
    point();
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    if (!mode) { REAL(pthread_join); return r(t, ret); }
    long i = (long)t - 0x10000;
    if (co[i].st != DONE) { co[cur].st = JOIN; co[cur].obj = (void *)i; block("join"); co[cur].st = RUN; }
    if (ret) *ret = co[i].ret;
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!mode) { REAL(pthread_once); return r(o, f); }
    while (*o && *o != 2 && coro_yield()) {}
    if (*o != 2) { *o = 1; f(); *o = 2; }
    return 0;
}
int pthread_detach(pthread_t t) { if (!mode) { REAL(pthread_detach); return r(t); } return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!mode) { REAL(pthread_mutex_lock); return r(m); }
    point();
    int kind = m->__data.__kind & 3;
    if (kind == 1 && lk(m) && m->__data.__owner == cur + 1) { m->__data.__count++; return 0; }
    while (lk(m)) { co[cur].st = MUTEX; co[cur].obj = m; block("mutex"); co[cur].st = RUN; }
    lk(m) = 1; m->__data.__owner = cur + 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!mode) { REAL(pthread_mutex_trylock); return r(m); } if (lk(m)) return EBUSY; lk(m) = 1; m->__data.__owner = cur + 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!mode) { REAL(pthread_mutex_unlock); return r(m); }
    if ((m->__data.__kind & 3) == 1 && m->__data.__count) { m->__data.__count--; return 0; }
    lk(m) = 0; m->__data.__owner = 0;
    point();
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!mode) { REAL(pthread_cond_wait); return r(c, m); }
    point();                            // a thread that does not take the mutex may run before this one waits
    lk(m) = 0; m->__data.__owner = 0;
    co[cur].st = COND; co[cur].obj = c; co[cur].m = m; co[cur].seq = ++seqNo;
    block("cond");
    while (lk(m)) { co[cur].st = MUTEX; co[cur].obj = m; block("mutex"); }
    co[cur].st = RUN;
    lk(m) = 1; m->__data.__owner = cur + 1;
    return 0;
}
static void wake(pthread_cond_t *c, bool all) {
    for (;;) {
        int b = -1;
        for (int i = 0; i < nco; ++i) if (co[i].st == COND && co[i].obj == c && (b < 0 || co[i].seq < co[b].seq)) b = i;
        if (b < 0) return;
        co[b].st = MUTEX; co[b].obj = co[b].m;
        if (!all) return;
    }
}
int pthread_cond_signal(pthread_cond_t *c) { if (!mode) { REAL(pthread_cond_signal); return r(c); } point(); wake(c, false); point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!mode) { REAL(pthread_cond_broadcast); return r(c); } point(); wake(c, true); point(); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { if (!mode) { REAL(pthread_cond_destroy); return r(c); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *c) { if (!mode) { REAL(pthread_mutex_destroy); return r(c); } return 0; }

#ifdef CORO_EMUTLS
// thread-local variables of the instrumented code (compiled with -femulated-tls): one instance per coroutine
struct EmuCtl { size_t size, align; void *loc; void *init; };
struct Slot { EmuCtl *k; int c; void *p; };
static Slot slots[256]; static int nslots;
void *__emutls_get_address(void *k) {
    EmuCtl *e = (EmuCtl *)k; int c = mode ? cur : 0;
    for (int i = 0; i < nslots; ++i) if (slots[i].k == e && slots[i].c == c) return slots[i].p;
    void *p = malloc(e->size + 64); p = (void *)(((uintptr_t)p + 63) & ~63ull);
    if (e->init) memcpy(p, e->init, e->size); else memset(p, 0, e->size);
    if (nslots >= 256) abort();
    slots[nslots].k = e; slots[nslots].c = c; slots[nslots++].p = p;
    return p;
}
#endif
#pragma GCC visibility pop
}
