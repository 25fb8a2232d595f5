// Deterministic scheduler: the program's threads are real, but only the one holding the baton runs. A seeded
// generator decides at every synchronisation call, simulated system call and (in code compiled with
// -fsanitize=thread, whose callbacks are defined here) at memory accesses whether another thread goes on.
#include "simkit.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <climits>
#include <chrono>
#include <cxxabi.h>

using namespace sim;
namespace sim {
    bool thread_fault(u64 ord); u64 next_thread_ord(); bool is_active(); bool in_nosim(); [[noreturn]] void leave_livelock();
    void fault_note(const char *kind);
    extern thread_local int t_nosim __attribute__((tls_model("local-exec")));
}
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0) {
    register long r10 __asm__("r10") = d; long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
namespace {
    enum State { Ready, Blocked, Done };
    struct Thread {
        int id = 0, go = 0; State st = Ready; const void *on = nullptr; u64 until = 0; bool timed = false, timed_out = false;
        void *(*fn)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; pthread_t real{}; bool detached = false; u64 prio = 0;
    };
    const int MAX = 512;
    Thread *T[MAX]; int nT = 0, alive = 0;
    thread_local Thread *self = nullptr;
    bool on = false; Rng rng; int mean_ = 50, strat_ = 0; u64 nswitch = 0, shash = 0, points = 0, spurious = 0; bool dead = false;
    long budget = LONG_MAX;
    void refill() { budget = alive < 2 || strat_ == 2 ? LONG_MAX : 1 + (long) rng.below(2 * (u64) mean_); }
    int ready(int *out) { int n = 0; for (int i = 0; i < nT; i++) if (T[i]->st == Ready) out[n++] = i; return n; }
    int best(int *c, int n) { int b = c[0]; for (int i = 1; i < n; i++) if (T[c[i]]->prio > T[b]->prio) b = c[i]; return b; }
    int choose(int *c, int n, bool yielding) {
        if (strat_ == 1) { if (yielding && self) self->prio = rng.below(1000); return best(c, n); }
        if (strat_ == 3) { int me = self ? self->id : 0; for (int i = 0; i < n; i++) if (c[i] > me) return c[i]; return c[0]; }
        return c[rng.below((u64) n)];
    }
    void hand(Thread *t) {
        if (t == self) return;
        Thread *me = self; nswitch++; shash = mix(shash ^ mix(points * 512 + (u64) t->id));
        __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); raw(SYS_futex, (long) &t->go, FUTEX_WAKE_PRIVATE, 1);
        if (!me || me->st == Done) return;
        while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long) &me->go, FUTEX_WAIT_PRIVATE, 0);
        me->go = 0;
    }
    // Gives the baton away; the caller is Ready (yield), Blocked or Done.
    void reschedule(bool yielding) {
        int c[MAX]; int n = ready(c);
        if (n == 0) { // everyone waits: time passes until the first timeout
            Thread *f = nullptr; for (int i = 0; i < nT; i++) if (T[i]->st == Blocked && T[i]->timed && (!f || T[i]->until < f->until)) f = T[i];
            if (!f) { if (alive == 0) return; dead = true; event("DEADLOCK"); boot_fail("deadlock", "all threads wait for each other"); leave_livelock(); }
            u64 now = now_mono_ns(); if (f->until > now) advance_ns(f->until - now);
            f->timed_out = true; f->st = Ready; f->on = nullptr; n = ready(c);
        }
        hand(T[choose(c, n, yielding)]);
    }
    void block(const void *addr, bool timed = false, u64 until = 0) {
        self->st = Blocked; self->on = addr; self->timed = timed; self->until = until; self->timed_out = false;
        reschedule(false);
    }
    int wake(const void *addr, int n) {
        int done = 0;
        while (done < n) {
            int c[MAX], k = 0; for (int i = 0; i < nT; i++) if (T[i]->st == Blocked && T[i]->on == addr) c[k++] = i;
            if (!k) break;
            Thread *t = T[c[rng.below((u64) k)]]; t->st = Ready; t->on = nullptr; done++;
        }
        return done;
    }
    bool live() { return on && self && is_active(); }
    void maybe() { // a possible switch at a synchronisation or system call
        if (!live() || alive < 2 || in_nosim()) return;
        points++;
        if (strat_ == 1) { if (rng.below(8) == 0) self->prio = rng.below(1000); else return; reschedule(false); return; }
        if (rng.below(100) < 40) reschedule(true);
    }
    __attribute__((noinline)) void expired() { if (in_nosim()) { budget = 1; return; } if (!live() || alive < 2) { budget = LONG_MAX; return; } points++; if (strat_ == 1) self->prio = rng.below(1000); NoSim ns; reschedule(true); refill(); }
    inline void access() { if (!t_nosim && __builtin_expect(--budget <= 0, 0)) expired(); }
    template<class F> F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
    void *run(void *p) {
        self = (Thread *) p; Thread *me = self;
        while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long) &me->go, FUTEX_WAIT_PRIVATE, 0);
        me->go = 0;
        me->ret = me->fn(me->arg);
        { NoSim ns; me->st = Done; alive--; points++; wake(me, INT_MAX); refill(); if (!dead) reschedule(false); }
        self = nullptr;
        return me->ret;
    }
    void enter() { if (!self && on) { NoSim ns; self = T[0]; } }
    u64 abs_mono(clockid_t c, const struct timespec *t) {
        u64 v = (u64) t->tv_sec * 1000000000ULL + (u64) t->tv_nsec; u64 now = c == CLOCK_REALTIME ? now_real_ns() : now_mono_ns();
        return now_mono_ns() + (v > now ? v - now : 0);
    }
}
namespace sim {
    void sched_point(int) { maybe(); }
    namespace sched {
        void reset(u64 seed, int mean, int strat) {
            NoSim ns; rng = Rng(seed); mean_ = mean < 1 ? 1 : mean; strat_ = strat; nT = 1; alive = 1; nswitch = shash = points = 0; dead = false; budget = LONG_MAX;
            T[0] = new Thread; T[0]->prio = rng.below(1000); self = T[0]; on = true;
        }
        u64 switches() { return nswitch; }
        u64 schedule_hash() { return mix(shash + nswitch); }
        void stop() { on = false; budget = LONG_MAX; }
        bool deadlocked() { return dead; }
    }
}
extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!live()) return r(out, attr, fn, arg);
    u64 ord = next_thread_ord();
    if (armed() && thread_fault(ord)) { errno = EAGAIN; return EAGAIN; }
    if (nT >= MAX) return EAGAIN;
    Thread *t; { NoSim ns; t = new Thread; t->id = nT; t->fn = fn; t->arg = arg; t->prio = rng.below(1000); T[nT++] = t; alive++; refill(); event("thread " + std::to_string(t->id)); }
    int e = r(&t->real, attr, run, t);
    if (e) { t->st = Done; alive--; return e; }
    *out = t->real; maybe(); return 0;
}
static Thread *find(pthread_t p) { for (int i = 1; i < nT; i++) if (T[i]->real == p && !T[i]->detached) return T[i]; return nullptr; }
int pthread_join(pthread_t p, void **ret) {
    auto r = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!live()) return r(p, ret);
    Thread *t = find(p); if (!t) return r(p, ret);
    NoSim ns; while (t->st != Done) block(t);
    int e = r(p, ret); t->real = 0; t->detached = true; return e;
}
int pthread_detach(pthread_t p) {
    if (live()) if (Thread *t = find(p)) t->detached = true;
    return real<int (*)(pthread_t)>("pthread_detach")(p);
}
// a mutex keeps its state in its own fields, which the real implementation never sees while threads are simulated
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!live()) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return r(m); }
    maybe();
    auto &d = m->__data;
    if (d.__lock && d.__owner == self->id + 1000) {
        if (d.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return 0; }
        if (d.__kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    NoSim ns; while (d.__lock) block(m);
    d.__lock = 1; d.__owner = self->id + 1000; d.__count = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!live()) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return r(m); }
    maybe(); auto &d = m->__data;
    if (d.__lock) { if (d.__kind == PTHREAD_MUTEX_RECURSIVE_NP && d.__owner == self->id + 1000) { d.__count++; return 0; } return EBUSY; }
    d.__lock = 1; d.__owner = self->id + 1000; d.__count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!live() || m->__data.__owner < 1000) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return r(m); }
    auto &d = m->__data; if (d.__kind == PTHREAD_MUTEX_RECURSIVE_NP && d.__count > 1) { d.__count--; return 0; }
    d.__lock = 0; d.__owner = 0; d.__count = 0; { NoSim ns; wake(m, INT_MAX); } maybe(); return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 until) {
    NoSim ns; auto &d = m->__data; d.__lock = 0; d.__owner = 0; d.__count = 0; wake(m, INT_MAX);
    if (armed() && rng.below(1000) < 15) { spurious++; fault_note("spurious-wake"); reschedule(true); } // wakes without a signal
    else block(c, timed, until);
    bool late = self->timed_out; self->timed_out = false;
    while (d.__lock) block(m);
    d.__lock = 1; d.__owner = self->id + 1000; d.__count = 1; return late ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!live()) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait"); return r(c, m); } return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!live()) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait"); return r(c, m, t); } return cond_wait(c, m, true, abs_mono(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!live()) { static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait"); return r(c, m, k, t); } return cond_wait(c, m, true, abs_mono(k, t)); }
int pthread_cond_signal(pthread_cond_t *c) { if (!live()) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal"); return r(c); } { NoSim ns; wake(c, 1); } maybe(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!live()) { static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast"); return r(c); } { NoSim ns; wake(c, INT_MAX); } maybe(); return 0; }
// readers count in __readers, the writer in __cur_writer
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!live()) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); return r(l); } maybe(); NoSim ns; while (l->__data.__cur_writer) block(l); l->__data.__readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!live()) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); return r(l); } maybe(); NoSim ns; while (l->__data.__cur_writer || l->__data.__readers) block(l); l->__data.__cur_writer = self->id + 1000; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!live()) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock"); return r(l); } { NoSim ns; if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else l->__data.__readers--; wake(l, INT_MAX); } maybe(); return 0; }
int sched_yield() { if (live() && alive > 1) { NoSim ns; points++; reschedule(true); return 0; } return (int) raw(SYS_sched_yield); }
static void undo_once(void *c) { *(pthread_once_t *) c = 0; NoSim ns; wake(c, INT_MAX); }
int pthread_once(pthread_once_t *c, void (*f)()) {
    if (!live()) { static auto r = real<int (*)(pthread_once_t *, void (*)())>("pthread_once"); return r(c, f); }
    maybe();
    while (*c != 2) {
        if (*c) { NoSim ns; block(c); continue; }
        *c = 1; try { f(); } catch (...) { undo_once(c); throw; }
        *c = 2; NoSim ns; wake(c, INT_MAX);
    }
    return 0;
}
}
// function-local statics: the thread that waits for another one's initialisation gives the baton away
int __cxxabiv1::__cxa_guard_acquire(__cxxabiv1::__guard *g) noexcept(false) {
    auto *b = (unsigned char *) g; if (__atomic_load_n(b, __ATOMIC_SEQ_CST)) return 0;
    if (live()) { NoSim ns; while (b[1]) block(g); }
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
void __cxxabiv1::__cxa_guard_release(__cxxabiv1::__guard *g) noexcept { auto *b = (unsigned char *) g; b[1] = 0; b[0] = 1; if (live()) { NoSim ns; wake(g, INT_MAX); } }
void __cxxabiv1::__cxa_guard_abort(__cxxabiv1::__guard *g) noexcept { auto *b = (unsigned char *) g; b[1] = 0; if (live()) { NoSim ns; wake(g, INT_MAX); } }
// waiting for a std::future
#include <bits/atomic_futex.h>
static bool fut_wait(unsigned *a, unsigned v, bool timed, u64 until) {
    if (!live()) { raw(SYS_futex, (long) a, FUTEX_WAIT_PRIVATE, v); return true; }
    NoSim ns; if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) block(a, timed, until);
    bool late = self->timed_out; self->timed_out = false; return !late;
}
namespace std {
    bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) { struct timespec t{(time_t) s.count(), (long) n.count()}; return fut_wait(a, v, has, has ? abs_mono(CLOCK_REALTIME, &t) : 0); }
    bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) { struct timespec t{(time_t) s.count(), (long) n.count()}; return fut_wait(a, v, has, has ? abs_mono(CLOCK_MONOTONIC, &t) : 0); }
    void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) { if (!live()) { raw(SYS_futex, (long) a, FUTEX_WAKE_PRIVATE, INT_MAX); return; } { NoSim ns; wake(a, INT_MAX); } maybe(); }
}
// ---- what -fsanitize=thread calls
#define A(n) void __tsan_read##n(void *) { access(); } void __tsan_write##n(void *) { access(); } void __tsan_unaligned_read##n(void *) { access(); } void __tsan_unaligned_write##n(void *) { access(); } void __tsan_volatile_read##n(void *) { access(); } void __tsan_volatile_write##n(void *) { access(); }
extern "C" {
A(1) A(2) A(4) A(8) A(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) { access(); }
void __tsan_vptr_read(void **) { access(); }
void __tsan_read_range(void *, unsigned long) { access(); }
void __tsan_write_range(void *, unsigned long) { access(); }
void __tsan_atomic_thread_fence(int) { access(); }
void __tsan_atomic_signal_fence(int) {}
#define B(n, t) \
t __tsan_atomic##n##_load(const volatile t *a, int) { access(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##n##_store(volatile t *a, t v, int) { access(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_exchange(volatile t *a, t v, int) { access(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_fetch_add(volatile t *a, t v, int) { access(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_fetch_sub(volatile t *a, t v, int) { access(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_fetch_and(volatile t *a, t v, int) { access(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_fetch_or(volatile t *a, t v, int) { access(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_fetch_xor(volatile t *a, t v, int) { access(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##n##_fetch_nand(volatile t *a, t v, int) { access(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile t *a, t *c, t v, int, int) { access(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile t *a, t *c, t v, int, int) { access(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
B(8, unsigned char) B(16, unsigned short) B(32, unsigned int) B(64, unsigned long)
}
