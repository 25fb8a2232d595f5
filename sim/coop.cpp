#include "coop.hpp"
#include <cerrno>
#include <cxxabi.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

using namespace sim;
namespace sim { extern thread_local int t_nosim __attribute__((tls_model("local-exec"))); }
namespace {
    struct Proc {
        ucontext_t ctx{}; const std::function<void()> *fn = nullptr; bool started = false, done = false;
        string out, err; u64 faults = 0; int error = 0; void *eh[2] = {nullptr, nullptr}; std::ios fmt{nullptr}, efmt{nullptr};
    };
    vector<Proc *> P; size_t cur = 0; bool on = false; ucontext_t back; CoopResult R; const vector<Turn> *turns_; size_t at = 0; u64 since = 0, seen = 0; vector<u64> hits;
    void take() { P[cur]->out += captured_out(); P[cur]->err += captured_err(); u64 n = faults_fired(); P[cur]->faults += n - seen; hits[cur] = P[cur]->faults; seen = n; }
    void entry() {
        Proc &p = *P[cur]; t_nosim = 0;
        try { (*p.fn)(); } catch (const std::exception &e) { boot_fail("harness-exception", string("uncaught in a process: ") + e.what()); }
        t_nosim = 1; take(); p.done = true;
        setcontext(&back); // the loop in cooperate chooses the next one
    }
    void enter(size_t i) { // from the loop or from a point
        cur = i; Proc &p = *P[i]; void **g = (void **) abi::__cxa_get_globals(); g[0] = p.eh[0]; g[1] = p.eh[1]; std::cout.copyfmt(p.fmt); std::cerr.copyfmt(p.efmt); errno = p.error;
    }
    void leave_() { Proc &p = *P[cur]; p.error = errno; void **g = (void **) abi::__cxa_get_globals(); p.eh[0] = g[0]; p.eh[1] = (void *) ((size_t) g[1] & 0xffffffffu); p.fmt.copyfmt(std::cout); p.efmt.copyfmt(std::cerr); take(); }
}
namespace sim {
    size_t coop_self() { return cur; }
    string coop_out() { NoSim n; take(); string s; s.swap(P[cur]->out); return s; }
    string coop_err() { NoSim n; take(); string s; s.swap(P[cur]->err); return s; }
    u64 coop_faults(size_t i) { if (on) { NoSim n; take(); } return hits[i]; }
    void sched_point(int) {
        if (!on) return;
        R.points++; since++;
        if (at >= turns_->size() || since <= (*turns_)[at].after) return;
        size_t to = (*turns_)[at].to % P.size(); at++; since = 0;
        if (to == cur || P[to]->done) return;
        R.switches++; int depth = t_nosim; event("turn " + std::to_string(to));
        size_t me = cur; leave_(); enter(to); Proc &p = *P[to];
        swapcontext(&P[me]->ctx, &p.ctx);
        t_nosim = depth; // enter() was called by whoever switched back
    }
    CoopResult cooperate(const vector<std::function<void()>> &processes, const vector<Turn> &turns) {
        NoSim ns; R = CoopResult(); turns_ = &turns; at = 0; since = 0; cur = 0; P.clear(); const size_t stack = 64u << 20;
        std::ios fmt{nullptr}, efmt{nullptr}; fmt.copyfmt(std::cout); efmt.copyfmt(std::cerr); captured_out(); captured_err(); hits.assign(processes.size(), 0); seen = faults_fired();
        for (auto &f: processes) {
            auto p = new Proc; p->fn = &f; p->fmt.copyfmt(fmt); p->efmt.copyfmt(efmt); getcontext(&p->ctx);
            p->ctx.uc_stack.ss_sp = (void *) syscall(SYS_mmap, nullptr, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L); p->ctx.uc_stack.ss_size = stack; p->ctx.uc_link = nullptr;
            makecontext(&p->ctx, entry, 0); P.push_back(p);
        }
        void *eh[2] = {((void **) abi::__cxa_get_globals())[0], ((void **) abi::__cxa_get_globals())[1]};
        on = true;
        for (;;) { // the first one that has not ended
            size_t next = P.size(); for (size_t i = 0; i < P.size(); i++) if (!P[i]->done) { next = i; break; }
            if (next == P.size()) break;
            enter(next); swapcontext(&back, &P[next]->ctx);
        }
        on = false; t_nosim = 1; ((void **) abi::__cxa_get_globals())[0] = eh[0]; ((void **) abi::__cxa_get_globals())[1] = eh[1];
        std::cout.copyfmt(fmt); std::cerr.copyfmt(efmt);
        for (auto p: P) { R.out.push_back(p->out); R.err.push_back(p->err); syscall(SYS_munmap, p->ctx.uc_stack.ss_sp, stack); delete p; }
        return R;
    }
}
// each process has its own number
extern "C" pid_t getpid() { return sim::t_nosim == 0 && on ? (pid_t) (4000 + cur) : (pid_t) syscall(SYS_getpid); }
