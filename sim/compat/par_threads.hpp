// The parallel algorithms' back end for simulated runs (instead of TBB): real std::threads, which the simulator's
// scheduler interleaves. Included before <execution>; takes the place of pstl/parallel_backend_serial.h.
#pragma once
#define _PSTL_PARALLEL_BACKEND_SERIAL_H
#include <thread>
#include <vector>
#include <atomic>
#include <memory>
#include <numeric>
#include <algorithm>
#include <utility>
namespace sim { extern int par_workers; extern unsigned long stats_threshold; }
namespace __pstl {
    namespace __serial_backend {
        template<typename _Tp> class __buffer {
            std::unique_ptr<_Tp[]> p_;
        public:
            explicit __buffer(std::size_t n) : p_(new _Tp[n]) {}
            operator bool() const { return p_.get() != nullptr; }
            _Tp *get() const { return p_.get(); }
        };
        inline void __cancel_execution() {}
        // Every index on its own, in the order in which the workers get to it.
        template<class P, class I, class F> void __parallel_for(P &&, I first, I last, F f) {
            auto n = last - first; if (n <= 0) return;
            std::atomic<long> next{0}; std::vector<std::thread> w;
            auto body = [&]() noexcept { for (long i; (i = next++) < (long) n;) f(first + i, first + i + 1); }; // an escaping exception ends the process, as the standard says
            try { for (int i = 1; i < sim::par_workers && i < (int) n; i++) w.emplace_back(body); } catch (...) {} // fewer threads
            body(); for (auto &t: w) t.join();
        }
        template<class P, class V, class I, class R, class C> V __parallel_reduce(P &&, I first, I last, const V &id, const R &r, const C &) { return first == last ? id : r(first, last, id); }
        template<class P, class I, class U, class T, class C, class R> T __parallel_transform_reduce(P &&, I first, I last, U, T init, C, R r) { return r(first, last, init); }
        template<class P, class I, class U, class T, class C, class R, class S> T __parallel_transform_scan(P &&, I n, U, T init, C, R, S s) { return s(I(0), n, init); }
        template<class P, class I, class T, class R, class C, class S, class A> void __parallel_strict_scan(P &&, I n, T init, R r, C c, S s, A a) { T sum = init; if (n) sum = c(sum, r(I(0), n)); a(sum); if (n) s(I(0), n, init); }
        template<class P, class I, class C, class L> void __parallel_stable_sort(P &&, I first, I last, C c, L l, std::size_t = 0) { l(first, last, c); }
        template<class P, class A, class B, class O, class C, class L> void __parallel_merge(P &&, A a, A ae, B b, B be, O o, C c, L l) { l(a, ae, b, be, o, c); }
        template<class P, class F, class G> void __parallel_invoke(P &&, F &&f, G &&g) { std::thread t([&] { std::forward<F>(f)(); }); std::forward<G>(g)(); t.join(); }
    }
}
