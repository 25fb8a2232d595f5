// C01: tensor statistics computed by several threads.
#include "simkit.hpp"
#include "types/base_tensors.hpp"
#include "util/tensor_utils.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_impls/half_tensor.hpp"
#include "types/tensor_impls/quarter_tensor.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "types/tensor_views/add_tensor_view.hpp"
#include "util/tensor_stats.hpp"

using namespace sim;
namespace sim { unsigned long stats_threshold = ~0UL; int par_workers = 3; }

static Plan gen_stats(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    size_t rows = 1 + r.below(tier ? 12 : 7), cols = 1 + r.below(tier ? 12 : 7), ch = r.chance(700) ? 1 : 1 + r.below(3);
    static const vector<string> as{"full", "full", "full", "half", "quarter", "transposed", "sum"};
    p.add("conf").set("rows", (i64) rows).set("cols", (i64) cols).set("ch", (i64) ch).set("as", r.pick(as)).set("fit", (i64) r.below(3)).set("zero", r.chance(600));
    // values in millionths, most of one kind per tensor so that whole parts of the range stay empty
    u64 kind = r.below(7); bool none = r.chance(20); size_t n = rows * cols * ch; vector<double> seen;
    for (size_t i = 0; i < n; i++) {
        double v; u64 k = r.chance(850) ? kind : r.below(7);
        if (k == 0) v = 0; else if (k == 1) v = (r.unit() - 0.5) * 2e-6 * pow(10, (double) r.below(4)); else if (k == 2) v = r.unit() * 2 - 1; else if (k == 3) v = (r.unit() - 0.5) * 2000; else if (k == 4) v = pow(10, r.unit() * 12 - 6); else if (k == 5) v = -pow(10, r.unit() * 12 - 6); else v = (double) r.range(-4, 4);
        if (!seen.empty() && r.chance(200)) v = r.pick(seen); seen.push_back(v);
        char b[40]; snprintf(b, 40, "%.9g", v); p.add("cell").set("v", r.chance(15) || none ? (r.chance(500) ? "nan" : "inf") : string(b));
    }
    p.add("sched").set("seed", (i64) r.below(1000000000)).set("mean", r.pick(vector<i64>{2, 5, 20, 60, 200, 1000})).set("strat", (i64) r.below(4));
    return p;
}
using T = shared_ptr<happyml::BaseTensor>;
static T make(const Plan &p) {
    auto &c = *p.first("conf"); size_t R = (size_t) c.num("rows"), C = (size_t) c.num("cols"), H = (size_t) c.num("ch"), i = 0; auto cells = p.all("cell");
    vector<vector<vector<float>>> v(H, vector<vector<float>>(R, vector<float>(C)));
    for (auto &h: v) for (auto &r: h) for (auto &x: r) { x = i < cells.size() ? strtof(cells[i]->get("v").c_str(), nullptr) : 0; i++; }
    T t = make_shared<happyml::FullTensor>(v); string as = c.get("as");
    if (as == "half") return make_shared<happyml::HalfTensor>(t);
    if (as == "quarter") return make_shared<happyml::QuarterTensor>(t, 8);
    if (as == "transposed") return make_shared<happyml::TransposeTensorView>(t);
    if (as == "sum") return make_shared<happyml::AddTensorView>(t, make_shared<happyml::ScalarMultiplyTensorView>(t, 0.5f));
    return t;
}
static string stats(happyml::BaseTensor &t, int fit, bool zero) {
    captured_out(); happyml::TensorStats s(t, fit, zero); arm(false); s.print(); string o = captured_out(); NoSim ns;
    char b[80]; snprintf(b, 80, "bias %d offset %a\n", s.getRecommendedBias(), (double) s.getRecommendedOffset()); return b + o;
}
static string first_difference(const string &a, const string &b) {
    std::istringstream x(a), y(b); string l, m; while (true) { bool p = (bool) std::getline(x, l), q = (bool) std::getline(y, m); if (!p && !q) return "none"; if (!p) l.clear(); if (!q) m.clear(); if (l != m) return "'" + l + "' instead of '" + m + "'"; }
}
static void run_stats(Run &run) {
    const Plan &p = run.plan; auto &c = *p.first("conf"); int fit = (int) c.num("fit"); bool zero = c.num("zero");
    bool any = false; for (auto l: p.all("cell")) any = any || std::isfinite(strtof(l->get("v").c_str(), nullptr));
    auto one = run.boot("one", [&] { arm(false); stats_threshold = ~0UL; T t = make(p); try { note("one", stats(*t, fit, zero)); } catch (const std::exception &x) { note("refused", x.what()); } }, false);
    if (!one.ok()) return run.fail("C01-died", "the statistics of one thread ended abnormally: " + one.describe());
    auto many = run.boot("many", [&] {
        arm(false); T t = make(p); stats_threshold = 0; string r = "ok"; arm(true);
        try { string s = stats(*t, fit, zero); arm(false); note("many", s); } catch (const std::exception &x) { arm(false); r = string("threw ") + x.what(); }
        note("how", r); note("threads", std::to_string(sched::switches()));
    }, true);
    if (run.failed()) return;
    if (!many.ok()) return run.fail("C01-died", "the statistics of several threads ended abnormally: " + many.describe());
    bool fault = false; for (auto &f: run.res.fired) fault = fault || f.first == "alloc-fail" || f.first == "thread-create-fail";
    string how = run.note("how"); run.tag(how == "ok" ? "computed" : "reported"); run.tag("as-" + c.get("as"));
    if (run.has_note("refused")) { // no finite value: nothing to count
        if ((any && c.get("as") == "full") || how == "ok") return run.fail("C01-refused", "one thread refused the tensor (" + run.note("refused") + "), several: " + how);
        run.tag("refused"); run.judged(4); return;
    }
    if (how != "ok") { if (!fault) return run.fail("C01-failed", "the statistics of several threads failed without any fault: " + how); run.judged(3); return; }
    if (run.note("many") != run.note("one")) return run.fail(fault ? "C01-unreported" : "C01-different", (fault ? string("after a failing thread or allocation that was not reported, ") : string()) + "several threads computed " + first_difference(run.note("many"), run.note("one")));
    run.judged(hash_str(run.note("threads"), hash_str(run.note("many"))));
}
int main(int argc, char **argv) {
    add_property({"C01", gen_stats, run_stats, [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = {"many"}; o.crash = o.err = o.full = false; o.alloc = o.thread = true; o.per_base_quick = 2; return derive_faults(p, bc, r, tier, o); }, {"fault"}, "random tensors and views over random schedules of the worker threads (four strategies, preemption at memory accesses), with failing thread starts and allocations; everything compared with the statistics computed by one thread."});
    return main_entry(argc, argv);
}
