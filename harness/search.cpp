// C02: hyper-parameter search with parallel evaluations.
#include "simkit.hpp"
#include "ml/hyperband/hyperband.hpp"
#include "util/file_writer.hpp"
#include <thread>

using namespace sim;
namespace sim { unsigned long stats_threshold = 100000000; int par_workers = 3; }
using Net = shared_ptr<happyml::NeuralNetworkForTraining>;
using Config = shared_ptr<happyml::Hyperparameters>;

static Plan gen_search(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, true);
    auto &c = p.add("conf"); string loss = r.pick(vector<string>{"mse", "mae", "categoricalCrossEntropy", "binaryCrossEntropy"});
    size_t lrs = 1 + r.below(tier ? 9 : 6);
    c.set("loss", loss).set("opt", r.pick(vector<string>{"Adam", "SGD", "SGDM"})).set("mode", r.chance(700) ? "search" : "evaluate").set("n", r.chance(100) ? -1 : 1 + (i64) r.below(lrs + 1)).set("rf", 2 + (i64) r.below(3))
        .set("res", (i64) r.pick(vector<i64>{1, 2, 3, 9})).set("epochs", 1 + (i64) r.below(tier ? 5 : 3)).set("target", r.chance(600) ? "never" : std::to_string(r.below(100) / 100.0)).set("bits", r.chance(700) ? 32 : 16)
        .set("width", 1 + (i64) r.below(3)).set("depth", (i64) r.below(3)).set("batch", 1 + (i64) r.below(2)).set("drop", r.chance(150)).set("l2", r.chance(300)).set("norm", r.chance(150)).set("clip", r.chance(150)).set("cols", r.chance(700) ? 1 : 2).set("gw", 1 + (i64) r.below(3))
        .set("ew", loss == "categoricalCrossEntropy" ? 2 + (i64) r.below(2) : 1 + (i64) r.below(2)).set("rows", 2 + (i64) r.below(tier ? 8 : 5)).set("trows", 1 + (i64) r.below(4)).set("data", (i64) r.below(1000000000)).set("workers", 1 + (i64) r.below(4)).set("other", r.chance(300));
    bool wild = r.chance(200);
    for (size_t i = 0; i < lrs; i++) p.add("rate").set("e", (i64) i + 1).set("huge", wild && r.chance(400));
    if (c.get("mode") == "evaluate") for (size_t i = 0, n = 1 + r.below(5); i < n; i++) p.add("op").set("rate", (i64) r.below(lrs));
    p.add("sched").set("seed", (i64) r.below(1000000000)).set("mean", r.pick(vector<i64>{50, 300, 2000, 20000})).set("strat", (i64) r.below(4));
    return p;
}
static happyml::OptimizerType opt_of(const Line &c) { string o = c.get("opt"); o.erase(std::remove(o.begin(), o.end(), '_'), o.end()); return happyml::stringToOptimizerType(o); }
static happyml::LossType loss_of(const Line &c) { return happyml::stringToLossType(c.get("loss")); }
// learning rates, each a third of the one before; some make training diverge
static vector<float> rates(const Plan &p) { vector<float> v; float f = 0.3f, h = 1e30f; for (auto l: p.all("rate")) { v.push_back(l->num("huge") ? h : f); f /= 3; h *= 3; } return v; }
static void write_data(const Line &c, const string &path, size_t rows, u64 seed) {
    Rng r(seed); size_t gc = (size_t) c.num("cols"), gw = (size_t) c.num("gw"), ew = (size_t) c.num("ew"); bool cce = c.get("loss") == "categoricalCrossEntropy", bce = c.get("loss") == "binaryCrossEntropy";
    auto meta = [](char purpose, size_t w, const string &name) { auto m = make_shared<happyml::BinaryColumnMetadata>(); *m = {purpose, false, 0, 1, false, 0, 1, w, 1, w, 1, {}, name}; return m; };
    vector<shared_ptr<happyml::BinaryColumnMetadata>> g, e; for (size_t i = 0; i < gc; i++) g.push_back(meta('N', gw, "g" + std::to_string(i)));
    e.push_back(meta(cce ? 'L' : 'N', ew, "e")); if (cce) for (size_t i = 0; i < ew; i++) e[0]->ordered_labels.push_back(string(1, (char) ('a' + i)));
    happyml::BinaryDatasetWriter w(path, g, e, 0);
    for (size_t i = 0; i < rows; i++) {
        vector<shared_ptr<happyml::BaseTensor>> gv, evs; float first = 0;
        for (size_t k = 0; k < gc; k++) { vector<vector<vector<float>>> v(1, vector<vector<float>>(1)); for (size_t x = 0; x < gw; x++) { float f = (float) (r.unit() * 2 - 1); if (!k && !x) first = f; v[0][0].push_back(f); } gv.push_back(make_shared<happyml::FullTensor>(v)); }
        vector<vector<vector<float>>> v(1, vector<vector<float>>(1)); size_t hot = std::min(ew - 1, (size_t) ((first + 1) / 2 * (float) ew));
        for (size_t x = 0; x < ew; x++) v[0][0].push_back(cce ? (x == hot ? 1.f : 0.f) : bce ? (first > 0) == (x == 0) : (first + 1) / 2 * (x ? 0.5f : 1.f));
        evs.push_back(make_shared<happyml::FullTensor>(v)); w.writeRow(gv, evs);
    }
    w.close();
}
// how well a network does on the test data
static string metric_of(const Line &c, Net n) {
    auto d = make_shared<happyml::BinaryDataSet>("/work/test.bin", 1.0f); float f; n->setSilentMode(true);
    if (c.get("loss") == "categoricalCrossEntropy") f = n->compute_categorical_accuracy(d, happyml::build_expected_decoders(false, d));
    else if (c.get("loss") == "binaryCrossEntropy") f = n->compute_binary_accuracy(d);
    else f = n->test(d);
    char b[40]; snprintf(b, 40, "%.9g", f); return b;
}
static string num(float f) { char b[40]; snprintf(b, 40, "%.9g", f); return b; }
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 2e-5 * (std::fabs(a) + std::fabs(b)) + 1e-7; }
static bool better(double a, double b, bool min) { if (std::isnan(a)) return false; if (std::isnan(b)) return true; return !same(a, b) && (min ? a < b : a > b); }
static shared_ptr<happyml::ConfigurationEvaluator> evaluator(const Line &c) {
    return make_shared<happyml::ConfigurationEvaluator>(loss_of(c), opt_of(c), "/work/train.bin", 1.0f, "/work/test.bin", 1.0f, "/work/repo/", (int) c.num("epochs"), 90LL * 86400000);
}
struct Kept { string dir; double metric = NAN, rate = NAN; };
static vector<Kept> kept(Run &run, const Line &c) { // every model that was saved, in the order in which their folders were made
    vector<string> dirs; { std::istringstream in(run.note("made")); string l; std::set<string> seen; while (std::getline(in, l)) if (fs::exists("/kept" + l + "/model.config") && seen.insert(l).second) dirs.push_back(l); }
    auto b = run.boot("judge", [&] {
        arm(false);
        for (auto &d: dirs) {
            size_t s = d.rfind('/'); string m = "-", lr = "nan";
            try { Net n = happyml::loadNeuralNetworkForTraining(d.substr(s + 1), "/kept" + d.substr(0, s)); m = metric_of(c, n); lr = num(n->getOptimizer()->getLearningRate()); } catch (const std::exception &) {}
            note("kept", d + " " + m + " " + lr);
        }
    }, false);
    vector<Kept> v; if (!b.ok()) return v;
    for (auto &l: run.notes_of("kept")) { std::istringstream in(l); Kept k; string m, lr; in >> k.dir >> m >> lr; if (m == "-") continue; k.metric = strtod(m.c_str(), nullptr); k.rate = strtod(lr.c_str(), nullptr); v.push_back(k); }
    return v;
}
static void run_search(Run &run) {
    const Plan &p = run.plan; auto &c = *p.first("conf"); auto lr = rates(p); if (lr.empty() || c.num("rows") < 1 || c.num("trows") < 1) return;
    bool minimize = c.get("loss").rfind("m", 0) == 0, evaluate = c.get("mode") == "evaluate"; float target = c.get("target") == "never" ? (minimize ? -1.f : 2.f) : strtof(c.get("target").c_str(), nullptr);
    fs::mkdirs("/work/repo"); fs::set_cwd("/work");
    auto prep = run.boot("prepare", [&] { arm(false); write_data(c, "/work/train.bin", (size_t) std::max(c.num("rows"), c.num("batch")), (u64) c.num("data")); write_data(c, "/work/test.bin", (size_t) c.num("trows"), (u64) c.num("data") + 1); }, false);
    if (!prep.ok()) return run.fail("C02-prepare", "writing the data failed: " + prep.describe());
    auto before = fs::list_all("/work");
    auto b = run.boot("search", [&] {
        arm(false); par_workers = (int) c.num("workers"); string how = "ok"; size_t mine = 0; // folders made before another search began
        try {
            auto ev = evaluator(c); shared_ptr<happyml::ConfigurationEvaluator> other; if (c.num("other")) other = evaluator(c); keep_removed("/kept");
            if (evaluate) {
                vector<Config> cfg; for (auto l: p.all("op")) { auto h = make_shared<happyml::Hyperparameters>(); *h = {lr[(size_t) l->num("rate") % lr.size()], 0.01f, (int) c.num("depth"), (float) c.num("width"), c.num("drop") ? 0.3f : 0.f, c.num("l2") ? 0.01f : 0.f, (int) c.num("batch"), (bool) c.num("norm"), true, true, (bool) c.num("clip"), (int) c.num("bits"), 0, false}; cfg.push_back(h); }
                vector<string> done(cfg.size(), "not run"); vector<std::thread> ts; arm(true);
                for (size_t i = 0; i < cfg.size(); i++) {
                    auto job = [&, i] { try { ev->evaluateConfiguration(cfg[i], (int) c.num("res"), target); done[i] = "ok"; } catch (const std::exception &x) { NoSim ns; done[i] = "threw"; } };
                    try { ts.emplace_back(job); } catch (const std::exception &) {}
                }
                for (auto &t: ts) t.join(); arm(false);
                mine = made_dirs().size();
                if (c.num("other")) { auto x = make_shared<happyml::Hyperparameters>(*cfg[0]); other->evaluateConfiguration(x, 1, target); other->remove_temp_folder(); } // another search ends
                NoSim ns;
                for (size_t i = 0; i < cfg.size(); i++) note("config", done[i] + " " + num(cfg[i]->learning_rate) + " " + num(cfg[i]->evaluation_metric));
                auto best = ev->getBestConfiguration(); note("best", best ? num(best->learning_rate) + " " + num(ev->getBestEvaluationMetric()) : "none");
                if (best) { Net n = ev->getBestModel(); note("model", num(n->getOptimizer()->getLearningRate()) + " " + metric_of(c, n)); }
                ev->remove_temp_folder();
            } else {
                auto sp = make_shared<happyml::HyperparameterSpace>(1000);
                sp->learning_rate_space = lr; sp->bias_learning_rate_space = {0.01f}; sp->complexity_depth_space = {(int) c.num("depth")}; sp->complexity_width_space = {(float) c.num("width")}; sp->dropout_rate_space = {c.num("drop") ? 0.3f : 0.f};
                sp->l2_regularization_strength_space = {c.num("l2") ? 0.01f : 0.f}; sp->batch_size_space = {(int) c.num("batch")}; sp->use_normalization_layers_space = {(bool) c.num("norm")}; sp->use_hidden_bias_space = {true}; sp->use_bias_space = {true}; sp->use_normal_clipping_space = {(bool) c.num("clip")};
                happyml::Hyperband h(sp, ev, (int) c.num("res"), (int) c.num("rf")); captured_out();
                arm(true); Net n = h.run((size_t) c.num("n"), target, (int) c.num("bits")); arm(false); NoSim ns;
                note("out", captured_out());
                auto best = ev->getBestConfiguration(); note("best", best ? num(best->learning_rate) + " " + num(ev->getBestEvaluationMetric()) : "none");
                if (n) note("model", num(n->getOptimizer()->getLearningRate()) + " " + metric_of(c, n));
            }
        } catch (const std::exception &x) { arm(false); how = string("threw ") + x.what(); }
        arm(false); NoSim ns; string m; auto dirs = made_dirs(); for (size_t i = 0; i < dirs.size() && (!evaluate || i < mine); i++) m += dirs[i] + "\n"; note("made", m); note("how", how);
    });
    u64 reads = run.last.reads;
    if (run.failed()) return;
    if (b.kind == BootResult::Crashed) { run.tag("crashed"); run.judged(2); return; }
    if (!b.ok()) return run.fail("C02-died", "the search ended abnormally: " + b.describe());
    bool fault = false, removing = false; for (auto &f: run.res.fired) if (f.first != "short-io" && f.first != "eintr" && f.first != "spurious-wake") fault = true;
    string how = run.note("how"), model = run.note("model"), best = run.note("best");
    auto huge = [](double r) { return r > 1; }; size_t diverging = 0; for (float r: lr) diverging += huge(r); // training with such a rate may fail
    if (!fault) {
        if (how != "ok" && evaluate && diverging) { run.tag("diverged"); run.judged(5); return; }
        if (model.empty() && diverging && run.note("best") == "none") { run.tag("diverged"); run.judged(5); return; }
        if (how != "ok") return run.fail("C02-failed", "the search failed without any fault: " + how);
        if (model.empty()) return run.fail("C02-nothing", "the search returned no network without any fault: " + run.note("out").substr(0, 200));
        auto after = fs::list_all("/work"); after.erase(std::remove(after.begin(), after.end(), "/work/repo/cache/"), after.end());
        if (after != before) return run.fail("C02-leftover", "temporary models were left behind");
    }
    auto all = kept(run, c);
    run.tag(evaluate ? "evaluate" : "search"); run.tag(model.empty() ? "reported" : "found");
    auto two = [](const string &s) { std::istringstream in(s); string a, z; in >> a >> z; return std::make_pair(strtod(a.c_str(), nullptr), strtod(z.c_str(), nullptr)); };
    if (!model.empty()) {
        auto m = two(model), bst = two(best);
        if (!same(m.first, bst.first)) return run.fail("C02-other", "the network returned was trained with learning rate " + std::to_string(m.first) + ", the best configuration has " + std::to_string(bst.first));
        if (!same(m.second, bst.second)) return run.fail("C02-score", "the network returned scores " + std::to_string(m.second) + ", the best score reported is " + std::to_string(bst.second));
    }
    // an epoch reads every record a few times: how many epochs were there at most?
    if (!fault && !all.empty() && !p.num("env", "short")) {
        u64 per = (u64) c.num("epochs") + 2, records = (u64) (c.num("rows") + c.num("batch") + c.num("trows")) + 4;
        double times = (double) reads / (double) (per * records * (all.size() + 1)); // at most 1 as it is
        if (times > 6) return run.fail("C02-limit", "evaluations limited to " + c.get("epochs") + " epochs read their data " + std::to_string((int) times) + " times as often as that needs");
    }
    if (evaluate) {
        auto cf = run.notes_of("config"); vector<std::pair<double, double>> ok; for (auto &l: cf) if (l.rfind("ok ", 0) == 0) ok.push_back(two(l.substr(3)));
        size_t lost = 0; for (auto &l: cf) if (l.rfind("ok ", 0)) lost += !huge(two(l.substr(l.find_last_of('w') + 2)).first);
        if (!fault && lost) return run.fail("C02-failed", "an evaluation failed without any fault");
        if (!model.empty()) {
            auto bst = two(best); for (auto &x: ok) if (better(x.second, bst.second, minimize)) return run.fail("C02-best", "a configuration scored " + std::to_string(x.second) + ", but the best score reported is " + std::to_string(bst.second));
            bool found = false; for (auto &x: ok) found = found || (same(x.first, bst.first) && same(x.second, bst.second)); if (!found && !ok.empty()) return run.fail("C02-best", "the best configuration was not evaluated");
        }
        if (!fault) { // every network saved is the one its score was computed with
            if (all.size() < ok.size() || (!diverging && all.size() != ok.size())) return run.fail("C02-saved", std::to_string(ok.size()) + " evaluations saved " + std::to_string(all.size()) + " networks");
            auto rest = all; for (auto &x: ok) { size_t i = 0; while (i < rest.size() && !(same(rest[i].rate, x.first) && same(rest[i].metric, x.second))) i++; if (i == rest.size()) return run.fail("C02-mixed", "no network saved has the score " + std::to_string(x.second) + " of a configuration"); rest.erase(rest.begin() + (long) i); }
        }
        run.judged(hash_str(best, all.size())); return;
    }
    if (fault) { run.judged(hash_str(best, 7)); return; }
    // the rounds: a configuration is evaluated again only in the next one
    size_t n = (size_t) c.num("n"), space = lr.size(), rf = (size_t) c.num("rf"); if (c.num("n") < 0 || n > space) n = space; vector<Kept> last; double top = NAN; bool hit = false;
    vector<vector<Kept>> rounds; for (auto &k: all) { bool again = rounds.empty(); if (!again) for (auto &q: rounds.back()) again = again || q.rate == k.rate; if (again) rounds.emplace_back(); rounds.back().push_back(k); }
    for (size_t round = 0; round < rounds.size(); round++) {
        auto &now = rounds[round]; string what = "round " + std::to_string(round + 1) + " evaluated " + std::to_string(now.size());
        if (hit || (round && n <= 1)) return run.fail("C02-rounds", what + " configurations after the search should have ended");
        if (now.size() > n || now.size() + diverging < n) return run.fail("C02-rounds", what + " of " + std::to_string(n) + " configurations");
        for (auto &k: now) if (better(k.metric, top, minimize)) top = k.metric;
        if (round) for (auto &o: last) {
            bool in = huge(o.rate); for (auto &k: now) in = in || k.rate == o.rate; if (in) continue;
            for (auto &k: now) { const Kept *w = nullptr; for (auto &q: last) if (q.rate == k.rate) w = &q; if (!w) return run.fail("C02-new", what + " with one the round before had not"); if (better(o.metric, w->metric, minimize)) return run.fail("C02-eliminated", "a configuration that scored " + std::to_string(o.metric) + " was eliminated, one that scored " + std::to_string(w->metric) + " was kept"); }
        }
        hit = minimize ? top < target : top > target; last = now; n = std::min(n / rf, now.size());
    }
    if (!hit && n > std::max((size_t) 1, diverging)) return run.fail("C02-rounds", "the search ended with " + std::to_string(n) + " configurations left");
    auto bst = two(best); if (!same(bst.second, top)) return run.fail("C02-best", "a network scored " + std::to_string(top) + ", but the best score reported is " + std::to_string(bst.second));
    run.judged(hash_str(best, all.size()));
}
int main(int argc, char **argv) {
    add_property({"C02", gen_search, run_search, [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = {"search"}; o.alloc = o.thread = true; o.per_base_quick = 3; return derive_faults(p, bc, r, tier, o); }, {"fault", "op", "rate"}, "random searches and parallel evaluations over random schedules of the evaluating threads, clocks that freeze or jump, diverging trainings, failing I/O, allocations and thread starts; every saved network is loaded and scored again."});
    return main_entry(argc, argv);
}
