// M07: what training does to the weights, compared with a reference in double precision.
#include "ml/happyml_dsl.hpp"
#include "nets.hpp"
#include <cmath>

static const string REPO = "/work/repo";

// ------------------------------------------------------------------ the reference
struct T3 {
    size_t r = 0, c = 0, ch = 0; vector<double> d;
    T3() = default;
    T3(size_t r_, size_t c_, size_t ch_, double v = 0) : r(r_), c(c_), ch(ch_), d(r_ * c_ * ch_, v) {}
    double &at(size_t x, size_t y, size_t z) { return d[(z * r + x) * c + y]; }
    [[nodiscard]] double at(size_t x, size_t y, size_t z) const { return d[(z * r + x) * c + y]; }
    [[nodiscard]] double mean() const { double s = 0; for (double x: d) s += x; return d.empty() ? 0 : s / (double) d.size(); }
};
static T3 from_tensor(const shared_ptr<BaseTensor> &t) { T3 x(t->rowCount(), t->columnCount(), t->channelCount()); for (size_t z = 0; z < x.ch; z++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) x.at(i, j, z) = t->getValue(i, j, z); return x; }
static shared_ptr<BaseTensor> to_tensor(const T3 &x) {
    vector<vector<vector<float>>> v(x.ch, vector<vector<float>>(x.r, vector<float>(x.c)));
    for (size_t z = 0; z < x.ch; z++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++) v[z][i][j] = (float) x.at(i, j, z);
    return make_shared<happyml::FullTensor>(v);
}
struct Noise { Rng r; double e; explicit Noise(u64 s, double e_) : r(s), e(e_) {} double operator()(double x) { return e == 0 ? x : x * (1 + e * (r.unit() * 2 - 1)); } };

struct Param { string file; bool bias; T3 w, g, m, v; bool started = false; size_t count = 0; };
struct RNode {
    enum K { Full, Bias, Act, Concat, Flatten, Conv } k; vector<int> from; int children = 0; string act; bool clip = false; double thr = 0; bool l2 = false; double reg = 0;
    vector<int> params; size_t f = 0, ks = 0;
    T3 in, out, err; vector<T3> ins; int errs = 0;
};
struct Ref {
    const Spec &s; vector<RNode> n; vector<Param> p; vector<int> inputs, outputs; vector<int> first, last; vector<int> apply_order;
    Noise nz; double eps = 1e-8; /* adam, and anything near it */ bool ambiguous = false; double lr, blr; int step = 0, lastw = 1, lastb = 1; vector<T3> mean_in;
    Ref(const Spec &s_, u64 seed, double e) : s(s_), nz(seed, e), lr(s_.lr), blr(s_.blr) { if (e != 0) eps = 2e-8;
        first.assign(s.v.size(), -1); last = first;
        for (size_t i = 0; i < s.v.size(); i++) if (s.v[i].in) { build(i); inputs.push_back(first[i]); }
        std::set<int> seen; for (int o: outputs) order(o, seen);
    }
    void order(int i, std::set<int> &seen) { if (!seen.insert(i).second) return; apply_order.push_back(i); for (int f: n[(size_t) i].from) order(f, seen); }
    int add(RNode::K k, int prev) { RNode x; x.k = k; n.push_back(x); int id = (int) n.size() - 1; if (prev >= 0) link(prev, id); return id; }
    void link(int a, int b) { n[(size_t) b].from.push_back(a); n[(size_t) a].children++; }
    int param(const string &file, bool bias, size_t r, size_t c, size_t ch) { Param q; q.file = file; q.bias = bias; q.w = T3(r, c, ch); q.g = q.m = q.v = q.w; p.push_back(q); return (int) p.size() - 1; }
    [[nodiscard]] vector<size_t> shape_of(size_t i) const { // output of a vertex
        auto &v = s.v[i];
        if (v.k == "full") return {1, v.n, 1};
        if (v.k == "concat") { size_t w = 0; for (auto q: v.p) w += shape_of(q)[1]; return {1, w, 1}; }
        auto in = v.in ? vector<size_t>{v.ir, v.ic, v.ich} : shape_of(v.p[0]);
        if (v.k == "flatten") return {1, in[0] * in[1] * in[2], 1};
        return {in[0] - v.ks + 1, in[1] - v.ks + 1, v.f};
    }
    void build(size_t i) {
        if (first[i] >= 0) return;
        auto &v = s.v[i]; string id = std::to_string(i + 1); auto in = v.in ? vector<size_t>{v.ir, v.ic, v.ich} : v.k == "concat" ? vector<size_t>{1, 1, 1} : shape_of(v.p[0]); auto out = shape_of(i); int at = -1;
        auto push = [&](RNode::K k) { at = add(k, at); if (first[i] < 0) first[i] = at; return at; };
        if (v.k == "full") {
            if (in[0] > 1) push(RNode::Flatten);
            push(RNode::Full); n[(size_t) at].params = {param(id + "_full.tensor", false, in[0] * in[1] * in[2], v.n, 1)};
        } else if (v.k == "conv") {
            push(RNode::Conv); n[(size_t) at].f = v.f; n[(size_t) at].ks = v.ks; for (size_t f = 0; f < v.f; f++) n[(size_t) at].params.push_back(param(id + "_c2dv_" + std::to_string(f) + ".tensor", false, v.ks, v.ks, in[2]));
        } else push(v.k == "concat" ? RNode::Concat : RNode::Flatten);
        auto dress = [&] { n[(size_t) at].clip = v.clip; n[(size_t) at].thr = v.thr; n[(size_t) at].l2 = v.l2; n[(size_t) at].reg = v.reg; };
        dress();
        if (v.k == "full" || v.k == "conv") {
            if (v.bias) { push(RNode::Bias); n[(size_t) at].params = {param(id + "_bias.tensor", true, out[0], out[1], out[2])}; dress(); }
            push(RNode::Act); n[(size_t) at].act = v.act; dress();
            if (v.out) outputs.push_back(at);
        }
        last[i] = at;
        for (size_t c = 0; c < s.v.size(); c++) for (auto q: s.v[c].p) if (!s.v[c].in && q == i) { build(c); link(at, first[c]); }
    }
    double act(const string &a, double z) {
        if (a == "relu") { if (std::fabs(z) < 1e-6 && z != 0) ambiguous = true; return z > 0 ? z : 0; }
        if (a == "leaky") { if (std::fabs(z) < 1e-6 && z != 0) ambiguous = true; return z >= 0 ? z : 0.01 * z; }
        if (a == "tanh" || a == "tanhApprox") return std::tanh(z);
        if (a == "sigmoid") return 1 / (1 + std::exp(-z));
        if (a == "sigmoidApprox") return 0.5 * (z / (1 + std::fabs(z)) + 1);
        return z;
    }
    double dact(const string &a, double z) {
        if (a == "relu") return z > 0 ? 1 : 0;
        if (a == "leaky") return z >= 0 ? 1 : 0.01;
        if (a == "tanh" || a == "tanhApprox") { double t = std::tanh(z); return 1 - t * t; }
        if (a == "sigmoid" || a == "sigmoidApprox") { double q = act(a, z); return q * (1 - q); }
        return 1;
    }
    vector<T3> forward(const vector<T3> &given) {
        for (auto &x: n) x.out = T3();
        for (size_t i = 0; i < n.size(); i++) run(i, given);
        vector<T3> o; for (int q: outputs) o.push_back(n[(size_t) q].out); return o;
    }
    void run(size_t i, const vector<T3> &given) {
        auto &x = n[i]; if (!x.out.d.empty()) return;
        x.ins.clear();
        if (x.from.empty()) { for (size_t q = 0; q < inputs.size(); q++) if (inputs[q] == (int) i) x.ins.push_back(given[q]); }
        else for (int f: x.from) { run((size_t) f, given); x.ins.push_back(n[(size_t) f].out); }
        const T3 &a = x.ins[0];
        if (x.k == RNode::Full) { auto &w = p[(size_t) x.params[0]].w; x.out = T3(1, w.c, 1); for (size_t j = 0; j < w.c; j++) { double t = 0; for (size_t k = 0; k < w.r; k++) t += nz(a.d[k] * w.at(k, j, 0)); x.out.at(0, j, 0) = t; } }
        else if (x.k == RNode::Bias) { x.out = a; auto &w = p[(size_t) x.params[0]].w; for (size_t k = 0; k < a.d.size(); k++) x.out.d[k] = nz(a.d[k] + w.d[k]); }
        else if (x.k == RNode::Act) {
            x.out = a;
            if (x.act == "softmax") { double mx = a.d[0], sum = 0; for (double q: a.d) mx = std::max(mx, q); for (auto &q: x.out.d) { q = std::exp(q - mx); sum += q; } for (auto &q: x.out.d) q = nz(q / sum); }
            else for (auto &q: x.out.d) q = nz(act(x.act, q));
        } else if (x.k == RNode::Concat) { x.out = T3(1, 0, 1); for (auto &q: x.ins) { x.out.c += q.c; x.out.d.insert(x.out.d.end(), q.d.begin(), q.d.end()); } }
        else if (x.k == RNode::Flatten) { x.out = T3(1, a.d.size(), 1); x.out.d = a.d; }
        else {
            x.out = T3(a.r - x.ks + 1, a.c - x.ks + 1, x.f);
            for (size_t f = 0; f < x.f; f++) { auto &w = p[(size_t) x.params[f]].w; for (size_t r = 0; r < x.out.r; r++) for (size_t c = 0; c < x.out.c; c++) { double t = 0; for (size_t z = 0; z < a.ch; z++) for (size_t u = 0; u < x.ks; u++) for (size_t v = 0; v < x.ks; v++) t += nz(a.at(r + u, c + v, z) * w.at(u, v, z)); x.out.at(r, c, f) = t; } }
        }
        for (double q: x.out.d) if (!(std::fabs(q) < 1e4)) ambiguous = true;
    }
    double loss(const T3 &t, const T3 &y) {
        double l = 0;
        for (size_t i = 0; i < y.d.size(); i++) {
            double d = y.d[i] - t.d[i];
            if (s.loss == "mse") l += d * d / (double) y.d.size();
            else if (s.loss == "mae") l += std::fabs(d) / (double) y.d.size();
            else if (s.loss == "smae") l += (std::fabs(d) < 1 ? 0.5 * d * d : std::fabs(d) - 0.5) / (double) y.d.size();
            else { if (y.d[i] < 1e-4 || y.d[i] > 1 - 1e-4) ambiguous = true; if (s.loss == "categoricalCrossEntropy") l -= t.d[i] * std::log(std::max(y.d[i], 1e-8)); else l -= t.d[i] * std::log(std::max(y.d[i], 1e-8)) + (1 - t.d[i]) * std::log(std::max(1 - y.d[i], 1e-8)); }
        }
        return l;
    }
    T3 dloss(const T3 &t, const T3 &y) {
        T3 e = y;
        for (size_t i = 0; i < y.d.size(); i++) {
            double d = y.d[i] - t.d[i]; double &o = e.d[i];
            if (s.loss == "mse") o = 2 * d;
            else if (s.loss == "mae") { if (std::fabs(d) < 1e-6) ambiguous = true; o = d > 0 ? 1 : -1; }
            else if (s.loss == "smae") { if (std::fabs(std::fabs(d) - 1) < 1e-6) ambiguous = true; o = std::fabs(d) < 1 ? d : d > 0 ? 1 : -1; }
            else if (s.loss == "categoricalCrossEntropy") o = d;
            else o = -(t.d[i] / y.d[i] - (1 - t.d[i]) / (1 - y.d[i]));
            o = nz(o);
        }
        return e;
    }
    void backward(const vector<T3> &e) {
        for (auto &x: n) { x.err = T3(); x.errs = 0; }
        std::function<void(int, const T3 &)> give = [&](int i, const T3 &er) {
            auto &x = n[(size_t) i]; if (x.err.d.empty()) x.err = er; else for (size_t k = 0; k < er.d.size(); k++) x.err.d[k] += er.d[k];
            if (++x.errs < std::max(1, x.children)) return;
            if (x.children > 1) for (auto &q: x.err.d) q /= x.children;
            vector<T3> back; const T3 &o = x.err; const T3 &a = x.ins[0];
            if (x.k == RNode::Full) {
                auto &q = p[(size_t) x.params[0]]; T3 b(a.r, a.c, a.ch);
                for (size_t k = 0; k < q.w.r; k++) { double t = 0; for (size_t j = 0; j < q.w.c; j++) { t += nz(o.d[j] * q.w.at(k, j, 0)); q.g.at(k, j, 0) += nz(a.d[k] * o.d[j]) + (x.l2 ? nz(q.w.at(k, j, 0) * x.reg) : 0); } b.d[k] = t; }
                q.count++; back = {b};
            } else if (x.k == RNode::Bias) { auto &q = p[(size_t) x.params[0]]; for (size_t k = 0; k < o.d.size(); k++) q.g.d[k] += nz(o.d[k]); q.count++; back = {o}; }
            else if (x.k == RNode::Act) { T3 b = o; if (x.act != "softmax") for (size_t k = 0; k < b.d.size(); k++) b.d[k] = nz(b.d[k] * dact(x.act, a.d[k])); back = {b}; }
            else if (x.k == RNode::Concat) { size_t at = 0; for (auto &q: x.ins) { T3 b(1, q.c, 1); for (size_t k = 0; k < q.c; k++) b.d[k] = o.d[at++]; back.push_back(b); } }
            else if (x.k == RNode::Flatten) { T3 b(a.r, a.c, a.ch); b.d = o.d; back = {b}; }
            else {
                T3 b(a.r, a.c, a.ch);
                for (size_t f = 0; f < x.f; f++) {
                    auto &q = p[(size_t) x.params[f]];
                    for (size_t z = 0; z < a.ch; z++) for (size_t u = 0; u < x.ks; u++) for (size_t v = 0; v < x.ks; v++) {
                        double t = 0; for (size_t r = 0; r < o.r; r++) for (size_t c = 0; c < o.c; c++) { t += nz(a.at(r + u, c + v, z) * o.at(r, c, f)); b.at(r + u, c + v, z) += nz(o.at(r, c, f) * q.w.at(u, v, z)); }
                        q.g.at(u, v, z) += t + (x.l2 ? q.w.at(u, v, z) * x.reg : 0);
                    }
                    q.count++;
                }
                back = {b};
            }
            if (x.clip) for (auto &b: back) { double t = 0; for (double q: b.d) t += q * q; t = std::sqrt(t); if (t > x.thr) for (auto &q: b.d) q = nz(q * x.thr / t); }
            for (size_t k = 0; k < x.from.size(); k++) give(x.from[k], back[k]);
        };
        for (size_t i = 0; i < outputs.size(); i++) give(outputs[i], e[i]);
    }
    double demon(bool bias, bool adam) {
        double m = 0, v = 0; size_t k = 0; for (auto &q: p) if (q.bias == bias && q.started) { m += q.m.mean(); v += q.v.mean(); k++; }
        m /= (double) k; v /= (double) k; if (!adam) v = m * m;
        double mh = m * std::min(0.1, std::max(1e-5, 1 / (1 - std::pow(0.9, step)))), vh = v / (1 - std::pow(0.999, step));
        double d = mh / (std::sqrt(vh) + 1e-8);
        if (std::fabs(m) < 1e-6 && m != 0) ambiguous = true;
        return std::min(0.1, std::max(1e-5, d));
    }
    void apply() {
        bool adam = s.opt.rfind("Adam", 0) == 0, sgdm = s.opt.rfind("SGDM", 0) == 0, dm = s.opt.find("Decaying") != string::npos;
        for (int i: apply_order) for (int pi: n[(size_t) i].params) {
            auto &q = p[(size_t) pi]; double &rate = q.bias ? blr : lr; int &lastu = q.bias ? lastb : lastw; T3 g = q.g; for (auto &x: g.d) x = nz(x / (double) std::max<size_t>(1, q.count));
            q.g = T3(q.g.r, q.g.c, q.g.ch); q.count = 0; q.started = true;
            if (adam) {
                if (dm && step > lastu) { lastu = step; rate = demon(q.bias, true); }
                for (size_t k = 0; k < g.d.size(); k++) { q.m.d[k] = 0.9 * q.m.d[k] + 0.1 * g.d[k]; q.v.d[k] = 0.999 * q.v.d[k] + 0.001 * g.d[k] * g.d[k]; q.w.d[k] -= rate * q.m.d[k] / (std::sqrt(q.v.d[k]) + eps); }
            } else if (sgdm) {
                for (size_t k = 0; k < g.d.size(); k++) { q.m.d[k] = 0.9 * q.m.d[k] + rate * g.d[k]; q.w.d[k] -= q.m.d[k]; }
                if (dm && step > lastu) { lastu = step; rate = demon(q.bias, false); }
            } else for (size_t k = 0; k < g.d.size(); k++) q.w.d[k] -= rate * g.d[k];
        }
    }
};

// ------------------------------------------------------------------ the run
struct Recording : happyml::InMemoryTrainingDataSet {
    vector<vector<size_t>> passes; vector<Tensors> givens; bool log = false;
    void restart() override { happyml::InMemoryTrainingDataSet::restart(); if (log) passes.emplace_back(); }
    shared_ptr<happyml::TrainingPair> nextRecord() override {
        auto p = happyml::InMemoryTrainingDataSet::nextRecord();
        if (p && log) { auto g = p->getGiven(); size_t id = 9999; for (size_t i = 0; i < givens.size(); i++) if (enc_tensors(g) == enc_tensors(givens[i])) id = i; if (passes.empty()) passes.emplace_back(); passes.back().push_back(id); }
        return p;
    }
};
struct Watch : happyml::ExitStrategy {
    size_t n; vector<float> losses; explicit Watch(size_t n_) : n(n_) {}
    bool isDone(size_t e, float l, int64_t) override { losses.push_back(l); return e >= n; }
    string whyDone(size_t, float, int64_t) override { return "fixed"; }
};
static Plan gen_learn(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, false, true);
    GenOpt o; o.max_vertices = tier ? 8 : 5; o.reference = true; gen_net(p, r, 0, o);
    for (auto &l: p.lines) if (l.type == "net") { bool adam = l.get("opt").rfind("Adam", 0) == 0; for (auto &kv: l.kv) { if (kv.first == "lr") kv.second = std::to_string(r.pick(adam ? vector<int>{100, 1000, 5000} : vector<int>{1000, 5000, 20000, 50000})); if (kv.first == "blr") kv.second = std::to_string(r.pick(adam ? vector<int>{100, 2000} : vector<int>{500, 5000, 20000})); } }
    size_t rounds = 1 + r.below(2);
    for (size_t i = 0; i < rounds; i++) { size_t rec = 1 + r.below(5); p.add("op").set("records", (i64) rec).set("batch", 1 + (i64) r.below(rec)).set("epochs", 1 + (i64) r.below(tier ? 4 : 3)).set("dseed", (i64) r.below(1000)).set("tests", (i64) (r.chance(500) ? 0 : 1 + r.below(3))).set("policy", r.chance(250) ? "best" : "last"); }
    p.add("conf").set("wseed", (i64) r.below(100000)).set("xavier", r.chance(200)).set("scale", 1 + (i64) r.below(3));
    return p;
}
static void run_learn(Run &run) {
    const Line &cf = *run.plan.first("conf"); Spec s(run.plan, 0); if (s.v.empty() || run.plan.all("op").empty()) return;
    fs::set_cwd("/work"); fs::mkdirs(REPO);
    auto b = run.boot("learn", [&] {
        Net net = build_net(s, "m", REPO); const string dir = REPO + "/m/k/";
        // weights chosen by the plan
        net->saveKnowledge("k", true);
        vector<Ref> refs; for (int i = 0; i < 6; i++) refs.emplace_back(s, (u64) cf.num("wseed") * 7 + (u64) i, i ? 6e-6 : 0.0);
        { Rng r((u64) cf.num("wseed")); for (size_t k = 0; k < refs[0].p.size(); k++) {
            auto &q = refs[0].p[k]; auto t = make_shared<happyml::FullTensor>(dir + q.file); T3 w = from_tensor(t);
            if (w.d.size() != q.w.d.size()) { boot_fail("M07-shape", "the parameters " + q.file + " have " + std::to_string(w.d.size()) + " values instead of " + std::to_string(q.w.d.size())); return; }
            if (!cf.num("xavier")) { for (auto &x: w.d) x = (float) ((r.unit() * 2 - 1) * 0.5 * (double) cf.num("scale")); to_tensor(w)->save(dir + q.file); }
            for (auto &f: refs) f.p[k].w = w;
        } }
        net->loadKnowledge("k");
        auto givens = [&](const Tensors &t) { vector<T3> v; for (auto &x: t) v.push_back(from_tensor(x)); return v; };
        auto base = [](double x) { return 2e-5 * (1 + std::fabs(x)); };
        auto amb = [&] { for (auto &f: refs) if (f.ambiguous) return true; return false; };
        // value of the reference and how far small perturbations move it; false if that is too far to judge
        auto judge = [&](const std::function<double(Ref &)> &get, double got, double &want) { want = get(refs[0]); double dev = 0; for (size_t i = 1; i < refs.size(); i++) dev = std::max(dev, std::fabs(get(refs[i]) - want)); double tol = base(want) + 30 * dev; if (tol > 0.02 * (1 + std::fabs(want))) return 2; return std::fabs(got - want) <= tol && !std::isnan(got) ? 0 : 1; };
        auto probe = [&](const string &when) {
            for (int i = 0; i < 2; i++) {
                auto in = make_given(s, 7000 + (u64) i); auto out = net->predict(in); vector<vector<T3>> ro; for (auto &f: refs) ro.push_back(f.forward(givens(in))); if (amb()) return false;
                if (out.size() != ro[0].size()) { boot_fail("M07-predict", "a prediction has another number of outputs"); return false; }
                for (size_t o = 0; o < out.size(); o++) { auto g = from_tensor(out[o]); if (g.d.size() != ro[0][o].d.size()) { boot_fail("M07-predict", "an output has another shape"); return false; }
                    for (size_t k = 0; k < g.d.size(); k++) { double want = ro[0][o].d[k], dev = 0; for (auto &x: ro) dev = std::max(dev, std::fabs(x[o].d[k] - want)); double tol = base(want) + 30 * dev; if (tol > 0.02 * (1 + std::fabs(want))) return false; if (!(std::fabs(g.d[k] - want) <= tol)) { boot_fail("M07-predict", when + ", value " + std::to_string(k) + " of output " + std::to_string(o) + " is predicted as " + std::to_string(g.d[k]) + ", the reference gives " + std::to_string(want)); return false; } } }
            }
            return true;
        };
        if (!probe("before training")) { note("amb", "1"); return; }
        string log; int round = 0;
        for (auto op: run.plan.all("op")) {
            round++; size_t records = (size_t) op->num("records"), epochs = (size_t) op->num("epochs"), tests = (size_t) op->num("tests"); int batch = (int) std::min<i64>(op->num("batch"), (i64) records); u64 ds = (u64) op->num("dseed"); bool best = op->get("policy") == "best";
            auto d = make_shared<Recording>(); vector<vector<T3>> gs, es, tg, te;
            for (size_t i = 0; i < records; i++) { auto g = make_given(s, ds * 100 + i), e = make_expected(net, s, ds * 77 + i); d->givens.push_back(g); gs.push_back(givens(g)); es.push_back(givens(e)); d->addTrainingData(g, e); }
            shared_ptr<happyml::TrainingDataSet> t = make_shared<happyml::EmptyTrainingDataSet>();
            if (tests) { auto td = make_shared<happyml::InMemoryTrainingDataSet>(); for (size_t i = 0; i < tests; i++) { auto g = make_given(s, ds * 100 + 50 + i), e = make_expected(net, s, ds * 77 + 50 + i); tg.push_back(givens(g)); te.push_back(givens(e)); td->addTrainingData(g, e); } t = td; }
            auto w = make_shared<Watch>(epochs); net->setExitStrategy(w); d->log = true; shared_ptr<happyml::TrainingResult> res;
            try { res = net->train(d, t, batch, best ? happyml::best : happyml::last); } catch (const std::exception &x) { bool wild = string(x.what()) == "Error calculating loss."; for (float l: w->losses) if (!(l < 1e3f)) wild = true; if (w->losses.empty() && best) wild = true; if (wild) { note("amb", "1"); return; } boot_fail("M07-refused", string("training failed: ") + x.what()); return; }
            d->log = false; for (float l: w->losses) if (!(l < 1e3f)) { note("amb", "1"); return; } vector<vector<size_t>> passes; for (auto &q: d->passes) if (!q.empty()) passes.push_back(q);
            if (passes.size() != epochs) { boot_fail("M07-records", "the records were passed " + std::to_string(passes.size()) + " times in " + std::to_string(epochs) + " epochs"); return; }
            vector<vector<double>> train(refs.size()), test(refs.size()); vector<vector<vector<Param>>> kept(refs.size());
            for (size_t f = 0; f < refs.size(); f++) {
                auto &R = refs[f];
                for (auto &pass: passes) {
                    std::set<size_t> u(pass.begin(), pass.end()); if (pass.size() != records || u.size() != records) { boot_fail("M07-records", "an epoch used " + std::to_string(pass.size()) + " records, " + std::to_string(u.size()) + " different ones, of " + std::to_string(records)); return; }
                    R.step++; double sum = 0; size_t inb = 0;
                    for (size_t i = 0; i < pass.size(); i++) {
                        auto y = R.forward(gs[pass[i]]); double l = 0; vector<T3> e; for (size_t o = 0; o < y.size(); o++) { l += R.loss(es[pass[i]][o], y[o]); e.push_back(R.dloss(es[pass[i]][o], y[o])); } sum += l / (double) y.size();
                        R.backward(e); if (++inb == (size_t) batch || i + 1 == pass.size()) { R.apply(); inb = 0; }
                        if (R.ambiguous) { note("amb", "1"); return; }
                    }
                    train[f].push_back(sum / (double) records);
                    if (tests) { double q = 0; for (size_t i = 0; i < tests; i++) { auto y = R.forward(tg[i]); double l = 0; for (size_t o = 0; o < y.size(); o++) l += R.loss(te[i][o], y[o]); q += l / (double) y.size(); } test[f].push_back(q / (double) tests); } else test[f].push_back(train[f].back());
                    if (best) kept[f].push_back(R.p);
                }
                if (R.ambiguous) { note("amb", "1"); return; }
            }
            auto cmp = [&](const vector<vector<double>> &x, size_t e, double got, const string &what) { double want = x[0][e], dev = 0; for (auto &q: x) dev = std::max(dev, std::fabs(q[e] - want)); double tol = base(want) + 30 * dev; if (tol > 0.02 * (1 + std::fabs(want))) { note("amb", "1"); return false; } if (!(std::fabs(got - want) <= tol)) { boot_fail("M07-loss", what + " is given as " + std::to_string(got) + ", the reference gives " + std::to_string(want)); return false; } return true; };
            for (size_t e = 0; e < epochs; e++) if (!cmp(test, e, w->losses[e], "the loss of epoch " + std::to_string(e + 1))) return;
            if (!cmp(train, 0, res->initial_train_loss, "the first training loss")) return;
            { vector<vector<double>> lo; for (auto &x: train) lo.push_back({*std::min_element(x.begin(), x.end())}); if (!cmp(lo, 0, res->best_train_loss, "the lowest training loss")) return; }
            if (best) {
                size_t at = 0; for (size_t e = 1; e < epochs; e++) if (test[0][e] < test[0][at]) at = e;
                for (size_t e = 0; e < epochs; e++) if (e != at && test[0][e] - test[0][at] < 1e-4 * (1 + test[0][at])) { note("amb", "1"); return; }
                for (size_t f = 0; f < refs.size(); f++) for (size_t k = 0; k < refs[f].p.size(); k++) refs[f].p[k].w = kept[f][at][k].w; // the optimizer's state stays that of the last epoch
            }
            net->saveKnowledge("k", true); bool judged = true;
            for (size_t k = 0; k < refs[0].p.size() && judged; k++) {
                auto g = from_tensor(make_shared<happyml::FullTensor>(dir + refs[0].p[k].file));
                for (size_t i = 0; i < g.d.size(); i++) { double want; int j = judge([&](Ref &R) { return R.p[k].w.d[i]; }, g.d[i], want); if (j == 2) { judged = false; break; } if (j == 1) { boot_fail("M07-weights", "after training (" + s.opt + ", " + s.loss + ") value " + std::to_string(i) + " of " + refs[0].p[k].file + " is " + std::to_string(g.d[i]) + ", the reference gives " + std::to_string(want)); return; } }
            }
            if (!judged || !probe("after training")) { note("amb", "1"); return; }
            if (tests) { vector<vector<double>> x; for (auto &R: refs) { double q = 0; for (size_t i = 0; i < tests; i++) { auto y = R.forward(tg[i]); double l = 0; for (size_t o = 0; o < y.size(); o++) l += R.loss(te[i][o], y[o]); q += l / (double) y.size(); } x.push_back({q / (double) tests}); } if (!cmp(x, 0, net->test(t), "the test loss")) return; }
            // both sides go on from the same weights, so that small differences don't add up
            for (size_t k = 0; k < refs[0].p.size(); k++) { auto g = from_tensor(make_shared<happyml::FullTensor>(dir + refs[0].p[k].file)); for (auto &R: refs) R.p[k].w = g; }
            for (auto &x: test[0]) log += std::to_string(x) + ",";
        }
        note("log", log);
    });
    if (!b.ok()) return run.fail("M07-died", "training ended abnormally: " + b.describe());
    if (run.failed()) return;
    if (run.has_note("amb")) { run.tag("ambiguous"); return; }
    run.judged(hash_str(run.note("log"))); run.tag("opt-" + s.opt); run.tag("loss-" + s.loss); for (auto &v: s.v) run.tag("layer-" + v.k + (v.k == "conv" && !v.in ? "-on-conv" : ""));
}
int main(int argc, char **argv) {
    auto none = [](const Plan &, const RunResult &, const std::map<string, Counters> &, Rng &, int) { return vector<Plan>{}; };
    add_property({"M07", gen_learn, run_learn, none, {"op"}, "random networks (fully connected and convolutional layers, biases, branches, concatenations, several outputs, L2, clipping), weights, data, shuffles, batch sizes, optimizers and losses; losses, weights and predictions compared with a double-precision reference. Judged: runs in which perturbing the reference by 6e-6 moves nothing by more than the tolerance allows."});
    return main_entry(argc, argv);
}
