// Networks described by plan lines, shared by the model harnesses. Include after the repository's headers.
#pragma once
#include "simkit.hpp"
using namespace sim;
using happyml::BaseTensor;
using Tensors = vector<shared_ptr<BaseTensor>>;
using Net = shared_ptr<happyml::NeuralNetworkForTraining>;

static float bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t raw(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }

struct V {
    string k, act; bool in, out, bias, norm, l2, mat, clip; int matset;
    vector<size_t> p; size_t n, ir, ic, ich, f, ks; int bits_; double reg, thr, dr;
    explicit V(const Line &l) {
        k = l.get("k"); act = l.get("act", "linear"); in = l.num("in"); out = l.num("out"); bias = l.num("bias"); norm = l.num("norm");
        l2 = l.num("l2", k == "full"); matset = (int) l.num("mat", -1); mat = matset == 1; clip = l.num("clip"); n = (size_t) l.num("n"); ir = (size_t) l.num("ir", 1); ic = (size_t) l.num("ic", 1);
        ich = (size_t) l.num("ich", 1); f = (size_t) l.num("f"); ks = (size_t) l.num("ks"); bits_ = (int) l.num("bits", 32);
        reg = (double) l.num("reg", 20) / 1000 + (double) l.num("regd") / 1e9; thr = (double) l.num("thr", 5000) / 1000 + (double) l.num("thrd") / 1e9; dr = (double) l.num("dr") / 1000;
        string s = l.get("p"); size_t i = 0;
        while (i < s.size()) { size_t j = s.find('.', i); if (j == string::npos) j = s.size(); p.push_back((size_t) atol(s.substr(i, j - i).c_str())); i = j + 1; }
    }
};
struct Spec {
    vector<V> v; string opt, loss; float lr, blr; int idx;
    Spec(const Plan &p, int net): idx(net) {
        for (auto l: p.all("v")) if (l->num("net") == net) v.emplace_back(*l);
        for (auto l: p.all("net")) if (l->num("net") == net) { opt = l->get("opt"); loss = l->get("loss"); lr = (float) ((double) l->num("lr") / 100000 + (double) l->num("lrd") / 1e9); blr = (float) ((double) l->num("blr") / 100000 + (double) l->num("blrd") / 1e9); }
    }
    [[nodiscard]] vector<vector<size_t>> inputs() const { vector<vector<size_t>> r; for (auto &x: v) if (x.in) r.push_back({x.ir, x.ic, x.ich}); return r; }
};
static happyml::ActivationType act_of(const string &s) { return happyml::stringToActivationType(s); }
static happyml::OptimizerType opt_of(const string &s) { return happyml::stringToOptimizerType(s); }
static happyml::LossType loss_of(const string &s) { return happyml::stringToLossType(s); }

static Net build_net(const Spec &s, const string &name, const string &repo) {
    auto dsl = happyml::neuralNetworkBuilder(opt_of(s.opt), name, repo)->setLossFunction(loss_of(s.loss))->setLearningRate(s.lr)->setBiasLearningRate(s.blr);
    vector<shared_ptr<happyml::HappymlDSL::NNVertex>> vs;
    for (auto &x: s.v) {
        shared_ptr<happyml::HappymlDSL::NNVertex> n;
        vector<size_t> ishape{x.ir, x.ic, x.ich};
        if (x.in) {
            if (x.k == "conv") n = x.out ? dsl->addInputOutputLayer(ishape, x.f, x.ks, happyml::convolution2dValid, act_of(x.act)) : dsl->addInputLayer(ishape, x.f, x.ks, happyml::convolution2dValid, act_of(x.act));
            else if (x.k == "flatten") n = dsl->addInputLayer(ishape, x.ir * x.ic * x.ich, happyml::flatten, happyml::linear);
            else n = x.out ? dsl->addInputOutputLayer(ishape, vector<size_t>{1, x.n, 1}, happyml::full, act_of(x.act)) : dsl->addInputLayer(ishape, x.n, happyml::full, act_of(x.act));
        } else if (x.k == "concat") {
            vector<shared_ptr<happyml::HappymlDSL::NNVertex>> ps; for (auto q: x.p) ps.push_back(vs[q]);
            n = dsl->add_concatenated_layer(ps);
        } else {
            auto &par = vs[x.p[0]]; auto os = par->getOutputShape();
            if (x.k == "conv") n = par->addLayer(x.f, x.ks, happyml::convolution2dValid, act_of(x.act));
            else if (x.k == "dropout") { n = par->addDropoutLayer(); n->setDropoutRate((float) x.dr); }
            else if (x.k == "norm") n = par->addNormalizationLayer();
            else if (x.k == "flatten") n = par->addLayer(os[0] * os[1] * os[2], happyml::flatten, happyml::linear);
            else n = x.out ? par->addOutput(x.n, act_of(x.act)) : par->addLayer(x.n, happyml::full, act_of(x.act));
        }
        if (x.k == "full" || x.k == "conv") { n->setUseBias(x.bias)->setUseNormalization(x.norm)->setBits((uint8_t) x.bits_)->setUseL2Regularization(x.l2)->setRegularizationStrength((float) x.reg); if (x.matset >= 0) n->setMaterialized(x.mat); }
        if (x.clip) n->setNormClippingThreshold((float) x.thr);
        vs.push_back(n);
    }
    auto net = vs[0]->build();
    net->setSilentMode(true);
    return net;
}
static shared_ptr<BaseTensor> make_tensor(const vector<size_t> &shape, Rng &r, int kind) {
    vector<vector<vector<float>>> x(shape[2], vector<vector<float>>(shape[0], vector<float>(shape[1])));
    size_t total = shape[0] * shape[1] * shape[2], hot = r.below(total), i = 0;
    for (auto &a: x) for (auto &b: a) for (auto &c: b) {
        if (kind == 0) c = (float) (r.unit() * 2 - 1); // given
        else if (kind == 1) c = i == hot ? 1.f : 0.f; // one hot
        else c = (float) r.unit();
        i++;
    }
    return make_shared<happyml::FullTensor>(x);
}
static Tensors make_given(const Spec &s, u64 seed) { Rng r(seed); Tensors t; for (auto &sh: s.inputs()) t.push_back(make_tensor(sh, r, 0)); return t; }
static string enc_tensors(const Tensors &ts) {
    string o; char b[16];
    for (auto &t: ts) {
        o += "[" + std::to_string(t->rowCount()) + "x" + std::to_string(t->columnCount()) + "x" + std::to_string(t->channelCount()) + ":";
        for (size_t ch = 0; ch < t->channelCount(); ch++) for (size_t r = 0; r < t->rowCount(); r++) for (size_t c = 0; c < t->columnCount(); c++) {
            float f = t->getValue(r, c, ch); snprintf(b, sizeof b, "%08x,", std::isnan(f) ? 0x7fc00000u : f == 0 ? 0u : raw(f)); o += b;
        }
        o += "]";
    }
    return o;
}
// predictions for a fixed set of probe inputs, bit for bit
static string predict_all(const Net &n, const Spec &s, int probes = 3) {
    string o;
    for (int i = 0; i < probes; i++) o += enc_tensors(n->predict(make_given(s, 7000 + (u64) i))) + ";";
    return o;
}
static Tensors make_expected(const Net &n, const Spec &s, u64 seed) {
    Rng r(seed); Tensors t;
    for (auto &o: n->predict(make_given(s, 1))) t.push_back(make_tensor(o->getShape(), r, s.loss == "categoricalCrossEntropy" ? 1 : 2));
    return t;
}
static shared_ptr<happyml::InMemoryTrainingDataSet> make_data(const Net &n, const Spec &s, u64 seed, size_t records) {
    auto d = make_shared<happyml::InMemoryTrainingDataSet>();
    for (size_t i = 0; i < records; i++) d->addTrainingData(make_given(s, seed * 100 + i), make_expected(n, s, seed * 77 + i));
    return d;
}
struct FixedEpochs : happyml::ExitStrategy {
    size_t n; explicit FixedEpochs(size_t n) : n(n) {}
    bool isDone(size_t e, float, int64_t) override { return e >= n; }
    string whyDone(size_t, float, int64_t) override { return "fixed"; }
};

// ------------------------------------------------------------ random networks
struct GenOpt { bool reference = false; bool single_output = false; bool stateless = false; size_t max_vertices = 8; };
static void gen_net(Plan &p, Rng &r, int net, const GenOpt &o) {
    static const vector<string> opts{"SGD", "Adam", "SGDM", "Adam with Decaying Momentum", "SGDM with Decaying Momentum"};
    static const vector<string> acts{"relu", "tanh", "sigmoid", "leaky", "sigmoidApprox", "tanhApprox", "linear"};
    static const vector<string> losses{"mse", "mse", "mae", "smae", "categoricalCrossEntropy", "binaryCrossEntropy"};
    string loss = r.pick(losses);
    Line nl("net"); nl.set("net", net).set("opt", o.stateless ? "SGD" : r.pick(opts)).set("loss", loss).set("lr", (i64) r.pick(vector<int>{100, 1000, 5000, 10000})).set("blr", (i64) r.pick(vector<int>{100, 1000, 5000}));
    p.lines.push_back(nl);
    struct Sh { size_t r, c, ch; bool leaf, output; };
    vector<Sh> sh; vector<Line> vs;
    auto settings = [&](Line &l) {
        if (r.chance(500)) l.set("bias", 1);
        if (!o.reference && r.chance(150)) l.set("norm", 1);
        if (!o.reference && r.chance(300)) l.set("bits", (i64) r.pick(vector<int>{8, 16}));
        if (r.chance(300)) l.set("l2", (i64) r.below(2));
        if (r.chance(200)) l.set("reg", (i64) r.pick(vector<int>{1, 50, 200}));
        if (r.chance(200)) l.set("mat", (i64) r.below(2));
        if (r.chance(150)) l.set("clip", 1).set("thr", (i64) r.pick(vector<int>{50, 500, 5000}));
    };
    auto add_full = [&](int parent, bool out) {
        Line l("v"); l.set("net", net).set("k", "full"); size_t n = 1 + r.below(4);
        if (out && loss == "categoricalCrossEntropy") n = 2 + r.below(3);
        if (parent < 0) {
            size_t ir = r.chance(200) ? 2 : 1, ic = 1 + r.below(4); l.set("in", 1).set("ir", (i64) ir).set("ic", (i64) ic).set("ich", (i64) (ir > 1 && r.chance(300) ? 2 : 1));
        } else { l.set("p", std::to_string(parent)); sh[(size_t) parent].leaf = false; }
        string a = r.pick(acts);
        if (out) { if (loss == "categoricalCrossEntropy") a = "softmax"; else if (loss == "binaryCrossEntropy") a = r.pick(vector<string>{"sigmoid"}); else if (a == "relu") a = "linear"; }
        l.set("n", (i64) n).set("act", a); if (out) l.set("out", 1);
        settings(l); vs.push_back(l); sh.push_back({1, n, 1, !out, out});
    };
    auto add_input = [&]() {
        if (r.chance(200)) { // convolution on an image
            size_t ks = 2, ir = 3 + r.below(2), ic = 3 + r.below(2), f = 1 + r.below(2), ich = 1 + r.below(2); if (r.chance(300)) ir++, ic++;
            Line l("v"); l.set("net", net).set("k", "conv").set("in", 1).set("ir", (i64) ir).set("ic", (i64) ic).set("ich", (i64) ich).set("f", (i64) f).set("ks", (i64) ks).set("act", r.pick(acts));
            if (r.chance(300)) l.set("bias", 1);
            if (r.chance(300)) l.set("l2", (i64) r.below(2));
            if (!o.reference && r.chance(300)) l.set("bits", (i64) r.pick(vector<int>{8, 16}));
            vs.push_back(l); sh.push_back({ir - ks + 1, ic - ks + 1, f, true, false});
            if (ir - ks + 1 >= 3 && ic - ks + 1 >= 3 && r.chance(500)) { // and another convolution on top of it
                size_t q = sh.size() - 1, f2 = 1 + r.below(2); Line m("v"); m.set("net", net).set("k", "conv").set("p", std::to_string(q)).set("f", (i64) f2).set("ks", 2).set("act", r.pick(acts)); if (r.chance(300)) m.set("bias", 1); if (r.chance(300)) m.set("l2", (i64) r.below(2));
                sh[q].leaf = false; vs.push_back(m); sh.push_back({sh[q].r - 1, sh[q].c - 1, f2, true, false});
            }
        } else if (r.chance(250)) {
            size_t ir = 1 + r.below(2), ic = 1 + r.below(4);
            Line l("v"); l.set("net", net).set("k", "flatten").set("in", 1).set("ir", (i64) ir).set("ic", (i64) ic).set("ich", (i64) (ir > 1 ? 1 + r.below(2) : 1)); vs.push_back(l); size_t w = ir * ic * (size_t) l.num("ich"); sh.push_back({1, w, 1, true, false});
        } else add_full(-1, false);
    };
    if (r.chance(40)) add_full(-1, true); // an input that is the output
    else {
        size_t ins = r.chance(550) ? 1 : 2 + r.below(2);
        for (size_t i = 0; i < ins; i++) add_input();
        size_t extra = r.below(o.max_vertices);
        auto pick_open = [&]() { vector<size_t> c; for (size_t i = 0; i < sh.size(); i++) if (!sh[i].output) c.push_back(i); return c[r.below(c.size())]; };
        for (size_t e = 0; e < extra; e++) {
            u64 k = r.below(100);
            if (k < 25) {
                vector<size_t> c; for (size_t i = 0; i < sh.size(); i++) if (!sh[i].output && sh[i].r == 1 && sh[i].ch == 1) c.push_back(i);
                if (c.size() < 2) { add_full((int) pick_open(), false); continue; }
                for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.below(i)]);
                c.resize(2 + r.below(c.size() > 2 ? 2 : 1));
                string ps; size_t w = 0; for (auto x: c) { ps += (ps.empty() ? "" : ".") + std::to_string(x); w += sh[x].c; sh[x].leaf = false; }
                Line l("v"); l.set("net", net).set("k", "concat").set("p", ps); vs.push_back(l); sh.push_back({1, w, 1, true, false});
            } else if (k < 32 && !o.reference) {
                size_t q = pick_open(); Line l("v"); l.set("net", net).set("k", "norm").set("p", std::to_string(q)); sh[q].leaf = false; vs.push_back(l); sh.push_back({sh[q].r, sh[q].c, sh[q].ch, true, false});
            } else if (k < 40 && !o.reference) {
                size_t q = pick_open(); if (sh[q].r != 1) continue;
                Line l("v"); l.set("net", net).set("k", "dropout").set("p", std::to_string(q)); if (r.chance(500)) l.set("dr", (i64) r.pick(vector<int>{100, 300, 500})); sh[q].leaf = false; vs.push_back(l); sh.push_back({1, sh[q].c, 1, true, false});
            } else if (k < 50 && !o.single_output) add_full((int) pick_open(), true);
            else add_full((int) pick_open(), false);
        }
        // every branch ends in an output
        for (size_t i = 0, n = sh.size(); i < n; i++) if (sh[i].leaf) { if (o.single_output) continue; add_full((int) i, true); }
        if (o.single_output) {
            vector<size_t> leaves; for (size_t i = 0; i < sh.size(); i++) if (sh[i].leaf) leaves.push_back(i);
            for (auto &x: leaves) if (sh[x].r != 1 || sh[x].ch != 1) { add_full((int) x, false); x = sh.size() - 1; }
            size_t last = leaves[0];
            if (leaves.size() > 1) { string ps; size_t w = 0; for (auto x: leaves) { ps += (ps.empty() ? "" : ".") + std::to_string(x); w += sh[x].c; sh[x].leaf = false; } Line l("v"); l.set("net", net).set("k", "concat").set("p", ps); vs.push_back(l); sh.push_back({1, w, 1, true, false}); last = sh.size() - 1; }
            add_full((int) last, true);
        }
    }
    for (auto &l: vs) p.lines.push_back(l);
}
