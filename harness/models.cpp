// Model properties: M01 round trip, M02 interrupted saves, M03 independence of saved versions, M04 best-state retention,
// M05 exit strategy and time, M06 purity of predictions.
#include "ml/happyml_dsl.hpp"
#include "nets.hpp"

static const string REPO = "/work/repo";
static bool is_err(const string &k) { return k.rfind("error", 0) == 0 || k == "disk-full" || k == "alloc-fail"; }
static u64 errors_fired(Run &run) { u64 n = 0; for (auto &f: run.res.fired) if (is_err(f.first)) n += f.second; return n; }
static void world() { fs::set_cwd("/work"); fs::mkdirs("/work"); fs::mkdirs(REPO); }
static bool dropped(const Spec &s) { for (auto &v: s.v) if (v.k == "dropout") return true; return false; }
static string short_(const string &s) { return s.size() < 160 ? s : s.substr(0, 160) + "..."; }
// trains with the last policy, epochs x batch; false if training gave up (a loss that is not a number)
static bool train_some(const Net &n, const Spec &s, u64 seed, size_t records, size_t epochs, int batch) {
    auto d = make_data(n, s, seed, records);
    n->setExitStrategy(make_shared<FixedEpochs>(epochs));
    try { n->train(d, batch, happyml::last); return true; } catch (const std::bad_alloc &) { throw; } catch (const std::exception &) { return false; }
}

// ================================================================= M01
static Plan gen_round(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, true);
    GenOpt o; o.max_vertices = tier ? 12 : 8; gen_net(p, r, 0, o);
    for (auto &l: p.lines) { // settings with many digits
        if (l.type == "net") for (auto k: {"lrd", "blrd"}) if (r.chance(400)) l.set(k, (i64) r.below(9999));
        if (l.type == "v") for (auto k: {"regd", "thrd"}) if (r.chance(250)) l.set(k, (i64) r.below(9999));
    }
    static const vector<string> names{"m", "iris", "A9", "_", "x_1"};
    p.add("conf").set("train", (i64) (r.chance(600) ? 1 + r.below(3) : 0)).set("records", 1 + (i64) r.below(4)).set("batch", 1 + (i64) r.below(2)).set("dseed", (i64) r.below(1000)).set("ow", r.chance(500))
        .set("label", r.chance(400)).set("twin", r.chance(700)).set("resave", r.chance(400)).set("name", r.pick(names)).set("junk", r.chance(200));
    return p;
}
static void run_round(Run &run) {
    const Line &cf = *run.plan.first("conf"); Spec s(run.plan, 0); if (s.v.empty()) return; world();
    string name = cf.get("name"); size_t records = (size_t) cf.num("records"); int batch = (int) std::min<i64>(cf.num("batch"), (i64) records);
    u64 dseed = (u64) cf.num("dseed");
    if (cf.num("junk") && cf.num("ow")) { fs::put(REPO + "/" + name + "/default/1_full.tensor", "old"); fs::put(REPO + "/" + name + "/model.config", "optimizer:SGD\n"); }
    bool twin_ok = cf.num("twin") && (cf.num("train") == 0 || (s.opt == "SGD" && !dropped(s)));
    auto twin = [&](const Net &n) { bool ok = train_some(n, s, dseed + 500, 1, 2, 1); NoSim ns; return string(ok ? "t" : "x") + predict_all(n, s, 2); };
    auto a = run.boot("make", [&] {
        Net n;
        try { n = build_net(s, name, REPO); } catch (const std::exception &x) { boot_fail("M01-refused", string("building the network failed: ") + x.what()); return; }
        if (cf.num("train")) train_some(n, s, dseed, records, (size_t) cf.num("train"), batch);
        string before = predict_all(n, s);
        try {
            if (cf.num("ow")) n->saveWithOverwrite(); else n->saveWithoutOverwrite();
            if (cf.num("label")) { n->saveKnowledge("lab el", true); }
        } catch (const std::exception &x) { boot_fail("M01-refused", string("saving failed without a fault: ") + x.what()); return; }
        if (predict_all(n, s) != before) { boot_fail("M01-saving", "saving changed what the network predicts"); return; }
        note("preds", before); note("params", std::to_string(n->get_total_parameters()) + "/" + std::to_string(n->get_total_trainable_layers()));
        if (cf.num("label")) { // the knowledge can be brought back in the same process as well
            train_some(n, s, dseed + 9, records, 1, batch);
            try { n->loadKnowledge("lab el"); } catch (const std::exception &x) { boot_fail("M01-refused", string("loading knowledge failed: ") + x.what()); return; }
            string now = predict_all(n, s);
            if (now != before) { boot_fail("M01-label", "loading the saved knowledge into the trained network predicts " + short_(now) + ", saved " + short_(before)); return; }
        }
        if (twin_ok && !cf.num("label")) note("twin", twin(n));
    });
    if (!a.ok()) return run.fail("M01-died", "saving ended abnormally: " + a.describe());
    if (run.failed()) return;
    string preds = run.note("preds"), params = run.note("params");
    auto load_check = [&](const string &tag, const string &nm, bool last) {
        auto b = run.boot(tag, [&] {
            Net n;
            try { n = happyml::loadNeuralNetworkForTraining(nm, REPO); n->setSilentMode(true); } catch (const std::exception &x) { boot_fail("M01-refused", string("loading the saved model failed: ") + x.what()); return; }
            string got;
            try { got = predict_all(n, s); } catch (const std::exception &x) { boot_fail("M01-differs", string("the loaded model cannot predict: ") + x.what()); return; }
            if (got != preds) { boot_fail("M01-differs", "loaded model predicts " + short_(got) + ", saved model predicted " + short_(preds)); return; }
            if (std::to_string(n->get_total_parameters()) + "/" + std::to_string(n->get_total_trainable_layers()) != params) { boot_fail("M01-topology", "loaded model has another number of parameters or layers"); return; }
            if (cf.num("label") && nm == name) {
                try { n->loadKnowledge("lab el"); } catch (const std::exception &x) { boot_fail("M01-refused", string("loading labelled knowledge failed: ") + x.what()); return; }
                if (predict_all(n, s) != preds) { boot_fail("M01-label", "the labelled knowledge predicts differently after a restart"); return; }
            }
            if (!last && cf.num("resave")) { try { n->saveAs(REPO + "/again", cf.num("ow")); } catch (const std::exception &x) { boot_fail("M01-refused", string("saving the loaded model failed: ") + x.what()); return; } }
            if (run.has_note("twin")) { string t = twin(n); if (t != run.note("twin")) boot_fail("M01-settings", "after the same training step the loaded model predicts " + short_(t) + ", the saved one " + short_(run.note("twin"))); }
        });
        if (!b.ok()) run.fail("M01-died", "loading ended abnormally: " + b.describe());
    };
    load_check("load", name, false);
    if (run.failed()) return;
    if (cf.num("resave")) { load_check("reload", "again", true); run.tag("resaved"); }
    if (run.failed()) return;
    u64 h = hash_str(preds); run.judged(h); run.tag(run.has_note("twin") ? "twin" : "no-twin"); run.tag("vertices", s.v.size());
    for (auto &v: s.v) run.tag("layer-" + v.k); if (cf.num("train")) run.tag("trained");
}

// ================================================================= M02, M03
// What a directory under the repository may hold, as far as acknowledged operations tell.
struct Place { int spec = -1; std::set<string> ok; bool may_fail = true; bool tracked = false; std::map<string, Place> labels; };
struct Store {
    std::map<string, Place> dirs; // by directory name
    std::set<string> maybe; // predictions of saves that were not acknowledged, any untracked place may hold them
};
static vector<string> subdirs(const string &of) {
    vector<string> r; string pre = of + "/";
    for (auto p: fs::list_all(of)) { if (p.size() > 1 && p.back() == '/') p.pop_back(); if (p.rfind(pre, 0) == 0 && p.find('/', pre.size()) == string::npos && fs::is_dir(p)) r.push_back(p.substr(pre.size())); }
    return r;
}
static string key_of(int spec, const string &preds) { return std::to_string(spec) + "|" + preds; }
// Applies one event of the history: "begin"/"ok"/"threw" of an operation.
static void on_event(Store &st, const Line &e) {
    string k = e.get("k"), ph = e.get("ph"), d = e.get("dir"), lab = e.get("label"), preds = e.get("preds"); int spec = (int) e.num("spec"); bool ow = e.num("ow");
    if (k == "save") {
        if (ph == "begin") {
            st.maybe.insert(key_of(spec, preds));
            if (ow && e.num("existed")) { auto &pl = st.dirs[d]; pl.ok.insert(key_of(spec, preds)); pl.may_fail = true; for (auto &l: pl.labels) l.second.may_fail = true; pl.tracked = true; }
        } else if (ph == "ok") {
            auto &pl = st.dirs[e.get("at")];
            std::map<string, Place> keep; if (!e.num("existed")) keep = pl.labels; // knowledge saved there before the model stays
            pl = Place(); pl.tracked = true; pl.spec = spec; pl.may_fail = false; pl.ok = {key_of(spec, preds)}; pl.labels = keep;
        }
    } else if (k == "know") {
        auto &pl = st.dirs[d];
        if (ph == "begin") { if (ow || !e.num("existed")) { auto &l = pl.labels[lab]; l.ok.insert(key_of(spec, preds)); l.may_fail = true; l.tracked = true; } st.maybe.insert(key_of(spec, preds)); }
        else if (ph == "ok") { auto &l = pl.labels[e.get("at")]; l = Place(); l.tracked = true; l.may_fail = false; l.ok = {key_of(spec, preds)}; l.spec = spec; }
    }
}
static Plan gen_store(Rng &r, u64, int tier, bool m03) {
    Plan p; gen_env(p, r, true, m03);
    size_t nets = m03 ? 2 + r.below(2) : 1 + r.below(2);
    for (size_t i = 0; i < nets; i++) { GenOpt o; o.max_vertices = 4; if (i && r.chance(500)) { // the same topology again, with other settings
            Plan q = p; for (auto &l: q.lines) if ((l.type == "v" || l.type == "net") && l.num("net") == 0) { Line c = l; for (auto &kv: c.kv) if (kv.first == "net") kv.second = std::to_string(i); p.lines.push_back(c); }
        } else gen_net(p, r, (int) i, o); }
    static const vector<string> names{"a", "a", "b", "a_1"}; static const vector<string> labels{"k1", "k2", "k1"};
    size_t boots = 1 + r.below(m03 ? 2 : 3);
    for (size_t b = 0; b < boots; b++) {
        size_t n = (m03 ? 4 : 2) + r.below(tier ? 8 : 5);
        p.add("op").set("b", (i64) b).set("k", b && r.chance(600) ? "load" : "build").set("slot", 0).set("net", (i64) r.below(nets)).set("name", r.pick(names)).set("w", (i64) r.below(100));
        for (size_t i = 0; i < n; i++) {
            static const vector<string> ks{"save", "save", "save", "know", "know", "train", "train", "build", "load", "lknow", "save"};
            p.add("op").set("b", (i64) b).set("k", r.pick(ks)).set("slot", (i64) r.below(2)).set("net", (i64) r.below(nets)).set("name", r.pick(names)).set("ow", r.chance(m03 ? 350 : 550)).set("label", r.pick(labels)).set("w", (i64) r.below(100)).set("pick", (i64) r.below(100));
        }
        p.add("op").set("b", (i64) b).set("k", "save").set("slot", 0).set("ow", r.chance(m03 ? 300 : 700)).set("name", "a").set("net", 0);
    }
    return p;
}
static void run_store(Run &run, const string &P) {
    world();
    vector<Spec> specs; for (auto l: run.plan.all("net")) specs.emplace_back(run.plan, (int) l->num("net"));
    if (specs.empty()) return; for (auto &s: specs) if (s.v.empty()) return;
    Store st; i64 boots = 0; for (auto op: run.plan.all("op")) boots = std::max(boots, op->num("b") + 1);
    size_t consumed = 0;
    for (i64 b = 0; b < boots; b++) {
        u64 errs0 = errors_fired(run);
        auto res = run.boot("boot" + std::to_string(b), [&] {
            struct Slot { Net n; int spec = -1; string name; string preds; }; Slot slots[2];
            auto ev = [&](const Line &l) { NoSim ns; note("ev", l.text()); on_event(st, l); };
            auto known = [&](const Place &pl, int spec, const string &preds) { return pl.ok.count(key_of(spec, preds)) > 0; };
            string threw;
            for (auto op: run.plan.all("op")) {
                if (op->num("b") != b) continue;
                auto &sl = slots[op->num("slot") & 1]; string k = op->get("k");
                if (k == "build") {
                    int si = (int) (op->num("net") % (i64) specs.size()); arm(false);
                    sl.n = build_net(specs[si], op->get("name"), REPO); sl.spec = si; sl.name = op->get("name");
                    train_some(sl.n, specs[si], (u64) op->num("w") * 7 + (u64) b, 1, 1 + (size_t) op->num("w") % 2, 1); sl.preds = predict_all(sl.n, specs[si], 2); arm(true);
                } else if (k == "train") {
                    if (!sl.n) continue; arm(false); train_some(sl.n, specs[sl.spec], (u64) op->num("w") * 3 + 1, 1, 1, 1); sl.preds = predict_all(sl.n, specs[sl.spec], 2); arm(true);
                } else if (k == "load") {
                    vector<string> ds; { NoSim ns; for (auto &d: st.dirs) if (d.second.tracked && !d.second.ok.empty()) ds.push_back(d.first); }
                    if (ds.empty()) continue;
                    string d = ds[(size_t) op->num("pick") % ds.size()]; auto &pl = st.dirs[d];
                    try {
                        auto n = happyml::loadNeuralNetworkForTraining(d, REPO); n->setSilentMode(true); arm(false);
                        string got; int si = -1; for (auto &o: pl.ok) { int i = atoi(o.c_str()); string g; try { g = predict_all(n, specs[i], 2); } catch (const std::exception &) { continue; } if (key_of(i, g) == o) { si = i; got = g; break; } }
                        if (si < 0) { string g; try { g = predict_all(n, specs[atoi(pl.ok.begin()->c_str())], 2); } catch (const std::exception &x) { g = x.what(); } boot_fail(P + "-wrong", "model '" + d + "' loads without an error but predicts " + short_(g) + "; saved was " + short_(*pl.ok.begin())); return; }
                        sl.n = n; sl.spec = si; sl.name = d; sl.preds = got; note("loads", "1"); arm(true);
                    } catch (const std::exception &x) { arm(false); if (!pl.may_fail && !fault_fired()) { boot_fail(P + "-lost", "model '" + d + "' no longer loads: " + x.what()); return; } arm(true); note("loaderr", "1"); }
                } else if (k == "lknow") {
                    if (!sl.n) continue; string dir = sl.n->get_name(); vector<string> ls; { NoSim ns; for (auto &l: st.dirs[dir].labels) if (l.second.tracked && !l.second.ok.empty()) { bool same = true; for (auto &o: l.second.ok) if (atoi(o.c_str()) != sl.spec) same = false; if (same) ls.push_back(l.first); } }
                    if (ls.empty()) continue; string lab = ls[(size_t) op->num("pick") % ls.size()]; auto &pl = st.dirs[dir].labels[lab];
                    try {
                        sl.n->loadKnowledge(lab); arm(false); string got = predict_all(sl.n, specs[sl.spec], 2);
                        if (!known(pl, sl.spec, got)) { boot_fail(P + "-wrong", "knowledge '" + lab + "' of '" + dir + "' loads without an error but predicts " + short_(got) + "; saved was " + short_(*pl.ok.begin())); return; }
                        sl.preds = got; arm(true); note("loads", "1");
                    } catch (const std::exception &x) { arm(false); sl.n = nullptr; if (!pl.may_fail && !fault_fired()) { boot_fail(P + "-lost", "knowledge '" + lab + "' no longer loads: " + x.what()); return; } arm(true); note("loaderr", "1"); }
                } else if (k == "save" || k == "know") {
                    if (!sl.n) continue; bool ow = op->num("ow"), save = k == "save"; string dir = sl.n->get_name(), lab = op->get("label");
                    string under = save ? REPO : REPO + "/" + dir;
                    auto before = [&] { NoSim ns; return subdirs(under); }(); string target = save ? dir : lab; bool existed = std::find(before.begin(), before.end(), target) != before.end();
                    Line e("e"); e.set("k", k).set("ph", "begin").set("dir", dir).set("label", lab).set("ow", ow).set("spec", sl.spec).set("preds", sl.preds).set("existed", existed); ev(e);
                    try {
                        if (save) { if (ow) sl.n->saveWithOverwrite(); else sl.n->saveWithoutOverwrite(); }
                        else { if (ow) sl.n->saveKnowledgeWithOverwrite(lab); else sl.n->saveKnowledgeWithoutOverwrite(lab); }
                        arm(false);
                        string at = target;
                        if (!ow && existed) {
                            NoSim ns; auto now = subdirs(under); vector<string> fresh; for (auto &x: now) if (std::find(before.begin(), before.end(), x) == before.end()) fresh.push_back(x);
                            if (fresh.size() != 1) { boot_fail(P + "-place", string(save ? "a model" : "knowledge") + " saved without overwrite as '" + target + "' made " + std::to_string(fresh.size()) + " new places"); return; }
                            at = fresh[0];
                        }
                        e.set("at", at); for (auto &kv: e.kv) if (kv.first == "ph") kv.second = "ok"; ev(e); note("saves", "1");
                        if (predict_all(sl.n, specs[sl.spec], 2) != sl.preds) { boot_fail(P + "-disturbed", "saving changed the network in memory"); return; }
                        arm(true);
                    } catch (const std::exception &x) {
                        arm(false); if (!fault_fired()) { boot_fail(P + "-refused", string("saving failed without a fault: ") + x.what()); return; }
                        for (auto &kv: e.kv) if (kv.first == "ph") kv.second = "threw"; ev(e); note("threw", "1"); arm(true);
                    }
                }
            }
        });
        if (!res.ok() && res.kind != BootResult::Crashed) return run.fail(P + "-died", "the process ended abnormally: " + res.describe());
        if (run.failed()) return;
        run.tag(res.ok() ? "boot-ok" : "boot-crashed"); (void) errs0;
        auto evs = run.notes_of("ev"); for (; consumed < evs.size(); consumed++) on_event(st, Line::parse(evs[consumed]));
    }
    // a clean process looks at every place
    auto fin = run.boot("check", [&] {
        string log;
        for (auto &dn: subdirs(REPO)) {
            auto it = st.dirs.find(dn); const Place none; const Place &pl = it == st.dirs.end() ? none : it->second; bool model = pl.tracked && !pl.ok.empty();
            Net n; string why;
            try { n = happyml::loadNeuralNetworkForTraining(dn, REPO); n->setSilentMode(true); } catch (const std::exception &x) { why = x.what(); }
            if (!n) { if (model && !pl.may_fail) { boot_fail(P + "-lost", "saved model '" + dn + "' no longer loads: " + why); return; } log += "E"; }
            else {
                bool hit = false; string g; auto &ok = model ? pl.ok : st.maybe;
                for (auto &o: ok) { int i = atoi(o.c_str()); try { g = predict_all(n, specs[i], 2); } catch (const std::exception &x) { g = x.what(); continue; } if (key_of(i, g) == o) { hit = true; break; } }
                if (!hit) { boot_fail(P + "-wrong", "model '" + dn + "' loads without an error but predicts " + short_(g) + (ok.empty() ? "; nothing was saved there" : "; saved was " + short_(*ok.begin()))); return; }
                log += "M";
            }
            for (auto &l: pl.labels) {
                if (!l.second.tracked || l.second.ok.empty()) continue;
                bool hit = false; string g, why2;
                for (auto &o: l.second.ok) {
                    int i = atoi(o.c_str()); auto m = build_net(specs[i], "fresh", "/work/none");
                    try { m->loadKnowledge(REPO + "/" + dn, l.first); g = predict_all(m, specs[i], 2); if (key_of(i, g) == o) { hit = true; break; } else if (l.second.ok.size() == 1) { why2 = ""; break; } } catch (const std::exception &x) { why2 = x.what(); }
                }
                if (hit) log += "L";
                else if (!why2.empty()) { if (!l.second.may_fail) { boot_fail(P + "-lost", "saved knowledge '" + l.first + "' of '" + dn + "' no longer loads: " + why2); return; } log += "e"; }
                else { boot_fail(P + "-wrong", "knowledge '" + l.first + "' of '" + dn + "' loads without an error but predicts " + short_(g) + "; saved was " + short_(*l.second.ok.begin())); return; }
            }
        }
        // what was acknowledged must still be there
        for (auto &d: st.dirs) if (d.second.tracked && !d.second.may_fail && !fs::is_dir(REPO + "/" + d.first)) { boot_fail(P + "-lost", "saved model '" + d.first + "' is gone"); return; }
        note("log", log);
    }, false);
    if (!fin.ok()) return run.fail(P + "-died", "loading ended abnormally: " + fin.describe());
    if (run.failed()) return;
    run.judged(hash_str(run.note("log")) ^ fs::digest(REPO)); run.tag("places", run.note("log").size()); run.tag("saves", run.notes_of("saves").size()); run.tag("loads", run.notes_of("loads").size());
    run.tag("load-errors", run.notes_of("loaderr").size()); run.tag("saves-refused", run.notes_of("threw").size());
}

// ================================================================= M04, M05: training under a recorder
struct Recorder : happyml::ExitStrategy {
    shared_ptr<happyml::ExitStrategy> inner; std::function<void(size_t, float, int64_t, bool)> seen; 
    bool isDone(size_t e, float l, int64_t t) override { bool d = inner->isDone(e, l, t); seen(e, l, t, d); return d; }
    string whyDone(size_t e, float l, int64_t t) override { return inner->whyDone(e, l, t); }
};
// A test set whose loss in epoch k is what the plan says (mean squared error, one output).
struct ScriptedTest : happyml::InMemoryTrainingDataSet {
    Net n; Spec s; vector<float> losses; size_t epoch = 0; bool frozen = false; vector<Tensors> history; size_t records; size_t pos = 0; vector<Tensors> givens; vector<Tensors> now;
    ScriptedTest(Net n_, const Spec &s_, vector<float> l, size_t rec) : n(std::move(n_)), s(s_), losses(std::move(l)), records(rec) {
        for (size_t i = 0; i < records; i++) { givens.push_back(make_given(s, 3000 + i)); addTrainingData(givens[i], n->predict(givens[i])); }
    }
    void restart() override {
        pos = 0; if (frozen) return;
        float l = losses.empty() ? 0 : losses[std::min(epoch, losses.size() - 1)]; epoch++; now.clear();
        for (size_t i = 0; i < records; i++) {
            Tensors e; for (auto &p: n->predict(givens[i])) { vector<vector<vector<float>>> x(p->channelCount(), vector<vector<float>>(p->rowCount(), vector<float>(p->columnCount())));
                for (size_t c = 0; c < p->channelCount(); c++) for (size_t a = 0; a < p->rowCount(); a++) for (size_t b = 0; b < p->columnCount(); b++) x[c][a][b] = p->getValue(a, b, c) + std::sqrt(l); e.push_back(make_shared<happyml::FullTensor>(x)); }
            now.push_back(e);
        }
        history.push_back(vector<shared_ptr<BaseTensor>>{}); all.push_back(now);
    }
    vector<vector<Tensors>> all;
    shared_ptr<happyml::TrainingPair> nextRecord() override { if (pos >= records) return nullptr; auto i = pos++; return make_shared<happyml::TrainingPair>(givens[i], now[i]); }
};
static Plan gen_best(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, true);
    bool scripted = r.chance(500); GenOpt o; o.max_vertices = 5; o.single_output = scripted; gen_net(p, r, 0, o);
    for (auto &l: p.lines) if (l.type == "net") { for (auto &kv: l.kv) { if (scripted && kv.first == "loss") kv.second = "mse"; if (kv.first == "lr" || kv.first == "blr") kv.second = std::to_string(r.chance(300) ? 5000 : 500); } }
    if (scripted) for (auto &l: p.lines) if (l.type == "v" && l.has("out")) for (auto &kv: l.kv) if (kv.first == "act") kv.second = r.pick(vector<string>{"linear", "tanh", "sigmoid", "leaky"});
    size_t rec = 1 + r.below(5);
    p.add("conf").set("scripted", scripted).set("policy", r.chance(200) ? "last" : "best").set("epochs", 1 + (i64) r.below(tier ? 10 : 6)).set("records", (i64) rec).set("batch", 1 + (i64) r.below(rec)).set("tests", r.chance(250) && !scripted ? 0 : 1 + (i64) r.below(3))
        .set("dseed", (i64) r.below(1000)).set("presave", r.chance(500)).set("again", r.chance(250)).set("silent", r.chance(800));
    if (scripted) for (i64 i = 0; i < p.first("conf")->num("epochs") * 2; i++) { static const vector<i64> ls{100, 200, 300, 400, 500, 250, 251, 0, 900}; p.add("loss").set("v", r.pick(ls)); }
    return p;
}
static void run_best(Run &run) {
    const Line &cf = *run.plan.first("conf"); Spec s(run.plan, 0); if (s.v.empty()) return; world();
    bool scripted = cf.num("scripted"), best = cf.get("policy") == "best"; size_t epochs = (size_t) cf.num("epochs"), records = (size_t) cf.num("records"); int batch = (int) cf.num("batch");
    if (cf.num("presave")) {
        auto b = run.boot("before", [&] { auto n = build_net(s, "m", REPO); train_some(n, s, 5, 1, 1, 1); n->saveWithOverwrite(); n->saveKnowledge("checkpoint", true); note("saved", predict_all(n, s)); }, false);
        if (!b.ok() || !run.has_note("saved")) return run.fail("M04-died", "saving ended abnormally: " + b.describe());
    }
    auto left = [] { vector<string> v; for (auto f: fs::list_all(REPO)) if (f != REPO + "/" && f != REPO && f != REPO + "/m" && f != REPO + "/m/") v.push_back(f); return v; };
    auto files0 = left();
    u64 errs0 = errors_fired(run);
    auto b = run.boot("train", [&] {
        arm(false); Net n = build_net(s, "m", REPO); n->setSilentMode(cf.num("silent"));
        for (int round = 0; round < (cf.num("again") ? 2 : 1); round++) {
            auto d = make_data(n, s, (u64) cf.num("dseed") + (u64) round * 31, records);
            shared_ptr<happyml::TrainingDataSet> t = make_shared<happyml::EmptyTrainingDataSet>(); shared_ptr<ScriptedTest> sc;
            vector<float> ls; for (auto l: run.plan.all("loss")) ls.push_back((float) l->num("v") / 1000);
            if (scripted) t = sc = make_shared<ScriptedTest>(n, s, ls, (size_t) std::max<i64>(1, cf.num("tests"))); else if (cf.num("tests")) t = make_data(n, s, (u64) cf.num("dseed") + 5000, (size_t) cf.num("tests"));
            auto rec = make_shared<Recorder>(); rec->inner = make_shared<FixedEpochs>(epochs);
            vector<std::pair<float, string>> hist;
            rec->seen = [&](size_t, float l, int64_t, bool) { bool a = armed(); arm(false); hist.emplace_back(l, predict_all(n, s)); arm(a); };
            n->setExitStrategy(rec);
            shared_ptr<happyml::TrainingResult> res; string err; arm(true);
            try { res = n->train(d, t, batch, best ? happyml::best : happyml::last); } catch (const std::exception &x) { err = x.what(); if (err.empty()) err = "?"; }
            arm(false); bool fault = fault_fired();
            float lowest = INFINITY; for (auto &h: hist) if (h.first < lowest) lowest = h.first;
            if (!err.empty()) {
                note("r", "threw");
                bool diverged = hist.empty() || lowest == INFINITY; for (auto &h: hist) if (std::isnan(h.first) || h.first > 1e6f) diverged = true;
                if (!fault && !(diverged && !scripted) && err != "Error calculating loss.") { boot_fail("M04-refused", "training failed without a fault: " + err); return; }
                return;
            }
            if (hist.size() != epochs) { boot_fail("M04-epochs", "training ran " + std::to_string(hist.size()) + " epochs instead of " + std::to_string(epochs)); return; }
            string now = predict_all(n, s);
            if (best) {
                bool match = false; for (auto &h: hist) if (h.first == lowest && h.second == now) match = true;
                if (!match) { string which = "no epoch at all"; for (size_t i = 0; i < hist.size(); i++) if (hist[i].second == now) which = "epoch " + std::to_string(i + 1) + " (loss " + std::to_string(hist[i].first) + ")"; string losses; for (auto &h: hist) losses += std::to_string(h.first) + " "; boot_fail("M04-not-best", "the network predicts as in " + which + "; losses were " + losses); return; }
            } else if (now != hist.back().second) { boot_fail("M04-not-last", "the network does not predict as in the last epoch"); return; }
            if (lowest < INFINITY && res->final_test_loss != lowest) { boot_fail("M04-loss", "the reported loss is " + std::to_string(res->final_test_loss) + ", the lowest seen was " + std::to_string(lowest)); return; }
            if (best && t->recordCount() > 0) {
                float again = 0; bool same = false;
                if (sc) { sc->frozen = true; for (size_t i = 0; i < hist.size() && !same; i++) if (hist[i].first == lowest && hist[i].second == now) { sc->now = sc->all[i]; again = n->test(t); same = again == lowest; } } // epochs that differ little may predict the probes alike
                else { again = n->test(t); same = again == lowest || (std::isnan(again) && std::isnan(lowest)); }
                if (!same) { boot_fail("M04-loss", "testing the returned network gives " + std::to_string(again) + " instead of the reported " + std::to_string(lowest)); return; }
            }
            note("r", "ok"); string h; for (auto &x: hist) h += std::to_string(x.first) + ","; note("hist", h);
        }
    });
    if (!b.ok() && b.kind != BootResult::Crashed) return run.fail("M04-died", "training ended abnormally: " + b.describe());
    if (run.failed()) return;
    string rs = b.ok() ? run.note("r") : "crashed"; run.tag("train-" + rs); run.tag(scripted ? "scripted" : "real");
    if (b.ok() && left() != files0) { string x; for (auto &f: left()) if (std::find(files0.begin(), files0.end(), f) == files0.end()) { x = f; break; } u64 rem = 0; for (auto &f: run.res.fired) if (f.first == "error-dir" || f.first == "error-readdir" || f.first == "error-unlink" || f.first == "error-rmdir") rem += f.second; if ((errors_fired(run) - errs0 < 2 && !rem) || rs == "ok") return run.fail("M04-leftover", "training (" + rs + ") left or removed files, such as " + x); }
    if (cf.num("presave")) {
        auto c = run.boot("after", [&] { try { auto n = happyml::loadNeuralNetworkForTraining("m", REPO); string g = predict_all(n, s); if (g != run.note("saved")) boot_fail("M04-saved-model", "training changed the saved model"); n->loadKnowledge("checkpoint"); if (predict_all(n, s) != run.note("saved")) boot_fail("M04-saved-model", "training changed saved knowledge"); } catch (const std::exception &x) { boot_fail("M04-saved-model", string("after training the saved model no longer loads: ") + x.what()); } }, false);
        if (!c.ok()) return run.fail("M04-died", "loading ended abnormally");
    }
    run.judged(hash_str(rs + run.note("hist")));
}

// ------------------------------------------------------------------ M05
struct SlowData : happyml::InMemoryTrainingDataSet {
    u64 per = 0; size_t delivered = 0; std::map<size_t, u64> stalls;
    shared_ptr<happyml::TrainingPair> nextRecord() override { auto p = happyml::InMemoryTrainingDataSet::nextRecord(); if (p) { advance_ns(per); auto it = stalls.find(delivered); if (it != stalls.end()) advance_ns(it->second); delivered++; } return p; }
};
static Plan gen_exit(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, false, true);
    for (auto &l: p.lines) if (l.type == "env") for (auto &kv: l.kv) if (kv.first == "tick" && kv.second == "20000000" && r.chance(700)) kv.second = "1000";
    bool scripted = r.chance(750); GenOpt o; o.max_vertices = 2; o.single_output = true; gen_net(p, r, 0, o);
    for (auto &l: p.lines) if (l.type == "net") for (auto &kv: l.kv) { if (kv.first == "loss") kv.second = "mse"; if (kv.first == "lr" || kv.first == "blr") kv.second = "500"; }
    for (auto &l: p.lines) if (l.type == "v" && l.has("out")) for (auto &kv: l.kv) if (kv.first == "act") kv.second = "linear";
    size_t rec = 1 + r.below(3);
    auto pick = [&](vector<i64> v) { return r.pick(v); };
    p.add("conf").set("scripted", scripted).set("records", (i64) rec).set("batch", 1 + (i64) r.below(rec)).set("per", pick({0, 1000000, 30000000, 1000000000, 60000000000})).set("test", r.chance(800) || scripted).set("policy", r.chance(700) ? "last" : "best")
        .set("patience", pick({1, 2, 3, 5, 1000})).set("maxms", pick({0, 5, 50, 500, 5000, 300000, 7776000000, 7776000000})).set("maxep", pick({2, 5, 12, 25, 25, 25})).set("zero", pick({0, 1000, 100000})).set("improve", pick({0, 10, 10000, 50000})).set("minep", pick({0, 1, 2, 4, 6, 15})).set("deg", pick({50000, 500000, 1000000000}))
        .set("repeat", r.chance(200));
    i64 v = 2000; for (int i = 0; i < 20; i++) { if (r.chance(600)) v = std::max<i64>(0, v - (i64) r.below(400)); else v += (i64) r.below(120); p.add("loss").set("v", v * 1000 + (i64) r.below(1000)); }
    if (r.chance(400)) p.add("stall").set("at", (i64) r.below(20)).set("ns", pick({2000000, 400000000, 90000000000, 7800000000000000}));
    (void) tier; return p;
}
static void run_exit(Run &run) {
    const Line &cf = *run.plan.first("conf"); Spec s(run.plan, 0); if (s.v.empty()) return; world();
    u64 tick = (u64) run.plan.num("env", "tick", 1000); bool scripted = cf.num("scripted");
    auto b = run.boot("train", [&] {
        Net n = build_net(s, "m", REPO); string log;
        for (int round = 0; round < (cf.num("repeat") ? 2 : 1); round++) {
            auto d = make_shared<SlowData>(); d->per = (u64) cf.num("per"); for (auto l: run.plan.all("stall")) d->stalls[(size_t) l->num("at")] = (u64) l->num("ns");
            size_t records = (size_t) cf.num("records"); for (size_t i = 0; i < records; i++) d->addTrainingData(make_given(s, 100 + i), make_expected(n, s, 200 + i));
            vector<float> ls; for (auto l: run.plan.all("loss")) ls.push_back((float) l->num("v") / 1e6f);
            shared_ptr<happyml::TrainingDataSet> t = make_shared<happyml::EmptyTrainingDataSet>(); if (scripted) t = make_shared<ScriptedTest>(n, s, ls, 1); else if (cf.num("test")) t = make_data(n, s, 77, 2);
            double zero = (double) cf.num("zero") / 1e6, imp = (double) cf.num("improve") / 1e6, deg = (double) cf.num("deg") / 1e6;
            size_t patience = (size_t) cf.num("patience"), maxep = (size_t) cf.num("maxep"), minep = (size_t) cf.num("minep"); i64 maxms = cf.num("maxms");
            auto rec = make_shared<Recorder>(); rec->inner = make_shared<happyml::DefaultExitStrategy>(patience, maxms, maxep, (float) zero, (float) imp, minep, (float) deg);
            size_t calls = 0, at_done = 0, low_epoch = 0; double low = INFINITY; bool ambiguous = false, over = false; u64 start = 0;
            rec->seen = [&](size_t e, float l, int64_t ms, bool done) {
                calls++; u64 t_now = now_mono_ns(); double truth = (double) (t_now - start) / 1e6; double slack = (double) tick * 64 / 1e6 + 1.0 + truth * 1e-9;
                if (over) { boot_fail("M05-late", "training went on after its exit strategy had said it was done"); return; }
                if (e != calls) { boot_fail("M05-epochs", "epoch number " + std::to_string(e) + " after " + std::to_string(calls) + " epochs"); return; }
                if (d->delivered != calls * records) { boot_fail("M05-epochs", std::to_string(d->delivered) + " records were used in " + std::to_string(calls) + " epochs of " + std::to_string(records)); return; }
                if ((double) ms > truth + slack || (double) ms < truth - slack - 1) { boot_fail("M05-elapsed", "after " + std::to_string(truth) + " ms of training the elapsed time was taken to be " + std::to_string(ms) + " ms (epoch " + std::to_string(e) + ")"); return; }
                if (std::isnan(l)) ambiguous = true;
                // reference decision
                double gain = low - (double) l; if (low != INFINITY && std::fabs(gain - imp) < 2e-6 * (1 + std::fabs(low))) ambiguous = true;
                if (low == INFINITY || gain >= imp) { low = std::min(low, (double) l); low_epoch = e; }
                double dg = ((double) l - low) / low; if (low != 0 && std::fabs(dg - deg) < 1e-5 * (1 + deg)) ambiguous = true; if (std::fabs(l - zero) < 1e-9 && zero > 0) ambiguous = true; if (std::fabs((double) ms - (double) maxms) <= slack + 1 && ms != 0 && maxms != 0) { if ((ms >= maxms) != (truth >= (double) maxms)) ambiguous = true; }
                bool want = e >= minep && (e >= maxep || (low != 0 && dg >= deg) || (low == 0 && l > 0) || ms >= maxms || e - low_epoch >= patience || l <= zero);
                if (ambiguous) { note("amb", "1"); throw std::length_error("harness: ambiguous"); }
                if (done && !want) { boot_fail("M05-early", "training was ended after epoch " + std::to_string(e) + " (loss " + std::to_string(l) + ", elapsed " + std::to_string(ms) + " ms) although no limit was reached"); return; }
                if (!done && want) { boot_fail("M05-late", "training was not ended after epoch " + std::to_string(e) + " (loss " + std::to_string(l) + ", lowest " + std::to_string(low) + " in epoch " + std::to_string(low_epoch) + ", elapsed " + std::to_string(ms) + " ms)"); throw std::length_error("harness: over"); }
                note("h", std::to_string(raw(l)) + "," + std::to_string(ms)); if (done) { over = true; at_done = d->delivered; log += std::to_string(e) + (e >= maxep ? "E" : ms >= maxms ? "T" : l <= zero ? "Z" : e - low_epoch >= patience ? "P" : "D"); }
                if (calls > 60) { throw std::length_error("harness: too many epochs"); }
            };
            n->setExitStrategy(rec); start = now_mono_ns();
            try { n->train(d, t, (int) cf.num("batch"), cf.get("policy") == "best" ? happyml::best : happyml::last); }
            catch (const std::length_error &) { return; }
            catch (const std::exception &x) { if (string(x.what()) == "Error calculating loss.") { note("amb", "1"); return; } boot_fail("M05-refused", string("training failed: ") + x.what()); return; }
            if (!over) { boot_fail("M05-early", "training ended without its exit strategy saying so"); return; }
            if (d->delivered != at_done) { boot_fail("M05-late", "records were used after training was done"); return; }
        }
        note("log", log);
    });
    if (!b.ok()) return run.fail("M05-died", "training ended abnormally: " + b.describe());
    if (run.has_note("amb")) { run.tag("ambiguous"); return; }
    if (run.failed()) return;
    string l = run.note("log"); u64 jh = hash_str(l); for (auto &x: run.notes_of("h")) jh = hash_str(x, jh); run.judged(jh); for (char c: l) if (isalpha(c)) run.tag(string("stopped-by-") + (c == 'E' ? "epochs" : c == 'T' ? "time" : c == 'Z' ? "zero" : c == 'P' ? "patience" : "degradation"));
}

// ================================================================= M06
static Plan gen_pure(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, true);
    GenOpt o; o.max_vertices = 6; o.stateless = r.chance(700); gen_net(p, r, 0, o);
    for (auto &l: p.lines) if (l.type == "net") for (auto &kv: l.kv) if (kv.first == "lr" || kv.first == "blr") kv.second = "500";
    Line eb("envboot"); eb.set("boot", "use").set("fill", (i64) r.below(5)).set("rnd", (i64) r.below(100000)); if (r.chance(500)) eb.set("clk", (i64) r.below(6)); p.lines.push_back(eb);
    size_t n = 3 + r.below(tier ? 12 : 7);
    for (size_t i = 0; i < n; i++) { static const vector<string> ks{"pred", "pred", "pred", "test", "acc", "bad", "bad", "badtrain", "badtrain", "train", "restore", "step", "mstep", "params", "alter"};
        p.add("op").set("k", r.pick(ks)).set("n", (i64) r.below(3)).set("m", (i64) r.below(4)).set("at", (i64) r.below(4)); }
    p.add("op").set("k", "pred").set("n", 0); p.add("op").set("k", "restore"); p.add("op").set("k", "step"); p.add("op").set("k", "pred").set("n", 1);
    return p;
}
static Tensors bad_given(const Spec &s, int kind, u64 seed) {
    auto g = make_given(s, seed);
    if (kind == 0) g.pop_back();
    else if (kind == 1) g.push_back(make_shared<happyml::FullTensor>(vector<float>{1, 2}));
    else { auto &last = g.back(); auto sh = last->getShape(); sh[1] += 1; Rng r(seed); last = make_tensor(sh, r, 0); }
    return g;
}
static void run_pure(Run &run) {
    Spec s(run.plan, 0); if (s.v.empty()) return; world();
    bool drop = dropped(s), sgd = s.opt == "SGD";
    auto step = [&](const Net &n) { bool ok = train_some(n, s, 900, 1, 1, 1); return string(ok ? "t" : "x") + predict_all(n, s); };
    // three epochs over one record, with or without measuring the network on other records after each
    auto measured = [&](const Net &n, const shared_ptr<happyml::InMemoryTrainingDataSet> &test) {
        auto d = make_data(n, s, 901, 1); n->setExitStrategy(make_shared<FixedEpochs>(3));
        string r = "t"; try { if (test) n->train(d, test, 1, happyml::last); else n->train(d, 1, happyml::last); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &x) { r = "x"; }
        return r + predict_all(n, s);
    };
    auto probe = [&](const Net &n, int i) { return enc_tensors(n->predict(make_given(s, 7000 + (u64) i))); };
    auto a = run.boot("ref", [&] {
        auto n = build_net(s, "m", REPO); train_some(n, s, 5, 2, 1, 1); n->saveWithOverwrite();
        for (int i = 0; i < 3; i++) note("p" + std::to_string(i), probe(n, i));
        auto d = make_data(n, s, 41, 3);
        // accuracy as the predictions tell it, of all records and of the first few
        vector<shared_ptr<happyml::RawDecoder>> names; { vector<string> l; for (auto &o: make_expected(n, s, 1)) { l.clear(); for (size_t q = 0; q < o->size(); q++) l.push_back("label" + std::to_string(q)); names.push_back(make_shared<happyml::BestTextCategoryDecoder>(l)); } }
        for (int limit: {-1, 0, 1, 2, 3, 9}) {
            float good = 0, best = 0, all = 0; bool tie = false; d->restart();
            auto top = [&](const shared_ptr<BaseTensor> &t) { size_t m = 0; for (size_t q = 1; q < t->size(); q++) { if (t->getValue(q) > t->getValue(m)) m = q; } for (size_t q = 0; q < t->size(); q++) if (q != m && !(t->getValue(q) < t->getValue(m))) tie = true; return m; };
            for (auto rec = d->nextRecord(); rec && (limit < 0 || all < (float) limit); rec = d->nextRecord()) {
                auto g = n->predict(rec->getGiven()); auto e = rec->getExpected(); bool ok = true, same = true;
                for (size_t o = 0; o < g.size(); o++) { for (size_t q = 0; q < g[o]->size(); q++) if (std::fabs(std::round(g[o]->getValue(q)) - std::round(e[o]->getValue(q))) > 0.01f) ok = false; if (top(g[o]) != top(e[o])) same = false; }
                good += ok; best += same; all++;
            }
            if (all == 0) continue;
            float said = n->compute_binary_accuracy(d, limit); if (!(std::fabs(said - good / all) < 1e-6f)) { boot_fail("M06-accuracy", "the accuracy is given as " + std::to_string(said) + ", " + std::to_string(good) + " of " + std::to_string(all) + " records are right (limit " + std::to_string(limit) + ")"); return; }
            if (!tie) { said = n->compute_categorical_accuracy(d, names, limit); if (!(std::fabs(said - best / all) < 1e-6f)) { boot_fail("M06-accuracy", "the accuracy by category is given as " + std::to_string(said) + ", " + std::to_string(best) + " of " + std::to_string(all) + " records are right (limit " + std::to_string(limit) + ")"); return; } }
        }
        note("test", std::to_string(raw(n->test(d)))); note("acc", std::to_string(raw(n->compute_binary_accuracy(d)))); note("params", std::to_string(n->get_total_parameters()));
        n = happyml::loadNeuralNetworkForTraining("m", REPO); n->setSilentMode(true); note("step", step(n));
        n = happyml::loadNeuralNetworkForTraining("m", REPO); n->setSilentMode(true); note("mstep", measured(n, nullptr));
    }, false);
    if (!a.ok()) return run.fail("M06-died", "the reference process ended abnormally: " + a.describe());
    auto b = run.boot("use", [&] { try {
        string log; Net n; shared_ptr<happyml::InMemoryTrainingDataSet> test_data; { bool on = armed(); arm(false); n = happyml::loadNeuralNetworkForTraining("m", REPO); n->setSilentMode(true); test_data = make_data(n, s, 41, 3); arm(on); }
        bool learned = false, dirty = false; // learned: weights are no longer the saved ones; dirty: the optimizer or dropout has moved on
        string cur[3]; { NoSim ns; for (int i = 0; i < 3; i++) cur[i] = run.note("p" + std::to_string(i)); }
        auto rebase = [&] { bool on = armed(); arm(false); for (int i = 0; i < 3; i++) { cur[i] = probe(n, i); string again = probe(n, i); if (again != cur[i]) boot_fail("M06-unstable", "two predictions for the same input differ: " + short_(cur[i]) + " then " + short_(again)); } arm(on); };
        auto check = [&](const string &after) { bool on = armed(); arm(false); for (int i = 0; i < 3; i++) { string g; try { g = probe(n, i); } catch (const std::exception &x) { g = string("error: ") + x.what(); } if (g != cur[i]) { boot_fail("M06-changed", "after " + after + " the network predicts " + short_(g) + ", before " + short_(cur[i])); break; } } arm(on); };
        for (auto op: run.plan.all("op")) {
            bool moves = false;
            try {
                string k = op->get("k"); moves = k == "badtrain" || k == "train" || k == "restore" || k == "step" || k == "mstep"; int i = (int) op->num("n") % 3; bool f0 = fault_fired();
                if (k == "pred") {
                    string g; shared_ptr<BaseTensor> dummy; try { auto in = make_given(s, 7000 + (u64) i); auto out = n->predict(in); NoSim ns; g = enc_tensors(out); } catch (const std::bad_alloc &) { log += "A"; check("a prediction that ran out of memory"); continue; }
                    if (g != cur[i]) { boot_fail("M06-changed", "(" + log + ") predicting again gives " + short_(g) + " instead of " + short_(cur[i])); return; } log += "p";
                } else if (k == "alter") { // what the caller does with results or inputs afterwards is its own business
                    auto in = make_given(s, 7000 + (u64) i); auto out = n->predict(in, false); in.clear(); out.clear(); check("results were dropped"); log += "d";
                } else if (k == "test") { float l; try { l = n->test(test_data); } catch (const std::bad_alloc &) { log += "A"; check("a test that ran out of memory"); continue; } if (!learned && std::to_string(raw(l)) != run.note("test")) { boot_fail("M06-changed", "testing again gives another loss"); return; } check("testing"); log += "t"; }
                else if (k == "acc") { float l; try { l = n->compute_binary_accuracy(test_data); } catch (const std::bad_alloc &) { log += "A"; check("measuring accuracy ran out of memory"); continue; } if (!learned && std::to_string(raw(l)) != run.note("acc")) { boot_fail("M06-changed", "measuring accuracy again gives another result"); return; } check("measuring accuracy"); log += "a"; }
                else if (k == "params") { size_t c = n->get_total_parameters(); if (std::to_string(c) != run.note("params")) { boot_fail("M06-changed", "the number of parameters changed"); return; } log += "n"; }
                else if (k == "bad") { string what; try { auto in = bad_given(s, i, 60); auto out = n->predict(in); for (auto &o: out) for (size_t c = 0; c < o->columnCount() && c < 2; c++) (void) o->getValue(0, c, 0); what = "a prediction with wrong inputs"; log += "w"; } catch (const std::bad_alloc &) { what = "a prediction that ran out of memory"; log += "A"; } catch (const std::exception &) { what = "a prediction that failed on wrong inputs"; log += "b"; } check(what); }
                else if (k == "badtrain" || k == "train") {
                    // a training run that fails in the middle, or not at all
                    shared_ptr<happyml::InMemoryTrainingDataSet> d; size_t recs = 4, at = (size_t) op->num("at") % recs; int batch = 1 + (int) op->num("m") % 3; bool threw = false;
                    { bool on = armed(); arm(false); d = make_shared<happyml::InMemoryTrainingDataSet>(); for (size_t q = 0; q < recs; q++) { bool bad = k == "badtrain" && q == at; auto g = bad && i < 2 ? bad_given(s, i == 0 ? 0 : 2, 70) : make_given(s, 300 + q); auto e = make_expected(n, s, 400 + q); if (bad && i == 2) e.pop_back(), e.push_back(nullptr); d->addTrainingData(g, e); } arm(on); }
                    n->setExitStrategy(make_shared<FixedEpochs>(2));
                    if (k == "badtrain" && i == 2) { log += "-"; continue; }
                    try { n->train(d, batch, happyml::last); log += "T"; } catch (const std::exception &) { threw = true; log += "X"; }
                    learned = dirty = true; (void) threw; rebase(); check("a training run");
                } else if (k == "restore") {
                    for (int tries = 0; ; tries++) { try { n->loadKnowledge("default"); break; } catch (const std::exception &x) { if (tries == 3 || !fault_fired()) { boot_fail("M06-refused", string("loading knowledge failed: ") + x.what()); return; } } }
                    learned = false; { NoSim ns; for (int q = 0; q < 3; q++) cur[q] = run.note("p" + std::to_string(q)); } check("loading the saved knowledge"); log += "r";
                } else if (k == "step" || k == "mstep") {
                    if (learned || drop || (!sgd && dirty)) continue;
                    string got; try { got = k == "step" ? step(n) : measured(n, test_data); } catch (const std::bad_alloc &) { got = ""; }
                    learned = dirty = true;
                    if (got.empty()) { rebase(); log += "S"; continue; }
                    if (fault_fired() != f0) { rebase(); continue; }
                    if (got != run.note(k)) { boot_fail("M06-residue", "after '" + log + "' and loading the saved knowledge, a training step" + (k == "mstep" ? " with measurements in between" : "") + " leads to " + short_(got) + " instead of " + short_(run.note(k))); return; }
                    rebase(); log += "s";
                }
            } catch (const std::bad_alloc &) { log += "!"; if (moves) { learned = dirty = true; rebase(); } }
        }
        arm(false); note("log", log);
    } catch (const std::bad_alloc &) { arm(false); note("log", "!"); } });
    if (!b.ok()) return run.fail("M06-died", "using the network ended abnormally: " + b.describe());
    if (run.failed()) return;
    string l = run.note("log"); run.judged(hash_str(l) ^ hash_str(run.note("p0"))); for (char c: l) run.tag(string("op-") + c);
}

// ================================================================= M08
static Plan gen_apart(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, false); for (auto &l: p.lines) if (l.type == "env") l.set("samernd", 1);
    GenOpt o; o.max_vertices = tier ? 7 : 4; gen_net(p, r, 0, o);
    if (r.chance(400)) { auto ls = p.lines; for (auto l: ls) if ((l.type == "v" || l.type == "net") && l.num("net") == 0) { l.set("net", 1); p.lines.push_back(l); } } else gen_net(p, r, 1, o);
    for (auto &l: p.lines) if (l.type == "net") for (auto &kv: l.kv) if (kv.first == "lr" || kv.first == "blr") kv.second = "500";
    p.add("conf").set("folder", r.chance(300));
    static const vector<string> ks{"train", "train", "train", "best", "pred", "pred", "test", "bad", "badtrain", "know", "forget", "save", "reload"};
    size_t n = 4 + r.below(tier ? 16 : 9);
    for (size_t i = 0; i < n; i++) p.add("op").set("who", (i64) r.below(2)).set("k", r.pick(ks)).set("n", 1 + (i64) r.below(3)).set("b", 1 + (i64) r.below(3)).set("d", (i64) r.below(50));
    return p;
}
static void run_apart(Run &run) {
    const Plan &p = run.plan; Spec s[2] = {Spec(p, 0), Spec(p, 1)}; if (s[0].v.empty() || s[1].v.empty() || !p.first("conf")) return; world();
    bool apart = p.num("conf", "folder"); auto start = fs::snapshot(); string solo[2]; std::map<string, string> files[2];
    auto play = [&](int only) {
        arm(false); Net n[2]; string said[2], name[2] = {"left", "right"}, repo[2] = {REPO, apart ? "/work/repo2" : REPO}; u64 step[2] = {0, 0};
        auto begin = [&](int w) { reseed((u64) w * 1000); n[w] = build_net(s[w], name[w], repo[w]); said[w] += predict_all(n[w], s[w], 1); };
        for (int w = 0; w < 2; w++) if (only != 1 - w) begin(w);
        for (auto l: p.all("op")) {
            int w = (int) l->num("who"); if (only == 1 - w) continue;
            arm(false); reseed((u64) w * 1000 + ++step[w]); string k = l->get("k"); u64 d = (u64) l->num("d"); auto &x = n[w]; auto &out = said[w]; out += "\n" + k + " "; u64 f0 = faults_fired(); arm(only == 2);
            try {
                if (k == "train") out += train_some(x, s[w], d, (size_t) l->num("n"), 2, (int) l->num("b")) ? "t" : "f";
                else if (k == "best") { auto data = make_data(x, s[w], d, (size_t) l->num("n")); x->setExitStrategy(make_shared<FixedEpochs>(3)); auto res = x->train(data, make_data(x, s[w], d + 1, 2), (int) l->num("b"), happyml::best); out += std::to_string(raw(res->final_test_loss)); }
                else if (k == "pred") out += predict_all(x, s[w], (int) l->num("n"));
                else if (k == "test") out += std::to_string(raw(x->test(make_data(x, s[w], d, 2))));
                else if (k == "bad") x->predict(Tensors{});
                else if (k == "badtrain") { auto data = make_data(x, s[w], d, 2); data->addTrainingData(Tensors{happyml::columnVector({1.f, 2.f, 3.f, 4.f, 5.f, 6.f, 7.f})}, make_expected(x, s[w], 3)); x->setExitStrategy(make_shared<FixedEpochs>(1)); x->train(data, 2, happyml::last); }
                else if (k == "know") x->saveKnowledge("k", true);
                else if (k == "forget") { x->loadKnowledge("k"); out += predict_all(x, s[w], 1); }
                else if (k == "save") x->saveWithOverwrite();
                else if (k == "reload") { x = happyml::loadNeuralNetworkForTraining(name[w], repo[w]); out += predict_all(x, s[w], 1); }
            } catch (const std::exception &e) { arm(false); out += string("threw ") + e.what(); }
            arm(false); if (faults_fired() != f0) note("hit" + std::to_string(w), "1"); // from here on this network may behave otherwise
        }
        for (int w = 0; w < 2; w++) if (n[w] && !run.has_note("hit" + std::to_string(w))) { said[w] += "\nend " + predict_all(n[w], s[w]); note("said" + std::to_string(w) + (only == 2 ? "both" : ""), said[w]); }
    };
    for (int only = 0; only < 2; only++) {
        fs::restore(start); auto b = run.boot("solo" + std::to_string(only), [&] { play(only); }, false);
        if (!b.ok()) { run.tag("died"); return; }
        solo[only] = run.note("said" + std::to_string(only)); for (auto &f: fs::list_files("/work")) files[only][f] = fs::get(f);
    }
    fs::restore(start); auto b = run.boot("both", [&] { play(2); });
    if (!b.ok()) return run.fail("M08-died", "using two networks in turn ended abnormally: " + b.describe());
    for (int w = 0; w < 2; w++) {
        if (run.has_note("hit" + std::to_string(w))) { run.tag("hit"); continue; }
        string both = run.note("said" + std::to_string(w) + "both"); if (both == solo[w]) continue;
        size_t i = 0; while (i < both.size() && i < solo[w].size() && both[i] == solo[w][i]) i++; size_t line = both.rfind('\n', i); line = line == string::npos ? 0 : line + 1;
        return run.fail("M08-results", "network " + std::to_string(w) + " behaves otherwise when another one is used in between, at: " + short_(both.substr(line)) + " instead of " + short_(solo[w].substr(line)));
    }
    std::map<string, string> want = files[0]; want.insert(files[1].begin(), files[1].end());
    auto of_hit = [&](const string &f) { return (run.has_note("hit0") && f.find("/left") != string::npos) || (run.has_note("hit1") && f.find("/right") != string::npos); };
    for (auto it = want.begin(); it != want.end();) it = of_hit(it->first) ? want.erase(it) : std::next(it); auto now = fs::list_files("/work");
    for (auto &f: now) { if (of_hit(f)) continue; auto it = want.find(f); if (it == want.end()) return run.fail("M08-files", f + " is left by two networks, but by neither alone"); if (it->second != fs::get(f)) return run.fail("M08-files", f + " has other contents when another network is used in between"); want.erase(it); }
    if (!want.empty()) return run.fail("M08-files", want.begin()->first + " is missing when another network is used in between");
    run.tag(apart ? "two-repositories" : "one-repository"); run.judged(hash_str(solo[0] + solo[1], fs::digest()));
}

int main(int argc, char **argv) {
    auto der = [](vector<string> boots, bool crash, bool err, bool full, bool alloc) { return [=](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = boots; o.crash = crash; o.err = err; o.full = full; o.alloc = alloc; return derive_faults(p, bc, r, tier, o); }; };
    auto none = [](const Plan &, const RunResult &, const std::map<string, Counters> &, Rng &, int) { return vector<Plan>{}; };
    add_property({"M01", gen_round, run_round, none, {"op"}, "random networks (inputs, branches, concatenations, several outputs, convolutions, bit widths, normalisation, dropout), trained or not, saved by one process and loaded by another, also resaved and loaded again, with split and interrupted I/O."});
    add_property({"M02", [](Rng &r, u64 i, int t) { return gen_store(r, i, t, false); }, [](Run &r) { run_store(r, "M02"); }, der({"boot0", "boot0", "boot1", "boot2"}, true, true, true, false), {"op", "fault"}, "random histories of building, training, saving, labelling and loading over several processes, crashed at any write or with failing, short or full-disk I/O; a clean process finally loads everything."});
    add_property({"M03", [](Rng &r, u64 i, int t) { return gen_store(r, i, t, true); }, [](Run &r) { run_store(r, "M03"); }, der({"boot0", "boot1"}, false, true, true, false), {"op", "fault"}, "random histories of saves with and without overwrite, labels, trainings and loads over several names, on clocks that run, freeze, step back or jump."});
    add_property({"M04", gen_best, run_best, der({"train"}, true, true, true, false), {"op", "fault", "loss"}, "random networks and data, or scripted sequences of test losses, trained with a recorder that remembers every epoch; checkpoint I/O fails, is cut short or the process crashes."});
    add_property({"M05", gen_exit, run_exit, none, {"op", "loss", "stall"}, "random limits, scripted losses, simulated record cost and stalls, on wall clocks that freeze, step or jump; every decision is compared with a reference."});
    add_property({"M06", gen_pure, run_pure, der({"use"}, false, true, false, true), {"op", "fault"}, "random sequences of predictions, tests, failed predictions and failed training steps with failing allocations, different memory fill and clocks; compared with a fresh process."});
    add_property({"M08", gen_apart, run_apart, der({"both"}, false, true, true, true), {"op", "fault"}, "two random networks, equal or different, built, trained, used, saved and reloaded in random turns, with failing calls, I/O and allocations of one of them; each compared with itself used alone, with the same random draws."});
    return main_entry(argc, argv);
}
