// R01: the same work in two environments that differ in everything but inputs and random draws.
#include "langkit.hpp"
#include "nets.hpp"
#include "tokgen.hpp"

static Plan gen_repro(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, r.chance(600)); for (auto &l: p.lines) if (l.type == "env") l.set("samernd", 1).set("clkreset", 1);
    static const vector<string> modes{"create", "net", "net", "tokens", "create", "net", "tokens", "lists"};
    string mode = r.chance(5) ? "task" : modes[r.below(modes.size())];
    auto &cf = p.add("conf").set("mode", mode).set("leak", (i64) r.below(200000)).set("script", r.chance(300));
    // the other environment: at least one thing differs, often everything
    Line eb("envboot"); eb.set("boot", "b"); u64 all = r.chance(500);
    static const vector<i64> sh{0, 30, 200, 700}, ei{0, 20, 200}, ticks{50, 1000, 200000, 20000000};
    if (all || r.chance(500)) eb.set("short", r.pick(sh)).set("eintr", r.pick(ei)).set("seed", (i64) (r.next() >> 20));
    if (all || r.chance(500)) eb.set("dir", (i64) (r.next() >> 20));
    if (all || r.chance(500)) eb.set("fill", (i64) r.below(5));
    if (all || r.chance(500)) eb.set("cs", (i64) (r.next() >> 20)).set("tick", r.pick(ticks)).set("t0", r.range(1000000000, 1900000000));
    if (all || r.chance(300)) eb.set("clk", (i64) r.below(6));
    p.lines.push_back(eb);
    if (mode == "create") {
        static const vector<string> names{"iris", "d", "x1", "data"}, paths{"/work/src/data", "../src/data", "here", "../src/iris"};
        gen_table(p, r, 0, r.pick(names), r.pick(paths), tier);
    } else if (mode == "task") gen_task_tables(p, r, true, true);
    else if (mode == "net") {
        GenOpt o; o.max_vertices = tier ? 8 : 5; gen_net(p, r, 0, o);
        p.add("op").set("records", 1 + (i64) r.below(8)).set("batch", 1 + (i64) r.below(4)).set("epochs", 1 + (i64) r.below(4)).set("test", r.chance(400)).set("best", r.chance(400)).set("dseed", (i64) r.below(1000)).set("again", r.chance(400));
    } else if (mode == "tokens") {
        string alpha = gen_alpha(r); gen_history(p, r, alpha, "", 1 + r.below(3), true, 256); gen_probes(p, r, alpha);
    } else {
        size_t n = 1 + r.below(40); for (size_t i = 0; i < n; i++) p.add("item").set("v", r.chance(300) ? "dup" : "i" + std::to_string(r.below(1000)));
        p.add("op").set("ratio", (i64) r.below(1001)).set("size", 1 + (i64) r.below(60));
    }
    (void) cf; return p;
}
// What the work leaves and says. Elapsed times, logs and names made of the time are not results.
struct Outcome { std::map<string, string> files; string said; };
static void work(const Plan &p, const string &mode, const string &R) {
    if (mode == "create") { Table t(p, 0); string s = do_create(t, p.num("conf", "script")); NoSim ns; note(R, s); }
    else if (mode == "task") {
        for (int t = 0; t < 3; t++) if (has_table(p, t)) { Table x(p, t); arm(true); string s = do_create(x, false); NoSim ns; note(R, s); }
        { arm(true); string s = create_task(p); NoSim ns; note(R, s); }
        string name = p.first("task")->get("name"), out; Table x(p, has_table(p, 2) ? 2 : 0);
        auto results = [](const string &o) { size_t at = o.find("Results:"); return at == string::npos ? string("none") : o.substr(at); };
        { arm(true); string s = exec_dataset(name, x.name, &out); NoSim ns; note(R, s + results(out)); }
        for (size_t i = 0; i < x.given.size() && i < 3; i++) { arm(true); string s = exec_inputs(name, inputs_of(x, i), &out); NoSim ns; note(R, s + results(out)); }
    } else if (mode == "net") {
        Spec s(p, 0); string said; auto op = p.first("op");
        try {
            auto n = build_net(s, "m", "/work/repo"); auto d = make_data(n, s, (u64) op->num("dseed"), (size_t) op->num("records"));
            n->setExitStrategy(make_shared<FixedEpochs>((size_t) op->num("epochs"))); 
            auto policy = op->num("best") ? happyml::best : happyml::last;
            for (i64 k = 0; k <= op->num("again"); k++) {
                shared_ptr<happyml::TrainingResult> res;
                if (op->num("test")) res = n->train(d, make_data(n, s, (u64) op->num("dseed") + 5, 3), (int) op->num("batch"), policy);
                else res = n->train(d, (int) op->num("batch"), policy);
                char b[200]; snprintf(b, 200, "epochs %zu losses %a %a ", (size_t) res->epochs, (double) res->best_train_loss, (double) res->final_test_loss); said += b;
                n->saveKnowledge("k" + std::to_string(k), true);
            }
            n->saveWithOverwrite(); said += predict_all(n, s);
        } catch (const std::exception &x) { said += string("threw ") + x.what(); }
        note(R, said);
    } else if (mode == "tokens") {
        string said; Model m("tok", false);
        for (auto &st: steps_of(p, "", false)) said += learn(m, st) ? "t" : "f";
        m.save("/work/repo", "k", true);
        for (auto l: p.all("probe")) { auto c = m.encode(l->get("v")); said += std::to_string(c.size()) + ":" + string((const char *) c.data(), c.size() * 2); }
        note(R, said);
    } else {
        vector<string> items, a, b; for (auto l: p.all("item")) items.push_back(l->get("v")); auto op = p.first("op"); float ratio = (float) op->num("ratio") / 1000;
        string said; auto tell = [&](const vector<string> &v) { for (auto &x: v) said += x + ","; said += ";"; };
        tell(happyml::sampleData(items, ratio)); happyml::splitData(items, a, b, ratio); tell(a); tell(b);
        happyml::Shuffler sh((size_t) op->num("size")); for (int k = 0; k < 3; k++) { sh.shuffle(); for (size_t i = 0; i < (size_t) op->num("size"); i++) said += std::to_string(sh.getShuffledIndex(i)) + " "; }
        note(R, said);
    }
}
static void run_repro(Run &run) {
    const Plan &p = run.plan; if (!p.first("conf")) return; world(); fs::mkdirs("/work/repo");
    string mode = p.get("conf", "mode");
    if (mode == "create") { Table t(p); if (t.g.empty() || !t.width) return; fs::put(t.path, t.source); }
    else if (mode == "task") { if (!has_table(p, 0) || !p.first("task")) return; for (int t = 0; t < 3; t++) if (has_table(p, t)) { Table x(p, t); if (x.g.empty() || x.e.empty()) return; fs::put(x.path, x.source); } }
    else if (mode == "net") { Spec s(p, 0); if (s.v.empty() || !p.first("op")) return; }
    else if (mode == "tokens") steps_of(p, "", true);
    else if (!p.first("op")) return;
    auto start = fs::snapshot(); Outcome got[2]; BootResult how[2];
    for (int k = 0; k < 2; k++) {
        fs::restore(start);
        how[k] = run.boot(k ? "b" : "a", [&] {
            limit_io(4000000); void *leak = nullptr;
            if (k) { NoSim ns; leak = malloc((size_t) p.num("conf", "leak") + 1); } // other addresses
            work(p, mode, k ? "b" : "a"); (void) leak;
        }, true);
        for (auto &s: run.notes_of(k ? "b" : "a")) got[k].said += s + "\n";
        for (auto &f: fs::list_files("/work")) if (f.find("/logs/") == string::npos) got[k].files[f] = fs::get(f);
    }
    if (!how[0].ok() && !how[1].ok()) { run.tag(mode + "-died"); return; }
    if (how[0].ok() != how[1].ok()) return run.fail("R01-ended", mode + ": ended normally in one environment only: " + how[0].describe() + " / " + how[1].describe());
    if (got[0].said != got[1].said) {
        size_t i = 0; while (i < got[0].said.size() && i < got[1].said.size() && got[0].said[i] == got[1].said[i]) i++; size_t b = i > 60 ? i - 60 : 0;
        return run.fail("R01-results", mode + ": the results differ between two environments: '" + short_(got[0].said.substr(b)) + "' and '" + short_(got[1].said.substr(b)) + "'");
    }
    for (int k = 0; k < 2; k++) for (auto &f: got[k].files) {
        auto o = got[1 - k].files.find(f.first);
        if (o == got[1 - k].files.end()) return run.fail("R01-files", mode + ": " + f.first + " exists in one environment only");
        if (o->second != f.second) { size_t i = 0; while (i < f.second.size() && i < o->second.size() && f.second[i] == o->second[i]) i++; return run.fail("R01-files", mode + ": the bytes of " + f.first + " differ between two environments (sizes " + std::to_string(f.second.size()) + ", " + std::to_string(o->second.size()) + ", first difference at " + std::to_string(i) + ")"); }
    }
    run.tag(mode); if (got[0].said.find("threw") != string::npos) run.tag(mode + "-threw");
    run.judged(hash_str(got[0].said, fs::digest("/work")));
}

int main(int argc, char **argv) {
    add_property({"R01", gen_repro, run_repro, nullptr, {"rec", "col", "item", "text", "step", "probe"}, "creating datasets and tasks, training and saving networks, tokenizing, splitting and shuffling; the same work with the same random draws in two environments with different memory contents, addresses, clocks, directory orders and I/O splits, results and files compared."});
    return main_entry(argc, argv);
}
