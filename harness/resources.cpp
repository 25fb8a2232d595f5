// R02: what operations hold afterwards. The same work again and again in one process, succeeding or failing the same way.
#include "langkit.hpp"
#include "nets.hpp"
#include "tokgen.hpp"

static const string MODELS = "/work/repo";
static Plan gen_res(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r, true, r.chance(300));
    static const vector<string> modes{"net", "net", "net", "data", "data", "lang", "lang", "tokens"};
    string mode = r.chance(20) ? "task" : r.pick(modes);
    p.add("conf").set("mode", mode).set("rep", (i64) (mode == "task" ? 5 : 8)).set("rseed", (i64) r.below(1000)).set("keep", r.chance(400));
    size_t n = 1 + r.below(mode == "net" ? 5 : 4);
    if (mode == "net") {
        GenOpt o; o.max_vertices = tier ? 8 : 5; gen_net(p, r, 0, o);
        static const vector<string> ks{"build", "train", "train", "train", "predict", "predict", "test", "acc", "wrong", "wrong", "save", "know", "reload", "load", "load", "noload", "badtrain"};
        for (size_t i = 0; i < n; i++) p.add("op").set("k", r.pick(ks)).set("records", 1 + (i64) r.below(6)).set("batch", 1 + (i64) r.below(3)).set("epochs", 1 + (i64) r.below(3)).set("test", r.chance(400)).set("best", r.chance(500)).set("d", (i64) r.below(1000)).set("fresh", r.chance(300));
    } else if (mode == "data") {
        static const vector<string> names{"iris", "d"};
        gen_table(p, r, 0, r.pick(names), "/work/src/data", tier);
        static const vector<string> ks{"create", "create", "open", "pass", "part", "sort", "lines", "fields", "write", "memory", "cells", "missing"};
        for (size_t i = 0; i < n; i++) p.add("op").set("k", r.pick(ks)).set("n", (i64) r.below(8)).set("script", r.chance(500)).set("shuf", r.chance(500)).set("fresh", r.chance(500)).set("chunk", 1 + (i64) r.below(5));
    } else if (mode == "lang" || mode == "task") {
        gen_task_tables(p, r, false, true);
        static const vector<string> ks{"inputs", "dataset", "inputs", "bad", "create", "nothing", "help", "script", "noscript", "badtask"};
        if (mode == "task") p.add("op").set("k", "task"); else for (size_t i = 0; i < n; i++) p.add("op").set("k", r.pick(ks)).set("n", (i64) r.below(8)).set("fresh", r.chance(300));
    } else {
        string alpha = gen_alpha(r); gen_history(p, r, alpha, "", 1 + r.below(2), true, 256); gen_probes(p, r, alpha);
        static const vector<string> ks{"learn", "learn", "save", "load", "load", "encode", "noload"};
        for (size_t i = 0; i < n; i++) p.add("op").set("k", r.pick(ks)).set("fresh", r.chance(400));
    }
    return p;
}
// One repetition of the work. The objects it uses beyond a repetition live in here.
struct Work {
    const Plan &p; string mode; std::unique_ptr<Spec> spec; Net net; vector<shared_ptr<happyml::InMemoryTrainingDataSet>> data; Tensors wrong;
    std::unique_ptr<Table> table; shared_ptr<happyml::BinaryDataSet> open; shared_ptr<happyml::InterpreterSession> session; vector<Inputs> inputs; std::unique_ptr<Model> tok; vector<Step> steps; vector<const Line *> ops;
    string said; bool count = false; std::map<string, int> outcome;
    explicit Work(const Plan &p) : p(p), mode(p.get("conf", "mode")) { ops = p.all("op"); }
    Net fresh_net() { auto n = build_net(*spec, "m", MODELS); n->setExitStrategy(make_shared<FixedEpochs>(2)); return n; }
    void hold() { // made once, without faults
        if (mode == "net") {
            spec = std::make_unique<Spec>(p, 0); net = fresh_net(); net->saveWithOverwrite(); net->saveKnowledge("k", true);
            for (auto l: ops) { data.push_back(make_data(net, *spec, (u64) l->num("d"), (size_t) l->num("records", 1))); }
            vector<float> one{1, 2, 3, 4, 5}; wrong.push_back(make_shared<happyml::FullTensor>(one));
        } else if (mode == "data") { open = make_shared<happyml::BinaryDataSet>(dataset_bin("held"), 1.0f); }
        else if (mode == "lang" || mode == "task") { session = make_shared<happyml::InterpreterSession>(happyml::initializeHappymlParser()); }
        else { tok = std::make_unique<Model>("held", false); for (auto &s: steps) learn(*tok, s); tok->save(MODELS, "k", true); }
    }
    void net_op(const Line &l, size_t i) {
        string k = l.get("k"); Net n = net; auto policy = l.num("best") ? happyml::best : happyml::last;
        if (l.num("fresh") || k == "build") n = fresh_net();
        n->setExitStrategy(make_shared<FixedEpochs>((size_t) l.num("epochs", 1)));
        if (k == "train") { if (l.num("test")) n->train(data[i], data[0], (int) l.num("batch", 1), policy); else n->train(data[i], (int) l.num("batch", 1), policy); }
        else if (k == "predict") n->predict(data[i]->nextRecord() ? make_given(*spec, 5) : make_given(*spec, 6));
        else if (k == "test") n->test(data[i]);
        else if (k == "acc") n->compute_binary_accuracy(data[i]);
        else if (k == "wrong") { auto g = make_given(*spec, 5); g[g.size() - 1] = wrong[0]; n->predict(g); }
        else if (k == "badtrain") { auto d = make_shared<happyml::InMemoryTrainingDataSet>(); d->addTrainingData(make_given(*spec, 5), wrong); n->train(d, 1, policy); }
        else if (k == "save") n->saveWithOverwrite();
        else if (k == "know") n->saveKnowledge("k" + std::to_string(l.num("d") % 3), true);
        else if (k == "reload") n->loadKnowledge("k");
        else if (k == "load") happyml::loadNeuralNetworkForTraining("m", MODELS)->setSilentMode(true);
        else if (k == "noload") happyml::loadNeuralNetworkForTraining("nothing", MODELS);
    }
    void data_op(const Line &l) {
        string k = l.get("k"); auto d = open;
        if (k == "create") { string s = do_create(*table, l.num("script")); { NoSim ns; said += s; } arm(true); return; }
        if (k == "missing") { try { happyml::BinaryDataSet x(dataset_bin("nothing"), 1.0f); } catch (const std::exception &) {} happyml::TextLinePathReader rr("/work/nothing", false); rr.hasNext(); return; }
        if (k == "open" || k == "pass" || k == "part") {
            if (l.num("fresh") || k == "open") d = make_shared<happyml::BinaryDataSet>(dataset_bin("held"), k == "part" ? 0.6f : 1.0f);
            if (l.num("shuf")) d->setShuffler(make_shared<happyml::Shuffler>(d->recordCount()));
            d->restart(); for (size_t i = 0; k != "open"; i++) if (!d->nextRecord() || (k == "part" && i > (size_t) l.num("n"))) break;
        } else if (k == "sort") happyml::FileSorter::sort("/work/src/lines.txt", "/work/run/sorted.txt", l.num("n") % 2, (int) l.num("chunk", 1), l.num("shuf"));
        else if (k == "lines") { happyml::TextLinePathReader rr("/work/src", false); i64 left = l.num("shuf") ? l.num("n") : 1000; while (left-- > 0 && rr.hasNext()) rr.nextLine(); }
        else if (k == "fields") { happyml::DelimitedTextFileReader rr(table->path, table->tsv ? '\t' : ','); i64 left = l.num("shuf") ? l.num("n") : 1000; while (left-- > 0 && rr.hasNext()) rr.nextRecord(); }
        else if (k == "write") { happyml::DelimitedTextFileWriter w("/work/run/w.csv", ','); for (i64 i = 0; i < 3 + l.num("n"); i++) w.writeRecord({"a,b", "\"c\"", std::to_string(i)}); if (l.num("shuf")) w.close(); }
        else if (k == "memory") {
            auto lab = make_shared<happyml::TextToUniqueCategoryEncoder>(vector<string>{"a", "b"});
            happyml::loadDelimitedValuesDataset("/work/src/mem.csv", ',', false, true, true, 1, 2, {1, 2, 1}, {1, 2, 1}, lab, make_shared<happyml::TextToScalarEncoder>());
        }
        else if (k == "cells") happyml::convert_txt_to_csv("/work/src/lines.txt", "/work/run/cells.csv", 20);
    }
    void lang_op(const Line &l, size_t) {
        string k = l.get("k"); auto s = session; if (l.num("fresh") || k == "script") s = make_shared<happyml::InterpreterSession>(happyml::initializeHappymlParser());
        if (k == "inputs" || k == "badtask") exec_inputs(k == "badtask" ? "nothing" : p.get("task", "name"), inputs[(size_t) l.num("n") % inputs.size()]);
        else if (k == "dataset") exec_dataset(p.get("task", "name"), l.num("n") ? (has_table(p, 2) ? "other" : "train") : "nothing");
        else if (k == "task") create_task(p);
        else if (k == "create") { string r = do_create(*table, l.num("n") % 2); NoSim ns; said += r; }
        else if (k == "script") s->interpretFile("/work/src/s.happyml");
        else if (k == "noscript") s->interpretFile("/work/src/none.happyml");
        else s->interpretCommands(k == "help" ? "help create\n" : k == "bad" ? "create dataset x with (\n" : l.num("n") % 2 ? "execute task nothing using dataset train\n" : "create task label t2 with goal speed using nothing\n");
        arm(true);
    }
    void token_op(const Line &l) {
        string k = l.get("k"); Model *m = tok.get(); std::unique_ptr<Model> mine; if (l.num("fresh") || k == "learn") { mine = std::make_unique<Model>("x", false); m = mine.get(); }
        if (k == "learn") for (auto &s: steps) learn(*m, s);
        else if (k == "save") m->save(MODELS, "s", true);
        else if (k == "load") m->load(MODELS, "k");
        else if (k == "noload") m->load(MODELS, "none");
        else for (auto x: p.all("probe")) { string v = x->get("v"); m->decode(m->encode(v)); }
    }
    void once() {
        for (size_t i = 0; i < ops.size(); i++) {
            try {
                if (mode == "net") net_op(*ops[i], i); else if (mode == "data") data_op(*ops[i]); else if (mode == "tokens") token_op(*ops[i]); else lang_op(*ops[i], i);
                NoSim ns; said += "k"; if (count) outcome[ops[i]->get("k") + "-ok"]++;
            } catch (const std::exception &x) { NoSim ns; said += "t"; if (count) outcome[ops[i]->get("k") + "-" + x.what()]++; }
        }
    }
};
struct Held { u64 blocks, bytes, files, disk; };
static void run_res(Run &run) {
    const Plan &p = run.plan; if (!p.first("conf") || !p.first("op")) return; world(); fs::mkdirs(MODELS);
    string mode = p.get("conf", "mode"); Work w(p);
    fs::put("/work/src/lines.txt", "head\nsome words here\nb\na\n\nb\nlonger line with several words in it\nlast");
    fs::put("/work/src/mem.csv", "a,1,2\nb,3,4\na,5,6\n"); fs::put("/work/src/s.happyml", "# a script\nhelp\nexecute task nothing using dataset nothing\nexit\n");
    if (mode == "net") { if (Spec(p, 0).v.empty()) return; }
    else if (mode == "data") {
        w.table = std::make_unique<Table>(p); if (w.table->g.empty() || !w.table->width) return; fs::put(w.table->path, w.table->source);
        auto a = run.boot("setup", [&] { Table h = *w.table; h.name = "held"; string s = do_create(h, false); if (s != "ok") note("setup", s); }, false);
        if (!a.ok() || run.has_note("setup")) { run.tag("data-not-made"); return; }
    } else if (mode == "lang" || mode == "task") {
        if (!has_table(p, 0) || !p.first("task")) return; { Table x(p, 0); if (x.g.empty() || x.e.empty() || x.given.empty()) return; w.table = std::make_unique<Table>(x); w.table->name = "again"; for (size_t i = 0; i < x.given.size(); i++) w.inputs.push_back(inputs_of(x, i)); }
        if (!make_datasets(run, "R02")) return;
        if (mode == "lang") { bool needs = false; for (auto l: p.all("op")) if (l->get("k") == "inputs" || l->get("k") == "dataset") needs = true; if (needs) { auto a = run.boot("settask", [&] { string s = create_task(p); note("made", s); }, false); if (!a.ok()) return run.fail("R02-setup", "creating the task ended abnormally: " + a.describe()); if (run.note("made") != "ok") run.tag("lang-no-task"); } }
    } else w.steps = steps_of(p, "", true);
    auto b = run.boot("work", [&] {
        arm(false); limit_io(60000000); w.hold(); string disk; { NoSim ns; disk = fs::snapshot(); }
        vector<Held> h; u64 files0 = open_files();
        auto rep = [&] {
            if (open_files() == files0 && !files0 && !p.num("conf", "keep")) { NoSim ns; fs::restore(disk); }
            reseed((u64) p.num("conf", "rseed"));
            for (auto l: p.all("inject")) inject(l->get("kind"), (u64) l->num("at"), l->num("a"), l->num("b"));
            u64 io = io_count(), al = alloc_count();
            w.count = h.size() == 3; arm(true); w.once(); arm(false); clear_faults(); captured_out(); captured_err();
            note("per", std::to_string(io_count() - io) + " " + std::to_string(alloc_count() - al));
            NoSim ns; u64 disk = 0; for (auto &f: fs::list_all("/")) if (f.find("/logs/") == string::npos) disk++; h.push_back({live_blocks(), live_bytes(), open_files(), disk}); event("holds " + std::to_string(h.back().files) + " files " + std::to_string(h.back().disk) + " on disk");
        };
        size_t n = (size_t) p.num("conf", "rep", 8); if (n < 5) n = 5;
        for (size_t i = 0; i < n; i++) {
            rep();
            if (h.back().files != files0) { boot_fail("R02-files", "after repetition " + std::to_string(i + 1) + " of the work " + std::to_string(h.back().files - files0) + " more files are open than before: " + open_names()); return; }
        }
        bool more = p.num("conf", "keep"); for (size_t i = 2; i < n; i++) if (h[i].disk <= h[i - 1].disk) more = false;
        if (more) { NoSim ns; string who; auto was = fs::list_all("/"); rep(); for (auto &f: fs::list_all("/")) if (!std::binary_search(was.begin(), was.end(), f)) who += " " + f; note("disk", short_(who)); return; }
        bool blocks = true, bytes = true; for (size_t i = 3; i < n; i++) { if (h[i].blocks <= h[i - 1].blocks) blocks = false; if (h[i].bytes < h[i - 1].bytes) bytes = false; }
        if (h[n - 1].bytes <= h[2].bytes) bytes = false;
        if (blocks) { // every repetition keeps something: what is it?
            track_blocks(true); rep(); track_blocks(false); rep(); string who = tracked_blocks(); NoSim ns;
            boot_fail("R02-memory", "every repetition of the work keeps " + std::to_string(h[n].blocks - h[n - 1].blocks) + " more blocks of memory: " + who); return;
        }
        if (bytes) { // something grows, if only now and then
            u64 last = h[n - 1].bytes; bool grows = true; string g = std::to_string(h[2].bytes) + ", " + std::to_string(last);
            for (size_t until: {2 * n + 2, 4 * n + 4, 8 * n + 8}) { while (h.size() < until && grows) rep(); if (!grows || h.back().bytes <= last) { grows = false; break; } last = h.back().bytes; NoSim ns; g += ", " + std::to_string(last); }
            if (grows) { boot_fail("R02-grows", "the process keeps growing while the same work is repeated: " + g + " bytes"); return; }
        }
        for (auto &o: w.outcome) note("outcome", o.first); note("said", w.said); note("done", std::to_string(h.back().files));
    }, true);
    if (run.failed()) return;
    if (run.has_note("disk")) { // a file that could not be removed stays
        for (auto k: {"error-unlink", "error-rmdir", "error-dir", "error-readdir", "error-rename", "alloc-fail"}) if (run.res.fired.count(k)) { run.tag("not-removed"); return; }
        return run.fail("R02-disk", "every repetition of the work leaves more files on disk:" + run.note("disk"));
    }
    if (!b.ok()) return run.fail("R02-died", mode + ": the repeated work ended abnormally: " + b.describe());
    if (p.all("inject").empty()) for (auto &o: run.notes_of("outcome")) run.tag(o); run.tag(mode); string said = run.note("said"); if (said.find('t') != string::npos) run.tag(mode + "-threw");
    run.judged(hash_str(said + run.note("done")));
}
static vector<Plan> derive_res(const Plan &base, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) {
    vector<Plan> out; auto it = bc.find("work"); if (it == bc.end()) return out; string mode = base.get("conf", "mode"); u64 reps = (u64) std::max<i64>(5, base.num("conf", "rep", 8)); const Counters &c = it->second;
    int n = (mode == "task" ? 2 : 8) * (tier ? 2 : 1); static const vector<string> kinds{"err", "err", "werr", "rerr", "oerr", "full", "alloc", "alloc", "alloc"}; static const vector<i64> errs{EIO, ENOSPC, EACCES, EMFILE};
    for (int i = 0; i < n; i++) {
        Plan p = base; string k = r.pick(kinds); u64 N = (k == "err" ? c.io : k == "rerr" ? c.reads : k == "werr" || k == "full" ? c.writes : k == "oerr" ? c.opens : c.alloc) / reps; if (!N) continue;
        i64 a = k == "werr" ? (r.chance(500) ? ENOSPC : EIO) : k == "rerr" ? EIO : k == "full" ? (r.chance(400) ? 0 : (i64) r.below(600)) : k == "alloc" ? 0 : r.pick(errs);
        u64 at = r.chance(200) ? N - 1 - r.below(std::min<u64>(N, 8)) : r.below(N);
        p.add("inject").set("kind", k).set("at", (i64) at).set("a", a).set("b", (i64) (k == "full" && r.chance(500) ? r.range(1, 3) : 0)); out.push_back(p);
    }
    return out;
}

int main(int argc, char **argv) {
    add_property({"R02", gen_res, run_res, derive_res, {"op", "inject", "rec", "v", "step", "text", "probe"}, "random work (networks, datasets, text files, statements, tokenizers) repeated in one process, the same way each time, without faults and with the same I/O error, full disk or failing allocation in every repetition; open files, blocks and bytes of memory compared between repetitions."});
    return main_entry(argc, argv);
}
