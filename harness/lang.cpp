// Language level: D01/D02 create dataset, T01/T02 tasks, I01/I02 scripts and interactive sessions.
#include "langkit.hpp"
#include "scriptkit.hpp"

// ================================================================= D01, D02
static Plan gen_create(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    static const vector<string> names{"iris", "d", "x1", "data"};
    static const vector<string> paths{"/work/src/data", "../src/data", "here", "/work/src/my", "../src/iris"};
    gen_table(p, r, 0, r.pick(names), r.pick(paths), tier);
    p.add("conf").set("script", r.chance(300)).set("mode", (i64) r.below(10));
    static const vector<string> bn{"/work/src/data.sorted.csv", "/work/run/given-expected.csv", "/work/run/sorted.csv", "/work/run/raw.bin", "/work/happyml_repo/datasets/other/dataset.bin", "/work/src/data.given-expected.csv", "/work/src/notes.txt", "/work/run/chunk_0.txt", "/tmp/chunk_0.txt"};
    for (size_t i = r.below(4); i > 0; i--) p.add("file").set("path", r.pick(bn)).set("v", "mine " + std::to_string(r.below(1000)) + "\n");
    return p;
}
static void run_create(Run &run, bool faulty) {
    const string P = faulty ? "D02" : "D01";
    Table t(run.plan); if (t.g.empty() || !t.width) return; world();
    bool script = run.plan.num("conf", "script");
    fs::put(t.path, t.source);
    std::map<string, string> others; for (auto l: run.plan.all("file")) if (fs::abs(l->get("path")) != fs::abs(t.path)) { fs::put(l->get("path"), l->get("v")); others[l->get("path")] = l->get("v"); }
    if (getenv("SHOW_SRC")) fprintf(stderr, "SRC<<%s>>\n", t.source.c_str());
    auto a = run.boot("create", [&] { string s = do_create(t, script); arm(false); note("said", s); }, faulty);
    bool fired = errors_fired(run) > 0; string said = run.note("said", "crashed");
    run.tag("said-" + said.substr(0, said.find(':')));
    if (!a.ok() && a.kind != BootResult::Crashed) return run.fail(P + "-died", "create dataset ended abnormally: " + a.describe());
    if (said.rfind("unparsed", 0) == 0) return run.fail(P + "-refused", "the statement could not be parsed: " + said + " in " + short_(t.statement()));
    bool empty = t.given.empty();
    if (a.ok() && said != "ok" && !fired && !empty) return run.fail(P + "-refused", "create dataset did not succeed without any fault: " + said);
    if (empty && said == "ok") return run.fail(P + "-empty", "a dataset was made from a source without records");
    auto others_ok = [&](const string &when) {
        if (fs::get(t.path) != t.source) { run.fail(P + "-source", "the source file was changed " + when); return false; }
        for (auto &o: others) if (!fs::exists(o.first) || fs::get(o.first) != o.second) { run.fail(P + "-other", "file " + o.first + " was changed or removed " + when); return false; }
        return true;
    };
    if (!others_ok("by create dataset")) return;
    auto look = [&](const string &tag) {
        auto b = run.boot(tag, [&] {
            string r;
            if (!happyml::ExecutionContext::dataset_exists(t.name)) r = "absent";
            else try { r = judge_dataset(t, "../happyml_repo/datasets/" + t.name + "/dataset.bin"); if (r.empty()) r = "complete"; else r = "wrong: " + r; } catch (const std::exception &x) { r = string("wrong: it cannot be read: ") + x.what(); }
            note(tag, r);
        }, false);
        if (!b.ok()) { run.fail(P + "-died", "reading the dataset ended abnormally: " + b.describe()); return string("died"); }
        return run.note(tag);
    };
    string st = look("look"); if (run.failed()) return;
    run.tag("then-" + st.substr(0, st.find(':')));
    if (st.rfind("wrong", 0) == 0) return run.fail(said == "ok" ? P + "-content" : P + "-partial", (said == "ok" ? "create dataset reported success, but " : "create dataset did not finish (" + short_(said, 80) + "), but the dataset exists and ") + st);
    if (said == "ok" && st != "complete") return run.fail(P + "-lost", "create dataset reported success, but the dataset does not exist");
    if (faulty && st == "absent" && !empty) {
        auto c = run.boot("again", [&] { note("again", do_create(t, script)); }, false);
        if (!c.ok()) return run.fail("D02-died", "repeating the statement ended abnormally: " + c.describe());
        if (run.note("again") != "ok") return run.fail("D02-stuck", "after a failure (" + short_(said, 80) + ") the same statement fails although the fault is gone: " + run.note("again"));
        st = look("relook"); if (run.failed()) return;
        if (st != "complete") return run.fail("D02-partial", "repeating the statement after a failure leads to a dataset that is " + st);
        if (!others_ok("by repeating create dataset")) return;
    }
    if (faulty && st == "complete" && run.plan.num("conf", "mode") % 2 == 0) { // the same statement once more: the dataset is there already
        string stored = fs::get(dataset_bin(t.name)); auto c = run.boot("repeat", [&] { note("repeat", do_create(t, script)); }, false);
        if (!c.ok()) return run.fail(P + "-died", "repeating the statement ended abnormally: " + c.describe());
        if (run.note("repeat") != "ok") return run.fail(P + "-repeat", "repeating the statement for a complete dataset is refused: " + run.note("repeat"));
        st = look("after"); if (run.failed()) return;
        if (st != "complete" || fs::get(dataset_bin(t.name)) != stored) return run.fail(P + "-repeat", "repeating the statement for a complete dataset leads to a dataset that is " + (st == "complete" ? "another one" : st));
        if (!others_ok("by repeating create dataset")) return;
    }
    run.judged(hash_str(said.substr(0, 6) + st, fs::digest(REPO)));
    for (auto &x: t.groups) run.tag("col-" + x.use + "-" + x.type);
}

// ================================================================= D08
static Plan gen_convert(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r); bool txt = r.chance(500); auto &cf = p.add("conf"); cf.set("mode", txt ? "txt" : "load");
    if (txt) {
        static const vector<i64> limits{1, 5, 12, 20, 40, 100, 400}; cf.set("limit", r.pick(limits)).set("eol", r.chance(700));
        static const vector<string> words{"a", "it", "cat.", "dog", "end.\n", "x,y", "say\"so\"now", "3.5", "12", "A.", ".", "..", "one\ntwo", "tab\tbed", "alpha-beta-gamma", "<b>", "\n", "z.\n\n", "1,2"};
        size_t n = r.chance(50) ? 0 : 1 + r.below(tier ? 400 : 90);
        for (size_t i = 0; i < n; i++) p.add("word").set("v", r.chance(20) ? string(r.below(120), 'w') : r.pick(words)).set("gap", r.chance(80) ? r.range(2, 4) : 1);
        return p;
    }
    cf.set("first", r.chance(500)).set("hdr", r.chance(300)).set("delim", r.chance(300) ? "\t" : ",").set("trim", r.chance(700)).set("kind", (i64) r.below(3)).set("given", r.range(1, 4)).set("miss", r.chance(30));
    size_t n = r.chance(50) ? 0 : 1 + r.below(20); bool odd = r.chance(150);
    for (size_t i = 0; i < n; i++) p.add("rec").set("v", (i64) r.below(1000)).set("lost", odd && r.chance(300) ? 1 + (i64) r.below(4) : 0);
    return p;
}
static vector<string> words_of(const string &s) { vector<string> v; std::istringstream in(s); string w; while (in >> w) v.push_back(w); return v; }
static void run_convert(Run &run) {
    const Plan &p = run.plan; auto cf = p.first("conf"); if (!cf) return; world();
    bool fired_before = false; (void) fired_before;
    auto died = [&](const BootResult &b) { if (!b.ok() && b.kind != BootResult::Crashed) { run.fail("D08-died", "the conversion ended abnormally: " + b.describe()); return true; } return false; };
    if (cf->get("mode") == "txt") {
        string source; for (auto l: p.all("word")) { source += l->get("v") + string((size_t) l->num("gap", 1), ' '); } if (!cf->num("eol") && !source.empty()) source.pop_back(); if (cf->num("eol")) source += "\n";
        fs::put("/work/src/in.txt", source); int limit = (int) cf->num("limit", 20);
        auto a = run.boot("convert", [&] { bool ok = false; try { ok = happyml::convert_txt_to_csv("/work/src/in.txt", "/work/run/out.csv", limit); } catch (const std::exception &) {} arm(false); note("ok", ok ? "1" : "0"); });
        if (died(a)) return; if (fs::get("/work/src/in.txt") != source) return run.fail("D08-source", "the source file was changed");
        bool fired = errors_fired(run) > 0; string ok = run.note("ok", "crashed"); run.tag("txt-" + ok);
        if (ok != "1") { if (ok == "0" && !fired) return run.fail("D08-refused", "a text file was not converted without any fault"); run.judged(1); return; }
        auto b = run.boot("read", [&] { happyml::DelimitedTextFileReader rd("/work/run/out.csv", ','); while (rd.hasNext()) { auto v = rd.nextRecord(); note("cell", v.size() == 1 ? v[0] : "\x01split"); } }, false);
        if (!b.ok()) return run.fail("D08-died", "the converted file cannot be read: " + b.describe());
        vector<string> got; for (auto &c: run.notes_of("cell")) {
            if (c == "\x01split") return run.fail("D08-cells", "a record of the converted file has several fields");
            for (auto &w: words_of(c)) got.push_back(w);
            if ((int) c.size() > limit && c.find(' ') != string::npos) return run.fail("D08-limit", "a cell of " + std::to_string(c.size()) + " characters was made, the limit is " + std::to_string(limit));
        }
        auto want = words_of(source);
        for (size_t i = 0; i < std::max(want.size(), got.size()); i++) if (i >= want.size() || i >= got.size() || want[i] != got[i])
            return run.fail("D08-text", "word " + std::to_string(i + 1) + " of the text is '" + (i < want.size() ? want[i] : "(none)") + "', in the cells it is '" + (i < got.size() ? got[i] : "(none)") + "'");
        run.judged(hash_str(source, (u64) limit)); return;
    }
    size_t ng = (size_t) cf->num("given", 1), kind = (size_t) cf->num("kind"); bool first = cf->num("first"), trim = cf->num("trim"); char d = cf->get("delim", ",")[0]; string pad = trim ? " " : "";
    static const vector<string> labels{"blue", "green", "red"}; string source; if (cf->num("hdr")) source = "e" + string(1, d) + "g\n"; bool shorter = false; vector<std::pair<vector<string>, string>> recs;
    for (auto l: p.all("rec")) {
        i64 v = l->num("v"); vector<string> g; for (size_t i = 0; i < ng; i++) g.push_back(std::to_string((v * 7 + (i64) i * 13) % 256)); string e = kind == 2 ? labels[(size_t) v % 3] : std::to_string(v);
        vector<string> f = g; f.insert(first ? f.begin() : f.end(), e); i64 lost = std::min<i64>(l->num("lost"), (i64) ng); if (lost) shorter = true; f.resize(f.size() - (size_t) lost);
        for (size_t i = 0; i < f.size(); i++) source += (i ? string(1, d) : "") + (i % 2 ? pad : "") + f[i]; source += "\n"; recs.emplace_back(g, e);
    }
    if (!cf->num("miss")) fs::put("/work/src/in.csv", source);
    auto a = run.boot("load", [&] {
        string said;
        try {
            shared_ptr<happyml::DataEncoder> ge, ee; if (kind == 1) ge = make_shared<happyml::TextToPixelEncoder>(); else ge = make_shared<happyml::TextToScalarEncoder>();
            if (kind == 2) ee = make_shared<happyml::TextToUniqueCategoryEncoder>(labels); else ee = make_shared<happyml::TextToScalarEncoder>();
            auto ds = happyml::loadDelimitedValuesDataset("/work/src/in.csv", d, cf->num("hdr"), trim, first, 1, ng, vector<size_t>{1, kind == 2 ? 3ul : 1ul, 1}, vector<size_t>{1, ng, 1}, ee, ge);
            arm(false); said = std::to_string(ds->recordCount()) + ";";
            for (ds->restart(); auto x = ds->nextRecord();) { char b[40]; for (size_t i = 0; i < ng; i++) { snprintf(b, 40, "%g,", std::round((double) x->getGiven()[0]->getValue(0, i, 0) * (kind == 1 ? 255 : 1))); said += b; } for (size_t i = 0; i < (kind == 2 ? 3 : 1); i++) { snprintf(b, 40, "%g ", (double) x->getExpected()[0]->getValue(0, i, 0)); said += b; } said += ";"; }
        } catch (const std::exception &x) { arm(false); NoSim ns; said = string("threw ") + x.what(); }
        note("load", said);
    });
    if (died(a)) return; if (!a.ok()) return; string got = run.note("load"), want = std::to_string(recs.size()) + ";"; bool threw = got.rfind("threw", 0) == 0, fired = errors_fired(run) > 0;
    for (auto &x: recs) { for (auto &g: x.first) want += g + ","; if (kind == 2) for (auto &l: labels) want += l == x.second ? "1 " : "0 "; else want += x.second + " "; want += ";"; }
    run.tag(threw ? "load-threw" : "load");
    if (threw) { if (!fired && !shorter && !cf->num("miss")) return run.fail("D08-refused", "the records were not loaded without any fault: " + got); run.judged(2); return; }
    if (cf->num("miss")) return run.fail("D08-missing", "a missing file was loaded as " + got);
    if (shorter) return run.fail("D08-short", "records that lack fields were loaded as " + short_(got));
    if (got != want) return run.fail("D08-records", "loaded " + short_(got) + " instead of " + short_(want));
    run.judged(hash_str(got));
}

static Plan gen_task(Rng &r, u64, int) {
    Plan p; gen_env(p, r, true, r.chance(300)); gen_task_tables(p, r, true, false);
    p.add("conf").set("missing", r.chance(40)).set("others", r.chance(500));
    return p;
}
static void run_task(Run &run) {
    const Plan &p = run.plan; if (!has_table(p, 0) || !p.first("task")) return; world();
    Table t(p, 0); if (t.g.empty() || t.e.empty() || t.given.empty()) return;
    string name = p.first("task")->get("name"), goal = p.first("task")->get("goal");
    if (!make_datasets(run, "T01")) return;
    if (p.num("conf", "missing")) { fs::erase(REPO + "/datasets/" + (has_table(p, 1) ? "test" : "train")); }
    if (p.num("conf", "others")) { fs::put(REPO + "/tasks/zz/model.config", "mine\n"); fs::put(REPO + "/tasks/" + name + "2/dataset.bin", "mine too\n"); fs::put(REPO + "/tasks/note.txt", "x"); }
    std::map<string, string> keep; for (auto &f: fs::list_files(REPO)) keep[f] = fs::get(f);
    auto unharmed = [&](const string &when) { for (auto &k: keep) if (!fs::exists(k.first) || fs::get(k.first) != k.second) { if (k.first.find("/logs/") != string::npos) continue; run.fail("T01-other", k.first + " was changed or removed by " + when); return false; } return true; };
    auto make = [&](const string &tag, bool faults) {
        auto a = run.boot(tag, [&] { limit_io(3000000); { struct rlimit rl{120, 125}; setrlimit(RLIMIT_CPU, &rl); } string s = create_task(p); arm(false); note(tag, s); }, faults);
        if (a.kind == BootResult::Timeout || a.kind == BootResult::Livelock) { run.fail("T01-endless", "create task does not end (" + a.describe() + ")"); return string("died"); }
        if (!a.ok() && a.kind != BootResult::Crashed) { run.fail("T01-died", "create task ended abnormally: " + a.describe()); return string("died"); }
        return run.note(tag, "crashed");
    };
    string said = make("task", true); if (run.failed()) return;
    run.tag("said-" + said.substr(0, said.find(':')));
    if (!unharmed("create task")) return;
    bool fired = errors_fired(run) > 0;
    if (p.num("conf", "missing")) {
        if (said == "ok") return run.fail("T01-missing", "a task was created from a dataset that does not exist");
        run.judged(1); return;
    }
    if (said != "ok" && said != "crashed" && !fired && t.given.size() >= 4) return run.fail("T01-refused", "create task did not succeed without any fault: " + said);
    auto use = [&](const string &tag) {
        auto b = run.boot(tag, [&] {
            string out, s = exec_inputs(name, inputs_of(t, 0), &out); auto rows = parse_rows(out, t.e.size());
            if (s == "ok" && rows.size() < 2) s = "odd: it printed " + out;
            if (s == "ok" && t.e[0].type == "label") { bool legal = false; for (auto &x: t.expected) if (x[0].label == rows[1][0]) legal = true; if (!legal) s = "odd: it printed " + out; }
            note(tag, s);
        }, false);
        if (!b.ok()) { run.fail("T01-died", "executing the task ended abnormally: " + b.describe()); return string("died"); }
        return run.note(tag);
    };
    string u = use("use"); if (run.failed()) return;
    if (said == "ok" && u != "ok") return run.fail("T01-unusable", "create task reported success, but the task cannot be executed after a restart: " + short_(u));
    if (u.rfind("odd", 0) == 0) return run.fail("T01-unusable", "after create task (" + short_(said, 60) + ") executing the task gives no label of the dataset: " + short_(u));
    if (said != "ok") {
        string again = make("again", false); if (run.failed()) return;
        if (again != "ok") { if (t.given.size() < 4) { run.judged(2); return; } return run.fail("T01-stuck", "after a failure (" + short_(said, 80) + ") the same statement fails although the fault is gone: " + again); }
        string v = use("reuse"); if (run.failed()) return;
        if (v != "ok") return run.fail("T01-unusable", "after a failure (" + short_(said, 60) + ", then executing it: " + short_(u, 40) + ") repeating the statement reports success, but the task cannot be executed: " + short_(v));
        if (!unharmed("repeating create task")) return;
    }
    run.tag("goal-" + goal); run.tag(u == "ok" ? "usable" : "absent");
    run.judged(hash_str(said.substr(0, 6) + u.substr(0, 6), fs::digest(REPO)));
}

static Plan gen_exec(Rng &r, u64, int) {
    Plan p; gen_env(p, r, true, false); gen_task_tables(p, r, true, true);
    p.add("conf").set("on", r.chance(650) ? 2 : 0);
    if (r.chance(500)) p.add("damage").set("pick", (i64) r.below(1000)).set("what", r.chance(200) ? "dataset" : r.chance(200) ? "task" : "file");
    return p;
}
// What the saved task predicts for the given values of a record: the labels of its expected columns, or "~" where two are as good.
static vector<string> model_says(const Table &t, size_t rec, happyml::NeuralNetworkForTraining &net, happyml::BinaryDatasetReader &meta) {
    vector<shared_ptr<BaseTensor>> given; bool close = false;
    for (size_t i = 0; i < t.g.size(); i++) {
        auto &c = t.given[rec][i]; auto m = meta.get_given_metadata(i); vector<vector<vector<float>>> v(m->channels, vector<vector<float>>(m->rows, vector<float>(m->columns)));
        if (c.is_label) { bool known = false; for (size_t k = 0; k < m->ordered_labels.size(); k++) if (m->ordered_labels[k] == c.label) { v[0][0][k] = 1; known = true; } if (!known) return {}; }
        else { size_t k = 0; for (auto &ch: v) for (auto &row: ch) for (auto &x: row) x = (float) c.nums[k++]; }
        shared_ptr<BaseTensor> x; if (c.is_image) x = happyml::pixelTensor(v); else x = happyml::tensor(v);
        given.push_back(m->purpose == 'N' ? happyml::standardize_and_normalize(x, m) : x);
    }
    auto out = net.predict(given); vector<string> r;
    for (size_t i = 0; i < out.size(); i++) {
        auto m = meta.get_expected_metadata(i); size_t best = 0; float second = -1e30f;
        for (size_t k = 1; k < m->ordered_labels.size(); k++) if (out[i]->getValue(0, k, 0) > out[i]->getValue(0, best, 0)) best = k;
        for (size_t k = 0; k < m->ordered_labels.size(); k++) if (k != best) second = std::max(second, out[i]->getValue(0, k, 0));
        close = out[i]->getValue(0, best, 0) - second < 1e-3f;
        r.push_back(close ? "~" : m->ordered_labels[best]);
    }
    return r;
}
static bool same_labels(const vector<string> &want, const vector<string> &got) { if (want.size() > got.size()) return false; for (size_t i = 0; i < want.size(); i++) if (want[i] != "~" && want[i] != got[i]) return false; return true; }
static string list_(const vector<string> &v) { string s; for (auto &x: v) s += (s.empty() ? "" : ", ") + x; return s; }
static void run_exec(Run &run) {
    const Plan &p = run.plan; if (!has_table(p, 0) || !p.first("task")) return; world();
    Table t(p, 0); if (t.g.empty() || t.e.empty() || t.given.size() < 4) return;
    string name = p.first("task")->get("name"); int on = p.num("conf", "on") && has_table(p, 2) ? 2 : 0; Table x(p, on); string ds = x.name;
    if (!make_datasets(run, "T02")) return;
    { auto a = run.boot("train", [&] { limit_io(3000000); note("train", create_task(p)); }, false); if (!a.ok() || run.note("train") != "ok") { run.tag("no-task"); return; } }
    u64 before = fs::digest(REPO);
    if (on) { // the columns go by their names
        bool odd = x.g.size() != t.g.size() || x.e.size() != t.e.size(), lacks = !arrange(t, x);
        if (lacks) {
            auto a = run.boot("exec", [&] { string out, s = exec_dataset(name, ds, &out); note("exec", s); note("out", out); }, true);
            if (!a.ok() && a.kind != BootResult::Crashed) return run.fail("T02-died", "execute task ended abnormally: " + a.describe());
            if (run.note("exec", "crashed") == "ok") return run.fail("T02-missing", "execute task reports success on a dataset that lacks a given column of the task: " + short_(run.note("out"), 300));
            if (fs::digest(REPO) != before) return run.fail("T02-changed", "executing a task changed files of the repository");
            run.tag("lacks-column"); run.judged(before); return;
        }
        if (odd) { run.judged(before); return; }
    }
    // one record per combination of given values, in any order
    vector<size_t> recs; for (size_t i = 0; i < x.given.size(); i++) { bool dup = false; for (size_t k: recs) if (Table::same(x.given[i], x.given[k], 1e-9)) dup = true; if (!dup) recs.push_back(i); }
    vector<vector<string>> want;
    {
        auto b = run.boot("model", [&] {
            auto net = happyml::loadNeuralNetworkForTraining(name, "../happyml_repo/tasks/"); happyml::BinaryDatasetReader meta("../happyml_repo/tasks/" + name + "/dataset.bin");
            for (size_t i: recs) { auto v = model_says(x, i, *net, meta); string s; for (auto &k: v) s += k + ";"; note("model", s); }
        }, false);
        if (!b.ok()) return run.fail("T02-died", "the saved task cannot be loaded: " + b.describe());
        for (auto &s: run.notes_of("model")) { vector<string> v; std::istringstream in(s); string k; while (std::getline(in, k, ';')) v.push_back(k); want.push_back(v); }
    }
    for (auto &w: want) if (w.empty()) { run.tag("unknown-label"); return; }
    bool image = x.g[0].type == "image"; size_t height = image ? (x.g[0].r + 1) / 2 : 1, columns = x.e.size() + x.g.size();
    auto judge = [&](const string &out) -> string {
        vector<string> header; auto rows = parse_rows(out, columns, &header); vector<string> names;
        for (auto &c: t.e) names.push_back(c.name); for (auto &c: t.g) names.push_back(c.name);
        if (header != names) return "the header is: " + list_(header);
        if (rows.size() != recs.size() * height) return std::to_string(rows.size()) + " result lines for " + std::to_string(recs.size()) + " records";
        vector<char> done(recs.size(), 0);
        for (size_t i = 0; i < rows.size(); i += height) {
            bool found = false, shown = false;
            for (size_t k = 0; k < recs.size() && !found; k++) {
                if (done[k]) continue;
                bool mine = true;
                for (size_t c = 0; c < x.g.size() && mine && !image; c++) {
                    auto &cell = x.given[recs[k]][c]; const string &got = rows[i][x.e.size() + c];
                    if (cell.is_label) { mine = got == cell.label; continue; }
                    std::istringstream in(got); for (double v: cell.nums) { string w; double g = 0; if (!(in >> w)) { mine = false; break; } try { g = std::stod(w); } catch (...) { mine = false; break; } if (!(std::fabs(g - v) <= 0.05)) mine = false; }
                }
                if (!mine) continue;
                shown = true; if (!same_labels(want[k], rows[i])) continue;
                found = true; done[k] = 1;
            }
            if (!found) return shown ? "the line (" + list_(rows[i]) + ") is not what the saved model predicts for that record" : "the line (" + list_(rows[i]) + ") belongs to no remaining record of the dataset";
        }
        return "";
    };
    auto a = run.boot("exec", [&] { string out, s = exec_dataset(name, ds, &out); note("exec", s); note("out", out); }, true);
    bool fired = errors_fired(run) > 0; string said = run.note("exec", "crashed"), out = run.note("out");
    if (!a.ok() && a.kind != BootResult::Crashed) return run.fail("T02-died", "execute task ended abnormally: " + a.describe());
    if (fs::digest(REPO) != before) return run.fail("T02-changed", "executing a task changed files of the repository");
    run.tag("said-" + said.substr(0, said.find(':')));
    if (a.ok() && said != "ok" && !fired) return run.fail("T02-refused", "execute task did not succeed without any fault: " + short_(said));
    if (said == "ok") { string w = judge(out); if (!w.empty()) return run.fail("T02-results", "execute task reported success, but " + w); }
    auto b = run.boot("exec2", [&] { string o, s = exec_dataset(name, ds, &o); note("exec2", s); note("out2", o); for (size_t i = 0; i < recs.size() && i < 4; i++) { string io, is = exec_inputs(name, inputs_of(x, recs[i]), &io); note("in", is + "\n" + io); string text = inputs_text(name, x, recs[i], (u64) p.num("env", "seed") + i), to, ts = exec_text(text, &to); NoSim ns; note("text", text); note("via", ts + "\n" + to); } if (!x.g.empty()) { auto in = inputs_of(x, recs[0]); in.erase(lower_(x.g.back().name)); if (!in.empty()) note("lacking", exec_inputs(name, in)); note("nods", exec_dataset(name, "nosuch")); note("notask", exec_dataset("nosuch", ds)); } }, false);
    if (!b.ok()) return run.fail("T02-died", "execute task ended abnormally: " + b.describe());
    if (run.note("exec2") != "ok") return run.fail("T02-refused", "a repeated execution fails: " + short_(run.note("exec2")));
    { string w = judge(run.note("out2")); if (!w.empty()) return run.fail("T02-results", "a repeated execution succeeds, but " + w); }
    if (said == "ok" && out != run.note("out2")) return run.fail("T02-repeat", "a repeated execution prints something else");
    auto ins = run.notes_of("in");
    for (size_t i = 0; i < ins.size(); i++) {
        if (ins[i].rfind("ok\n", 0) != 0) return run.fail("T02-inputs", "executing with the given values of a record fails: " + short_(ins[i]));
        auto rows = parse_rows(ins[i], x.e.size()); if (rows.size() != 2) return run.fail("T02-inputs", "executing with inputs prints: " + short_(ins[i]));
        if (!same_labels(want[i], rows[1])) return run.fail("T02-inputs", "executing with the given values of a record prints (" + list_(rows[1]) + ") where the saved model predicts (" + list_(want[i]) + ")");
    }
    auto vias = run.notes_of("via"), texts = run.notes_of("text");
    for (size_t i = 0; i < vias.size() && i < ins.size(); i++) if (vias[i] != ins[i]) return run.fail("T02-written", "the statement " + short_(texts[i], 200) + " prints (" + short_(vias[i]) + ") where executing with the values it names prints (" + short_(ins[i]) + ")");
    if (run.note("lacking", "-") == "ok") return run.fail("T02-missing", "executing without one of the given columns reports success");
    if (run.note("nods", "-") == "ok") return run.fail("T02-missing", "executing on a dataset that does not exist reports success");
    if (run.note("notask", "-") == "ok") return run.fail("T02-missing", "executing a task that does not exist reports success");
    if (fs::digest(REPO) != before) return run.fail("T02-changed", "executing a task changed files of the repository");
    if (auto d = p.first("damage")) {
        string what = d->get("what"), hurt; vector<string> fl = fs::list_files(REPO + "/tasks/" + name);
        hurt = what == "dataset" ? dataset_bin(ds) : what == "task" ? REPO + "/tasks/" + name : fl[(size_t) d->num("pick") % fl.size()];
        fs::erase(hurt); before = fs::digest(REPO); run.tag("damaged");
        auto c = run.boot("exec3", [&] { string o, s = exec_dataset(name, ds, &o); note("exec3", s); note("out3", o); }, false);
        if (!c.ok()) return run.fail("T02-died", "execute task ended abnormally when " + hurt + " was missing: " + c.describe());
        if (run.note("exec3") == "ok" && run.note("out3") != run.note("out2")) return run.fail("T02-missing", "execute task reports success with other results when " + hurt + " is missing");
        if (fs::digest(REPO) != before) return run.fail("T02-changed", "executing a damaged task changed files of the repository");
    }
    run.judged(hash_str(said.substr(0, 6) + run.note("out2"), before));
}


// ================================================================= T03
static Plan gen_quality(Rng &r, u64, int) { Plan p; gen_env(p, r, true, r.chance(300)); gen_task_tables(p, r, r.chance(300), false, true); return p; }
static void run_quality(Run &run) {
    const Plan &p = run.plan; if (!has_table(p, 0) || !has_table(p, 1) || !p.first("task")) return; world();
    Table t(p, 0), x(p, 1); if (t.g.empty() || t.e.empty() || t.given.size() < 4 || x.given.empty()) return;
    if (x.g.size() != t.g.size() || x.e.size() != t.e.size() || !arrange(t, x)) return;
    string name = p.first("task")->get("name"); if (!make_datasets(run, "T03")) return;
    auto a = run.boot("task", [&] { limit_io(3000000); { struct rlimit rl{120, 125}; setrlimit(RLIMIT_CPU, &rl); } string out, s = create_task(p, &out); arm(false); NoSim ns; note("task", s); size_t at = 0, last = string::npos; while ((at = out.find("Accuracy: ", at)) != string::npos) { if (at == 0 || out[at - 1] == '\n') last = at; at += 10; } note("accuracy", last == string::npos ? "" : out.substr(last + 10, out.find('%', last) - last - 10)); note("good", out.find("Model is accurate.") != string::npos ? "1" : "0"); }, true);
    if (!a.ok()) { if (a.kind == BootResult::Timeout || a.kind == BootResult::Livelock || a.kind == BootResult::Crashed) { run.tag("no-end"); return; } return run.fail("T03-died", "create task ended abnormally: " + a.describe()); }
    string said = run.note("task"), shown = run.note("accuracy"); run.tag("said-" + said.substr(0, said.find(':')));
    if (said != "ok") {
        bool known = true; for (size_t c = 0; c < t.e.size() + t.g.size(); c++) { auto cell = [&](const Table &y, size_t i) -> const Cell & { return c < t.e.size() ? y.expected[i][c] : y.given[i][c - t.e.size()]; }; for (size_t i = 0; i < x.given.size(); i++) { if (!cell(x, i).is_label) continue; bool in = false; for (size_t k = 0; k < t.given.size(); k++) if (cell(t, k).label == cell(x, i).label) in = true; if (!in) known = false; } }
        if (known && !errors_fired(run)) return run.fail("T03-refused", "create task did not succeed without any fault: " + short_(said));
        run.judged(1); return;
    }
    if (shown.empty()) { run.tag("silent"); return; }
    vector<size_t> recs; for (size_t i = 0; i < x.given.size(); i++) { bool dup = false; for (size_t k: recs) if (Table::same(x.given[i], x.given[k], 1e-9)) dup = true; if (!dup) recs.push_back(i); }
    auto b = run.boot("model", [&] {
        auto net = happyml::loadNeuralNetworkForTraining(name, "../happyml_repo/tasks/"); happyml::BinaryDatasetReader meta("../happyml_repo/tasks/" + name + "/dataset.bin");
        size_t sure = 0, maybe = 0, known = 0;
        for (size_t i: recs) { auto v = model_says(x, i, *net, meta); if (v.empty()) continue; known++; bool wrong = false, open = false; for (size_t k = 0; k < x.given.size(); k++) if (k != i && Table::same(x.given[i], x.given[k], 1e-9) && !Table::same(x.expected[i], x.expected[k], 1e-9)) open = true; if (open) { maybe++; continue; } for (size_t c = 0; c < v.size(); c++) if (v[c] == "~") open = true; else if (v[c] != x.expected[i][c].label) wrong = true; if (!wrong) (open ? maybe : sure)++; }
        NoSim ns; note("sure", std::to_string(sure)); note("maybe", std::to_string(maybe)); note("known", std::to_string(known));
    }, false);
    if (!b.ok()) return run.fail("T03-died", "the saved task cannot be loaded: " + b.describe());
    if (run.note("known") != std::to_string(recs.size())) { run.tag("unknown-label"); return; }
    double lo = 100.0 * atof(run.note("sure").c_str()) / (double) recs.size(), hi = lo + 100.0 * atof(run.note("maybe").c_str()) / (double) recs.size(), v = atof(shown.c_str());
    run.tag(v >= 90 ? "accurate" : "poor");
    if (!(v >= lo - 0.02 && v <= hi + 0.02)) return run.fail("T03-accuracy", "create task reports an accuracy of " + shown + "% for the network it keeps, the saved task labels " + run.note("sure") + " of the " + std::to_string(recs.size()) + " records of the test dataset correctly" + (hi > lo ? " (and " + run.note("maybe") + " perhaps)" : ""));
    if (run.note("good") == "1" && hi < 89.99) return run.fail("T03-target", "create task calls the model accurate, but it labels only " + run.note("sure") + " of " + std::to_string(recs.size()) + " test records correctly");
    run.judged(hash_str(shown + run.note("sure"), recs.size()));
}

// ================================================================= I01, I02
static Plan gen_script(Rng &r, u64, int) {
    Plan p; gen_env(p, r); gen_ops(p, r, false);
    static const vector<string> fl{"/work/src/script.happyml", "script.txt", "../src/my script"};
    // now and then a script larger than any buffer: that many bytes of comments or blanks before one of the statements
    static const vector<i64> sizes{500, 4090, 8180, 33000, 65500, 131000};
    auto ops = p.all("op"); if (!ops.empty() && r.chance(60)) const_cast<Line *>(ops[r.below(ops.size())])->set("pad", r.pick(sizes) + (i64) r.below(300)).set("padc", r.chance(500));
    p.add("conf").set("path", r.pick(fl)).set("one", r.chance(250)).set("term", r.chance(700)).set("absent", r.chance(40));
    return p;
}
static void run_script(Run &run) {
    const Plan &p = run.plan; world(); if (!make_have(run, "I01")) return;
    vector<string> texts; bool bad = false; string script; bool one = p.num("conf", "one");
    for (auto l: p.all("op")) {
        string t = op_text(p, *l, false, texts.empty()); bool comment = t.find('#') != string::npos; if (l->get("k") == "bad") bad = true;
        if (size_t pad = (size_t) l->num("pad")) { string c = l->num("padc") && !one ? "# and so on, \"and\" so 1.5 on\n" : one ? "    " : "  \n \t"; for (size_t end = script.size() + pad; script.size() < end;) script += c; }
        texts.push_back(t); script += spread(t, (u64) l->num("ws"), !one) + (one && !comment ? "  " : l->num("ws") % 7 == 0 ? "\r\n" : l->num("ws") % 5 == 0 ? "\n\n" : "\n");
    }
    if (!p.num("conf", "term") && !script.empty()) script.pop_back();
    string path = p.first("conf")->get("path"); bool absent = p.num("conf", "absent");
    if (!absent) fs::put(path, script);
    string world0 = fs::snapshot(); u64 before = fs::digest(REPO);
    // the model: every statement on its own, in order, until one fails or asks to exit
    auto ref = run.boot("model", [&] { for (auto &t: texts) { Answer a = solo(t); note("model", pack(a)); if (a.exit || !a.err.empty()) break; } }, false);
    if (!ref.ok()) return run.fail("I01-died", "a statement ended abnormally: " + ref.describe());
    vector<Answer> want; for (auto &x: run.notes_of("model")) want.push_back(unpack(x));
    u64 after = fs::digest(REPO); string all; bool fails = false, exits = false;
    for (auto &a: want) { all += a.out; fails = fails || !a.err.empty(); exits = exits || a.exit; }
    fs::restore(world0);
    auto b = run.boot("script", [&] {
        Answer a; string what; bool done = false; captured_out(); captured_err(); arm(true);
        try { happyml::InterpreterSession s(happyml::initializeHappymlParser()); done = s.interpretFile(path); } catch (const std::exception &x) { arm(false); what = string("threw ") + x.what(); }
        arm(false); a.out = captured_out(); a.err = captured_err(); a.exit = done; note("script", pack(a)); note("what", what);
    }, true);
    if (!b.ok()) return run.fail("I01-died", "the script ended abnormally: " + b.describe());
    Answer got = unpack(run.note("script")); bool fired = errors_fired(run) > 0; bool reported = !got.err.empty();
    run.tag(absent ? "absent" : fired ? "unreadable" : bad ? "malformed" : fails ? "fails" : exits ? "exits" : "complete");
    if (absent || fired) {
        if (!reported) { if (fired && got.out == all && fs::digest(REPO) == after && !fails && !bad) { run.judged(7); return; } return run.fail("I01-silent", absent ? "a missing script file was not reported" : "a script that could not be read was not reported"); }
        if (!got.out.empty() || fs::digest(REPO) != before) return run.fail("I01-partial", "a script that could not be read was executed in part");
        run.judged(8); return;
    }
    if (bad) {
        if (!reported) return run.fail("I01-silent", "a malformed script was not reported");
        if (!got.out.empty() || fs::digest(REPO) != before) return run.fail("I01-partial", "a malformed script was executed in part: it printed " + short_(got.out));
        run.judged(9); return;
    }
    if (got.out != all) { size_t i = 0; while (i < all.size() && i < got.out.size() && all[i] == got.out[i]) i++; return run.fail("I01-output", "the script printed '" + short_(got.out.substr(i > 20 ? i - 20 : 0), 100) + "' where its statements in order print '" + short_(all.substr(i > 20 ? i - 20 : 0), 100) + "'"); }
    if (fs::digest(REPO) != after) return run.fail("I01-effects", "the script left other files than its statements in order do");
    if (fails && !reported) return run.fail("I01-silent", "the failure of statement " + std::to_string(want.size()) + " was not reported");
    if (!fails && reported) return run.fail("I01-output", "the script reported a failure although no statement fails: " + short_(got.err));
    if (!fails && got.exit != exits) return run.fail("I01-exit", exits ? "exit was not passed on" : "exit was reported without an exit statement");
    run.judged(hash_str(got.out + (fails ? "F" : exits ? "E" : ""), after));
}
static Plan gen_session(Rng &r, u64, int) {
    Plan p; gen_env(p, r); gen_ops(p, r, true); p.add("conf").set("eof", r.chance(500));
    for (auto &l: p.lines) if (l.type == "op" && r.chance(250)) l.set("cont", 1);
    return p;
}
static void run_session(Run &run) {
    const Plan &p = run.plan; world(); if (!make_have(run, "I02")) return;
    bool scarce = false; for (auto l: p.all("fault")) if (l->get("kind") == "alloc") scarce = true; // then a line may fail before it is complete
    // typed lines, and the commands they make up
    vector<string> typed; struct Cmd { string text; size_t last; string name; bool create; }; vector<Cmd> cmds;
    for (auto l: p.all("op")) {
        string t = op_text(p, *l, true); string name = l->get("name"); bool create = l->get("k") == "create";
        if (l->num("cont") && !scarce && t.find(' ') != string::npos && t.find('#') == string::npos) {
            Rng r((u64) l->num("ws")); string joined, line; bool quote = false;
            for (char c: t) { if (c == '"') quote = !quote; if (c == ' ' && !quote && r.chance(400)) { typed.push_back(line + (r.chance(300) ? " \\" : "\\") + (r.chance(200) ? "  " : "")); joined += line + "\n"; line.clear(); } else line += c; }
            typed.push_back(line); cmds.push_back({joined + line, typed.size() - 1, name, create});
        } else { typed.push_back(spread(t, (u64) l->num("ws"), false)); cmds.push_back({t, typed.size() - 1, name, create}); }
    }
    string world0 = fs::snapshot();
    auto ref = run.boot("model", [&] { for (auto &c: cmds) { Answer a = solo(c.text); note("model", pack(a)); if (a.exit) break; } }, false);
    if (!ref.ok()) return run.fail("I02-died", "a statement ended abnormally: " + ref.describe());
    vector<Answer> want; for (auto &x: run.notes_of("model")) want.push_back(unpack(x));
    u64 after = fs::digest(REPO); fs::restore(world0);
    bool exits = !want.empty() && want.back().exit;
    auto b = run.boot("session", [&] {
        arm(false); Keyboard k; k.lines = typed; k.faults = true; auto old = std::cin.rdbuf(&k); string what;
        try { happyml::InterpreterSession s(happyml::initializeHappymlParser()); captured_out(); captured_err(); s.interactiveInterpret(); } catch (const std::exception &x) { arm(false); what = string("threw ") + x.what(); }
        arm(false); std::cin.rdbuf(old); k.answered(); note("ended", what.empty() ? "normally" : what); note("asked", std::to_string(k.next));
    }, true);
    bool fired = errors_fired(run) > 0;
    if (!b.ok()) {
        return run.fail("I02-died", "the session ended abnormally: " + b.describe());
    }
    if (run.note("ended") != "normally") return run.fail("I02-ended", "the session ended with an exception: " + run.note("ended"));
    vector<Answer> got; for (auto &x: run.notes_of("answer")) got.push_back(unpack(x)); // got[0] is the greeting, got[i + 1] the answer to line i
    size_t upto = exits ? cmds[want.size() - 1].last + 1 : typed.size();
    string asked = run.note("asked");
    if (fired && exits && upto < typed.size() && got.size() > upto && !got[upto].err.empty()) run.tag("exit-failed"); // reported: the session goes on
    else if (asked != std::to_string(upto)) return run.fail("I02-ended", "the session took " + asked + " lines of " + std::to_string(upto) + (exits ? " up to the exit" : ""));
    if (!exits && !run.has_note("eof")) return run.fail("I02-ended", "the session ended before the end of input");
    std::set<string> unsure; size_t ci = 0;
    for (size_t i = 0; i < upto && i + 1 < got.size(); i++) {
        string out = got[i + 1].out, err = got[i + 1].err;
        if (ci >= want.size()) break;
        bool last = cmds[ci].last == i;
        if (!last) { if (!err.empty() || out.find_first_not_of("> .") != string::npos) return run.fail("I02-continued", "a continued line was answered before it was complete: '" + typed[i] + "'"); continue; }
        auto &w = want[ci]; auto &c = cmds[ci]; ci++;
        if (out.size() >= 2 && out.substr(out.size() - 2) == "> ") out.resize(out.size() - 2);
        if (got[i + 1].faults && scarce) { if (c.create) unsure.insert(c.name); continue; } // what was printed may be incomplete
        if (fired && (unsure.count(c.name) || !err.empty())) { if (!err.empty() && c.create) unsure.insert(c.name); continue; }
        if (w.err.empty() && !err.empty()) return run.fail("I02-answer", "the line '" + short_(c.text, 80) + "' was answered with a failure: " + short_(err));
        if (!w.err.empty() && err.empty()) return run.fail("I02-silent", "the failing line '" + short_(c.text, 80) + "' was answered without an error: '" + short_(out) + "'");
        if (out != w.out) return run.fail("I02-answer", "the line '" + short_(c.text, 80) + "' was answered with '" + short_(out, 80) + "' instead of '" + short_(w.out, 80) + "'");
    }
    if (!fired && fs::digest(REPO) != after) return run.fail("I02-effects", "the session left other files than its lines do one by one");
    run.tag(exits ? "exit" : "eof"); run.judged(hash_str(asked + (fired ? "f" : ""), fs::digest(REPO)));
}

int main(int argc, char **argv) {
    auto der = [](vector<string> boots, bool crash, bool err, bool full, bool alloc) { return [=](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = boots; o.crash = crash; o.err = err; o.full = full; o.alloc = alloc; return derive_faults(p, bc, r, tier, o); }; };
    std::set<string> drop{"rec", "col", "file", "fault"};
    // making the task costs more than executing it: as many runs without faults as with some
    auto few = [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = {"exec"}; o.full = o.alloc = false; o.per_base_quick = 2; return derive_faults(p, bc, r, tier, o); };
    add_property({"D01", gen_create, [](Run &r) { run_create(r, false); }, nullptr, drop, "source tables with random columns, orders, formats and duplicates, read and written in random pieces; the stored dataset compared with the source."});
    add_property({"D02", gen_create, [](Run &r) { run_create(r, true); }, der({"create"}, true, true, true, true), drop, "create dataset with a crash, failing I/O, a full disk or failing allocations at random points; then a restart, a look and a repetition."});
    add_property({"D08", gen_convert, run_convert, der({"convert", "load"}, true, true, true, true), {"rec", "word", "fault"}, "texts of random words, gaps, sentences and lines cut at random limits, and delimited records loaded into memory by all encoders, with short and failing reads and writes, crashes, full disks and failing allocations; cells and records compared with the source."});
    // most I/O of creating a task is its log: half of the faults go to the last steps, which save it
    auto tail = [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) {
        DeriveOpt o; o.boots = {"task"}; o.alloc = false; auto ps = derive_faults(p, bc, r, tier, o);
        auto it = bc.find("task"); if (it == bc.end()) return ps;
        for (auto &q: ps) for (auto &l: q.lines) if (l.type == "fault" && r.chance(600)) {
            string k = l.get("kind"); u64 n = k == "crash" ? it->second.mut : k == "err" ? it->second.io : k == "werr" || k == "full" ? it->second.writes : k == "rerr" ? it->second.reads : k == "oerr" ? it->second.opens : 0;
            if (n) l.set("at", (i64) (n - 1 - r.below(std::min<u64>(n, 60))));
        }
        return ps;
    };
    add_property({"T01", gen_task, run_task, tail, drop, "small learnable datasets, with and without a test dataset, all goals; create task with crashes and failing I/O at random points, most of them while it saves; then a restart, an execution and a repetition."});
    add_property({"T03", gen_quality, run_quality, [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = {"task"}; o.crash = o.full = o.alloc = false; o.per_base_quick = 1; return derive_faults(p, bc, r, tier, o); }, drop, "small learnable datasets with a test dataset whose columns, labels and ranges differ from them; create task with failing reads and writes; the accuracy it reports compared with that of the saved task on the test records."});
    add_property({"T02", gen_exec, run_exec, few, drop, "small learnable datasets and the tasks made of them, executed on the same or another dataset and on single inputs, with failing reads and after removing files; every result compared with the saved model's own prediction."});
    std::set<string> drop2{"op", "rec", "fault"};
    add_property({"I01", gen_script, run_script, [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int) {
        vector<Plan> out; Plan q = p; (void) bc; static const vector<string> ks{"err", "oerr", "rerr"}; // the first accesses are those to the script
        for (int i = 0; i < 2; i++) { q = p; string k = r.pick(ks); q.add("fault").set("boot", "script").set("kind", k).set("at", 0).set("a", k == "oerr" ? EACCES : EIO).set("b", 0); out.push_back(q); }
        return out; }, drop2, "random scripts of creating, printing, executing, helping, failing, malformed and exit statements with random white space, line ends and comments, missing and unreadable files; compared with the statements executed one by one."});
    add_property({"I02", gen_session, run_session, der({"session"}, false, true, true, true), drop2, "random interactive sessions with empty, malformed, failing and continued lines, with failing I/O, full disks and failing allocations while a line is executed; every answer compared with the line executed on its own."});
    return main_entry(argc, argv);
}
