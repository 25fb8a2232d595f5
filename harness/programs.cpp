// The programs: P01 happyml run with scripts or interactively, create_tokenizer run on a text.
#include "scriptkit.hpp"
#include "tokgen.hpp"
#define main happyml_main
#include "main.cpp"
#undef main
#define main tokenizer_main
#include "create_tokenizer.cpp"
#undef main

static Plan gen_program(Rng &r, u64, int) {
    Plan p; gen_env(p, r);
    if (r.chance(400)) { // create_tokenizer
        static const vector<string> args{"given", "given", "given", "given", "given", "given", "given", "given", "given", "given", "given", "given", "none", "blank", "absent"};
        p.add("conf").set("what", "tokens").set("args", r.pick(args)).set("old", r.chance(600)).set("others", r.chance(400));
        string alpha = gen_alpha(r); gen_history(p, r, alpha, "", 1, true, 0); gen_history(p, r, alpha, "old", 1, true, 0); gen_probes(p, r, alpha);
        for (auto &l: p.lines) if ((l.type == "step" || l.type == "oldstep") && l.get("k") == "train") l.set("k", r.chance(600) ? "file" : "folder");
        for (auto &l: p.lines) if (l.type == "text" && r.chance(300)) l.set("times", r.range(2, 9));
        return p;
    }
    gen_ops(p, r, false); p.add("conf").set("what", r.chance(150) ? "session" : "scripts"); size_t n = r.chance(150) ? 1 : 2 + r.below(3);
    static const vector<string> fl{"/work/src/script", "script.txt ", "../src/my script"};
    for (auto &l: p.lines) if (l.type == "op") { l.set("file", (i64) r.below(n)); if (l.get("k") == "bad" && r.chance(700)) { l.set("k", "help").set("topic", "tasks"); } }
    if (r.chance(350)) { auto &x = p.add("op"); x.set("k", "exit").set("ws", (i64) r.below(1000)).set("file", (i64) r.below(n)); }
    for (size_t i = 0; i < n; i++) p.add("script").set("i", (i64) i).set("path", r.pick(fl) + std::to_string(i)).set("absent", r.chance(70)).set("twice", r.chance(80));
    return p;
}
static int call(int (*f)(int, char **), const vector<string> &args) {
    vector<char *> v; { NoSim ns; for (auto &a: args) v.push_back(strdup(a.c_str())); v.push_back(nullptr); }
    return f((int) args.size(), v.data());
}
static ssize_t nowhere(void *, const char *, size_t n) { return (ssize_t) n; }
static void quiet_printf() { NoSim ns; stdout = fopencookie(nullptr, "w", cookie_io_functions_t{nullptr, nowhere, nullptr, nullptr}); }

// ---- create_tokenizer
static void run_tokens(Run &run) {
    const Plan &p = run.plan; world(); auto &c = *p.first("conf"); auto steps = steps_of(p, "", true), olds = steps_of(p, "old", true); if (steps.empty() || olds.empty()) return;
    vector<string> probes; for (auto l: p.all("probe")) probes.push_back(l->get("v"));
    auto codes = [&](Model &m) { string s; for (auto &t: probes) { auto x = m.encode(t); s += std::to_string(x.size()) + ":" + string((const char *) x.data(), x.size() * 2); } return s; };
    auto trained = [&](const string &tag, const Step &s) { auto b = run.boot(tag, [&] { Model m("default", false); learn(m, s); note(tag, codes(m)); }, false); if (!b.ok()) run.fail("P01-died", "training a tokenizer ended abnormally: " + b.describe()); return run.note(tag); };
    bool had = c.num("old"); string want = trained("ref", steps[0]), old; if (run.failed()) return;
    if (had) { old = trained("oldref", olds[0]); if (run.failed()) return; auto b = run.boot("old", [&] { quiet_printf(); note("old", std::to_string(call(tokenizer_main, {"create_tokenizer", olds[0].path}))); }, false); if (!b.ok()) return run.fail("P01-died", "create_tokenizer ended abnormally: " + b.describe()); if (run.note("old") != "0") had = false; }
    if (c.num("others")) { fs::put(REPO + "/default_tokens.txt", "mine"); fs::put(REPO + "/datasets/d/x", "mine too"); }
    std::map<string, string> keep; for (auto &f: fs::list_files("/work")) if (f.find("/default_token_encoder/") == string::npos) keep[f] = fs::get(f);
    u64 encoder = fs::digest(REPO + "/default_token_encoder");
    string how = c.get("args"); bool empty = steps[0].kind == "folder" && steps[0].texts.empty();
    vector<string> args{"create_tokenizer"}; if (how == "given") args.push_back(steps[0].path); else if (how == "blank") args.push_back(""); else if (how == "absent") args.push_back("/work/src/absent.txt");
    auto a = run.boot("make", [&] { quiet_printf(); arm(true); int st = -1; try { st = call(tokenizer_main, args); } catch (const std::exception &) { st = -2; } arm(false); note("status", std::to_string(st)); }, true);
    if (!a.ok() && a.kind != BootResult::Crashed) return run.fail("P01-died", "create_tokenizer ended abnormally: " + a.describe());
    string said = run.note("status", "crashed"); bool fired = errors_fired(run) > 0, reading = fired && a.ok(); for (auto &f: run.res.fired) if (f.first.rfind("error-", 0) == 0 && f.first != "error-read") reading = false; else if (f.first == "alloc-fail" || f.first == "disk-full") reading = false;
    if (said == "-2") return run.fail("P01-escaped", "an exception left create_tokenizer's main");
    for (auto &k: keep) if (!fs::exists(k.first) || fs::get(k.first) != k.second) return run.fail("P01-other", "create_tokenizer changed or removed " + k.first);
    run.tag("tokens-" + how + "-" + (said == "0" ? "done" : said == "crashed" ? said : "refused"));
    auto b = run.boot("look", [&] { arm(false); auto m = happyml::load_default_byte_pair_encoder("../happyml_repo"); note("look", m ? "1" + codes(*m) : "0"); }, false);
    if (!b.ok()) return run.fail("P01-died", "loading the default tokenizer ended abnormally: " + b.describe());
    string got = run.note("look"); bool is_new = got == "1" + want, is_old = had && got == "1" + old, none = got == "0";
    if (how != "given") {
        if (said == "0") return run.fail("P01-status", "create_tokenizer without a text to train on (" + how + ") reports success");
        if (fs::digest(REPO + "/default_token_encoder") != encoder) return run.fail("P01-spoiled", "create_tokenizer without a text to train on (" + how + ") changed the tokenizer there was");
    } else if (said == "0") {
        if (!is_new) return run.fail(fired ? "P01-unreported" : "P01-tokens", string("create_tokenizer reports success, but ") + (none ? "there is no default tokenizer" : is_old ? "the default tokenizer is the earlier one" : "the default tokenizer gives other codes than training on the text does"));
    } else {
        if (!fired && a.ok() && !empty) return run.fail("P01-refused", "create_tokenizer fails without any fault, with status " + said);
        if (!is_new && !is_old && !none) return run.fail("P01-partial", "after create_tokenizer " + string(a.ok() ? "failed" : "crashed") + " the default tokenizer is neither the new nor the earlier one");
        if ((reading || (!fired && a.ok())) && fs::digest(REPO + "/default_token_encoder") != encoder) return run.fail("P01-spoiled", "create_tokenizer could not read the text, but changed the tokenizer there was");
    }
    run.judged(hash_str(how + said + got));
}

// ---- happyml
static string without(const string &out, const vector<string> &paths) { // the lines that announce a script are not judged
    string s; std::istringstream in(out); string line; bool last = !out.empty() && out.back() == '\n';
    while (std::getline(in, line)) { bool drop = false; for (auto &q: paths) if (line.size() >= q.size() && line.size() < q.size() + 12 && line.compare(line.size() - q.size(), q.size(), q) == 0) drop = true; if (!drop) s += line + "\n"; }
    if (!last && !s.empty()) s.pop_back(); return s;
}
static u64 datasets() { u64 h = 1; for (auto &f: fs::list_files(REPO)) if (f.size() > 12 && f.substr(f.size() - 12) == "/dataset.bin") h = hash_str(f + fs::get(f), h); return h; } // left-over files are not judged after a failing removal
static void run_scripts(Run &run) {
    const Plan &p = run.plan; world(); if (!make_have(run, "P01")) return; bool session = p.get("conf", "what") == "session";
    vector<string> paths; std::map<string, string> content; std::set<string> absent; vector<string> typed; bool bad = false, exits = false;
    for (auto l: p.all("script")) {
        string path = l->get("path"), text; vector<string> t; paths.push_back(path);
        for (auto o: p.all("op")) if (o->num("file") == l->num("i")) { string x = op_text(p, *o, session, t.empty()); t.push_back(x); if (o->get("k") == "bad") bad = true; if (o->get("k") == "exit") exits = true; text += spread(x, (u64) o->num("ws"), true) + "\n"; typed.push_back(x); }
        if (l->num("twice")) paths.push_back(path);
        if (l->num("absent")) absent.insert(path); else fs::put(path, text);
    }
    if (paths.empty()) return;
    string world0 = fs::snapshot(); u64 before = fs::digest(REPO);
    // the model: one session, each script on its own account
    auto ref = run.boot("model", [&] {
        if (session) {
            Keyboard k; k.lines = typed; k.faults = false; auto old = std::cin.rdbuf(&k); captured_out(); captured_err();
            { happyml::InterpreterSession s(happyml::initializeHappymlParser()); s.interactiveInterpret(); }
            std::cin.rdbuf(old); k.answered(); return;
        }
        auto s = std::make_shared<happyml::InterpreterSession>(happyml::initializeHappymlParser()); captured_out(); captured_err();
        for (auto &x: paths) {
            Answer a; string what; bool threw = false; try { a.exit = s->interpretFile(x); } catch (const std::exception &) { threw = true; }
            a.out = captured_out(); a.err = captured_err(); note("answer", pack(a)); note("threw", threw ? "1" : "0"); note("digest", std::to_string(fs::digest(REPO))); if (threw || a.exit) break;
        }
    }, false);
    if (!ref.ok()) return run.fail("P01-died", "a script ended abnormally: " + ref.describe());
    vector<Answer> want; for (auto &x: run.notes_of("answer")) want.push_back(unpack(x)); auto threw = run.notes_of("threw"), digests = run.notes_of("digest"); run.notes.clear();
    u64 after = fs::digest(REPO), made = datasets(); fs::restore(world0);
    vector<string> args{"happyml"}; if (!session) for (auto &x: paths) args.push_back(x);
    auto b = run.boot("happyml", [&] {
        quiet_printf(); arm(false); Keyboard k; std::streambuf *old = nullptr; if (session) { k.lines = typed; k.faults = false; old = std::cin.rdbuf(&k); }
        captured_out(); captured_err(); int st = -1; if (!session) arm(true); try { st = call(happyml_main, args); } catch (const std::exception &) { st = -2; } arm(false);
        if (session) { std::cin.rdbuf(old); k.answered(); } else { Answer a; a.out = captured_out(); a.err = captured_err(); note("answer", pack(a)); }
        note("status", std::to_string(st));
    }, true);
    if (!b.ok()) return run.fail("P01-died", "happyml ended abnormally: " + b.describe());
    string st = run.note("status"); if (st == "-2") return run.fail("P01-escaped", "an exception left happyml's main");
    vector<Answer> got; for (auto &x: run.notes_of("answer")) got.push_back(unpack(x)); bool fired = errors_fired(run) > 0;
    if (session) {
        run.tag("session"); if (st != "0") return run.fail("P01-status", "an interactive session ended with status " + st);
        if (got.size() != want.size()) return run.fail("P01-session", "happyml without arguments took " + std::to_string(got.size()) + " lines, the session takes " + std::to_string(want.size()));
        for (size_t i = 0; i < got.size(); i++) if (got[i].out != want[i].out || got[i].err.empty() != want[i].err.empty()) return run.fail("P01-session", "happyml without arguments answers line " + std::to_string(i) + " otherwise than the session");
        if (fs::digest(REPO) != after) return run.fail("P01-effects", "happyml without arguments left other files than the session");
        run.judged(hash_str(std::to_string(got.size()), after)); return;
    }
    if (got.empty()) return; string all, first; bool fails = false, died = false, exit_asked = false; size_t n = want.size();
    for (size_t i = 0; i < n; i++) { bool f = !want[i].err.empty() && threw[i] != "1"; if (!fails) first += want[i].out; all += want[i].out; fails = fails || f; died = died || threw[i] == "1"; exit_asked = exit_asked || want[i].exit; }
    string out = without(got[0].out, paths); all = without(all, paths); first = without(first, paths); (void) bad; (void) exits;
    run.tag(fired ? "scripts-fault" : died ? "scripts-absent" : fails ? "scripts-fails" : exit_asked ? "scripts-exit" : "scripts-complete");
    auto faults = p.all("fault"); // the first access is the one to the first script
    if (fired && errors_fired(run) == 1 && faults.size() == 1 && faults[0]->num("at") == 0 && (faults[0]->get("kind") == "oerr" || faults[0]->get("kind") == "rerr") && !absent.count(paths[0])) {
        run.tag("scripts-unreadable");
        if (st == "0") return run.fail("P01-status", "the first script cannot be read, but happyml ended with status 0");
        if (fs::digest(REPO) != before) return run.fail("P01-effects", "the first script cannot be read, but statements were executed");
        run.judged(13); return;
    }
    if (fired) {
        bool scarce = run.res.fired.count("alloc-fail"); // what was printed may have been lost
        if (!scarce && st == "0" && got[0].err.empty() && !fails && !died && (out != all || datasets() != made)) return run.fail("P01-silent", "a script could not be read or failed, but happyml reported nothing and ended with status 0");
        run.judged(11); return;
    }
    if (fails) { // whether the scripts after one that failed are executed is not said
        if (out.compare(0, first.size(), first) != 0) return run.fail("P01-output", "the scripts up to a failing one printed '" + short_(out) + "' where they print '" + short_(first) + "' on their own");
        if (got[0].err.empty()) return run.fail("P01-silent", "a script failed, but happyml reported nothing");
        run.judged(hash_str(first, 12)); return;
    }
    if (died && st == "0") return run.fail("P01-status", "script " + paths[n - 1] + " cannot be executed, but happyml ended with status 0");
    if (!died && st != "0") return run.fail("P01-status", "every script succeeded, but happyml ended with status " + st);
    if (died && got[0].err.empty() && got[0].out.find(paths[n - 1]) == string::npos) return run.fail("P01-silent", "a script cannot be executed, but happyml reported nothing");
    if (died) { if (out.compare(0, all.size(), all) != 0) return run.fail("P01-output", "the scripts before a missing one printed something else than on their own"); }
    else if (out != all) return run.fail("P01-output", "happyml printed '" + short_(out) + "' where its scripts one after the other print '" + short_(all) + "'");
    if (fs::digest(REPO) != after) return run.fail("P01-effects", died ? "after a missing script others were executed, or the ones before it were not" : exit_asked ? "happyml executed more or less than the scripts up to the exit" : "happyml left other files than its scripts one after the other do");
    run.judged(hash_str(all + st, after));
}
static void run_program(Run &run) { if (!run.plan.first("conf")) return; if (run.plan.get("conf", "what") == "tokens") run_tokens(run); else run_scripts(run); }

int main(int argc, char **argv) {
    auto der = [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) {
        DeriveOpt o; o.alloc = true; bool tok = p.get("conf", "what") == "tokens"; if (tok) o.boots = {"make"}; else { o.boots = {"happyml"}; o.crash = false; o.per_base_quick = 2; o.per_base_thorough = 6; }
        auto v = derive_faults(p, bc, r, tier, o); if (!tok && r.chance(500)) { Plan q = p; bool open = r.chance(400); q.add("fault").set("boot", "happyml").set("kind", open ? "oerr" : "rerr").set("at", 0).set("a", open ? EACCES : EIO).set("b", 0); v.push_back(q); }
        return v;
    };
    add_property({"P01", gen_program, run_program, der, {"op", "rec", "script", "step", "text", "oldtext", "probe", "fault"}, "the programs called with random scripts (several, missing, failing, exiting, given twice), without arguments at a keyboard, and with texts and folders to train the default tokenizer on, over an earlier one, with crashes, failing I/O, full disks and failing allocations; compared with the scripts executed one by one and with a tokenizer trained without faults."});
    return main_entry(argc, argv);
}
