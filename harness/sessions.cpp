// N01: several processes, each with a session, in one repository at the same time.
#include "scriptkit.hpp"
#include "coop.hpp"

static Plan gen_sessions(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r); bool tasks = r.chance(50); size_t n = r.chance(700) ? 2 : 3;
    p.add("conf").set("n", (i64) n).set("tasks", tasks);
    if (tasks) gen_task_tables(p, r, false, false);
    else { TableOpt o; o.max_rows = r.chance(200) ? 20 : 5; o.odd = false; gen_table(p, r, 0, "have", "/work/src/s0", 0, o); gen_table(p, r, 1, "fresh", "/work/src/s1", 0, o); gen_table(p, r, 2, "more", "/work/src/s2", 0, o); }
    vector<string> made; bool replaced = false;
    for (size_t s = 0; s < n; s++) {
        size_t k = 1 + r.below(tasks ? 2 : tier ? 6 : 4);
        for (size_t i = 0; i < k; i++) {
            auto &l = p.add("op"); u64 d = r.below(100); l.set("s", (i64) s);
            if (tasks) { if (d < 50) l.set("k", "task").set("name", "u" + std::to_string(s) + std::to_string(i)); else if (d < 85) l.set("k", "execute").set("rec", (i64) r.below(100)).set("all", r.chance(400)); else l.set("k", "print").set("name", "train").set("raw", r.chance(500)).set("limit", -1); continue; }
            if (d < 55) {
                string name = "d" + std::to_string(s) + std::to_string(i); bool replace = !replaced && r.chance(120); if (replace) { name = "have"; replaced = true; } else made.push_back(name);
                l.set("k", "create").set("name", name).set("t", replace ? 1 : (i64) r.below(3)).set("how", r.chance(60) ? "column" : r.chance(40) ? "nofile" : "ok");
            } else if (d < 90) l.set("k", "print").set("name", made.empty() || r.chance(400) ? "have" : r.pick(made)).set("raw", r.chance(500)).set("limit", r.chance(300) ? r.range(0, 4) : -1);
            else if (d < 95) l.set("k", "help").set("topic", "datasets");
            else l.set("k", "bad").set("n", (i64) r.below(12));
        }
    }
    // turns: some plans change sides at nearly every access, others rarely
    static const vector<i64> gaps{0, 1, 3, 8, 25, 60}; i64 gap = r.pick(gaps); size_t m = tasks ? 30 + r.below(300) : 1 + r.below(gap < 3 ? 250 : 60);
    for (size_t i = 0; i < m; i++) p.add("turn").set("after", (i64) r.below((u64) (2 * gap + 1)) + (r.chance(50) ? (i64) r.below(80) : 0)).set("to", (i64) r.below(n));
    return p;
}
static string text_of(const Plan &p, const Line &l) {
    if (l.get("k") == "create") { Table t(p, (int) l.num("t")); t.name = l.get("name"); if (l.get("how") == "nofile") t.path = "/work/src/absent.csv"; if (l.get("how") == "column") t.groups.back().start += 90; return t.statement(); }
    return op_text(p, l, true);
}
static Answer answer_now() { NoSim ns; Answer a; a.out = coop_out(); a.err = coop_err(); return a; }
static string shown_(const Answer &a) { return "'" + short_(a.out, 90) + (a.err.empty() ? "" : " / " + short_(a.err, 60)) + "'"; }
static void run_sessions(Run &run) {
    const Plan &p = run.plan; auto cf = p.first("conf"); if (!cf) return; world(); size_t n = (size_t) cf->num("n", 2); bool tasks = cf->num("tasks");
    vector<vector<const Line *>> ops(n); for (auto l: p.all("op")) if ((size_t) l->num("s") < n) ops[(size_t) l->num("s")].push_back(l);
    std::map<const Line *, string> texts; string tgoal = p.get("task", "goal"); Inputs in;
    if (tasks) {
        if (!has_table(p, 0) || !p.first("task")) return; Table t(p, 0); if (t.g.empty() || t.e.empty() || t.given.size() < 4) return;
        if (!make_datasets(run, "N01")) return;
        auto a = run.boot("train", [&] { limit_io(3000000); happyml::CreateTaskStatement st("label", "t", "speed", "train", ""); note("train", execute(st)); }, false); if (!a.ok() || run.note("train") != "ok") { run.tag("no-task"); return; }
    } else {
        for (int t = 0; t < 3; t++) { Table x(p, t); if (x.g.empty() || x.given.empty()) return; fs::put(x.path, x.source); }
        Table t0(p, 0); auto a = run.boot("setup", [&] { note("setup", do_create(t0, false)); }, false);
        if (!a.ok() || run.note("setup") != "ok") return run.fail("N01-setup", "the dataset could not be made: " + a.describe() + " " + run.note("setup"));
    }
    for (auto &v: ops) for (auto l: v) if (l->get("k") != "task" && l->get("k") != "execute") texts[l] = text_of(p, *l);
    std::set<string> names; for (auto &v: ops) for (auto l: v) if (l->get("k") == "print") names.insert(l->get("name")); else if (l->get("k") == "create" && l->get("how") == "ok") names.insert(l->get("name"));
    auto act = [&](happyml::InterpreterSession &s, const Line *l) {
        string k = l->get("k"), what; bool ok = true;
        try {
            if (k == "task") { happyml::CreateTaskStatement st("label", l->get("name"), tgoal, "train", has_table(p, 1) ? "test" : ""); auto r = st.execute(make_shared<happyml::ExecutionContext>()); ok = r->isSuccessful(); if (!ok) what = "failed: " + r->getMessage(); }
            else if (k == "execute") { Table t(p, 0); Inputs in = inputs_of(t, (size_t) l->num("rec") % t.given.size()); happyml::ExecuteTaskStatement st("t", "default", l->num("all") ? "train" : "", l->num("all") ? Inputs{} : in); auto r = st.execute(make_shared<happyml::ExecutionContext>()); if (!r->isSuccessful()) what = "failed: " + r->getMessage(); }
            else s.interpretCommands(texts[l], "cli");
        } catch (const std::exception &x) { what = string("threw ") + x.what(); }
        Answer a = answer_now(); NoSim ns; a.err += what; if (k == "task") { a.out.clear(); } return a;
    };
    auto play = [&](const string &tag, const vector<Turn> &turns, bool faults) {
        return run.boot(tag, [&] {
            arm(false); limit_io(6000000); vector<std::function<void()>> procs;
            for (size_t s = 0; s < n; s++) procs.push_back([&, s] { happyml::InterpreterSession session(happyml::initializeHappymlParser()); for (auto l: ops[s]) { Answer a = act(session, l); a.faults = coop_faults(s); note(tag + std::to_string(s), pack(a)); } });
            if (faults) arm(true);
            auto r = cooperate(procs, turns); arm(false); note(tag + "-switches", std::to_string(r.switches)); string hit; for (size_t s = 0; s < n; s++) hit += coop_faults(s) ? '1' : '0'; note(tag + "-hit", hit);
        }, faults);
    };
    auto prints = [&](const string &tag) { // what printing each dataset answers now
        std::map<string, string> m; auto b = run.boot(tag, [&] { for (auto &x: names) note(tag + "/" + x, pack(solo("print raw " + x))); for (auto &v: ops) for (auto l: v) if (l->get("k") == "print") note(tag + "=" + texts[l], pack(solo(texts[l]))); }, false);
        if (!b.ok()) run.fail("N01-died", "printing ended abnormally: " + b.describe());
    };
    string world0 = fs::snapshot(); prints("old"); if (run.failed()) return;
    auto ref = play("model", {}, false); if (!ref.ok()) return run.fail("N01-died", "the sessions end abnormally one after the other: " + ref.describe());
    auto others = [&] { u64 h = 1; for (auto &f: fs::list_all("/")) { if (f.find("/tasks/") != string::npos || f.find("/logs/") != string::npos) continue; h = hash_str(f, h); if (f.back() != '/') h = hash_str(fs::get(f), h); } return h; };
    u64 want_world = others(); prints("new"); if (run.failed()) return;
    fs::restore(world0); vector<Turn> turns; for (auto l: p.all("turn")) turns.push_back({(u64) l->num("after"), (size_t) l->num("to")});
    auto b = play("live", turns, true); bool crashed = b.kind == BootResult::Crashed; string hit = run.note("live-hit");
    if (!b.ok() && !crashed) return run.fail("N01-died", "sessions that run at the same time end abnormally: " + b.describe());
    bool fired = errors_fired(run) > 0; run.tag(crashed ? "crashed" : fired ? "errors" : "undisturbed"); run.tag(tasks ? "tasks" : "datasets"); if (!crashed) run.tag("switches", std::stoull(run.note("live-switches", "0")));
    // who makes what
    std::map<string, size_t> maker; for (size_t s = 0; s < n; s++) for (auto l: ops[s]) if (l->get("k") == "create" && l->get("how") == "ok") maker[l->get("name")] = s;
    string all;
    for (size_t s = 0; s < n; s++) {
        auto got = run.notes_of("live" + std::to_string(s)), want = run.notes_of("model" + std::to_string(s)); std::set<string> mine;
        if (!crashed && got.size() != ops[s].size()) return run.fail("N01-died", "session " + std::to_string(s) + " did not end");
        for (size_t i = 0; i < got.size() && i < want.size(); i++) {
            Answer g = unpack(got[i]), w = unpack(want[i]); auto l = ops[s][i]; string k = l->get("k"), name = l->get("name"), what = k == "task" || k == "execute" ? k + " task " + name : texts[l];
            all += got[i]; auto m = maker.find(name); bool hurt = g.faults > 0 || (crashed && fired);
            if (k == "create" && l->get("how") == "ok" && g.err.empty()) mine.insert(name);
            if (hurt) break; // what it does after an error is judged by other properties
            if (k == "print" && !tasks) {
                Answer a = unpack(run.note("old=" + what)), c = unpack(run.note("new=" + what)); bool is_old = g.out == a.out && g.err == a.err, is_new = g.out == c.out && g.err == c.err;
                bool own = m != maker.end() && m->second == s, made = mine.count(name);
                if (m == maker.end() ? !is_old : own ? made ? !is_new : !is_old : !(is_old || is_new)) return run.fail("N01-print", "session " + std::to_string(s) + ": " + what + " answers " + shown_(g) + ", but the dataset prints as " + shown_(a) + (m == maker.end() ? "" : " before and " + shown_(c) + " after it is made"));
                continue;
            }
            if (k == "task") { if (g.err.empty() != w.err.empty()) return run.fail("N01-answer", "session " + std::to_string(s) + ": " + what + (g.err.empty() ? " succeeds" : " fails (" + short_(g.err) + ")") + ", other than alone"); continue; }
            if (g.out != w.out || g.err != w.err) return run.fail("N01-answer", "session " + std::to_string(s) + ": " + short_(what, 80) + " answers " + shown_(g) + ", on its own it answers " + shown_(w));
        }
    }
    if (!crashed && !fired && others() != want_world) { // which file
        return run.fail("N01-effects", "the sessions left other files than one after the other");
    }
    prints("end"); if (run.failed()) return;
    for (auto &x: names) {
        string e = run.note("end/" + x), o = run.note("old/" + x), w = run.note("new/" + x); auto m = maker.find(x); bool sure = m == maker.end() || (!crashed && (hit.size() <= m->second || hit[m->second] == '0'));
        if (sure ? e != (m == maker.end() ? o : w) : e != o && e != w) return run.fail("N01-content", "afterwards dataset " + x + " prints as " + shown_(unpack(e)) + " instead of " + shown_(unpack(m == maker.end() ? o : w)));
    }
    if (tasks) {
        Table t(p, 0); vector<string> want; want.push_back("t"); if (!crashed) for (size_t s = 0; s < n; s++) { auto got = run.notes_of("live" + std::to_string(s)); for (size_t i = 0; i < got.size() && i < ops[s].size(); i++) if (ops[s][i]->get("k") == "task" && unpack(got[i]).err.empty()) want.push_back(ops[s][i]->get("name")); }
        auto c = run.boot("use", [&] { for (auto &x: want) { string out, s = exec_inputs(x, inputs_of(t, 0), &out); auto rows = parse_rows(out, t.e.size()); if (s == "ok" && rows.size() < 2) s = "it printed " + out; if (s == "ok") { bool legal = false; for (auto &y: t.expected) if (y[0].label == rows[1][0]) legal = true; if (!legal) s = "it printed " + out; } if (s != "ok") note("unusable", x + ": " + s); } }, false);
        if (!c.ok()) return run.fail("N01-died", "executing a task ended abnormally: " + c.describe());
        if (run.has_note("unusable")) return run.fail("N01-task", "afterwards a task that was made cannot be executed: " + short_(run.note("unusable")));
    }
    run.judged(hash_str(all, others()));
}

int main(int argc, char **argv) {
    auto der = [](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) {
        DeriveOpt o; o.boots = {"live"}; o.full = o.alloc = false; o.per_base_quick = p.num("conf", "tasks") ? 1 : 2; o.per_base_thorough = 4; auto v = derive_faults(p, bc, r, tier, o);
        // the same work with other turns
        for (int i = 0; i < (p.num("conf", "tasks") ? 1 : 4); i++) { Plan q; for (auto &l: p.lines) if (l.type != "turn") q.lines.push_back(l); u64 gap = r.below(30), n = 1 + r.below(gap < 4 ? 250 : 60); for (u64 k = 0; k < n; k++) q.add("turn").set("after", (i64) r.below(2 * gap + 1)).set("to", (i64) r.below((u64) p.num("conf", "n", 2))); v.push_back(q); }
        return v;
    };
    add_property({"N01", gen_sessions, run_sessions, der, {"op", "turn", "rec", "col", "fault"}, "two or three sessions that create, replace, print and execute at the same time; another one goes on at random system calls, with crashes and I/O errors that hit one of them; compared with the sessions one after the other."});
    return main_entry(argc, argv);
}
