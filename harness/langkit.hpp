// Creating datasets and tasks with the statements of the language, and executing tasks.
#pragma once
#include "simkit.hpp"
#include "ml/happyml_dsl.hpp"
#include "lang/happyml_script_init.hpp"
#include "lang/interpreter.hpp"
#include "tables.hpp"
#include <sys/resource.h>

static const string REPO = "/work/happyml_repo", RUN = "/work/run";
static string short_(const string &s, size_t n = 160) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
static u64 errors_fired(Run &run) {
    u64 n = 0;
    for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "disk-full" || f.first == "alloc-fail") n += f.second;
    return n;
}
static void world() { fs::mkdirs(RUN); fs::mkdirs("/work/src"); fs::mkdirs("/tmp"); fs::set_cwd(RUN); }
static string dataset_bin(const string &name) { return REPO + "/datasets/" + name + "/dataset.bin"; }

// Runs the statement and tells how it went: "ok", "failed: ..." or "threw: ...".
static string do_create(const Table &t, bool script) {
    string text; { NoSim ns; text = t.statement(); }
    try {
        if (script) {
            auto parsed = happyml::initializeHappymlParser()->parse(text);
            if (!parsed->isSuccessful()) return "unparsed: " + parsed->getMessage();
            auto ctx = make_shared<happyml::ExecutionContext>();
            auto r = parsed->getExecutable()->execute(ctx); arm(false);
            return r->isSuccessful() ? r->exitRequested() ? "exits" : "ok" : "failed: " + r->getMessage();
        }
        happyml::CreateDatasetStatement st(t.name, "file://" + t.path, t.header, t.column_groups(), true);
        auto r = st.execute(make_shared<happyml::ExecutionContext>()); arm(false);
        return r->isSuccessful() ? r->exitRequested() ? "exits" : "ok" : "failed: " + r->getMessage();
    } catch (const std::exception &x) { arm(false); return string("threw: ") + x.what(); }
}
// ================================================================= T01, T02
// A small table whose labels can be learnt: t=0 to train with, t=1 (optional) to test with, t=2 (optional) to execute on.
static void gen_task_tables(Plan &p, Rng &r, bool image_ok, bool more, bool tested = false) {
    int classes = r.chance(750) ? 2 : 3; vector<Line> cols; size_t at = 0; bool image = image_ok && r.chance(200);
    size_t ng = image ? 1 : 1 + r.below(3), ne = r.chance(tested ? 600 : 800) ? 1 : 2;
    static const vector<string> gn{"size", "colour", "Weight", "f"}, en{"kind", "Other"};
    for (size_t i = 0; i < ng + ne; i++) {
        Line l("col"); string type = i >= ng ? ("label") : image ? "image" : r.chance(600) ? "number" : "label";
        l.set("use", i < ng ? "given" : "expected").set("type", type).set("name", i < ng ? gn[i] : en[i - ng]).set("at", (i64) at);
        if (type == "image") l.set("r", r.range(3, 4)).set("c", r.range(3, 4)).set("ch", 1); else if (type == "number" && i < ng && r.chance(250)) l.set("r", 1).set("c", r.range(1, 3)).set("ch", 1);
        at += (size_t) (l.num("r", 1) * l.num("c", 1) * l.num("ch", 1)); cols.push_back(l);
    }
    static const vector<string> nm{"train", "test", "other"}; i64 odd = r.chance(250) ? 2 : 0;
    static const vector<string> goals{"speed", "speed", "speed", "speed", "speed", "speed", "accuracy", "memory"};
    string goal = r.pick(goals); bool labels = true; for (auto &l: cols) if (l.get("type") != "label") labels = false;
    if (goal == "memory" && (!labels || tested)) goal = "speed"; if (tested && r.chance(750)) goal = "speed";
    bool test = goal == "memory" ? false : r.chance(image ? 100 : goal == "speed" || labels ? 300 : 50), bad = test && r.chance(30); if (tested) { test = true; bad = r.chance(40); } if (!test) classes = 2;
    int inf = ng > 1 && !test && r.chance(500) ? (int) r.below(ng) : -1;
    for (int t = 0; t < 3; t++) {
        if (t == 1 && !test) continue;
        if (t == 2 && (!more || !r.chance(700))) continue;
        p.add("table").set("t", t).set("name", nm[(size_t) t]).set("path", "/work/src/" + nm[(size_t) t] + ".csv").set("hdr", 0).set("tsv", 0).set("crlf", 0).set("width", (i64) at).set("odd", odd).set("inf", inf).set("fn", t == 1 && bad ? 2 : 1).set("classes", classes);
        auto own = cols;
        if (t && r.chance(450)) { // the same columns at other places of the source
            for (size_t i = 0; i < own.size(); i++) own[i].set("id", (i64) (i < ng ? i : i - ng));
            auto moved = own; for (size_t i = moved.size(); i > 1; i--) std::swap(moved[i - 1], moved[r.below(i)]);
            size_t to = 0; for (auto &l: moved) for (auto &o: own) if (o.get("name") == l.get("name")) { o.set("at", (i64) to); to += (size_t) (l.num("r", 1) * l.num("c", 1) * l.num("ch", 1)); }
        }
        if (t == 2 && r.chance(200)) { // a dataset the task can't be executed on
            auto &l = own[r.below(ng)]; if (ng > 1 && r.chance(500)) { if (l.get("type") == "number" && l.num("c", 1) > 1) l.set("c", l.num("c") - 1); else l.set("name", "another"); } else l.set("name", "another");
        }
        for (auto l: own) { l.set("t", t); p.lines.push_back(l); }
        size_t n = t == 0 ? (r.chance(60) ? 1 + r.below(3) : 6 + r.below(tested ? 8 : 14)) : 2 + r.below(tested ? 16 : 8); size_t wrong = tested && t == 1 && r.chance(n > 10 ? 700 : 60) ? r.below(n) : n;
        for (size_t i = 0; i < n; i++) { i64 g = t == 1 ? (i64) i : t == 2 ? (i64) r.below((u64) classes * 16) : (i64) i; p.add("rec").set("t", t).set("g", g).set("e", g).set("v", 1).set("q", (i64) r.below(1000)); if (i == wrong) p.lines.back().set("flip", r.range(1, 3)); }
    }
    p.add("task").set("name", r.chance(500) ? "t" : "mytask1").set("goal", goal).set("script", r.chance(300));
}
static bool has_table(const Plan &p, int t) { for (auto l: p.all("table")) if (l->num("t") == t) { for (auto x: p.all("rec")) if (x->num("t") == t) return true; } return false; }
static string quoted(const string &v) { return "\"" + v + "\""; }
using Inputs = std::unordered_map<string, vector<happyml::HappyMLVariant>>;
static string lower_(string s) { for (auto &c: s) c = (char) tolower(c); return s; }
static string num_text(double v) { char b[40]; snprintf(b, 40, "%.9g", v); return b; }
static Inputs inputs_of(const Table &t, size_t rec) {
    Inputs in; NoSim ns;
    for (size_t i = 0; i < t.g.size(); i++) { auto &c = t.given[rec][i]; vector<happyml::HappyMLVariant> v; if (c.is_label) v.emplace_back(c.label); else for (double x: c.nums) v.emplace_back((float) (c.is_image ? std::round(x * 255) : x)); in[lower_(t.g[i].name)] = v; }
    return in;
}
// Runs a statement; "ok", "failed" or "threw: ...". What it printed is left in *out.
static string execute(happyml::ExecutableStatement &st, string *out = nullptr) {
    string s; captured_out();
    try { auto r = st.execute(make_shared<happyml::ExecutionContext>()); arm(false); s = r->isSuccessful() ? r->exitRequested() ? "exits" : "ok" : "failed: " + r->getMessage(); }
    catch (const std::exception &x) { arm(false); s = string("threw: ") + x.what(); }
    NoSim ns; string o = captured_out(); if (s != "ok") { size_t e = o.rfind("Error: "); if (e != string::npos) s += " (" + o.substr(e, o.find(10, e) - e) + ")"; } if (out) *out = o; return s;
}
static string create_task(const Plan &p, string *out = nullptr) {
    auto l = p.first("task"); happyml::CreateTaskStatement st("label", l->get("name"), l->get("goal"), "train", has_table(p, 1) ? "test" : ""); return execute(st, out);
}
static string exec_inputs(const string &task, const Inputs &in, string *out = nullptr) { happyml::ExecuteTaskStatement st(task, "default", "", in); return execute(st, out); }
static string exec_dataset(const string &task, const string &ds, string *out = nullptr) { happyml::ExecuteTaskStatement st(task, "default", ds, {}); return execute(st, out); }
// The same inputs as a statement; how each value is written depends on how.
static string inputs_text(const string &task, const Table &t, size_t rec, u64 how) {
    NoSim ns; Rng r(how); auto str = [&](const string &v) { char q = r.chance(500) ? '"' : '\''; string s(1, q); for (char c: v) { if (c == q) s += '\\'; s += c; } return s + q; };
    auto word = [](const string &v) { for (auto w: {"red", "green", "blue", "x1", "10"}) if (v == w) return true; return false; };
    string s = "execute task " + task + (r.chance(300) ? " using input(" : " using input ("); vector<size_t> order; for (size_t i = 0; i < t.g.size(); i++) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (size_t k = 0; k < order.size(); k++) {
        size_t i = order[k]; auto &c = t.given[rec][i]; string key = t.g[i].name; if (k) s += r.chance(500) ? ", " : ","; s += str(key) + (r.chance(500) ? ": " : ":");
        vector<string> v; if (c.is_label) v.push_back(word(c.label) && r.chance(500) ? c.label : str(c.label));
        else for (double x: c.nums) { char b[60]; double y = (double) (float) (c.is_image ? std::round(x * 255) : x); snprintf(b, 60, c.is_image ? "%.0f" : "%.15f", y); string n = b; v.push_back(n[0] == '-' || r.chance(200) ? str(n) : n); }
        bool list = v.size() > 1 || r.chance(300); string joined; for (auto &x: v) joined += (joined.empty() ? "" : r.chance(500) ? ", " : ",") + x; s += list ? "[" + joined + "]" : joined;
    }
    return s + ")\n";
}
static string exec_text(const string &text, string *out = nullptr) {
    auto parser = happyml::initializeHappymlParser(); auto r = parser->parse(text); if (!r->isSuccessful()) { NoSim ns; return "refused: " + r->getMessage(); }
    auto st = r->getExecutable(); return execute(*st, out);
}
// Brings the columns of x into the order of t's, by their names. False if it lacks one.
static bool arrange(const Table &t, Table &x) {
    auto side = [](const vector<Group> &want, vector<Group> &gs, vector<Cells> &rows) {
        vector<size_t> at; vector<Group> g;
        for (auto &c: want) { size_t k = 0; while (k < gs.size() && (gs[k].name != c.name || gs[k].type != c.type || gs[k].size() != c.size())) k++; if (k == gs.size()) return false; at.push_back(k); g.push_back(gs[k]); }
        gs = g; for (auto &r: rows) { Cells c; for (size_t k: at) c.push_back(r[k]); r = c; }
        return true;
    };
    return side(t.g, x.g, x.given) && side(t.e, x.e, x.expected);
}
static bool make_datasets(Run &run, const string &P) {
    auto a = run.boot("setup", [&] { for (int t = 0; t < 3; t++) if (has_table(run.plan, t)) { Table x(run.plan, t); fs::put(x.path, x.source); string s = do_create(x, false); if (s != "ok") note("setup", s); } }, false);
    if (!a.ok() || run.has_note("setup")) { run.fail(P + "-setup", "the datasets could not be made: " + a.describe() + " " + run.note("setup")); return false; }
    return true;
}
static vector<vector<string>> parse_rows(const string &out, size_t columns, vector<string> *header = nullptr) {
    vector<vector<string>> rows; size_t at = out.find("Results:"); if (at == string::npos) return rows;
    std::istringstream in(out.substr(at)); string line; std::getline(in, line); bool first = true;
    while (std::getline(in, line)) {
        vector<string> cells; size_t b = 0; for (size_t i; (i = line.find('|', b)) != string::npos; b = i + 1) cells.push_back(trim_(line.substr(b, i - b))); cells.push_back(trim_(line.substr(b)));
        if (cells.size() != columns) cells.insert(cells.begin(), "?");
        if (first && header) *header = cells; else rows.push_back(cells); first = false;
    }
    return rows;
}
