// Statements for scripts and sessions, and a keyboard to type them.
#pragma once
#include "langkit.hpp"

// Tables 0 and 1 are sources; the dataset "have" is made of table 0 beforehand. A statement is a plan line "op".
static void gen_ops(Plan &p, Rng &r, bool session) {
    TableOpt o; o.max_rows = 5; o.odd = false;
    gen_table(p, r, 0, "have", "/work/src/s0", 0, o); gen_table(p, r, 1, "fresh", "/work/src/s1", 0, o);
    size_t n = r.chance(100) ? 0 : 1 + r.below(session ? 10 : 7); bool bad = session || r.chance(200);
    for (size_t i = 0; i < n; i++) {
        auto &l = p.add("op"); u64 k = r.below(100);
        if (k < 35) { static const vector<string> nm{"have", "have", "fresh", "fresh", "nosuch", "other"}; l.set("k", "print").set("name", r.pick(nm)).set("raw", r.chance(500)).set("limit", r.chance(400) ? r.range(0, 4) : -1); if (!session && l.get("name") == "nosuch" && r.chance(700)) l.set("name", "have"); }
        else if (k < 55) { static const vector<string> how{"ok", "ok", "ok", "ok", "ok", "nofile", "column"}; l.set("k", "create").set("name", r.chance(800) ? "fresh" : "other").set("how", r.pick(how)); }
        else if (k < 75) { static const vector<string> tp{"dataset", "datasets", "task", "tasks", "future", "me"}; l.set("k", "help").set("topic", r.pick(tp)); }
        else if (k < 80 && (session || r.chance(300))) l.set("k", "execute").set("name", "nosuch").set("input", r.chance(500));
        else if (k < 90 && bad) l.set("k", "bad").set("n", (i64) r.below(12));
        else if (k < 95) l.set("k", "empty").set("n", (i64) r.below(4));
        else if (k < 97) l.set("k", "exit");
        else l.set("k", "help").set("topic", "future");
        l.set("ws", (i64) r.below(100000));
    }
}
static string op_text(const Plan &p, const Line &l, bool session, bool first = false) {
    string k = l.get("k"), name = l.get("name");
    if (k == "print") return "print " + string(l.num("raw") ? "raw " : "pretty ") + name + (l.num("limit") >= 0 ? " limit " + std::to_string(l.num("limit")) : "");
    if (k == "create") { Table t(p, name == "fresh" ? 1 : 0); t.name = name; if (l.get("how") == "nofile") t.path = "/work/src/absent.csv"; if (l.get("how") == "column") t.groups.back().start += 90; return t.statement(); }
    if (k == "help") return "help " + l.get("topic");
    if (k == "execute") return "execute task " + name + (l.num("input") ? " using input (\"size\": 12, colour: \"red\")" : " using dataset have");
    if (k == "exit") return "exit";
    if (k == "empty") { static const vector<string> e{"", "   ", "# nothing to do", "\t# print raw have"}; return e[(size_t) l.num("n") % e.size()]; }
    static const vector<string> b{"frobnicate have", "print", "print raw", "create dataset", "print raw have limit abc", "create dataset x with given number", "create", "execute task", "print raw have limit 99999999999999", "create task label t with goal", "execute task t using input (\"a\": )", "have print raw"};
    // in a script the words may go on with those of the next statement, or go into the address that ends the one before
    size_t n = (size_t) l.num("n") % b.size(); if (!session) { static const std::map<size_t, size_t> alone{{0, 4}, {1, 3}, {2, 7}, {11, 10}}; auto m = alone.find(n); if (m != alone.end() && (n == 1 || n == 2 || !first)) n = m->second; }
    return b[n];
}
// Puts other white space, line ends and comments between the words of a statement.
static string spread(const string &text, u64 seed, bool lines) {
    Rng r(seed + 3); string s; bool quote = false; bool comment = text.find('#') != string::npos;
    for (char c: text) {
        if (c == '"') quote = !quote;
        if (c != ' ' || quote || comment) { s += c; continue; }
        u64 k = r.below(12);
        if (k == 0) s += "  "; else if (k == 1) s += "\t"; else if (k == 2 && lines) s += "\n"; else if (k == 3 && lines) s += "\r\n  "; else if (k == 4 && lines) s += " # and\n"; else s += " ";
    }
    return s;
}
static bool make_have(Run &run, const string &P) {
    Table t0(run.plan, 0), t1(run.plan, 1); fs::put(t0.path, t0.source); fs::put(t1.path, t1.source);
    if (t0.g.empty() || t1.g.empty() || t0.given.empty() || t1.given.empty()) return false;
    auto a = run.boot("setup", [&] { note("setup", do_create(t0, false)); }, false);
    if (!a.ok() || run.note("setup") != "ok") { run.fail(P + "-setup", "the dataset could not be made: " + a.describe() + " " + run.note("setup")); return false; }
    return true;
}
struct Answer { string out, err; bool exit = false; u64 faults = 0; };
static string pack(const Answer &a) { return std::to_string(a.exit) + std::to_string(a.out.size()) + ":" + std::to_string(a.faults) + ":" + a.out + a.err; }
static Answer unpack(const string &s) { Answer a; if (s.size() < 2) return a; a.exit = s[0] == '1'; size_t c = s.find(':'); size_t n = (size_t) std::stoul(s.substr(1, c - 1)); size_t d = s.find(':', c + 1); a.faults = std::stoull(s.substr(c + 1, d - c - 1)); c = d; a.out = s.substr(c + 1, n); a.err = s.substr(c + 1 + n); return a; }
// Each text in a session of its own, one after the other.
static Answer solo(const string &text) {
    Answer a; captured_out(); captured_err(); string what;
    try { happyml::InterpreterSession s(happyml::initializeHappymlParser()); a.exit = s.interpretCommands(text, "script"); } catch (const std::exception &x) { what = string("threw ") + x.what(); }
    NoSim ns; a.out = captured_out(); a.err = captured_err() + what; return a;
}
// What the user types. Delivers a line at a time and keeps what was answered to it.
struct Keyboard : std::streambuf {
    vector<string> lines; size_t next = 0, at = 0; string cur; bool faults; u64 before = 0;
    void answered() { NoSim ns; Answer a; a.faults = faults_fired() - before; before = faults_fired(); a.out = captured_out(); a.err = captured_err(); note("answer", pack(a)); }
    int_type underflow() override {
        // a character at a time, so that faults begin when the line has been taken
        if (at + 1 < cur.size()) at++;
        else {
            arm(false); answered();
            if (next >= lines.size()) { note("eof", "1"); return traits_type::eof(); }
            cur = lines[next++] + "\n"; at = 0;
        }
        setg(cur.data() + at, cur.data() + at, cur.data() + at + 1);
        if (faults && cur[at] == '\n') arm(true);
        return traits_type::to_int_type(cur[at]);
    }
};
