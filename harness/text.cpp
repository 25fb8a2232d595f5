// Text file properties: D03 external sort, D04 delimited round trip, D05 reading a path of text files.
#include "simkit.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/text_file_sorter.hpp"

using namespace sim;

// ---------------------------------------------------------------- generators
static string gen_word(Rng &r) {
    static const vector<string> w{"a", "b", "cat", "dog", "Zed", "12", "3.5", "-7", "alpha beta", "x,y", "10,20", "\"q\"", "~", "aa", "aaa", "é", "12:30", "A"};
    if (r.chance(600)) return r.pick(w);
    string s; size_t n = 1 + r.below(12);
    for (size_t i = 0; i < n; i++) s += (char) (r.chance(800) ? 33 + r.below(94) : 128 + r.below(127));
    return s;
}

// ================================================================= D03
static Plan gen_sort(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    static const vector<string> dirs{"/work", "/work/data", "/work/data", "", "."};
    string dir = r.pick(dirs);
    size_t n = r.chance(100) ? 0 : r.chance(700) ? r.below(12) : r.below(tier ? 400 : 120);
    static const vector<i64> chunks{1, 2, 3, 5, 7, 10, 50, 10000};
    i64 chunk = r.pick(chunks);
    bool hdr = r.chance(500);
    string in = dir.empty() ? "in.csv" : dir + "/in.csv";
    string out = r.chance(700) ? (dir.empty() ? "out.csv" : dir + "/out.csv") : "/work/other/res.csv";
    p.add("sort").set("in", in).set("out", out).set("hdr", hdr).set("chunk", chunk).set("dedup", r.chance(700)).set("term", r.chance(800)).set("oldout", r.chance(250));
    if (hdr) p.add("header").set("v", r.chance(500) ? "zz_header,name" : "aaa");
    int pool = (int) r.range(1, 12);
    vector<string> words; for (int i = 0; i < pool; i++) words.push_back(gen_word(r) + (r.chance(400) ? "," + gen_word(r) : ""));
    for (size_t i = 0; i < n; i++) {
        string v = r.chance(100) ? "" : r.chance(700) ? words[r.below((u64) pool)] : gen_word(r);
        if (r.chance(15)) v = string(r.range(4000, 9000), (char) ('a' + r.below(26))); // longer than a stream buffer
        p.add("row").set("v", v);
    }
    // bystanders, some named like temporary files might be
    size_t nb = r.below(4);
    static const vector<string> names{"chunk_0.txt", "chunk_1.txt", "chunk_2.txt", "notes.txt", "in.csv.bak", "out.csv.tmp", "chunk.txt"};
    for (size_t i = 0; i < nb; i++) {
        string nm = r.pick(names);
        static const vector<string> where{"/work/", "/work/data/", "/", "/work/other/", "/tmp/"};
        p.add("file").set("path", r.pick(where) + nm).set("v", "mine " + std::to_string(r.below(100)) + "\nzz\n");
    }
    return p;
}
static void run_sort(Run &run) {
    const Line &s = *run.plan.first("sort");
    fs::set_cwd("/work");
    fs::mkdirs("/work/data"); fs::mkdirs("/work/other"); fs::mkdirs("/tmp");
    vector<string> rows; bool hdr = s.num("hdr");
    string content, header = run.plan.get("header", "v");
    bool has_header_line = hdr && run.plan.first("header");
    if (has_header_line) content += header + "\n";
    for (auto l: run.plan.all("row")) { rows.push_back(l->get("v")); content += rows.back() + "\n"; }
    if (!s.num("term") && !content.empty()) content.pop_back();
    string in = s.get("in"), out = s.get("out");
    for (auto l: run.plan.all("file")) fs::put(l->get("path"), l->get("v"));
    fs::put(in, content);
    if (s.num("oldout")) fs::put(out, "stale\nstale2\n");
    std::map<string, string> before; for (auto &f: fs::list_files()) before[f] = fs::get(f);
    bool dedup = s.num("dedup");
    // hdr declared but input empty: nothing to say about the header line
    auto b = run.boot("sort", [&] {
        try {
            bool ok = happyml::FileSorter::sort(in, out, hdr, (int) s.num("chunk"), dedup);
            arm(false); note("ret", ok ? "1" : "0");
        } catch (const std::exception &e) { arm(false); note("ret", "threw"); }
    });
    if (b.kind == BootResult::Signal || b.kind == BootResult::Timeout || b.kind == BootResult::Livelock) return run.fail("D03-died", "sorting ended abnormally: " + b.describe());
    string o = fs::abs(out);
    for (auto &f: before) if (f.first != o && (!fs::exists(f.first) || fs::get(f.first) != f.second))
        return run.fail("D03-bystander", "file " + f.first + " was altered or removed by sorting " + in);
    if (b.kind == BootResult::Crashed) { run.judged(fs::digest()); run.tag("crashed"); return; }
    string ret = run.note("ret");
    run.judged(fs::digest() ^ hash_str(ret));
    run.tag("ret-" + ret);
    bool faults_hit = false; for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "disk-full" || f.first == "alloc-fail") faults_hit = true;
    if (ret != "1") {
        if (!faults_hit) run.fail("D03-refused", "sorting reported failure (" + ret + ") without any fault");
        return;
    }
    for (auto &f: fs::list_files()) if (f != o && !before.count(f)) return run.fail("D03-leftover", "temporary file " + f + " left after a successful sort");
    // reference model
    vector<string> want; for (auto &x: rows) if (!x.empty()) want.push_back(x);
    if (content.empty() && hdr) { // only an (absent) header
        string g = fs::get(o); if (g != "" && g != "\n") run.fail("D03-content", "sorting an empty file produced: " + g.substr(0, 200));
        return;
    }
    if (hdr && !has_header_line) { // the minimiser dropped the header line: the first row is the header
        header = rows.empty() ? "" : rows[0]; want.clear(); for (size_t i = 1; i < rows.size(); i++) if (!rows[i].empty()) want.push_back(rows[i]);
    }
    std::sort(want.begin(), want.end());
    if (dedup) want.erase(std::unique(want.begin(), want.end()), want.end());
    string exp; if (hdr) exp += header + "\n";
    for (auto &x: want) exp += x + "\n";
    string got = fs::get(o);
    if (got != exp) {
        std::istringstream gi(got), ei(exp); string a, c; int n = 0;
        while (true) { bool ga = (bool) std::getline(gi, a), ea = (bool) std::getline(ei, c); n++; if (ga != ea || (ga && a != c)) { run.fail("D03-content", "line " + std::to_string(n) + " of the result is " + (ga ? "\"" + a.substr(0, 80) + "\"" : "missing") + ", expected " + (ea ? "\"" + c.substr(0, 80) + "\"" : "nothing") + "; sort reported success"); return; } if (!ga) break; }
        run.fail("D03-content", "result differs in line ends; sort reported success");
    }
}

// ================================================================= D04
static string gen_field(Rng &r, char delim) {
    static const vector<string> special{"", "\"", "<", "<<", "<~D>", "<~N>", "<_<", "<_", "<_~D>", "~D>", "_<", "<~", ">", "1,2", "1:2", "1\t2", "12:30:45", "3.5 apples", "1e5", "-1", "nan", "inf", "0x10", "a\nb", "\n", "a\"b", "a\"\"b", "\"\"\"", "x\"", "say \"hi\" now", "1\n2", "5\"", "5\"7", "a<", "a<b", "<a", "a<~", "<_<_<", "1<", "<1", ",", "::", "\t", "a, b", "\r", "a\rb", "end<~D", "<~D", "<~N", "2,", "7\"8\"9"};
    if (r.chance(450)) return r.pick(special);
    if (r.chance(300)) return gen_word(r);
    static const string alpha = "ab1<>~_DN\",:\t\n .-\\";
    string s; size_t n = r.below(r.chance(50) ? 3000 : 10);
    for (size_t i = 0; i < n; i++) s += r.chance(150) ? delim : alpha[r.below(alpha.size())];
    return s;
}
static string strip_ws(const string &s) {
    size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char) s[a])) a++;
    while (b > a && isspace((unsigned char) s[b - 1])) b--;
    return s.substr(a, b - a);
}
// surrounding blanks are trimmed, and so is one pair of enclosing quotes
static string want_field(const string &f) {
    string t = strip_ws(f);
    if (t.size() > 1 && t[0] == '"' && t.back() == '"') t = strip_ws(t.substr(1, t.size() - 2));
    return t;
}
static Plan gen_delim(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    static const vector<string> ds{",", "\t", ":", ",", ";"};
    string d = r.pick(ds);
    p.add("conf").set("delim", d).set("skiphdr", r.chance(150)).set("old", r.chance(200)).set("cfg", d == ":" && r.chance(600));
    size_t n = r.chance(80) ? 0 : 1 + r.below(r.chance(100) ? 60 : 8);
    for (size_t i = 0; i < n; i++) {
        Line l("row"); size_t k = 1 + r.below(6);
        for (size_t j = 0; j < k; j++) {
            string f = gen_field(r, d[0]); string t = strip_ws(f);
            // a field that is itself wrapped in quotes is by convention already quoted text (see want_field)
            if (t.size() > 1 && t[0] == '"' && t.back() == '"' && (r.chance(700) || strip_ws(t.substr(1, t.size() - 2)) != t.substr(1, t.size() - 2))) f = "w" + t;
            l.set("f" + std::to_string(j), f);
        }
        p.lines.push_back(l);
    }
    return p;
}
static void run_delim(Run &run) {
    const Line &c = *run.plan.first("conf");
    char d = c.get("delim")[0];
    vector<vector<string>> recs;
    for (auto l: run.plan.all("row")) { vector<string> f; for (auto &e: l->kv) f.push_back(e.second); recs.push_back(f); }
    fs::set_cwd("/work");
    string path = "/work/d/t.txt", cfgdir = "/work/d";
    bool cfg = c.num("cfg"), skip = c.num("skiphdr") && !cfg;
    fs::mkdirs(cfgdir);
    if (c.num("old")) fs::put(path, "old:\"content\"\nthat,is longer\n\n\n");
    auto w = run.boot("write", [&] {
        try {
            if (cfg) { happyml::save_config(cfgdir, "t.txt", recs); arm(false); note("w", "ok"); return; }
            happyml::DelimitedTextFileWriter wr(path, d);
            if (!wr.is_open()) { arm(false); note("w", "notopen"); return; }
            for (auto &x: recs) wr.writeRecord(x);
            wr.close();
            arm(false); note("w", "ok");
        } catch (const std::exception &e) { arm(false); note("w", "threw"); }
    });
    bool errs = false; auto upd = [&] { for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "disk-full" || f.first == "alloc-fail") errs = true; };
    upd();
    if (!w.ok() && w.kind != BootResult::Crashed) return run.fail("D04-died", "writing ended abnormally: " + w.describe());
    string ws = run.note("w"); run.tag("w-" + ws);
    if (ws != "ok") { run.judged(hash_str(ws)); if (!errs && w.ok()) run.fail("D04-refused", "writing failed without any fault: " + ws); return; }
    auto rd = run.boot("read", [&] {
        try {
            vector<vector<string>> got;
            if (cfg) got = happyml::read_config(cfgdir, "t.txt");
            else {
                happyml::DelimitedTextFileReader rr(path, d, skip);
                if (!rr.is_open() && !rr.hasNext() && (skip ? recs.size() > 1 : !recs.empty())) { arm(false); note("r", "notopen"); return; }
                while (rr.hasNext()) { got.push_back(rr.nextRecord()); if (got.size() > recs.size() + 50) break; }
            }
            arm(false);
            Plan q; for (auto &g: got) { Line l("g"); for (size_t i = 0; i < g.size(); i++) l.set("f" + std::to_string(i), g[i]); q.lines.push_back(l); }
            note("r", "ok"); note("got", q.text());
        } catch (const std::exception &e) { arm(false); note("r", "threw"); }
    });
    upd();
    if (!rd.ok()) return run.fail("D04-died", "reading ended abnormally: " + rd.describe());
    string rs = run.note("r"); run.tag("r-" + rs);
    run.judged(hash_str(rs + run.note("got")));
    if (rs != "ok") { if (cfg && recs.empty()) return; if (!errs) run.fail("D04-refused", "reading failed without any fault: " + rs); return; }
    vector<vector<string>> want;
    for (size_t i = skip ? 1 : 0; i < recs.size(); i++) { vector<string> f; for (auto &x: recs[i]) f.push_back(want_field(x)); want.push_back(f); }
    Plan q = Plan::parse(run.note("got")); vector<vector<string>> got;
    for (auto &l: q.lines) { vector<string> f; for (auto &e: l.kv) f.push_back(e.second); got.push_back(f); }
    auto show = [](const vector<string> &v) { Line l("record"); for (size_t i = 0; i < v.size(); i++) l.set("f" + std::to_string(i), v[i].substr(0, 60)); return l.text(); };
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
        if (i >= got.size()) return run.fail("D04-records", "record " + std::to_string(i) + " was not read back (" + std::to_string(got.size()) + " of " + std::to_string(want.size()) + "); expected " + show(want[i]));
        if (i >= want.size()) return run.fail("D04-records", "extra record read: " + show(got[i]));
        if (got[i] != want[i]) return run.fail("D04-records", "record " + std::to_string(i) + " written as " + show(want[i]) + " read back as " + show(got[i]));
    }
}

// ================================================================= D05
static Plan gen_lines(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    bool dir = r.chance(800);
    p.add("conf").set("dir", dir).set("skip", r.chance(450)).set("missing", r.chance(40)).set("slash", r.chance(300)).set("peek", r.chance(300));
    size_t nf = dir ? r.below(7) : 1;
    static const vector<string> names{"a.txt", "b.csv", "c", "zz.txt", "0.txt", "M.txt", "part-1", "part-2", "part-10"};
    std::set<string> used;
    for (size_t i = 0; i < nf; i++) {
        string nm = r.pick(names); if (!used.insert(nm).second) continue;
        string c; string tag = nm;
        if (r.chance(250)) c = r.chance(500) ? "" : (r.chance(500) ? "hdr" : "hdr\n"); // empty or header only
        else {
            size_t nl = 1 + r.below(r.chance(80) ? 400 : 8);
            for (size_t k = 0; k < nl; k++) {
                if (k >= 2 && r.chance(200)) c += "\n";
                else c += tag + ":" + std::to_string(k) + (r.chance(200) ? " tail, \"x\"" : "") + (r.chance(20) ? string(r.range(5000, 20000), 'y') : "") + "\n";
            }
            if (r.chance(300)) c.pop_back();
        }
        p.add("file").set("name", nm).set("v", c);
    }
    if (dir && r.chance(300)) p.add("sub").set("name", r.pick(vector<string>{"subdir", "0dir", "zdir"})).set("v", "inside\n");
    return p;
}
static vector<string> lines_of(const string &c, bool skip) {
    vector<string> v; string cur; bool any = false;
    for (char ch: c) { if (ch == '\n') { v.push_back(cur); cur.clear(); any = false; } else { cur += ch; any = true; } }
    if (any) v.push_back(cur);
    if (skip && !v.empty()) v.erase(v.begin());
    return v;
}
static void run_lines(Run &run) {
    const Line &c = *run.plan.first("conf");
    fs::set_cwd("/work"); bool dir = c.num("dir"), skip = c.num("skip");
    string root = "/work/in"; if (dir) fs::mkdirs(root);
    std::map<string, vector<string>> files; size_t total = 0; string single;
    bool missing = c.num("missing");
    for (auto l: run.plan.all("file")) {
        auto ls = lines_of(l->get("v"), skip);
        if (dir) fs::put(root + "/" + l->get("name"), l->get("v")); else { if (missing) continue; fs::put(root, l->get("v")); }
        files[l->get("name")] = ls; total += ls.size();
    }
    if (dir) for (auto l: run.plan.all("sub")) fs::put(root + "/" + l->get("name") + "/f.txt", l->get("v"));
    u64 before = fs::digest();
    bool absent = !fs::exists(root);
    string path = root + (dir && c.num("slash") ? "/" : "");
    auto b = run.boot("read", [&] {
        try {
            happyml::TextLinePathReader rr(path, skip);
            bool open0 = rr.is_open();
            string out; size_t n = 0;
            while (rr.hasNext()) { if (c.num("peek")) { rr.hasNext(); } string l = rr.nextLine(); NoSim ns; out += l + "\n"; if (++n > total + 20) break; }
            arm(false); note("open", open0 ? "1" : "0"); note("ret", "ok"); note("out", out);
        } catch (const std::exception &e) { arm(false); note("ret", "threw"); }
    });
    if (!b.ok()) return run.fail("D05-died", "reading ended abnormally: " + b.describe());
    if (fs::digest() != before) return run.fail("D05-altered", "reading changed the files");
    bool errs = false; for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "alloc-fail") errs = true;
    string ret = run.note("ret"); run.tag("ret-" + ret); run.tag("files-" + std::to_string(files.size()));
    run.judged(hash_str(ret + run.note("out")));
    if (ret == "threw") { if (!errs && !absent) run.fail("D05-refused", "reading threw without any fault"); return; }
    string out = run.note("out");
    if (absent) { if (run.note("open") == "1" || !out.empty()) run.fail("D05-missing", "a missing path read as if it existed"); return; }
    if (errs && run.note("open") == "0" && out.empty()) return; // reported: not open
    auto got = lines_of(out, false);
    // got must be a concatenation, in some order, of the files' line lists
    std::set<string> left; for (auto &f: files) if (!f.second.empty()) left.insert(f.first);
    size_t i = 0;
    while (i < got.size()) {
        string hit;
        for (auto &f: left) { auto &v = files[f]; if (i + v.size() <= got.size() && std::equal(v.begin(), v.end(), got.begin() + (long) i)) { hit = f; break; } }
        if (hit.empty()) return run.fail("D05-lines", "line " + std::to_string(i) + " (\"" + got[i].substr(0, 60) + "\") does not begin any undelivered file's lines, or that file was cut short (" + std::to_string(got.size()) + " of " + std::to_string(total) + " lines delivered)" + (errs ? " after a fault that was not reported" : ""));
        i += files[hit].size(); left.erase(hit);
    }
    if (!left.empty()) return run.fail("D05-lines", "lines of " + *left.begin() + " were never delivered (" + std::to_string(got.size()) + " of " + std::to_string(total) + " lines)" + (errs ? " after a fault that was not reported" : ""));
}

int main(int argc, char **argv) {
    auto der = [](vector<string> boots, bool crash, bool alloc) { return [=](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = boots; o.crash = crash; o.full = crash; o.alloc = alloc; return derive_faults(p, bc, r, tier, o); }; };
    add_property({"D03", gen_sort, run_sort, der({"sort"}, true, false), {"row", "fault", "file", "header"}, "random text tables, chunk sizes and bystander files; each base run fault-free, then with faults placed at I/O ordinals seen in it."});
    add_property({"D04", gen_delim, run_delim, der({"write", "write", "read"}, true, false), {"row", "fault"}, "random records over special characters and three delimiters, written by one process and read by another, with split/failed I/O."});
    add_property({"D05", gen_lines, run_lines, der({"read"}, false, false), {"file", "fault", "sub"}, "random directories of text files with random listing order, header skipping, empty and unterminated files, failing opens and reads."});
    return main_entry(argc, argv);
}
