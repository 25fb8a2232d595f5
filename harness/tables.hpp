// Source tables and the datasets made of them, shared by the language harness. Include after the repository's headers.
#pragma once
#include "simkit.hpp"
using namespace sim;
using happyml::BaseTensor;

struct Group { string use, type, name; size_t start, r, c, ch, id; [[nodiscard]] size_t size() const { return r * c * ch; } };
// What a stored row means, in the terms of the source.
struct Cell { vector<double> nums; string label; bool is_label = false, is_image = false; };
using Cells = vector<Cell>;
static string cells_text(const Cells &cs) {
    string s; char b[40];
    for (auto &c: cs) { s += s.empty() ? "" : " | "; if (c.is_label) { s += "'" + c.label + "'"; continue; } for (size_t i = 0; i < c.nums.size() && i < 6; i++) { snprintf(b, 40, "%s%.7g", i ? " " : "", c.nums[i]); s += b; } }
    return s;
}
static const vector<string> &label_pool(int kind) {
    static const vector<string> plain{"red", "green", "blue", "a b", "10", "x1"};
    static const vector<string> odd{"red", "x,y", "q\"uo\"te", "two\nlines", "tab\there", "a:b", "Red", "n\xC3\xA9", "<b>", ""};
    static const vector<string> written{"red", "x,y", "q\"uo\"te", "it's", "a b", "back\\slash", "n\xC3\xA9", "10", "don't \"go\"", "\\\"x", "#7", "(a: [b])"};
    return kind == 2 ? written : kind ? odd : plain;
}
static string trim_(const string &s) { size_t a = s.find_first_not_of(" \t\r\n\f\v"); if (a == string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r\n\f\v") - a + 1); }

// A source file described by plan lines "table", "col" and "rec".
struct Table {
    string name, path; bool header, tsv, crlf, term; size_t width = 0; vector<Group> groups; // in declaration order
    vector<vector<string>> raw; // every field of every record
    vector<Cells> given, expected; // per record, columns by start index
    vector<Group> g, e;
    string source;
    double scale = 1;
    int fn = 0, classes = 2, inf = -1; // inf: the only given column the label follows from (-1: every one); fn: the expected label follows from the given values (1), or contradicts them (2)
    static string field(const string &v, Rng &r, char delim) {
        bool need = v.find(delim) != string::npos || v.find('"') != string::npos || v.find('\n') != string::npos;
        if (!need && r.chance(800)) return (r.chance(100) ? " " : "") + v + (r.chance(100) ? " " : "");
        string q = "\""; for (char c: v) { if (c == '"') q += '"'; q += c; } return q + "\"";
    }
    explicit Table(const Plan &p, int which = 0) {
        for (auto l: p.all("table")) if (l->num("t") == which) { name = l->get("name"); path = l->get("path"); header = l->num("hdr"); tsv = l->num("tsv"); crlf = l->num("crlf"); term = l->num("term", 1); width = (size_t) l->num("width"); scale = (double) l->num("scale", 1); fn = (int) l->num("fn"); classes = (int) l->num("classes", 2); inf = (int) l->num("inf", -1); }
        for (auto l: p.all("col")) if (l->num("t") == which) groups.push_back({l->get("use"), l->get("type"), l->get("name"), (size_t) l->num("at"), (size_t) l->num("r", 1), (size_t) l->num("c", 1), (size_t) l->num("ch", 1), (size_t) l->num("id", -1)});
        auto sorted = groups; std::stable_sort(sorted.begin(), sorted.end(), [](const Group &a, const Group &b) { return a.start < b.start; });
        for (auto &x: sorted) (x.use == "given" ? g : e).push_back(x);
        int pool = 0; for (auto l: p.all("table")) if (l->num("t") == which) pool = (int) l->num("odd");
        char delim = tsv ? '\t' : ','; string eol = crlf ? "\r\n" : "\n";
        Rng hr(77);
        // a record whose only declared value is blank is a blank line: what becomes of it is left open, so there are none
        size_t declared = 0; for (auto &x: groups) declared += x.size(); bool alone = declared == 1;
        if (header && width) { for (size_t i = 0; i < width; i++) source += (i ? string(1, delim) : "") + "h" + std::to_string(i); source += eol; }
        for (auto l: p.all("rec")) if (l->num("t") == which) {
            vector<string> f(width); Rng junk((u64) l->num("v") + 5);
            for (auto &x: f) x = junk.chance(300) ? "u" + std::to_string(junk.below(5)) : std::to_string(junk.below(3));
            const i64 own = l->num("g") % classes;
            auto fill = [&](const vector<Group> &gs, u64 seed, vector<Cells> &out) {
                Cells cells;
                for (size_t gi = 0; gi < gs.size(); gi++) {
                    Rng r(mix(seed * 131 + gs[gi].start)); Cell c; i64 cls = own; const size_t id = gs[gi].id == (size_t) -1 ? gi : gs[gi].id;
                    if (inf >= 0 && gs[gi].use == "given" && (int) id != inf) cls = (i64) (mix((u64) l->num("g") * 977 + id) % (u64) classes);
                    c.is_image = gs[gi].type == "image";
                    if (gs[gi].type == "label") { c.is_label = true; string v = r.pick(label_pool(pool)); if (fn) v = label_pool(pool)[(size_t) (gs[gi].use == "given" ? cls + (i64) id * 2 : (fn == 1) != ((l->num("flip") >> id & 1) != 0) ? cls : (cls + 1) % classes) % label_pool(pool).size()]; if (trim_(v).empty() && alone) v = "none"; f[gs[gi].start] = v; c.label = trim_(v); }
                    else for (size_t k = 0; k < gs[gi].size(); k++) {
                        string t; double v;
                        if (gs[gi].type == "image") { v = (double) (fn ? (k % (size_t) classes == (size_t) cls ? 200 : 20) + r.below(20) : r.below(256)); t = std::to_string((int) v); v /= 255; }
                        else if (fn) { v = (double) (cls * 25 * (gs[gi].use == "given" ? 1 : 2)) + (double) ((l->num("g") / classes + (i64) k) % 16) * 0.25; char b[60]; snprintf(b, 60, "%.9g", v); t = b; }
                        else if (gs[gi].name.find("const") != string::npos) { v = 7.5; t = "7.5"; }
                        else {
                            i64 q = r.chance(300) ? r.range(-3, 3) * 4 : r.range(-400, 400); v = (double) q / 4 * scale; // quarters: exact in both notations
                            char b[60]; snprintf(b, 60, scale >= 1 && r.chance(300) && q % 4 == 0 ? "%.0f" : r.chance(100) ? "%.9e" : "%.9g", v); t = b; if (t == "-0") t = "0";
                            if (v == 0 && !alone && r.chance(200)) t = "";
                        }
                        f[gs[gi].start + k] = t; c.nums.push_back(v);
                    }
                    cells.push_back(c);
                }
                out.push_back(cells);
            };
            fill(g, (u64) l->num("g"), given); fill(e, (u64) l->num("e") + 7000, expected);
            bool blank = true; for (auto &x: f) if (!trim_(x).empty()) blank = false;
            if (blank && width) { // a record of nothing but blanks is an empty line to a text format
                given.pop_back(); expected.pop_back(); continue;
            }
            raw.push_back(f);
            Rng q((u64) l->num("q") + hr.s);
            for (size_t i = 0; i < width; i++) source += (i ? string(1, delim) : "") + field(f[i], q, delim);
            source += eol;
        }
        if (!term && source.size() > eol.size()) source.resize(source.size() - eol.size());
    }
    [[nodiscard]] vector<shared_ptr<happyml::ColumnGroup>> column_groups() const {
        vector<shared_ptr<happyml::ColumnGroup>> r; size_t id = 1;
        for (auto &x: groups) r.push_back(make_shared<happyml::ColumnGroup>(id++, x.start, x.size(), x.use, x.type, x.name, x.r, x.c, x.ch));
        return r;
    }
    [[nodiscard]] string statement() const {
        string s = "create dataset " + name + (header ? " with header" : "");
        for (auto &x: groups) { s += " with " + x.use + " " + x.type + " " + x.name; if (x.size() > 1) s += " (" + std::to_string(x.r) + ", " + std::to_string(x.c) + ", " + std::to_string(x.ch) + ")"; s += " at " + std::to_string(x.start); }
        return s + " using file://" + path;
    }
    // How far a decoded number may be from the source's: rounding in single precision relative to the column's range.
    [[nodiscard]] double tol() const { return 0.02 * scale; }
    static bool same(const Cell &a, const Cell &b, double t) {
        if (a.is_label != b.is_label) return false;
        if (a.is_label) return a.label == b.label;
        if (a.nums.size() != b.nums.size()) return false;
        for (size_t i = 0; i < a.nums.size(); i++) if (!(std::fabs(a.nums[i] - b.nums[i]) <= t)) return false;
        return true;
    }
    static bool same(const Cells &a, const Cells &b, double t) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i], a[i].is_image ? 1e-3 : t)) return false; return true; }
};
static Cell decode_cell(shared_ptr<BaseTensor> t, const shared_ptr<happyml::BinaryColumnMetadata> &m, string &problem) {
    Cell c; c.is_image = m->purpose == 'I';
    if (m->purpose == 'L') {
        c.is_label = true; size_t ones = 0, at = 0;
        for (size_t i = 0; i < t->columnCount(); i++) { float v = t->getValue(0, i, 0); if (v == 1.f) { ones++; at = i; } else if (v != 0.f) ones += 2; }
        if (ones != 1 || at >= m->ordered_labels.size() || t->columnCount() != m->ordered_labels.size()) { problem = "a label column holds no single label"; return c; }
        c.label = m->ordered_labels[at]; return c;
    }
    if (m->purpose == 'N') t = happyml::unstandardize_and_denormalize(t, m);
    for (size_t ch = 0; ch < t->channelCount(); ch++) for (size_t r = 0; r < t->rowCount(); r++) for (size_t k = 0; k < t->columnCount(); k++) c.nums.push_back(t->getValue(r, k, ch));
    return c;
}
// Compares a stored dataset with its source. Returns "" or what is wrong.
static string judge_dataset(const Table &t, const string &bin) {
    string problem;
    happyml::BinaryDatasetReader rd(bin);
    if (!rd.is_open()) return "the dataset cannot be opened";
    if (rd.get_given_column_count() != t.g.size() || rd.get_expected_column_count() != t.e.size()) return "the dataset has other columns than declared";
    auto meta = [&](const vector<Group> &gs, const vector<shared_ptr<happyml::BinaryColumnMetadata>> &ms, const vector<Cells> &rows) -> string {
        for (size_t i = 0; i < gs.size(); i++) {
            auto &m = ms[i]; char want = gs[i].type == "label" ? 'L' : gs[i].type == "image" ? 'I' : 'N';
            if (m->name != gs[i].name) return "column " + gs[i].name + " is called " + m->name;
            if (m->purpose != want) return "column " + gs[i].name + " has another type";
            if (want == 'L') { std::set<string> ls; for (auto &r: rows) ls.insert(r[i].label); if (std::set<string>(m->ordered_labels.begin(), m->ordered_labels.end()) != ls || m->ordered_labels.size() != ls.size()) { string a, b; for (auto &x: ls) a += " '" + x + "'"; for (auto &x: m->ordered_labels) b += " '" + x + "'"; return "column " + gs[i].name + " has the labels" + b + " instead of the source's" + a; } }
            else if (m->rows != gs[i].r || m->columns != gs[i].c || m->channels != gs[i].ch) return "column " + gs[i].name + " has another shape";
            if (m->source_column_count != gs[i].size()) return "column " + gs[i].name + " records another number of source columns";
        }
        return "";
    };
    problem = meta(t.g, rd.get_given_metadata(), t.given); if (problem.empty()) problem = meta(t.e, rd.get_expected_metadata(), t.expected);
    if (!problem.empty()) return problem;
    vector<char> covered(t.given.size(), 0); double tol = t.tol();
    for (size_t i = 0; i < rd.rowCount(); i++) {
        auto row = rd.readRow(i); Cells g, e;
        for (size_t k = 0; k < row.first.size(); k++) g.push_back(decode_cell(row.first[k], rd.get_given_metadata(k), problem));
        for (size_t k = 0; k < row.second.size(); k++) e.push_back(decode_cell(row.second[k], rd.get_expected_metadata(k), problem));
        if (!problem.empty()) return "row " + std::to_string(i) + ": " + problem;
        bool known = false, own = false, again = false;
        for (size_t s = 0; s < t.given.size(); s++) if (Table::same(g, t.given[s], tol)) { known = true; if (covered[s]) again = true; covered[s] = 1; if (Table::same(e, t.expected[s], tol)) own = true; }
        if (!known) return "row " + std::to_string(i) + " (" + cells_text(g) + ") is no record of the source";
        if (again) return "row " + std::to_string(i) + " (" + cells_text(g) + ") repeats the given values of an earlier row";
        if (!own) return "row " + std::to_string(i) + " (" + cells_text(g) + ") has expected values (" + cells_text(e) + ") that no record with these given values has";
    }
    for (size_t s = 0; s < covered.size(); s++) if (!covered[s]) return "the record (" + cells_text(t.given[s]) + ") of the source is missing";
    return "";
}
struct TableOpt { bool images = true; size_t max_rows = 14; bool odd = true; };
static void gen_table(Plan &p, Rng &r, int which, const string &name, const string &path, int tier, const TableOpt &o = {}) {
    bool tsv = r.chance(250);
    size_t ng = 1 + r.below(3), ne = r.chance(150) ? 0 : 1 + r.below(2);
    vector<Line> cols;
    for (size_t i = 0; i < ng + ne; i++) {
        static const vector<string> types{"number", "number", "label", "label", "image"};
        string type = r.pick(types); if (!o.images && type == "image") type = "number";
        Line l("col"); l.set("t", which).set("use", i < ng ? "given" : "expected").set("type", type).set("name", (r.chance(100) && type == "number" ? "const" : type == "number" ? "n" : type == "label" ? "l" : "i") + std::to_string(i));
        if (type != "label" && r.chance(300)) l.set("r", r.range(1, 2)).set("c", r.range(1, 3)).set("ch", r.chance(200) ? 2 : 1);
        cols.push_back(l);
    }
    vector<size_t> order(cols.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i;
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    size_t at = 0;
    for (size_t i: order) { if (r.chance(250)) at += 1 + r.below(2); cols[i].set("at", (i64) at); at += (size_t) (cols[i].num("r", 1) * cols[i].num("c", 1) * cols[i].num("ch", 1)); }
    if (r.chance(250)) at++;
    for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[r.below(i)]);
    static const vector<i64> scales{1, 1, 1, 1000, 100000};
    p.add("table").set("t", which).set("name", name).set("path", path + (tsv ? ".tsv" : ".csv")).set("hdr", r.chance(500)).set("tsv", tsv).set("crlf", r.chance(200)).set("term", r.chance(850)).set("width", (i64) at).set("odd", o.odd && r.chance(500)).set("scale", r.pick(scales));
    for (auto &l: cols) p.lines.push_back(l);
    size_t n = 1 + r.below(r.chance(100) ? (tier ? 200 : 60) : o.max_rows);
    for (size_t i = 0; i < n; i++) p.add("rec").set("t", which).set("g", (i64) r.below(r.chance(400) ? 4 : 10000)).set("e", (i64) r.below(10000)).set("v", (i64) r.below(1000)).set("q", (i64) r.below(1000));
}
