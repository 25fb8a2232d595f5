// Binary dataset properties: D06 round trip of binary datasets, D07 epochs and splits.
#include "simkit.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "training_data/training_dataset.hpp"

using namespace sim;
using happyml::BinaryColumnMetadata;
using happyml::BaseTensor;

static float bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t raw(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static bool same_float(float a, float b) { return raw(a) == raw(b) || (std::isnan(a) && std::isnan(b)); }
static u64 errors_fired(Run &run) {
    u64 n = 0;
    for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "disk-full" || f.first == "alloc-fail") n += f.second;
    return n;
}
static bool err_fired(Run &run) {
    for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "disk-full" || f.first == "alloc-fail") return true;
    return false;
}

// ================================================================= D06
struct Col { bool given; shared_ptr<BinaryColumnMetadata> m; size_t size() const { return m->rows * m->columns * m->channels; } };
static shared_ptr<BinaryColumnMetadata> meta_of(const Line &l) {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = l.get("p")[0];
    m->is_standardized = l.num("std"); m->mean = bits((uint32_t) l.num("mean")); m->standard_deviation = bits((uint32_t) l.num("sd"));
    m->is_normalized = l.num("norm"); m->min_value = bits((uint32_t) l.num("min")); m->max_value = bits((uint32_t) l.num("max"));
    m->source_column_count = (uint64_t) l.num("scc");
    m->rows = (uint64_t) l.num("r"); m->columns = (uint64_t) l.num("c"); m->channels = (uint64_t) l.num("ch");
    for (i64 i = 0; i < l.num("labels"); i++) m->ordered_labels.push_back(l.get("l" + std::to_string(i)));
    m->name = l.get("name");
    return m;
}
static float gen_value(Rng &r, char p, bool wild) {
    if (p == 'I') return ((float) r.below(256)) / 255.f;
    static const vector<float> nice{0.f, 1.f, -1.f, 0.1f, 1.f / 3, 2.5f, 100.f, -7.25f, 1e-3f};
    static const vector<float> odd{1e-20f, 2e-20f, -1e-20f, 1e30f, 3.4e38f, 1.4e-45f, 1e-16f, 2e-16f, 1.00000012f, 16777217.f, -0.f};
    if (!wild || r.chance(500)) return r.pick(nice);
    if (r.chance(600)) return r.pick(odd);
    float f = bits((uint32_t) r.next()); return std::isfinite(f) ? f : 1.f;
}
// values of one tensor, a pure function of (seed, column)
static vector<float> values_of(u64 seed, size_t col, const Col &c, bool wild) {
    Rng r(mix(seed * 1000 + col)); vector<float> v;
    if (c.m->purpose == 'L') { v.assign(c.size(), 0.f); if (!v.empty()) v[r.below(v.size())] = 1.f; return v; }
    for (size_t i = 0; i < c.size(); i++) v.push_back(gen_value(r, c.m->purpose, wild));
    return v;
}
static shared_ptr<BaseTensor> tensor_of(const vector<float> &v, const BinaryColumnMetadata &m) {
    vector<vector<vector<float>>> x(m.channels, vector<vector<float>>(m.rows, vector<float>(m.columns)));
    size_t i = 0;
    for (auto &a: x) for (auto &b: a) for (auto &c: b) c = v[i++];
    return make_shared<happyml::FullTensor>(x);
}
static vector<float> values_in(const shared_ptr<BaseTensor> &t) {
    vector<float> v;
    for (size_t ch = 0; ch < t->channelCount(); ch++) for (size_t r = 0; r < t->rowCount(); r++) for (size_t c = 0; c < t->columnCount(); c++) v.push_back(t->getValue(r, c, ch));
    return v;
}
static Plan gen_bin(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    bool ren = r.chance(300);
    bool wild = !ren && r.chance(600);
    static const vector<i64> caps{0, 1, 2, 3, 100000, 100000};
    p.add("conf").set("lru", r.pick(caps)).set("old", r.chance(150)).set("wild", wild).set("ren", ren).set("order", (i64) r.below(1000));
    size_t ng = 1 + r.below(3), ne = r.below(3);
    auto small = [&]() -> i64 { return r.chance(600) ? 1 : r.range(1, 3); };
    for (size_t i = 0; i < ng + ne; i++) {
        static const vector<string> ps{"N", "N", "L", "I", "T"};
        string pu = ren ? "N" : r.pick(ps);
        Line l("col"); l.set("g", i < ng).set("p", pu).set("r", small()).set("c", pu == "L" ? r.range(1, 5) : small()).set("ch", r.chance(800) ? 1 : r.range(1, 3)).set("scc", r.range(1, 40));
        auto f = [&](float lo, float hi) { return (i64) raw(lo + (float) r.unit() * (hi - lo)); };
        l.set("std", r.chance(500)).set("mean", f(-10, 10)).set("sd", f(0.5f, 5)).set("norm", r.chance(600)).set("min", f(-5, 0)).set("max", f(1, 8));
        if (ren) { l.set("std2", r.chance(500)).set("mean2", f(-10, 10)).set("sd2", f(0.5f, 5)).set("norm2", r.chance(600)).set("min2", f(-5, 0)).set("max2", f(1, 8)); }
        if (pu == "L") { i64 n = l.num("c"); l.set("labels", n); for (i64 k = 0; k < n; k++) l.set("l" + std::to_string(k), r.chance(200) ? string("") : r.chance(200) ? string("a\nb\0c", 5) + std::to_string(k) : "lab" + std::to_string(k)); if (n && r.chance(100)) l.set("l0", string((size_t) r.range(250, 5000), 'w')); }
        static const vector<string> names{"", "sepal length", "x", "n\xC3\xA9", "a:b,c"};
        l.set("name", r.pick(names) + std::to_string(i) + (r.chance(40) ? string((size_t) r.range(250, 3000), 'n') : ""));
        p.lines.push_back(l);
    }
    size_t n = r.chance(60) ? 0 : 1 + r.below(r.chance(120) ? (tier ? 300 : 80) : 8);
    for (size_t i = 0; i < n; i++) p.add("row").set("g", (i64) r.below(r.chance(300) ? 4 : 100000)).set("e", (i64) r.below(100000));
    if (r.chance(300)) p.add("cut").set("permille", (i64) r.below(1001)).set("minus", r.chance(500) ? (i64) r.below(9) : 0);
    if (r.chance(200)) p.add("tweak").set("cut", 1).set("kind", (i64) r.below(3));
    return p;
}
static string show_vals(const vector<float> &v) { string s; char b[40]; for (size_t i = 0; i < v.size() && i < 6; i++) { snprintf(b, 40, "%s%.9g", i ? " " : "", v[i]); s += b; } return s; }
static void run_bin(Run &run) {
    const Line &cf = *run.plan.first("conf");
    bool ren = cf.num("ren"), wild = cf.num("wild");
    vector<Col> cols; vector<shared_ptr<BinaryColumnMetadata>> gm, em, gm2, em2;
    for (int pass = 0; pass < 2; pass++)
        for (auto l: run.plan.all("col")) {
            bool g = l->num("g"); if (g != (pass == 0)) continue;
            Col c{g, meta_of(*l)}; cols.push_back(c); (g ? gm : em).push_back(c.m);
            if (ren) {
                auto m2 = meta_of(*l); m2->is_standardized = l->num("std2"); m2->mean = bits((uint32_t) l->num("mean2")); m2->standard_deviation = bits((uint32_t) l->num("sd2"));
                m2->is_normalized = l->num("norm2"); m2->min_value = bits((uint32_t) l->num("min2")); m2->max_value = bits((uint32_t) l->num("max2"));
                (g ? gm2 : em2).push_back(m2);
            }
        }
    if (gm.empty()) return;
    size_t ng = gm.size();
    vector<std::pair<u64, u64>> rows; for (auto l: run.plan.all("row")) rows.push_back({(u64) l->num("g"), (u64) l->num("e")});
    auto vals = [&](const std::pair<u64, u64> &rw) { NoSim ns; vector<vector<float>> v; for (size_t c = 0; c < cols.size(); c++) v.push_back(values_of(c < ng ? rw.first : rw.second + 1000000, c, cols[c], wild)); return v; };
    fs::set_cwd("/work"); fs::mkdirs("/work");
    string path = "/work/d.bin";
    if (cf.num("old")) fs::put(path, string(5000, 'x'));
    size_t lru = (size_t) cf.num("lru");
    auto w = run.boot("write", [&] {
        string wrote;
        try {
            happyml::BinaryDatasetWriter wr(path, gm, em, lru);
            if (!wr.is_open()) { arm(false); note("w", "notopen"); return; }
            for (auto &rw: rows) {
                vector<shared_ptr<BaseTensor>> g, e; auto v = vals(rw);
                for (size_t c = 0; c < cols.size(); c++) (c < ng ? g : e).push_back(tensor_of(v[c], *cols[c].m));
                wrote += wr.writeRow(g, e) ? '1' : '0';
            }
            wr.close(); arm(false); note("w", "ok");
        } catch (const std::exception &x) { arm(false); note("w", "threw"); }
        note("wrote", wrote);
    });
    if (!w.ok() && w.kind != BootResult::Crashed) return run.fail("D06-died", "writing ended abnormally: " + w.describe());
    string ws = w.ok() ? run.note("w") : "crashed", wrote = run.note("wrote");
    run.tag("w-" + ws);
    bool errs_w = err_fired(run);
    if (ws != "ok" && ws != "crashed" && !errs_w) return run.fail("D06-refused", "writing failed without any fault: " + ws);
    // the rows that ought to be there: a writer that crashed or failed leaves a prefix of them
    vector<size_t> kept; std::set<vector<vector<float>>> seen; std::set<vector<vector<uint32_t>>> seen_bits; // 0 and -0 are equal, yet may be told apart
    auto key = [&](size_t i) { auto v = vals(rows[i]); v.resize(ng); return v; };
    for (size_t i = 0; i < (ws == "crashed" ? rows.size() : wrote.size()); i++) {
        auto k = key(i); vector<vector<uint32_t>> kb; for (auto &a: k) { kb.emplace_back(); for (float f: a) kb.back().push_back(raw(f)); }
        bool dup = lru && seen.count(k), dup_bits = lru && seen_bits.count(kb);
        if (ws == "ok" || ws == "threw") {
            if (i >= wrote.size()) break;
            if (wrote[i] == '0') {
                if (!dup) return run.fail("D06-dropped", "row " + std::to_string(i) + " was dropped although no earlier row has the same given values (" + show_vals(k[0]) + ")");
                continue;
            }
            if (dup_bits && lru > rows.size()) return run.fail("D06-duplicate", "row " + std::to_string(i) + " repeats the given values of an earlier row and was written again");
        } else if (dup) { if (!dup_bits) { run.judged(3); return; } if (lru <= rows.size()) { run.judged(1); run.tag("crash-lru"); return; } continue; }
        seen.insert(k); seen_bits.insert(kb); kept.push_back(i);
    }
    if (ws == "notopen") { run.judged(2); return; }
    if (ws == "threw" || errs_w && ws == "crashed") { run.judged(hash_str(ws) ^ wrote.size()); return; } // reported: the file is not promised to be usable
    size_t full = fs::exists(path) ? fs::get(path).size() : 0;
    bool cut = false; size_t row_size = 0; for (auto &c: cols) row_size += c.size() * 4;
    if (auto l = run.plan.first("cut"); l && full > 0) {
        size_t n = full * (size_t) l->num("permille") / 1000; if (l->num("minus")) n = full > (size_t) l->num("minus") ? full - (size_t) l->num("minus") : 0;
        if (n < full) { cut = true; fs::put(path, fs::get(path).substr(0, n)); run.tag("truncated"); }
    }
    size_t now = fs::exists(path) ? fs::get(path).size() : 0;
    u64 before = fs::digest(), errs_before = errors_fired(run);
    auto rd = run.boot("read", [&] {
        try {
        std::unique_ptr<happyml::BinaryDatasetReader> rp;
        try { rp = ren ? make_unique<happyml::BinaryDatasetReader>(path, gm2, em2) : make_unique<happyml::BinaryDatasetReader>(path); if (!rp->is_open()) { arm(false); note("r", "notopen"); return; } }
        catch (const std::exception &x) { arm(false); note("r", "threw-open"); return; }
        auto &rr = *rp;
        { NoSim ns; note("r", "open"); note("count", std::to_string(rr.rowCount())); }
        auto chk = [&](const string &what, const vector<shared_ptr<BinaryColumnMetadata>> &want, bool g) {
            size_t n = g ? rr.get_given_column_count() : rr.get_expected_column_count();
            if (n != want.size()) { boot_fail("D06-header", what + " column count is " + std::to_string(n) + ", written " + std::to_string(want.size())); return; }
            for (size_t i = 0; i < n; i++) {
                auto m = g ? rr.get_given_metadata(i) : rr.get_expected_metadata(i); auto &x = *want[i];
                auto dims = g ? rr.getGivenTensorDims(i) : rr.getExpectedTensorDims(i);
                auto labs = g ? rr.getGivenTensorOrderedLabels((int) i) : rr.getExpectedTensorOrderedLabels((int) i);
                auto nm = g ? rr.get_given_name((int) i) : rr.get_expected_name((int) i);
                auto pu = g ? rr.getGivenTensorPurpose(i) : rr.getExpectedTensorPurpose(i);
                if (pu != x.purpose || m->purpose != x.purpose || dims != vector<size_t>{x.rows, x.columns, x.channels} || labs != x.ordered_labels || nm != x.name || m->ordered_labels != x.ordered_labels || m->name != x.name ||
                    m->is_standardized != x.is_standardized || m->is_normalized != x.is_normalized || !same_float(m->mean, x.mean) || !same_float(m->standard_deviation, x.standard_deviation) ||
                    !same_float(m->min_value, x.min_value) || !same_float(m->max_value, x.max_value) || m->source_column_count != x.source_column_count)
                    boot_fail("D06-header", what + " column " + std::to_string(i) + " reads back with a different description");
            }
        };
        chk("given", gm, true); chk("expected", em, false);
        size_t n = rr.rowCount();
        if (n > kept.size()) { boot_fail("D06-rows", "the file is said to have " + std::to_string(n) + " rows, only " + std::to_string(kept.size()) + " were written"); return; }
        try { rr.readRow(n); boot_fail("D06-range", "reading past the last row returned a row"); } catch (const std::exception &) {}
        vector<size_t> order; for (size_t i = 0; i < n; i++) order.push_back(i);
        Rng r((u64) cf.num("order")); for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        for (size_t i = 0; i < n && i < 3; i++) order.push_back(r.below(n));
        size_t thrown = 0;
        for (size_t i: order) {
            std::pair<vector<shared_ptr<BaseTensor>>, vector<shared_ptr<BaseTensor>>> row;
            try { row = rr.readRow(i); } catch (const std::exception &) { thrown++; continue; }
            NoSim ns;
            auto want = vals(rows[kept[i]]);
            if (row.first.size() != ng || row.second.size() != cols.size() - ng) { boot_fail("D06-rows", "row " + std::to_string(i) + " has a wrong number of tensors"); return; }
            for (size_t c = 0; c < cols.size(); c++) {
                auto &t = c < ng ? row.first[c] : row.second[c - ng]; auto &m = *cols[c].m;
                if (t->rowCount() != m.rows || t->columnCount() != m.columns || t->channelCount() != m.channels) { boot_fail("D06-values", "row " + std::to_string(i) + " column " + std::to_string(c) + " has a wrong shape"); return; }
                auto got = values_in(t); auto exp = want[c];
                bool bad = false;
                if (ren) {
                    auto &m2 = c < ng ? *gm2[c] : *em2[c - ng];
                    for (size_t k = 0; k < exp.size(); k++) {
                        double v = exp[k];
                        if (m.is_normalized) v = v * ((double) m.max_value - m.min_value) + m.min_value;
                        if (m.is_standardized) v = v * m.standard_deviation + m.mean;
                        if (m2.is_standardized) v = (v - m2.mean) / m2.standard_deviation;
                        if (m2.is_normalized) v = (v - m2.min_value) / ((double) m2.max_value - m2.min_value);
                        exp[k] = (float) v; if (!(std::fabs(got[k] - v) <= 2e-3 * (1 + std::fabs(v)))) bad = true;
                    }
                } else for (size_t k = 0; k < exp.size(); k++) if (!same_float(exp[k], got[k])) bad = true;
                if (bad) { boot_fail(ren ? "D06-renormalised" : "D06-values", "row " + std::to_string(i) + (c < ng ? " given " : " expected ") + std::to_string(c < ng ? c : c - ng) + " reads " + show_vals(got) + ", should be " + show_vals(exp)); return; }
            }
        }
        arm(false); note("thrown", std::to_string(thrown));
        } catch (const std::bad_alloc &) { arm(false); note("r", "nomem"); }
    });
    if (!rd.ok()) return run.fail("D06-died", "reading ended abnormally: " + rd.describe());
    if (fs::digest() != before) return run.fail("D06-altered", "reading changed the file");
    if (run.failed()) return;
    string rs = run.note("r"), cnt = run.note("count"); run.tag("r-" + rs); run.judged(hash_str(rs + cnt + run.note("thrown") + ws + (cut ? "c" : "")) ^ before);
    bool errs = errors_fired(run) > errs_before;
    if (!cut && ws == "ok") {
        if (rs == "open") {
            if (cnt != std::to_string(kept.size())) return run.fail("D06-rows", "writing reported success for " + std::to_string(kept.size()) + " rows, reading finds " + cnt);
            if (!errs && run.note("thrown") != "0") return run.fail("D06-refused", "reading a row failed without any fault");
        } else if (!errs) return run.fail("D06-refused", "opening a complete file failed without any fault (" + rs + ")");
    }
    if (rs == "open" && (cut || ws != "ok")) {
        // rows are only missing in whole: a file that ends inside a row must be reported
        if (cut && ws == "ok") {
            size_t header = full - kept.size() * row_size;
            if (now < header) return run.fail("D06-truncated", "a file cut inside its header opened as a dataset");
            if ((now - header) % row_size) return run.fail("D06-truncated", "a file cut inside a row (" + std::to_string(now) + " of " + std::to_string(full) + " bytes) opened without an error, showing " + cnt + " of " + std::to_string(kept.size()) + " rows");
        }
    }
}

// ================================================================= D07
static Plan gen_epoch(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r);
    bool mem = r.chance(350);
    size_t n = r.chance(50) ? (mem ? 0 : 1) : 1 + r.below(r.chance(150) ? (tier ? 1500 : 600) : 14);
    Line c("conf"); c.set("mem", mem).set("n", (i64) n).set("share", r.chance(200));
    static const vector<double> nice{0.5, 0.9, 0.8, 0.1, 0.2, 0.3, 0.7, 0.75, 0.25, 0.95, 0.05, 0.6, 0.4, 0.33, 0.67, 0.99, 0.01, 1.0 / 3};
    if (!mem) {
        if (r.chance(750)) { double f = r.chance(700) ? r.pick(nice) : r.unit(); if (f <= 0 || f >= 1) f = 0.5; c.set("split", 1).set("f", (i64) raw((float) f)).set("g", (i64) raw(r.chance(700) ? 1.0f - (float) f : (float) (1.0 - f))); }
        c.set("ren", r.chance(200));
    }
    p.lines.push_back(c);
    size_t ops = 1 + r.below(tier ? 12 : 7);
    for (size_t i = 0; i < ops; i++) {
        static const vector<string> ks{"pass", "pass", "pass", "partial", "shuffle", "shuffle", "newshuffler", "none", "predict"};
        p.add("op").set("k", r.pick(ks)).set("d", (i64) r.below(2)).set("n", (i64) r.below(n + 2));
    }
    p.add("op").set("k", "pass").set("d", 0); p.add("op").set("k", "pass").set("d", 1);
    return p;
}
static void run_epoch(Run &run) {
    const Line &cf = *run.plan.first("conf");
    size_t n = (size_t) cf.num("n"); bool mem = cf.num("mem"), split = cf.num("split");
    fs::set_cwd("/work"); fs::mkdirs("/work"); string path = "/work/d.bin";
    auto mk = [](char pu) { auto m = make_shared<BinaryColumnMetadata>(); *m = BinaryColumnMetadata{pu, false, 0, 0, false, 0, 0, 1, 1, 2, 1, {}, "c"}; return m; };
    auto gm = vector<shared_ptr<BinaryColumnMetadata>>{mk('N'), mk('N')}, em = vector<shared_ptr<BinaryColumnMetadata>>{mk('N')};
    auto ten = [](float a, float b) { return make_shared<happyml::FullTensor>(vector<float>{a, b}); };
    auto given = [&](size_t i) { return vector<shared_ptr<BaseTensor>>{ten((float) i, (float) (i * 3 + 1)), ten((float) i * 0.5f, -1)}; };
    auto expect = [&](size_t i) { return vector<shared_ptr<BaseTensor>>{ten((float) (n - i), (float) (i * i % 97))}; };
    if (!mem) {
        auto b = run.boot("prepare", [&] { happyml::BinaryDatasetWriter w(path, gm, em, 0); for (size_t i = 0; i < n; i++) w.writeRow(given(i), expect(i)); w.close(); }, false);
        if (!b.ok()) return run.fail("D07-died", "writing the dataset ended abnormally");
    }
    auto b = run.boot("use", [&] { try {
        vector<shared_ptr<happyml::TrainingDataSet>> ds;
        try {
            if (mem) {
                auto d = make_shared<happyml::InMemoryTrainingDataSet>();
                for (size_t i = 0; i < n; i++) d->addTrainingData(given(i), expect(i));
                ds.push_back(d);
            } else {
                vector<float> fr{1.0f}; if (split) fr = {bits((uint32_t) cf.num("f")), -bits((uint32_t) cf.num("g"))};
                for (float f: fr) ds.push_back(cf.num("ren") ? make_shared<happyml::BinaryDataSet>(path, gm, em, f) : make_shared<happyml::BinaryDataSet>(path, f));
            }
        } catch (const std::exception &) { arm(false); note("r", "threw-open"); return; }
        vector<shared_ptr<happyml::Shuffler>> sh(ds.size());
        vector<std::set<size_t>> covered(ds.size()); vector<bool> complete(ds.size(), false);
        size_t tot = 0; for (auto &d: ds) tot += d->recordCount();
        if (tot != n) { boot_fail("D07-counts", std::to_string(n) + " records, parts have " + std::to_string(ds[0]->recordCount()) + (ds.size() > 1 ? " + " + std::to_string(ds[1]->recordCount()) : "")); return; }
        string log;
        for (auto op: run.plan.all("op")) {
            size_t k = (size_t) op->num("d") % ds.size(); auto &d = ds[k]; string kind = op->get("k");
            try {
                if (kind == "newshuffler") { sh[k] = make_shared<happyml::Shuffler>(d->recordCount()); d->setShuffler(sh[k]); continue; }
                if (kind == "none") { sh[k] = nullptr; d->setShuffler(nullptr); d->restart(); continue; }
                if (kind == "shuffle") { if (sh[k]) { sh[k]->shuffle(); d->restart(); } continue; }
                if (kind == "predict") { if (sh[k]) { sh[k]->shuffle_predictably(); d->restart(); } continue; }
                d->restart();
            } catch (const std::exception &) { continue; }
            size_t limit = kind == "partial" ? (size_t) op->num("n") : d->recordCount() + 3;
            std::set<size_t> seen; vector<size_t> order; bool gave_up = false; size_t fails = 0;
            for (size_t i = 0; i < limit; ) {
                shared_ptr<happyml::TrainingPair> pr;
                try { pr = d->nextRecord(); } catch (const std::exception &) { if (++fails > 4) { gave_up = true; break; } continue; }
                i++;
                NoSim ns;
                if (!pr) { if (order.size() < d->recordCount()) boot_fail("D07-missing", "pass over part " + std::to_string(k) + " ended after " + std::to_string(order.size()) + " of " + std::to_string(d->recordCount()) + " records"); continue; }
                auto gv = pr->getGiven(), xv = pr->getExpected();
                if (gv.size() != 2 || xv.size() != 1) { boot_fail("D07-pairing", "a record has the wrong tensors"); return; }
                float id = gv[0]->getValue(0, 0, 0); size_t x = (size_t) id;
                if (!(id >= 0 && id < (float) n) || (float) x != id) { boot_fail("D07-pairing", "a record that was never added: " + std::to_string(id)); return; }
                auto wg = given(x), we = expect(x);
                for (int c = 0; c < 2; c++) if (values_in(gv[c]) != values_in(wg[c])) { boot_fail("D07-pairing", "record " + std::to_string(x) + " has foreign given values"); return; }
                if (values_in(xv[0]) != values_in(we[0])) { boot_fail("D07-pairing", "record " + std::to_string(x) + " is paired with expected values " + show_vals(values_in(xv[0])) + " instead of " + show_vals(values_in(we[0]))); return; }
                if (!seen.insert(x).second) { boot_fail("D07-repeat", "record " + std::to_string(x) + " appears twice in one pass"); return; }
                if (order.size() >= d->recordCount()) { boot_fail("D07-exhausted", "more records than recordCount()"); return; }
                order.push_back(x);
            }
            NoSim ns; for (auto x: order) log += std::to_string(x) + ","; log += ";";
            if (kind == "partial" || gave_up) continue;
            if (order.size() != d->recordCount()) { boot_fail("D07-missing", "a pass returned " + std::to_string(order.size()) + " of " + std::to_string(d->recordCount()) + " records"); return; }
            if (complete[k] && covered[k] != seen) { boot_fail("D07-drift", "two passes over the same part returned different records"); return; }
            complete[k] = true; covered[k] = seen;
        }
        arm(false);
        bool all = true; for (bool c: complete) if (!c) all = false;
        if (all) {
            std::set<size_t> u; size_t s = 0; for (auto &c: covered) { u.insert(c.begin(), c.end()); s += c.size(); }
            if (s != u.size()) boot_fail("D07-overlap", "the training and test part share records");
            if (u.size() != n) boot_fail("D07-cover", "the parts together cover " + std::to_string(u.size()) + " of " + std::to_string(n) + " records");
        }
        note("r", "ok"); note("log", log);
    } catch (const std::bad_alloc &) { arm(false); note("r", "nomem"); } });
    if (!b.ok()) return run.fail("D07-died", "using the dataset ended abnormally: " + b.describe());
    string rs = run.note("r"); run.tag("r-" + rs); run.judged(hash_str(rs + run.note("log")));
    if (rs != "ok" && !run.failed() && !err_fired(run)) run.fail("D07-refused", "opening the dataset failed without any fault");
}

int main(int argc, char **argv) {
    auto der = [](vector<string> boots, bool crash, bool alloc) { return [=](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = boots; o.crash = crash; o.full = crash; o.alloc = alloc; return derive_faults(p, bc, r, tier, o); }; };
    add_property({"D06", gen_bin, run_bin, der({"write", "write", "read"}, true, true), {"row", "fault", "col", "cut"}, "random column layouts, values and duplicate patterns written by one process, possibly cut short, read in random order by another, with split/failed I/O, full disk, crashes and failing allocations."});
    add_property({"D07", gen_epoch, run_epoch, der({"use"}, false, true), {"op", "fault"}, "random dataset sizes, split fractions and sequences of passes, partial passes, restarts and shuffles (simulated entropy), with failing reads and allocations."});
    return main_entry(argc, argv);
}
