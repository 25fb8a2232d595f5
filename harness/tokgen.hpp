// Random texts and training histories for tokenizers.
#pragma once
#include "simkit.hpp"
#include "ml/byte_pair_encoder.hpp"

using namespace sim;
// ---- texts over a small alphabet, so that patterns repeat and overlap
static string gen_text(Rng &r, const string &alpha, size_t max) {
    u64 k = r.below(10); string s; size_t n = 1 + r.below(max);
    if (k == 0) return string(n, alpha[r.below(alpha.size())]);
    if (k < 4) { string u; size_t m = 1 + r.below(4); for (size_t i = 0; i < m; i++) u += alpha[r.below(alpha.size())]; while (s.size() < n) s += u; if (r.chance(500)) s.resize(n); return s; }
    for (size_t i = 0; i < n; i++) s += alpha[r.below(1 + r.below(alpha.size()))];
    return s;
}
static string gen_alpha(Rng &r) {
    static const vector<string> pool{"ab", "abc", "etaoin shrd", "01.9-", string("\x80\xff\xc3\xa9 a", 6), string("\0ab\n", 4), "<>~_|"};
    string a = r.chance(700) ? r.pick(pool) : "";
    if (a.empty()) { size_t n = 1 + r.below(12); for (size_t i = 0; i < n; i++) a += (char) (1 + r.below(255)); }
    return a;
}
// A training history: lines "step" with their texts. Lines "text step=i".
static void gen_history(Plan &p, Rng &r, const string &alpha, const string &prefix, size_t steps, bool files, i64 delim) {
    for (size_t i = 0; i < steps; i++) {
        auto &l = p.add(prefix + "step"); u64 k = files ? r.below(10) : 0;
        l.set("i", (i64) i).set("k", k < 7 ? "train" : k < 9 ? "file" : "folder");
        if (r.chance(200)) l.set("patience", r.range(0, 3)).set("merges", r.range(0, 30)); else if (r.chance(400)) l.set("merges", r.range(0, 12));
        if (r.chance(300)) l.set("freq", r.range(1, 4));
        (void) delim;
        size_t n = r.chance(80) ? 0 : 1 + r.below(k < 7 ? 12 : 4);
        for (size_t t = 0; t < n; t++) {
            string v = r.chance(40) ? "" : gen_text(r, alpha, r.chance(100) ? 200 : 24);
            p.add(prefix + "text").set("i", (i64) i).set("v", v).set("times", k >= 7 && r.chance(30) ? 70000 / (i64) (v.size() + 1) * (i64) (1 + r.below(6)) : k >= 7 ? r.range(1, 30) : 1);
        }
    }
}
static void gen_probes(Plan &p, Rng &r, const string &alpha) {
    size_t n = 3 + r.below(8);
    for (size_t i = 0; i < n; i++) p.add("probe").set("v", r.chance(60) ? "" : gen_text(r, alpha, r.chance(100) ? 300 : 30));
}
using Model = happyml::BytePairEncoderModel;
struct Step { string kind, path; vector<string> texts; int patience, merges; size_t freq; };
static vector<Step> steps_of(const Plan &p, const string &prefix, bool put) {
    vector<Step> v;
    for (auto l: p.all(prefix + "step")) {
        Step s; s.kind = l->get("k"); s.patience = (int) l->num("patience", -1); s.merges = (int) l->num("merges", -1); s.freq = (size_t) l->num("freq", 2);
        for (auto t: p.all(prefix + "text")) if (t->num("i") == l->num("i")) { string x = t->get("v"), all; if (s.kind == "train") all = x; else for (i64 k = 0; k < t->num("times", 1); k++) all += x + "\n"; s.texts.push_back(all); }
        s.path = "/work/" + prefix + "in" + l->get("i");
        if (s.kind == "file") { string all; for (auto &t: s.texts) all += t; if (put) fs::put(s.path, all); }
        if (s.kind == "folder" && put) { fs::mkdirs(s.path); for (size_t k = 0; k < s.texts.size(); k++) fs::put(s.path + "/" + string(1, (char) ('a' + (k * 7) % 26)) + std::to_string(k) + ".txt", s.texts[k]); }
        v.push_back(s);
    }
    return v;
}
static bool learn(Model &m, const Step &s) {
    if (s.kind == "file") return m.train_on_file(s.path);
    if (s.kind == "folder") return m.train_on_folder(s.path);
    m.train(s.texts, s.patience, 0.00001, s.freq, s.merges); return true;
}
