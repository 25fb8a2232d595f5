// Tokenizers: B01 save and load, B02 lossless and reproducible tokenizing.
#include "tokgen.hpp"

using namespace sim;
static const string REPO = "/work/repo";
static bool err_fired(Run &run) { for (auto &f: run.res.fired) if (f.first.rfind("error", 0) == 0 || f.first == "disk-full" || f.first == "alloc-fail") return true; return false; }

static string bytes(const std::u16string &s) { return string((const char *) s.data(), s.size() * 2); }
static vector<string> probes_of(const Plan &p) { vector<string> v; for (auto l: p.all("probe")) v.push_back(l->get("v")); return v; }
// The codes of every probe, each length first.
static string all_codes(Model &m, const vector<string> &probes) { string s; for (auto &t: probes) { string b = bytes(m.encode(t)); s += std::to_string(b.size()) + ":" + b; } return s; }
static string shown(const string &s) { string o; for (unsigned char c: s.substr(0, 40)) { char b[8]; if (c >= 32 && c < 127) o += (char) c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return "'" + o + (s.size() > 40 ? "...'" : "'"); }
static bool lossless(Model &m, const vector<string> &texts, const string &cls, const string &when) {
    for (auto &t: texts) { string back = m.decode(m.encode(t)); if (back != t) { NoSim ns; boot_fail(cls, "after " + when + " the text " + shown(t) + " comes back as " + shown(back)); return false; } }
    return true;
}

// ================================================================= B02
static Plan gen_tok(Rng &r, u64, int tier) {
    Plan p; gen_env(p, r); string alpha = gen_alpha(r);
    static const vector<i64> dl{256, 256, 256, 256, 257, 300, 4096, 0x7F00, 0x7FF0, 0x7FFA};
    i64 d = r.pick(dl); p.add("conf").set("delim", d);
    gen_history(p, r, alpha, "", 1 + r.below(tier ? 6 : 4), true, d); gen_probes(p, r, alpha);
    Line eb("envboot"); eb.set("boot", "again").set("fill", (i64) r.below(5)).set("rnd", (i64) r.below(100000)).set("dir", (i64) r.below(4)).set("short", r.range(0, 500)).set("clk", (i64) r.below(6)).set("seed", (i64) r.below(1000000)); p.lines.push_back(eb);
    return p;
}
static void run_tok(Run &run) {
    const Plan &p = run.plan; auto steps = steps_of(p, "", true); auto probes = probes_of(p); uint16_t delim = (uint16_t) p.num("conf", "delim", 256);
    fs::mkdirs("/work/run"); fs::set_cwd("/work/run");
    bool random = false; for (auto &s: steps) if (s.kind == "train" && s.patience >= 0) random = true; // early stopping splits the texts at random
    auto body = [&](const string &key, bool faults) {
        arm(false); Model m("default", false, delim); u64 n = 0;
        for (auto &s: steps) {
            n++; string before = all_codes(m, probes); bool ok = false; string what; arm(faults); u64 f0 = faults_fired();
            try { ok = learn(m, s); } catch (const std::bad_alloc &) { arm(false); what = "nomem"; } catch (const std::exception &x) { arm(false); what = x.what(); }
            arm(false); bool hit = faults_fired() > f0; NoSim ns;
            if (!what.empty() || !ok) {
                if (!hit && !(s.kind == "folder" && s.texts.empty())) { boot_fail("B02-refused", "training step " + std::to_string(n) + " failed without any fault: " + what); return; }
                if (!lossless(m, probes, "B02-lossy", "a failed training step " + std::to_string(n))) return;
                note(key + "-failed", std::to_string(n)); return;
            }
            if (!lossless(m, probes, "B02-lossy", "training step " + std::to_string(n))) return;
            for (auto &t: s.texts) if (s.kind == "train" && !lossless(m, {t}, "B02-lossy", "training on it in step " + std::to_string(n))) return;
            for (auto &t: probes) { auto c = m.encode(t); if (c.size() > t.size() + 2) { boot_fail("B02-longer", "the codes of " + shown(t) + " are longer than the text"); return; } }
            if (!faults || s.kind != "train") { // another tokenizer given the same codes
                auto codes = m.getBpeCodes(); std::unordered_map<std::u16string, std::u16string> map(codes.begin(), codes.end()); Model other("other", false, (uint16_t) (delim + (n % 2 ? 0 : 3))); if (n % 3 == 0) other.train({"aab aab", "ab ab"}); other.configure(map, m.getDelimiter()[0]);
                NoSim ns; if (all_codes(other, probes) != all_codes(m, probes)) { boot_fail("B02-codes", "a tokenizer configured with the codes of the trained one (step " + std::to_string(n) + ") gives other codes"); return; }
                if (!lossless(other, probes, "B02-lossy", "configuring it with the codes of step " + std::to_string(n))) return;
                auto grow = [&](Model &x) { Step t; t.kind = "train"; t.texts = probes; t.patience = -1; t.merges = 20; t.freq = 2; return learn(x, t); };
                grow(other);
                if (!lossless(other, probes, "B02-lossy", "configuring it with the codes of step " + std::to_string(n) + " and training on")) return;
            }
            note(key, all_codes(m, probes));
        }
    };
    auto a = run.boot("train", [&] { body("train", true); }, true);
    if (!a.ok()) return run.fail("B02-died", "training ended abnormally: " + a.describe());
    if (run.failed()) return;
    auto b = run.boot("again", [&] { body("again", false); }, false);
    if (!b.ok()) return run.fail("B02-died", "training ended abnormally: " + b.describe());
    if (run.failed()) return;
    auto x = run.notes_of("train"), y = run.notes_of("again"); run.tag(random ? "early-stopping" : "reproducible"); for (auto &s: steps) run.tag(s.kind);
    if (!random) for (size_t i = 0; i < x.size() && i < y.size(); i++) if (x[i] != y[i]) return run.fail(err_fired(run) ? "B02-unreported" : "B02-unstable", err_fired(run) ? "training step " + std::to_string(i + 1) + " reported success after a failed read, but learned something else" : "the same training gave other codes at step " + std::to_string(i + 1));
    if (run.has_note("train-failed")) run.tag("reported");
    string all; for (auto &s: x) all += s; run.judged(hash_str(all));
}

// ================================================================= B01
static Plan gen_save(Rng &r, u64, int) {
    Plan p; gen_env(p, r); string alpha = gen_alpha(r);
    static const vector<i64> dl{256, 256, 256, 257, 300, 4096, 0x7FF0};
    static const vector<string> nm{"default", "default", "my tokens", "a.b"};
    auto &c = p.add("conf"); c.set("delim", r.pick(dl)).set("name", r.pick(nm)).set("old", r.chance(400)).set("overwrite", r.chance(750)).set("used", (i64) r.below(3)).set("cut", r.chance(250) ? (i64) r.below(1000) : -1).set("more", r.chance(300));
    gen_history(p, r, alpha, "", 1 + r.below(2), false, 0); gen_history(p, r, alpha, "old", 1, false, 0); gen_history(p, r, alpha, "used", 1, false, 0); gen_history(p, r, alpha, "more", 1, false, 0);
    gen_probes(p, r, alpha);
    for (auto t: {"load", "save"}) { Line eb("envboot"); eb.set("boot", t).set("fill", (i64) r.below(5)).set("short", r.range(0, 700)).set("eintr", r.range(0, 200)).set("seed", (i64) r.below(1000000)).set("clk", (i64) r.below(6)); p.lines.push_back(eb); }
    return p;
}
static void run_save(Run &run) {
    const Plan &p = run.plan; auto probes = probes_of(p); auto &c = *p.first("conf"); string name = c.get("name"); uint16_t delim = (uint16_t) c.num("delim", 256);
    fs::mkdirs("/work/run"); fs::set_cwd("/work/run"); fs::mkdirs(REPO);
    auto make = [&](const string &prefix, uint16_t d) { auto m = std::make_shared<Model>(name, false, d); for (auto &s: steps_of(p, prefix, false)) { Step t = s; t.patience = -1; learn(*m, t); } return m; };
    auto more = [&](Model &m) { for (auto &s: steps_of(p, "more", false)) { Step t = s; t.patience = -1; learn(m, t); } };
    auto dirs = [&] { vector<string> d; for (auto f: fs::list_all(REPO)) if (f.back() == '/') { f.pop_back(); if (f != REPO) d.push_back(f); } return d; };
    if (c.num("old")) {
        auto b = run.boot("old", [&] { arm(false); auto m = make("old", (uint16_t) (delim + 5)); note("old", all_codes(*m, probes)); note("oldsaved", m->save(REPO, "words", true) ? "1" : "0"); }, false);
        if (!b.ok() || run.note("oldsaved") != "1") return run.fail("B01-setup", "saving a tokenizer failed without any fault: " + b.describe());
    }
    bool had = c.num("old"), overwrite = c.num("overwrite", 1); auto dirs0 = dirs();
    auto s = run.boot("save", [&] {
        arm(false); auto m = make("", delim); note("new", all_codes(*m, probes)); string r; arm(true);
        try { r = m->save(REPO, "words", overwrite) ? "ok" : "refused"; } catch (const std::exception &) { arm(false); r = "threw"; }
        arm(false); note("saved", r); if (all_codes(*m, probes) != run.note("new")) {} // the notes live in the controller
        note("still", all_codes(*m, probes)); more(*m); note("newmore", all_codes(*m, probes));
    }, true);
    if (!s.ok() && s.kind != BootResult::Crashed) return run.fail("B01-died", "saving ended abnormally: " + s.describe());
    string said = s.ok() ? run.note("saved") : "crashed", was = run.note("new"), old = run.note("old"); bool faulty = err_fired(run) || !s.ok();
    if (s.ok() && run.note("still") != was) return run.fail("B01-changed", "saving a tokenizer changed it");
    if (said != "ok" && !faulty) return run.fail("B01-refused", "saving failed without any fault");
    run.tag("save-" + said);
    // where it went
    string label = "words"; bool fresh = had && !overwrite; // goes into a new folder, the old one stays
    if (fresh) { label.clear(); for (auto &d: dirs()) { bool known = false; for (auto &k: dirs0) known = known || k == d; if (!known) label = d.substr(d.rfind('/') + 1); } if (said == "ok" && label.empty()) return run.fail("B01-lost", "a save without overwriting made no new folder"); }
    string disk = fs::snapshot();
    struct Look { string said, codes, more, after; };
    auto look = [&](const string &tag, const string &lbl, int used, bool faults) {
        auto b = run.boot(tag, [&] {
            arm(false); std::shared_ptr<Model> m; if (used == 0) m = std::make_shared<Model>(name, false); else m = make("used", (uint16_t) (used == 1 ? 256 : 400));
            note(tag + "-before", all_codes(*m, probes)); string r; arm(faults);
            try { r = m->load(REPO, lbl) ? "ok" : "refused"; } catch (const std::exception &) { arm(false); r = "threw"; }
            arm(false); note(tag, r); note(tag + "-codes", all_codes(*m, probes));
            if (r == "ok") { if (!lossless(*m, probes, "B01-lossy", "loading")) return; NoSim ns; { arm(false); } more(*m); note(tag + "-more", all_codes(*m, probes)); }
        }, faults);
        Look l; if (!b.ok()) { run.fail("B01-died", "loading ended abnormally: " + b.describe()); return l; }
        l.said = run.note(tag); l.codes = run.note(tag + "-codes"); l.more = run.note(tag + "-more");
        if (l.said != "ok" && !run.failed() && l.codes != run.note(tag + "-before")) run.fail("B01-spoiled", "a failed load changed the tokenizer it was called on");
        return l;
    };
    if (fresh) { auto l = look("oldstays", "words", 0, false); if (run.failed()) return; if (l.said != "ok" || l.codes != old) return run.fail("B01-old", "saving without overwriting damaged the tokenizer that was there"); }
    if (label.empty()) { run.judged(3); return; }
    u64 before = run.res.fired.size(); (void) before; bool e0 = err_fired(run);
    auto l = look("load", label, (int) c.num("used"), true); if (run.failed()) return;
    bool loadfault = err_fired(run) && !e0;
    if (loadfault) { for (auto &f: run.plan.all("fault")) if (f->get("boot") == "save") loadfault = false; }
    if (l.said == "ok") {
        bool same = l.codes == was; bool older = had && !fresh && l.codes == old;
        if (!(same || (said != "ok" && older))) return run.fail(said == "ok" ? "B01-different" : "B01-partial", "the tokenizer that was loaded after a save that " + string(said == "ok" ? "succeeded" : said == "crashed" ? "crashed" : "failed") + " gives other codes");
        if (same && run.has_note("newmore") && l.more != run.note("newmore")) return run.fail("B01-continue", "training on continues differently after loading");
    } else if (said == "ok" && !loadfault && !err_fired(run)) return run.fail("B01-lost", "a tokenizer that was saved could not be loaded");
    run.tag("load-" + l.said);
    // whatever the faults were: without them now, a successful save is there
    if (said == "ok") { auto g = look("reload", label, 0, false); if (run.failed()) return; if (g.said != "ok" || g.codes != was) return run.fail("B01-lost", "a save that reported success can't be loaded: " + g.said); }
    // a cut file: refused, or it is the complete file of some tokenizer, which saving it again gives back
    if (said == "ok" && c.num("cut", -1) >= 0) {
        fs::restore(disk); string file; for (auto &f: fs::list_files(REPO + "/" + label)) file = f;
        string all = fs::get(file); size_t at = all.size() * (size_t) c.num("cut") / 1000; string cut = all.substr(0, at); fs::put(file, cut);
        auto b = run.boot("cut", [&] {
            arm(false); Model m(name, false); bool ok = false; try { ok = m.load(REPO, label); } catch (const std::exception &) {}
            note("cut", ok ? "1" : "0"); if (ok) m.save(REPO, "again", true);
        }, false);
        if (!b.ok()) return run.fail("B01-died", "loading a cut file ended abnormally: " + b.describe());
        if (run.note("cut") == "1") { string back; for (auto &f: fs::list_files(REPO + "/again")) back = fs::get(f); if (back != cut) return run.fail("B01-cut", "a file cut after " + std::to_string(at) + " of " + std::to_string(all.size()) + " bytes was accepted"); }
        run.tag(run.note("cut") == "1" ? "cut-whole" : "cut-refused");
    }
    if (!had && label == "words" && c.num("cut", -1) < 0 && said == "ok" && c.num("used") == 0) {
        auto g = look("missing", "nothing", 1, false); if (run.failed()) return; if (g.said == "ok") return run.fail("B01-missing", "loading a missing tokenizer reported success");
    }
    run.judged(hash_str(said + l.said + l.codes));
}

int main(int argc, char **argv) {
    auto der = [](vector<string> boots, bool crash, bool full) { return [=](const Plan &p, const RunResult &, const std::map<string, Counters> &bc, Rng &r, int tier) { DeriveOpt o; o.boots = boots; o.crash = crash; o.full = full; o.alloc = true; return derive_faults(p, bc, r, tier, o); }; };
    add_property({"B01", gen_save, run_save, der({"save", "save", "load"}, true, true), {"step", "text", "oldtext", "usedtext", "moretext", "probe", "fault"}, "random trainings saved over or beside earlier tokenizers and loaded by other processes into fresh or used ones, with crashes, failing and split I/O, full disks, failing allocations and cut files."});
    add_property({"B02", gen_tok, run_tok, der({"train"}, false, false), {"step", "text", "probe", "fault"}, "random training histories from memory, files and folders over random alphabets with repeated and overlapping patterns; every probe decoded from its codes, and the history repeated in another environment."});
    return main_entry(argc, argv);
}
