// simkit: a deterministic simulator for single-process C++ programs.
// Everything nondeterministic (file system, clock, randomness, memory, process death) is decided here, from a plan.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {
    using std::string;
    using std::vector;
    using u64 = uint64_t;
    using i64 = int64_t;

    u64 mix(u64 x);
    u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ULL);
    inline u64 hash_str(const string &s, u64 h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

    struct Rng {
        u64 s;
        explicit Rng(u64 seed = 0) : s(mix(seed + 0x9e3779b97f4a7c15ULL)) {}
        u64 next();
        u64 below(u64 n) { return n ? next() % n : 0; }
        i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); } // inclusive
        bool chance(unsigned permille) { return below(1000) < permille; }
        double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
        template<class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    };

    // One line of a plan: "<type> k=v k=v". Values are percent-escaped in the text form.
    struct Line {
        string type;
        vector<std::pair<string, string>> kv;
        Line() = default;
        explicit Line(string t) : type(std::move(t)) {}
        Line &set(const string &k, const string &v);
        Line &set(const string &k, i64 v);
        [[nodiscard]] bool has(const string &k) const;
        [[nodiscard]] string get(const string &k, const string &def = "") const;
        [[nodiscard]] i64 num(const string &k, i64 def = 0) const;
        [[nodiscard]] string text() const;
        static Line parse(const string &);
    };
    struct Plan {
        vector<Line> lines;
        Line &add(const string &type) { lines.emplace_back(type); return lines.back(); }
        [[nodiscard]] const Line *first(const string &type) const;
        [[nodiscard]] vector<const Line *> all(const string &type) const;
        [[nodiscard]] string text() const;
        static Plan parse(const string &);
        [[nodiscard]] string get(const string &type, const string &k, const string &def = "") const;
        [[nodiscard]] i64 num(const string &type, const string &k, i64 def = 0) const;
    };

    // ---- in-memory file system: the durable state of the simulated machine
    namespace fs {
        void reset();
        void put(const string &path, const string &content); // creates parent directories
        void mkdirs(const string &path);
        bool exists(const string &path);
        bool is_dir(const string &path);
        string get(const string &path);
        bool erase(const string &path); // recursive
        vector<string> list_files(const string &under = "/"); // absolute paths of all regular files, sorted
        vector<string> list_all(const string &under = "/"); // files and directories
        string snapshot();
        void restore(const string &blob);
        u64 digest(const string &under = "/");
        void set_cwd(const string &path);
        string abs(const string &path);
    }

    // ---- faults and environment (taken from the plan by begin_boot)
    struct Counters {
        u64 io = 0, mut = 0, reads = 0, writes = 0, opens = 0, alloc = 0, clock = 0, rnd = 0, threads = 0;
        u64 sim_ns = 0; // simulated monotonic time elapsed
        u64 bytes_written = 0;
    };
    struct BootResult {
        enum Kind { Completed, Crashed, Signal, Timeout, Livelock } kind = Completed;
        int sig = 0;
        Counters c;
        [[nodiscard]] bool ok() const { return kind == Completed; }
        [[nodiscard]] string describe() const;
    };

    struct Failure {
        string cls; // stable class of the violation, used while minimising and for known findings
        string msg;
    };
    struct RunResult {
        bool failed = false;
        Failure failure;
        u64 hash = 0; // hash of every event and verdict of the run
        u64 state_hash = 0; // hash of the states judged (crash states, outcomes)
        std::map<string, u64> fired; // fault kinds that really happened
        std::map<string, u64> tags; // coverage tags
        u64 sim_ns = 0, io = 0, boots = 0, crashes = 0, allocs = 0;
        bool nontrivial = false;
    };

    // The controller of a run. Only boots (forked processes) execute code of the system under test.
    class Run {
    public:
        explicit Run(const Plan &p);
        const Plan &plan;
        RunResult res;
        vector<string> notes; // what boots recorded (survives crashes: the observer is outside the machine)
        // Boots a process on the current disk and runs fn in it. faults: lines "fault ..." whose boot= equals tag.
        BootResult boot(const string &tag, const std::function<void()> &fn, bool with_faults = true);
        void fail(const string &cls, const string &msg);
        [[nodiscard]] bool failed() const { return res.failed; }
        void tag(const string &t, u64 n = 1) { res.tags[t] += n; }
        void judged(u64 h); // a state that an oracle judged
        [[nodiscard]] string note(const string &key, const string &def = "") const; // last "key\0value"
        [[nodiscard]] vector<string> notes_of(const string &key) const;
        [[nodiscard]] bool has_note(const string &key) const;
        Counters last; // counters of the last boot
    };

    // ---- called inside a boot
    void note(const string &key, const string &value);
    void boot_fail(const string &cls, const string &msg); // record a violation from inside a boot
    void reseed(u64 v); // the draws that follow depend on v alone
    void arm(bool on); // fault points count and fire only while armed (default: armed when with_faults)
    bool armed();
    void heal(); // ends persistent faults (disk full)
    u64 io_count();
    u64 alloc_count();
    u64 clock_count();
    u64 now_mono_ns();
    u64 now_real_ns();
    void advance_ns(u64 ns);
    void event(const string &s); // add to the event hash / trace
    u64 faults_fired();
    bool fault_fired(); // has any error-kind fault fired in this boot while armed
    void limit_io(u64 n); // livelock limit
    string captured_out(); // cout since last call
    string captured_err();
    string recent_trace();
    void keep_removed(const string &under); // from now on files are copied to that directory before they are removed
    vector<string> made_dirs(); // directories made since then
    // faults counted from now on
    void inject(const string &kind, u64 after, i64 a, i64 b);
    void clear_faults();
    // what the process holds: blocks and bytes from operator new, open files and directories
    u64 live_blocks();
    u64 live_bytes();
    u64 open_files();
    string open_names();
    void track_blocks(bool on); // remember where the blocks that are allocated from now on come from
    string tracked_blocks(); // those of them that still live, by origin

    struct NoSim { // harness bookkeeping: allocations and I/O inside are not the SUT's
        NoSim();
        ~NoSim();
    };

    // ---- properties
    struct Property {
        string id;
        // Generates the base plan of run `index`. tier: 0 quick, 1 thorough.
        std::function<Plan(Rng &, u64 index, int tier)> generate;
        // Executes the plan.
        std::function<void(Run &)> run;
        // Derives fault plans from a base plan and its fault-free result.
        std::function<vector<Plan>(const Plan &, const RunResult &, const std::map<string, Counters> &, Rng &, int tier)> derive;
        // Kinds of plan lines the minimiser may drop.
        std::set<string> droppable{"op", "fault", "row", "file"};
        string rule;
    };
    void add_property(Property p);
    int main_entry(int argc, char **argv);
    extern bool g_trace;

    // counters per boot tag of the last run executed by exec_plan
    extern std::map<string, Counters> g_boot_counters;
    // standard derivation: faults spread over the named boots
    struct DeriveOpt {
        vector<string> boots; // boots that may be faulted
        bool crash = true, err = true, full = true, alloc = false, thread = false;
        int per_base_quick = 6, per_base_thorough = 12;
        vector<Line> extra;
    };
    vector<Plan> derive_faults(const Plan &base, const std::map<string, Counters> &bc, Rng &r, int tier, const DeriveOpt &o);
    // random environment knobs (short I/O, EINTR, directory order, memory fill, clock behaviour)
    void gen_env(Plan &p, Rng &r, bool benign_io = true, bool wild_clock = false);
}

// scheduler entry points (sched.cpp); weak when no scheduler is linked
namespace sim::sched {
    void reset(u64 seed, int preempt_mean, int strategy);
    u64 switches();
    u64 schedule_hash();
    void stop();
    bool deadlocked();
}
