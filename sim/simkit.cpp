#include <execinfo.h>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#undef _FORTIFY_SOURCE
#include "simkit.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <new>
#include <random>
#include <sstream>
#include <stdexcept>

namespace sim {
    bool g_trace = false;
    std::map<string, Counters> g_boot_counters;

    u64 mix(u64 x) {
        x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
        x ^= x >> 27; x *= 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    u64 hash_bytes(const void *p, size_t n, u64 h) {
        auto c = (const unsigned char *) p;
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
        return h;
    }
    u64 Rng::next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }

    // ------------------------------------------------------------------ plan text
    static string esc(const string &v) {
        string r; char b[8];
        for (unsigned char c: v) {
            if (c <= ' ' || c == '%' || c == '=' || c >= 127) { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += (char) c;
        }
        return r.empty() ? "%" : r; // "%" alone = empty
    }
    static string unesc(const string &v) {
        if (v == "%") return "";
        string r;
        for (size_t i = 0; i < v.size(); i++) {
            if (v[i] == '%' && i + 2 < v.size()) { r += (char) strtol(v.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += v[i];
        }
        return r;
    }
    Line &Line::set(const string &k, const string &v) { for (auto &e: kv) if (e.first == k) { e.second = v; return *this; } kv.emplace_back(k, v); return *this; }
    Line &Line::set(const string &k, i64 v) { return set(k, std::to_string(v)); }
    bool Line::has(const string &k) const { for (auto &e: kv) if (e.first == k) return true; return false; }
    string Line::get(const string &k, const string &d) const { for (auto &e: kv) if (e.first == k) return e.second; return d; }
    i64 Line::num(const string &k, i64 d) const { for (auto &e: kv) if (e.first == k) return strtoll(e.second.c_str(), nullptr, 10); return d; }
    string Line::text() const { string r = type; for (auto &e: kv) r += " " + e.first + "=" + esc(e.second); return r; }
    Line Line::parse(const string &s) {
        Line l; std::istringstream in(s); string t; in >> l.type;
        while (in >> t) { auto p = t.find('='); if (p != string::npos) l.kv.emplace_back(t.substr(0, p), unesc(t.substr(p + 1))); }
        return l;
    }
    const Line *Plan::first(const string &t) const { for (auto &l: lines) if (l.type == t) return &l; return nullptr; }
    vector<const Line *> Plan::all(const string &t) const { vector<const Line *> r; for (auto &l: lines) if (l.type == t) r.push_back(&l); return r; }
    string Plan::text() const { string r; for (auto &l: lines) r += l.text() + "\n"; return r; }
    Plan Plan::parse(const string &s) {
        Plan p; std::istringstream in(s); string l;
        while (std::getline(in, l)) if (!l.empty() && l[0] != '#') p.lines.push_back(Line::parse(l));
        return p;
    }
    string Plan::get(const string &t, const string &k, const string &d) const { auto l = first(t); return l ? l->get(k, d) : d; }
    i64 Plan::num(const string &t, const string &k, i64 d) const { auto l = first(t); return l ? l->num(k, d) : d; }

    // ------------------------------------------------------------------ in-memory file system
    struct Inode { bool dir = false; string data; std::map<string, int> kids; int links = 0; int opens = 0; u64 mtime = 0; };
    static vector<Inode *> inodes; // index = ino; 1 = root
    static string g_cwd = "/";

    static int new_inode(bool dir) { auto n = new Inode; n->dir = dir; inodes.push_back(n); return (int) inodes.size() - 1; }
    static void fs_init() {
        for (auto n: inodes) delete n;
        inodes.clear(); inodes.push_back(nullptr); new_inode(true); inodes[1]->links = 1; g_cwd = "/";
    }
    static vector<string> split_path(const string &p) {
        vector<string> out; string cur;
        for (size_t i = 0; i <= p.size(); i++) {
            if (i == p.size() || p[i] == '/') { if (!cur.empty() && cur != ".") out.push_back(cur); cur.clear(); } else cur += p[i];
        }
        return out;
    }
    static string join_abs(const string &p) { return !p.empty() && p[0] == '/' ? p : g_cwd + "/" + p; }
    // Resolves the real way: ".." needs the directory before it to exist.
    // returns ino or -errno; parent/leaf of the last component
    static int resolve(const string &path, int *parent = nullptr, string *leaf = nullptr, int start = 0) {
        if (path.empty()) return -ENOENT;
        auto parts = split_path(start && path[0] != '/' ? path : join_abs(path));
        vector<int> stack{start && path[0] != '/' ? start : 1};
        bool trailing = path.back() == '/';
        if (parent) { *parent = 0; *leaf = ""; }
        for (size_t i = 0; i < parts.size(); i++) {
            int cur = stack.back();
            if (!inodes[cur]->dir) return -ENOTDIR;
            if (parts[i] == "..") { if (stack.size() > 1) stack.pop_back(); continue; }
            bool last = i + 1 == parts.size();
            auto it = inodes[cur]->kids.find(parts[i]);
            if (last && parent) { *parent = cur; *leaf = parts[i]; }
            if (it == inodes[cur]->kids.end()) return -ENOENT;
            stack.push_back(it->second);
        }
        if (trailing && !inodes[stack.back()]->dir) return -ENOTDIR;
        return stack.back();
    }
    namespace fs {
        void reset() { fs_init(); }
        string abs(const string &p) {
            vector<string> out;
            for (auto &c: split_path(join_abs(p))) { if (c == "..") { if (!out.empty()) out.pop_back(); } else out.push_back(c); }
            string r; for (auto &c: out) r += "/" + c;
            return r.empty() ? "/" : r;
        }
        void mkdirs(const string &p) {
            int cur = 1;
            for (auto &c: split_path(abs(p))) {
                auto it = inodes[cur]->kids.find(c);
                if (it == inodes[cur]->kids.end()) { int n = new_inode(true); inodes[n]->links = 1; inodes[cur]->kids[c] = n; cur = n; } else cur = it->second;
            }
        }
        void put(const string &p, const string &content) {
            string a = abs(p); auto pos = a.rfind('/');
            mkdirs(a.substr(0, pos));
            int par = resolve(pos == 0 ? "/" : a.substr(0, pos)); string leaf = a.substr(pos + 1);
            auto it = inodes[par]->kids.find(leaf);
            int n;
            if (it == inodes[par]->kids.end()) { n = new_inode(false); inodes[n]->links = 1; inodes[par]->kids[leaf] = n; } else n = it->second;
            inodes[n]->data = content;
        }
        bool exists(const string &p) { return resolve(abs(p)) > 0; }
        bool is_dir(const string &p) { int r = resolve(abs(p)); return r > 0 && inodes[r]->dir; }
        string get(const string &p) { int r = resolve(abs(p)); return r > 0 && !inodes[r]->dir ? inodes[r]->data : string(); }
        bool erase(const string &p) {
            int par; string leaf; int r = resolve(abs(p), &par, &leaf);
            if (r <= 1) return false;
            inodes[par]->kids.erase(leaf); return true;
        }
        static void walk(int n, const string &path, vector<string> &out, bool dirs) {
            for (auto &k: inodes[n]->kids) {
                string c = path + "/" + k.first;
                if (inodes[k.second]->dir) { if (dirs) out.push_back(c + "/"); walk(k.second, c, out, dirs); } else out.push_back(c);
            }
        }
        static vector<string> lst(const string &under, bool dirs) {
            vector<string> out; int r = resolve(abs(under));
            if (r > 0 && inodes[r]->dir) { string a = abs(under); walk(r, a == "/" ? "" : a, out, dirs); }
            std::sort(out.begin(), out.end());
            return out;
        }
        vector<string> list_files(const string &u) { return lst(u, false); }
        vector<string> list_all(const string &u) { return lst(u, true); }
        void set_cwd(const string &p) { mkdirs(p); g_cwd = abs(p); }
        string snapshot() {
            std::ostringstream o;
            auto all = lst("/", true);
            auto w = [&](const string &s) { u64 n = s.size(); o.write((char *) &n, 8); o.write(s.data(), (std::streamsize) n); };
            w(g_cwd);
            u64 n = all.size(); o.write((char *) &n, 8);
            for (auto &p: all) { w(p); w(p.back() == '/' ? "" : get(p)); }
            return o.str();
        }
        void restore(const string &b) {
            size_t i = 0;
            auto ru = [&]() { u64 n; memcpy(&n, b.data() + i, 8); i += 8; return n; };
            auto rs = [&]() { u64 n = ru(); string s = b.substr(i, n); i += n; return s; };
            fs_init();
            string cwd = rs(); u64 n = ru();
            for (u64 k = 0; k < n; k++) { string p = rs(), d = rs(); if (p.back() == '/') mkdirs(p.substr(0, p.size() - 1)); else put(p, d); }
            g_cwd = cwd;
        }
        u64 digest(const string &under) {
            u64 h = 7;
            for (auto &p: list_all(under)) { h = hash_str(p, h); if (p.back() != '/') h = hash_str(get(p), h); h = mix(h); }
            return h;
        }
    }

    // ------------------------------------------------------------------ boot state
    static bool g_active = false; // this process is a boot: its syscalls are simulated
    static bool g_armed = false;
    extern thread_local int t_nosim __attribute__((tls_model("local-exec"))); thread_local int t_nosim = 0;
    struct Fault { string kind; u64 at; i64 a, b; u64 count = 0; bool done = false; string err; };
    static vector<Fault> g_faults;
    static Counters C;
    static u64 g_event_hash;
    static std::deque<string> *g_ring;
    static struct Env {
        u64 seed = 1; int shortp = 0, eintr = 0; u64 dirseed = 0; int fill = 0; u64 rnd = 1;
        int clk = 0; i64 tick = 1000; u64 clkseed = 1;
    } E;
    static bool g_full = false; static i64 g_room = 0; static i64 g_full_left = 0;
    struct Fired { u64 n = 0; bool operator=(bool b) { if (b) n++; else n = 0; return b; } operator bool() const { return n; } };
    static Fired g_fault_fired;
    static u64 g_io_limit = 4000000;
    static u64 g_mono = 0; static i64 g_real = 0;
    static int g_forced_short = -1;

    // shared with the controller
    struct Shared {
        u64 notes_len, fs_len, hash;
        Counters c;
        i64 real;
        int status;
        char fired[64][24]; u64 fired_n[64]; int nfired;
    };
    static const size_t SH_NOTES = 48u << 20, SH_FS = 160u << 20;
    static Shared *SH; static char *sh_notes, *sh_fs;

    static void shared_init() {
        if (SH) return;
        char *m = (char *) mmap(nullptr, sizeof(Shared) + SH_NOTES + SH_FS + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        SH = (Shared *) m; sh_notes = m + 8192 + sizeof(Shared); sh_fs = sh_notes + SH_NOTES;
    }
    static void sh_fire(const string &kind) {
        for (int i = 0; i < SH->nfired; i++) if (kind == SH->fired[i]) { SH->fired_n[i]++; return; }
        if (SH->nfired < 64) { strncpy(SH->fired[SH->nfired], kind.c_str(), 23); SH->fired_n[SH->nfired++] = 1; }
    }
    NoSim::NoSim() { t_nosim++; }
    NoSim::~NoSim() { t_nosim--; }
    static void ev(const string &s) {
        NoSim n;
        g_event_hash = mix(hash_str(s, g_event_hash));
        if (g_active) {
            if (!g_ring) g_ring = new std::deque<string>;
            g_ring->push_back(s);
            if (g_ring->size() > 400) g_ring->pop_front();
        }
        if (g_trace) { string l = "  | " + s + "\n"; syscall(SYS_write, 2, l.data(), l.size()); }
    }
    void event(const string &s) { ev("# " + s); }
    string recent_trace() { NoSim n; string r; if (g_ring) for (auto &s: *g_ring) r += s + "\n"; return r; }
    void note(const string &k, const string &v) {
        NoSim n;
        string rec; u64 kl = k.size(), vl = v.size();
        rec.append((char *) &kl, 8); rec += k; rec.append((char *) &vl, 8); rec += v;
        if (SH->notes_len + rec.size() > SH_NOTES) { fprintf(stderr, "simkit: notes overflow\n"); _exit(99); }
        memcpy(sh_notes + SH->notes_len, rec.data(), rec.size());
        SH->notes_len += rec.size();
        ev("note " + k + " " + std::to_string(hash_str(v) % 1000000007));
    }
    void boot_fail(const string &c, const string &m) { note("!fail", c + "\n" + m); }
    enum { ST_RUNNING = 0, ST_DONE = 1, ST_CRASH = 2, ST_LIVELOCK = 3, ST_ABORT = 4 };
    static void save_state(int status) {
        t_nosim++;
        string b = fs::snapshot();
        if (b.size() > SH_FS) { fprintf(stderr, "simkit: fs overflow\n"); syscall(SYS_exit_group, 99); }
        memcpy(sh_fs, b.data(), b.size());
        SH->fs_len = b.size(); SH->hash = g_event_hash; SH->real = g_real; SH->c = C; SH->c.sim_ns = g_mono; SH->status = status;
        t_nosim--;
    }
    [[noreturn]] static void leave(int status) {
        save_state(status);
        syscall(SYS_exit_group, 0);
        __builtin_unreachable();
    }
    bool armed() { return g_armed; }
    void inject(const string &kind, u64 after, i64 a, i64 b) {
        Fault f; f.kind = kind; f.a = a; f.b = b;
        f.at = after + (kind == "err" ? C.io : kind == "rerr" ? C.reads : kind == "werr" || kind == "full" ? C.writes : kind == "oerr" ? C.opens : kind == "alloc" ? C.alloc : kind == "crash" ? C.mut : C.threads);
        NoSim n; g_faults.push_back(f);
    }
    void clear_faults() { NoSim n; g_faults.clear(); g_full = false; }
    void arm(bool on) { g_armed = on; }
    void heal() { g_full = false; }
    u64 io_count() { return C.io; }
    u64 alloc_count() { return C.alloc; }
    u64 clock_count() { return C.clock; }
    u64 now_mono_ns() { return g_mono; }
    u64 now_real_ns() { return (u64) g_real; }
    void advance_ns(u64 ns) { g_mono += ns; g_real += (i64) ns; }
    bool fault_fired() { return g_fault_fired; }
    u64 faults_fired() { return g_fault_fired.n; }
    void limit_io(u64 n) { g_io_limit = n; }

    // cout and cerr of the process; like a terminal they need none of its memory
    struct Capture : std::streambuf {
        string text;
        int_type overflow(int_type c) override { NoSim n; if (c != traits_type::eof()) text += (char) c; return 0; }
        std::streamsize xsputn(const char *s, std::streamsize k) override { NoSim n; text.append(s, (size_t) k); return k; }
        string take() { NoSim n; string s; s.swap(text); return s; }
    };
    static Capture *cap_out, *cap_err;
    string captured_out() { return cap_out->take(); }
    string captured_err() { return cap_err->take(); }

    // ---- fault decisions
    static Fault *match(const char *kind, u64 ord) {
        if (!g_armed) return nullptr;
        for (auto &f: g_faults) if (!f.done && f.kind == kind && f.at == ord) { f.done = true; return &f; }
        return nullptr;
    }
    static void fired(const string &k) { sh_fire(k); }
    // A fault point. Returns 0 or an errno to fail with.
    static int point(const char *what, const char *cls) {
        u64 io = 0, ord = 0;
        if (g_armed) io = C.io++;
        else { static u64 un = 0; if (++un > 40000000) leave(ST_LIVELOCK); }
        if (C.io > g_io_limit) leave(ST_LIVELOCK);
        if (g_armed) {
            if (!strcmp(cls, "read")) ord = C.reads++;
            else if (!strcmp(cls, "write")) ord = C.writes++;
            else if (!strcmp(cls, "open")) ord = C.opens++;
        }
        Fault *f = match("err", io);
        if (!f && !strcmp(cls, "read")) f = match("rerr", ord);
        if (!f && !strcmp(cls, "write")) f = match("werr", ord);
        if (!f && !strcmp(cls, "open")) f = match("oerr", ord);
        if (f) {
            int e = (int) f->a;
            if (!strcmp(cls, "read")) e = EIO;
            else if (!strcmp(cls, "write")) { if (e != ENOSPC && e != EIO) e = EIO; }
            fired(string("error-") + cls); g_fault_fired = true;
            ev(string("FAULT ") + what + " errno=" + std::to_string(e));
            return e;
        }
        if (!strcmp(cls, "write")) {
            Fault *w = match("full", ord);
            if (w) { g_full = true; g_room = w->a; g_full_left = w->b; fired("disk-full"); ev("FAULT disk full"); }
        }
        return 0;
    }
    // A mutation is about to be applied. Crash here?
    static Fault *crash_here() {
        if (!g_armed) return nullptr;
        u64 m = C.mut++;
        return match("crash", m);
    }
    [[noreturn]] static void do_crash(const string &what) { fired("crash"); ev("CRASH at " + what); leave(ST_CRASH); }
    static u64 dice(u64 salt) { return mix(E.seed * 0x9e3779b97f4a7c15ULL + (C.io << 8) + salt); }

    // ------------------------------------------------------------------ open files
    struct Ofd { bool used = false; int ino = 0; size_t off = 0; int flags = 0; bool dir = false; vector<string> ents; size_t pos = 0; bool stream = false; bool err = false; };
    static const int FD0 = 1 << 20, MAXFD = 4096;
    static Ofd ofds[MAXFD];
    static char fake_files[MAXFD]; // FILE* handed out
    static char fake_dirs[MAXFD]; // DIR* handed out
    u64 open_files() { u64 n = 0; for (auto &o: ofds) n += o.used; return n; }
    static string name_of(int ino, int at = 1, const string &here = "") {
        if (at == ino) return here.empty() ? "/" : here;
        for (auto &k: inodes[(size_t) at]->kids) { string s = name_of(ino, k.second, here + "/" + k.first); if (!s.empty()) return s; }
        return "";
    }
    string open_names() { NoSim n; string s; for (auto &o: ofds) if (o.used) s += (s.empty() ? "" : ", ") + name_of(o.ino); return s; }
    static bool is_fd(int fd) { return fd >= FD0 && fd < FD0 + MAXFD && ofds[fd - FD0].used; }
    static bool is_sfd(int fd) { return fd >= FD0 && fd < FD0 + MAXFD; }
    static bool is_file(void *f) { return (char *) f >= fake_files && (char *) f < fake_files + MAXFD; }
    static bool is_dirp(void *f) { return (char *) f >= fake_dirs && (char *) f < fake_dirs + MAXFD; }
    static int file_idx(void *f) { return (int) ((char *) f - fake_files); }
    static int dir_idx(void *f) { return (int) ((char *) f - fake_dirs); }

    void sched_point(int kind);

    static string g_keep; static vector<string> g_made; // what is removed is copied there; directories made, in order
    void keep_removed(const string &under) { NoSim n; g_keep = under; g_made.clear(); }
    vector<string> made_dirs() { return g_made; }
    static string rel(int ino) { return "#" + std::to_string(ino); }

    struct Name : string { Name(const char *c) { NoSim n; assign(c); } Name(const string &s) { NoSim n; assign(s); } }; // the simulator's own copy
    static int s_open(const Name &path, int flags, int at = 0) {
        NoSim n;
        sched_point(1);
        string label = "open " + path + ((flags & O_ACCMODE) ? " w" : " r") + ((flags & O_TRUNC) ? "t" : "") + ((flags & O_APPEND) ? "a" : "");
        int e = point(label.c_str(), (flags & O_DIRECTORY) ? "dir" : "open");
        if (e) { errno = e; ev(label + " = -" + std::to_string(e)); return -1; }
        int par; string leaf; int ino = resolve(path, &par, &leaf, at);
        if (ino < 0) {
            if (ino == -ENOENT && (flags & O_CREAT) && par && !leaf.empty() && path.back() != '/') {
                // parent must be the last directory on the path
                if (auto f = crash_here()) { (void) f; do_crash(label); }
                if (g_full && g_room <= 0) { errno = ENOSPC; ev(label + " = ENOSPC"); g_fault_fired = true; return -1; }
                ino = new_inode(false); inodes[ino]->links = 1; inodes[par]->kids[leaf] = ino;
            } else { errno = -ino; ev(label + " = " + std::to_string(ino)); return -1; }
        } else {
            if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
            if (inodes[ino]->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; ev(label + " EISDIR"); return -1; }
            if ((flags & O_DIRECTORY) && !inodes[ino]->dir) { errno = ENOTDIR; return -1; }
            if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && !inodes[ino]->data.empty()) {
                if (auto f = crash_here()) { (void) f; do_crash(label); }
                inodes[ino]->data.clear();
            }
        }
        for (int i = 0; i < MAXFD; i++) if (!ofds[i].used) {
            ofds[i] = Ofd(); ofds[i].used = true; ofds[i].ino = ino; ofds[i].flags = flags; ofds[i].dir = inodes[ino]->dir;
            inodes[ino]->opens++;
            ev(label + " = " + std::to_string(i));
            return FD0 + i;
        }
        errno = EMFILE; return -1;
    }
    static int s_close(int fd) {
        NoSim n;
        if (!is_fd(fd)) { errno = EBADF; return -1; }
        ev("close " + std::to_string(fd - FD0));
        ofds[fd - FD0].used = false;
        ofds[fd - FD0].ents.clear();
        return 0;
    }
    static ssize_t s_read(int fd, void *buf, size_t cnt) {
        NoSim n;
        sched_point(2);
        if (!is_fd(fd)) { errno = EBADF; return -1; }
        auto &o = ofds[fd - FD0]; auto nd = inodes[o.ino];
        if (nd->dir) { errno = EISDIR; return -1; }
        if ((o.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        string label = "read " + std::to_string(fd - FD0) + "@" + std::to_string(o.off);
        int e = point(label.c_str(), "read");
        if (e) { errno = e; return -1; }
        if (E.eintr && g_armed && dice(1) % 1000 < (u64) E.eintr) { fired("eintr"); ev(label + " EINTR"); errno = EINTR; return -1; }
        size_t av = o.off < nd->data.size() ? nd->data.size() - o.off : 0;
        size_t k = std::min(av, cnt);
        if (k > 1 && E.shortp && g_armed && dice(2) % 1000 < (u64) E.shortp) {
            u64 d = dice(3); k = (d & 1) ? 1 + (d >> 1) % std::min<size_t>(k - 1, 7) : 1 + (d >> 1) % (k - 1);
            fired("short-read");
        }
        memcpy(buf, nd->data.data() + o.off, k); o.off += k;
        ev(label + " = " + std::to_string(k));
        return (ssize_t) k;
    }
    static ssize_t s_write(int fd, const void *buf, size_t cnt) {
        NoSim n;
        sched_point(3);
        if (!is_fd(fd)) { errno = EBADF; return -1; }
        auto &o = ofds[fd - FD0];
        if ((o.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        auto nd = inodes[o.ino];
        if (o.flags & O_APPEND) o.off = nd->data.size();
        string label = "write " + std::to_string(fd - FD0) + "@" + std::to_string(o.off) + "+" + std::to_string(cnt);
        int e = point(label.c_str(), "write");
        if (e) { errno = e; return -1; }
        if (E.eintr && g_armed && dice(4) % 1000 < (u64) E.eintr) { fired("eintr"); ev(label + " EINTR"); errno = EINTR; return -1; }
        size_t k = cnt;
        if (g_full && g_armed) {
            if (g_room <= 0) {
                g_fault_fired = true; ev(label + " ENOSPC");
                if (g_full_left > 0 && --g_full_left == 0) g_full = false;
                errno = ENOSPC; return -1;
            }
            if ((i64) k > g_room) { k = (size_t) g_room; fired("short-write-full"); }
            g_room -= (i64) k;
        } else if (k > 1 && E.shortp && g_armed && dice(5) % 1000 < (u64) E.shortp) {
            u64 d = dice(6); k = (d & 1) ? 1 + (d >> 1) % std::min<size_t>(k - 1, 7) : 1 + (d >> 1) % (k - 1);
            fired("short-write");
        }
        Fault *cr = cnt ? crash_here() : nullptr;
        if (cr) k = (size_t) ((u64) k * (u64) cr->a / 1000);
        if (nd->data.size() < o.off + k) nd->data.resize(o.off + k);
        memcpy(&nd->data[0] + o.off, buf, k); o.off += k; nd->mtime = g_real;
        C.bytes_written += k;
        if (cr) { if (k < cnt && k) fired("torn-write"); do_crash(label + " kept " + std::to_string(k)); }
        ev(label + " = " + std::to_string(k) + " h" + std::to_string(hash_bytes(buf, k) % 1000003));
        return (ssize_t) k;
    }
    static off_t s_lseek(int fd, off_t off, int wh) {
        NoSim n;
        if (!is_fd(fd)) { errno = EBADF; return -1; }
        auto &o = ofds[fd - FD0];
        i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64) o.off : (i64) inodes[o.ino]->data.size();
        if (base + off < 0) { errno = EINVAL; return -1; }
        o.off = (size_t) (base + off);
        return (off_t) o.off;
    }
    static void fill_stat(int ino, struct stat *st) {
        memset(st, 0, sizeof *st);
        auto nd = inodes[ino];
        st->st_dev = 77; st->st_ino = (ino_t) ino; st->st_nlink = nd->dir ? 2 : 1;
        st->st_mode = nd->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
        st->st_size = nd->dir ? 4096 : (off_t) nd->data.size(); st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
        st->st_mtim.tv_sec = (time_t) (nd->mtime / 1000000000); st->st_atim = st->st_mtim; st->st_ctim = st->st_mtim;
    }
    static int s_stat(const Name &p, struct stat *st, int at = 0) {
        NoSim n;
        int ino = resolve(p, nullptr, nullptr, at);
        ev("stat " + p + " = " + (ino < 0 ? std::to_string(ino) : inodes[ino]->dir ? "dir" : std::to_string(inodes[ino]->data.size())));
        if (ino < 0) { errno = -ino; return -1; }
        fill_stat(ino, st); return 0;
    }
    static int s_fstat(int fd, struct stat *st) {
        NoSim n;
        if (!is_fd(fd)) { errno = EBADF; return -1; }
        fill_stat(ofds[fd - FD0].ino, st); return 0;
    }
    static string path_of(int ino) { // of a directory
        if (ino == 1) return "";
        for (auto &f: fs::list_all("/")) { string d = f; if (d.size() > 1 && d.back() == '/') d.pop_back(); if (resolve(d) == ino) return d; }
        return "/?";
    }
    static int s_mkdir(const Name &p, int at = 0) {
        NoSim n;
        sched_point(4);
        int e = point(("mkdir " + p).c_str(), "mkdir");
        if (e) { errno = e; return -1; }
        int par; string leaf; int ino = resolve(p, &par, &leaf, at);
        if (ino > 0) { ev("mkdir " + p + " EEXIST"); errno = EEXIST; return -1; }
        if (ino != -ENOENT || !par || leaf.empty()) { errno = -ino; ev("mkdir " + p + " = " + std::to_string(ino)); return -1; }
        // was the missing component the last one?
        auto parts = split_path(p);
        if (parts.empty() || parts.back() != leaf) { errno = ENOENT; return -1; }
        if (crash_here()) do_crash("mkdir " + p);
        if (g_full && g_armed && g_room <= 0) { g_fault_fired = true; errno = ENOSPC; return -1; }
        int d = new_inode(true); inodes[d]->links = 1; inodes[par]->kids[leaf] = d;
        if (!g_keep.empty()) g_made.push_back(path_of(par) + "/" + leaf);
        ev("mkdir " + p + " = 0");
        return 0;
    }
    static int s_unlink(const Name &p, int mode /*0 file 1 dir 2 either*/, int at = 0) {
        NoSim n;
        sched_point(5);
        int e = point(("unlink " + p).c_str(), "unlink");
        if (e) { errno = e; return -1; }
        int par; string leaf; int ino = resolve(p, &par, &leaf, at);
        if (ino < 0) { errno = -ino; ev("unlink " + p + " = " + std::to_string(ino)); return -1; }
        if (ino == 1 || !par) { errno = EBUSY; return -1; }
        if (inodes[ino]->dir) {
            if (mode == 0) { errno = EISDIR; return -1; }
            if (!inodes[ino]->kids.empty()) { ev("rmdir " + p + " ENOTEMPTY"); errno = ENOTEMPTY; return -1; }
        } else if (mode == 1) { errno = ENOTDIR; return -1; }
        if (crash_here()) do_crash("unlink " + p);
        if (!g_keep.empty() && !inodes[ino]->dir) { string d = g_keep + path_of(par); fs::mkdirs(d); fs::put(d + "/" + leaf, inodes[ino]->data); }
        inodes[par]->kids.erase(leaf);
        ev("unlink " + p + " = 0");
        return 0;
    }
    static int s_rename(const Name &a, const Name &b, int ata = 0, int atb = 0) {
        NoSim n;
        sched_point(6);
        int e = point(("rename " + a + " " + b).c_str(), "rename");
        if (e) { errno = e; return -1; }
        int pa, pb; string la, lb; int ia = resolve(a, &pa, &la, ata), ib = resolve(b, &pb, &lb, atb);
        ev("rename " + a + " -> " + b + " " + std::to_string(ia) + " " + std::to_string(ib));
        if (ia < 0) { errno = -ia; return -1; }
        if (ib < 0 && (ib != -ENOENT || !pb || lb.empty())) { errno = -ib; return -1; }
        if (ib == ia) return 0;
        if (ib > 0) {
            if (inodes[ib]->dir != inodes[ia]->dir) { errno = inodes[ib]->dir ? EISDIR : ENOTDIR; return -1; }
            if (inodes[ib]->dir && !inodes[ib]->kids.empty()) { errno = ENOTEMPTY; return -1; }
        }
        if (crash_here()) do_crash("rename " + a);
        inodes[pa]->kids.erase(la); inodes[pb]->kids[lb] = ia;
        return 0;
    }
    static int s_truncate(int ino, off_t len) {
        NoSim n;
        int e = point("truncate", "write");
        if (e) { errno = e; return -1; }
        if (crash_here()) do_crash("truncate");
        inodes[ino]->data.resize((size_t) len);
        ev("truncate " + rel(ino) + " " + std::to_string(len));
        return 0;
    }
    static void load_dir(int idx) {
        auto &o = ofds[idx]; o.ents.clear(); o.pos = 0;
        for (auto &k: inodes[o.ino]->kids) o.ents.push_back(k.first);
        u64 ds = E.dirseed;
        if (ds) std::sort(o.ents.begin(), o.ents.end(), [&](const string &x, const string &y) { u64 hx = mix(hash_str(x) ^ ds), hy = mix(hash_str(y) ^ ds); return hx != hy ? hx < hy : x < y; });
        o.ents.insert(o.ents.begin(), {".", ".."});
    }
    // ------------------------------------------------------------------ clock
    static void clock_step() {
        // called for every clock read while in a boot
        u64 k = C.clock++;
        u64 d = mix(E.clkseed * 77 + k);
        i64 mono = 1 + (i64) (d % (u64) std::max<i64>(1, E.tick * 2)); // monotonic always advances
        i64 real = mono;
        switch (E.clk) {
            case 1: real = 0; break; // frozen (coarse) wall clock
            case 2: if (d >> 33 & 1) real = -(i64) (d % (u64) std::max<i64>(1, E.tick * 8)); break; // steps back at times
            case 3: if (((d >> 40) & 7) == 0) real = mono + (i64) (d >> 20) % 3600000000000LL; break; // jumps ahead up to an hour
            case 4: if (((d >> 40) & 7) == 0) real = ((i64) ((d >> 20) % 7200000000000ULL) - 3600000000000LL); break; // any jumps
            case 5: real = (k & 15) == 15 ? 1000000000LL : 0; break; // one-second granularity
            default: break;
        }
        g_mono += (u64) mono; g_real += real;
        if (E.clk == 2 || E.clk == 4) if (real < 0) fired("clock-back");
        if (E.clk >= 3 && E.clk <= 4 && real > 1000000000LL) fired("clock-jump");
        if (E.clk == 1) fired("clock-frozen");
        for (auto &f: g_faults) if (!f.done && g_armed && f.kind == "jump" && f.at == k) { f.done = true; g_real += f.a; fired(f.a < 0 ? "clock-back" : "clock-jump"); ev("clock jump " + std::to_string(f.a)); }
    }
}

using namespace sim;
#define REAL(name) ((decltype(&name)) ([]() { static void *p = dlsym(RTLD_NEXT, #name); return p; }()))
#define LIVE (g_active)

// ====================================================================== libc symbols
extern "C" {
static int at_ino(int dirfd) { return dirfd != AT_FDCWD && is_fd(dirfd) ? ofds[dirfd - FD0].ino : 0; }

int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return LIVE ? s_open(p, flags) : (int) syscall(SYS_openat, AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return LIVE ? s_open(p, flags) : (int) syscall(SYS_openat, AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return LIVE ? s_open(p, flags, at_ino(d)) : (int) syscall(SYS_openat, d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); return LIVE ? s_open(p, flags, at_ino(d)) : (int) syscall(SYS_openat, d, p, flags, m); }
int __open_2(const char *p, int flags) { return LIVE ? s_open(p, flags) : (int) syscall(SYS_openat, AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return __open_2(p, flags); }
int __openat_2(int d, const char *p, int flags) { return LIVE ? s_open(p, flags, at_ino(d)) : (int) syscall(SYS_openat, d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return __openat_2(d, p, flags); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *s_fopen(const char *p, const char *mode) {
    int fl; bool plus = strchr(mode, '+') != nullptr;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = s_open(p, fl);
    if (fd < 0) return nullptr;
    ofds[fd - FD0].stream = true;
    return (FILE *) (fake_files + (fd - FD0));
}
FILE *fopen(const char *p, const char *m) { return LIVE ? s_fopen(p, m) : REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { return LIVE ? s_fopen(p, m) : REAL(fopen64)(p, m); }
FILE *fdopen(int fd, const char *m) { if (is_fd(fd)) return (FILE *) (fake_files + (fd - FD0)); return REAL(fdopen)(fd, m); }
int fclose(FILE *f) { if (is_file(f)) return s_close(FD0 + file_idx(f)); return REAL(fclose)(f); }
int fflush(FILE *f) { if (f && is_file(f)) return 0; return REAL(fflush)(f); }
int fileno(FILE *f) { if (is_file(f)) return FD0 + file_idx(f); return REAL(fileno)(f); }
int setvbuf(FILE *f, char *b, int m, size_t n) { if (is_file(f)) return 0; return REAL(setvbuf)(f, b, m, n); }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    if (!is_file(f)) return REAL(fread)(b, s, n, f);
    size_t want = s * n, got = 0;
    while (got < want) { ssize_t r = s_read(FD0 + file_idx(f), (char *) b + got, want - got); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; got += (size_t) r; }
    return s ? got / s : 0;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    if (!is_file(f)) return REAL(fwrite)(b, s, n, f);
    size_t want = s * n, put = 0;
    while (put < want) { ssize_t r = s_write(FD0 + file_idx(f), (const char *) b + put, want - put); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; put += (size_t) r; }
    return s ? put / s : 0;
}
int fseeko64(FILE *f, off64_t o, int w) { if (is_file(f)) return s_lseek(FD0 + file_idx(f), o, w) < 0 ? -1 : 0; return REAL(fseeko64)(f, o, w); }
off64_t ftello64(FILE *f) { if (is_file(f)) return s_lseek(FD0 + file_idx(f), 0, SEEK_CUR); return REAL(ftello64)(f); }
int fseek(FILE *f, long o, int w) { if (is_file(f)) return s_lseek(FD0 + file_idx(f), o, w) < 0 ? -1 : 0; return REAL(fseek)(f, o, w); }
long ftell(FILE *f) { if (is_file(f)) return (long) s_lseek(FD0 + file_idx(f), 0, SEEK_CUR); return REAL(ftell)(f); }
int close(int fd) { return is_sfd(fd) ? s_close(fd) : (int) syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) { return is_sfd(fd) ? s_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return is_sfd(fd) ? s_write(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!is_sfd(fd)) return syscall(SYS_pread64, fd, b, n, o); off_t c = s_lseek(fd, 0, SEEK_CUR); s_lseek(fd, o, SEEK_SET); ssize_t r = s_read(fd, b, n); s_lseek(fd, c, SEEK_SET); return r; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!is_sfd(fd)) return syscall(SYS_pwrite64, fd, b, n, o); off_t c = s_lseek(fd, 0, SEEK_CUR); s_lseek(fd, o, SEEK_SET); ssize_t r = s_write(fd, b, n); s_lseek(fd, c, SEEK_SET); return r; }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!is_sfd(fd)) return syscall(SYS_writev, fd, v, n);
    NoSim ns; string all; for (int i = 0; i < n; i++) all.append((char *) v[i].iov_base, v[i].iov_len);
    return s_write(fd, all.data(), all.size());
}
off_t lseek(int fd, off_t o, int w) { return is_sfd(fd) ? s_lseek(fd, o, w) : (off_t) syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return is_sfd(fd) ? s_lseek(fd, o, w) : (off64_t) syscall(SYS_lseek, fd, o, w); }
int stat(const char *p, struct stat *s) { return LIVE ? s_stat(p, s) : (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { return LIVE ? s_stat(p, s) : (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *s) { return is_sfd(fd) ? s_fstat(fd, s) : (int) syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH); }
int fstatat(int d, const char *p, struct stat *s, int f) { if (is_sfd(d) || LIVE) return *p ? s_stat(p, s, at_ino(d)) : s_fstat(d, s); return (int) syscall(SYS_newfstatat, d, p, s, f); }
int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *) s); }
int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *) s); }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *) s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return fstatat(d, p, (struct stat *) s, f); }
int access(const char *p, int m) { if (LIVE) { struct stat s; return s_stat(p, &s); } return (int) syscall(SYS_faccessat, AT_FDCWD, p, m, 0); }
int mkdir(const char *p, mode_t m) { return LIVE ? s_mkdir(p) : (int) syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return LIVE ? s_mkdir(p, at_ino(d)) : (int) syscall(SYS_mkdirat, d, p, m); }
int rename(const char *a, const char *b) { return LIVE ? s_rename(a, b) : (int) syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d, const char *a, int e, const char *b) { return LIVE ? s_rename(a, b, at_ino(d), at_ino(e)) : (int) syscall(SYS_renameat, d, a, e, b); }
int remove(const char *p) { return LIVE ? s_unlink(p, 2) : REAL(remove)(p); }
int unlink(const char *p) { return LIVE ? s_unlink(p, 0) : (int) syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rmdir(const char *p) { return LIVE ? s_unlink(p, 1) : (int) syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char *p, int f) { return LIVE ? s_unlink(p, (f & AT_REMOVEDIR) ? 1 : 0, at_ino(d)) : (int) syscall(SYS_unlinkat, d, p, f); }
int truncate(const char *p, off_t l) { if (!LIVE) return (int) syscall(SYS_truncate, p, l); int i = resolve(p); if (i < 0) { errno = -i; return -1; } return s_truncate(i, l); }
int truncate64(const char *p, off64_t l) { return truncate(p, l); }
int ftruncate(int fd, off_t l) { return is_fd(fd) ? s_truncate(ofds[fd - FD0].ino, l) : (int) syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int fsync(int fd) { return is_sfd(fd) ? 0 : (int) syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return is_sfd(fd) ? 0 : (int) syscall(SYS_fdatasync, fd); }
int link(const char *a, const char *b) { if (!LIVE) return (int) syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); errno = EPERM; return -1; }
int symlink(const char *a, const char *b) { if (!LIVE) return (int) syscall(SYS_symlinkat, a, AT_FDCWD, b); errno = EPERM; return -1; }
ssize_t readlink(const char *p, char *b, size_t n) { if (!LIVE) return syscall(SYS_readlinkat, AT_FDCWD, p, b, n); errno = EINVAL; return -1; }
int chmod(const char *p, mode_t m) { return LIVE ? 0 : (int) syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmod(int fd, mode_t m) { return is_sfd(fd) ? 0 : (int) syscall(SYS_fchmod, fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { return LIVE ? 0 : (int) syscall(SYS_fchmodat, d, p, m); }
int utimensat(int d, const char *p, const struct timespec *t, int f) { return LIVE ? 0 : (int) syscall(SYS_utimensat, d, p, t, f); }
int statvfs(const char *p, struct statvfs *v) { if (!LIVE) return REAL(statvfs)(p, v); memset(v, 0, sizeof *v); v->f_bsize = v->f_frsize = 4096; v->f_blocks = 1 << 20; v->f_bavail = v->f_bfree = (g_full ? 0 : 1 << 19); return 0; }
char *realpath(const char *p, char *out) {
    if (!LIVE) return REAL(realpath)(p, out);
    NoSim n; int i = resolve(p); if (i < 0) { errno = -i; return nullptr; }
    string a = sim::fs::abs(p); if (!out) return strdup(a.c_str()); strcpy(out, a.c_str()); return out;
}
char *getcwd(char *b, size_t n) {
    if (!LIVE) return REAL(getcwd)(b, n);
    if (!b) return strdup(g_cwd.c_str()); if (g_cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, g_cwd.c_str()); return b;
}
int chdir(const char *p) { if (!LIVE) return (int) syscall(SYS_chdir, p); NoSim n; int i = resolve(p); if (i < 0) { errno = -i; return -1; } g_cwd = sim::fs::abs(p); return 0; }
int ioctl(int fd, unsigned long r, ...) {
    va_list a; va_start(a, r); void *arg = va_arg(a, void *); va_end(a);
    if (!is_sfd(fd)) return (int) syscall(SYS_ioctl, fd, r, arg);
    if (r == FIONREAD && is_fd(fd)) { auto &o = ofds[fd - FD0]; size_t s = inodes[o.ino]->data.size(); *(int *) arg = (int) (o.off < s ? s - o.off : 0); return 0; }
    errno = ENOTTY; return -1;
}
int poll(struct pollfd *p, nfds_t n, int t) { if (n == 1 && is_sfd(p->fd)) { p->revents = p->events; return 1; } return (int) syscall(SYS_poll, p, n, t); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (!is_sfd(o) && !is_sfd(i)) return syscall(SYS_sendfile, o, i, off, n);
    NoSim ns; if (off) s_lseek(i, *off, SEEK_SET);
    vector<char> b(std::min<size_t>(n, 65536)); ssize_t r = s_read(i, b.data(), b.size()); if (r <= 0) return r;
    ssize_t w = s_write(o, b.data(), (size_t) r); if (w >= 0 && off) *off += w; if (w >= 0 && w < r) s_lseek(i, w - r, SEEK_CUR); return w;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *) off, n); }
ssize_t copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned) { errno = ENOSYS; return -1; }

DIR *opendir(const char *p) {
    if (!LIVE) return REAL(opendir)(p);
    int fd = s_open(p, O_RDONLY | O_DIRECTORY); if (fd < 0) return nullptr;
    NoSim n; load_dir(fd - FD0); return (DIR *) (fake_dirs + (fd - FD0));
}
DIR *fdopendir(int fd) { if (!is_sfd(fd)) return REAL(fdopendir)(fd); NoSim n; load_dir(fd - FD0); return (DIR *) (fake_dirs + (fd - FD0)); }
struct dirent *readdir(DIR *d) {
    if (!is_dirp(d)) return REAL(readdir)(d);
    NoSim n; static struct dirent de[16]; static int rot = 0; auto &e = de[rot++ & 15];
    auto &o = ofds[dir_idx(d)];
    if (g_armed && o.pos == 2) { int er = point("readdir", "readdir"); if (er) { errno = er; return nullptr; } }
    while (o.pos < o.ents.size()) {
        string nm = o.ents[o.pos++]; int ino = o.ino;
        if (nm != "." && nm != "..") { auto it = inodes[o.ino]->kids.find(nm); if (it == inodes[o.ino]->kids.end()) continue; ino = it->second; }
        memset(&e, 0, sizeof e); e.d_ino = (ino_t) ino; e.d_type = inodes[ino]->dir ? DT_DIR : DT_REG; e.d_reclen = sizeof e;
        strncpy(e.d_name, nm.c_str(), sizeof e.d_name - 1);
        return &e;
    }
    return nullptr;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *) readdir(d); }
int closedir(DIR *d) { if (!is_dirp(d)) return REAL(closedir)(d); return s_close(FD0 + dir_idx(d)); }
int dirfd(DIR *d) { if (!is_dirp(d)) return REAL(dirfd)(d); return FD0 + dir_idx(d); }
void rewinddir(DIR *d) { if (!is_dirp(d)) { REAL(rewinddir)(d); return; } NoSim n; load_dir(dir_idx(d)); }

int clock_gettime(clockid_t c, struct timespec *t) {
    if (!LIVE) return (int) syscall(SYS_clock_gettime, c, t);
    if (t_nosim == 0) { sched_point(7); NoSim n; clock_step(); }
    u64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? (u64) g_real : g_mono;
    t->tv_sec = (time_t) (v / 1000000000ULL); t->tv_nsec = (long) (v % 1000000000ULL); return 0;
}
int gettimeofday(struct timeval *tv, void *) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
clock_t clock() { if (!LIVE) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; } struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (clock_t) (g_mono / 1000); }
int nanosleep(const struct timespec *r, struct timespec *) { if (!LIVE) return (int) syscall(SYS_nanosleep, r, nullptr); advance_ns((u64) r->tv_sec * 1000000000ULL + (u64) r->tv_nsec); sched_point(8); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *) {
    if (!LIVE) return (int) syscall(SYS_clock_nanosleep, c, f, r, nullptr);
    u64 v = (u64) r->tv_sec * 1000000000ULL + (u64) r->tv_nsec; u64 now = c == CLOCK_REALTIME ? (u64) g_real : g_mono;
    advance_ns((f & TIMER_ABSTIME) ? (v > now ? v - now : 0) : v); sched_point(8); return 0;
}
int usleep(useconds_t u) { struct timespec t{u / 1000000, (long) (u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
static u64 g_rnd0 = 0;
static u64 next_random() { return mix(E.rnd * 0x9e3779b97f4a7c15ULL + 0x1234567 * (++C.rnd - g_rnd0)); }
int getentropy(void *b, size_t n) { if (!LIVE) return syscall(SYS_getrandom, b, n, 0) == (long) n ? 0 : -1; for (size_t i = 0; i < n; i++) ((char *) b)[i] = (char) next_random(); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!LIVE) return syscall(SYS_getrandom, b, n, f); getentropy(b, n); return (ssize_t) n; }
uint32_t arc4random() { if (!LIVE) { uint32_t v; syscall(SYS_getrandom, &v, 4, 0); return v; } return (uint32_t) next_random(); }
int rand() { return (int) (next_random() & 0x7fffffff); }
long random() { return (long) (next_random() & 0x7fffffff); }
void srand(unsigned) {}
void srandom(unsigned) {}
} // extern C

std::random_device::result_type std::random_device::_M_getval() { return (result_type) next_random(); }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}

// ====================================================================== memory
extern "C" char __executable_start, etext;
// Only allocations made by the program's own code may fail: libstdc++'s std::filesystem allocates inside noexcept
// functions and leaves paths broken when that throws, which says nothing about the program.
static inline bool from_program(void *ra) { return (char *) ra >= &__executable_start && (char *) ra < &etext; }
static bool inside_filesystem() {
    void *b[14]; int n = backtrace(b, 14);
    for (int i = 2; i < n; i++) {
        Dl_info d; if (!dladdr((char *) b[i] - 1, &d) || !d.dli_sname) continue;
        for (auto x: {"_ZNSt10filesystem", "_ZNKSt10filesystem", "_ZSt10filesystem"}) if (strncmp(d.dli_sname, x, strlen(x)) == 0) return true;
    }
    return false;
}
// Where a scheduler decides, addresses must not depend on what the process did before: hash tables of pointers show them.
static char *heap_at, *heap_end; static void *heap_free[128]; static char *const HEAP = (char *) 0x300000000000;
namespace sim { static void own_heap() {
    const size_t size = 1ul << 32; heap_at = (char *) syscall(SYS_mmap, HEAP, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0L);
    if (heap_at != HEAP) { heap_at = nullptr; return; }
    heap_end = heap_at + size;
} }
static int heap_class(size_t n) { if (n <= 1024) return n ? (int) ((n - 1) / 16) : 0; int c = 64; for (size_t k = 2048; k < n; k *= 2) c++; return c; }
static void *heap_get(size_t n) {
    int c = heap_class(n); if (heap_free[c]) { void *p = heap_free[c]; heap_free[c] = *(void **) p; return p; }
    size_t sz = c < 64 ? (size_t) (c + 1) * 16 : (size_t) 2048 << (c - 64); if (heap_at + sz + 16 > heap_end) return nullptr;
    *(long *) heap_at = c; void *p = heap_at + 16; heap_at += sz + 16; return p;
}
// Every block starts with a header: its size, and whether the process (1) or the harness (0) owns it; 2: tracked.
static u64 live_n, live_b; static bool g_track; static std::map<void *, vector<void *>> *g_tracked;
static void release(void *p) {
    if (!p) return;
    if (heap_at && (char *) p >= HEAP && (char *) p < heap_end) { int c = (int) *(long *) ((char *) p - 16); *(void **) p = heap_free[c]; heap_free[c] = p; return; }
    u64 *h = (u64 *) p - 2; if (h[1]) { live_n--; live_b -= h[0]; if (h[1] == 2) { NoSim n; g_tracked->erase(p); } }
    free(h);
}
static void *sim_alloc(size_t n, bool nothrow, void *ra) {
    if (g_active && t_nosim == 0 && g_armed && from_program(ra)) {
        u64 k = C.alloc++;
        for (auto &f: g_faults) if (!f.done && f.kind == "alloc" && f.at == k) {
            NoSim ns; if (inside_filesystem()) { f.at = k + 1; continue; }
            f.done = true; fired("alloc-fail"); g_fault_fired = true; ev("FAULT alloc " + std::to_string(n));
            if (nothrow) return nullptr; throw std::bad_alloc();
        }
    }
    if (g_active && n > (1u << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void *p;
    if (heap_at && g_active && t_nosim == 0) p = heap_get(n);
    else if ((p = malloc(n + 16))) {
        u64 *h = (u64 *) p; h[0] = n; h[1] = g_active && t_nosim == 0; p = h + 2;
        if (h[1]) { live_n++; live_b += n; if (g_track) { NoSim s; h[1] = 2; void *b[12]; int k = backtrace(b, 12); (*g_tracked)[p] = vector<void *>(b, b + k); } }
    }
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (g_active && t_nosim == 0) {
        switch (E.fill) {
            case 0: memset(p, 0, n); break;
            case 1: memset(p, 0xFF, n); break;
            case 2: memset(p, 0xCD, n); break;
            case 3: memset(p, 0x3F, n); break; // plausible floats
            default: memset(p, (int) (mix(E.seed + C.alloc) & 0xff), n);
        }
    }
    return p;
}
namespace sim {
    u64 live_blocks() { return live_n; }
    u64 live_bytes() { return live_b; }
    void track_blocks(bool on) { NoSim n; if (on && !g_tracked) g_tracked = new std::map<void *, vector<void *>>; g_track = on; }
    string tracked_blocks() {
        NoSim n; std::map<string, u64> by; if (!g_tracked) return "";
        for (auto &t: *g_tracked) {
            string s; int shown = 0;
            for (size_t i = 1; i < t.second.size() && shown < 3; i++) {
                Dl_info d; if (!dladdr((char *) t.second[i] - 1, &d) || !d.dli_sname) continue;
                int st; char *dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); string f = st == 0 && dm ? dm : d.dli_sname; free(dm);
                if (f.rfind("std::", 0) == 0 || f.rfind("__gnu", 0) == 0 || f.rfind("operator", 0) == 0 || f.rfind("void std::", 0) == 0) continue;
                size_t e = f.find('('); s += (shown++ ? " < " : "") + f.substr(0, e);
            }
            by[s]++;
        }
        vector<std::pair<u64, string>> v; for (auto &b: by) v.emplace_back(b.second, b.first); std::sort(v.rbegin(), v.rend());
        string o; for (size_t i = 0; i < v.size() && i < 4; i++) o += (i ? "; " : "") + std::to_string(v[i].first) + " by " + v[i].second; return o;
    }
}
void *operator new(size_t n) { return sim_alloc(n, false, __builtin_return_address(0)); }
void *operator new[](size_t n) { return sim_alloc(n, false, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, true, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, true, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }

// ====================================================================== controller
namespace sim {
    __attribute__((weak)) void sched_point(int) {}
    namespace sched {
        __attribute__((weak)) void reset(u64, int, int) {}
        __attribute__((weak)) u64 switches() { return 0; }
        __attribute__((weak)) u64 schedule_hash() { return 0; }
        __attribute__((weak)) void stop() {}
    }
    string BootResult::describe() const {
        switch (kind) {
            case Completed: return "completed";
            case Crashed: return "crashed (injected)";
            case Signal: return "killed by signal " + std::to_string(sig);
            case Timeout: return "did not finish within its CPU limit";
            default: return "livelock (I/O step limit)";
        }
    }
    bool thread_fault(u64 ord) { NoSim n; if (match("thread", ord)) { fired("thread-create-fail"); g_fault_fired = true; return true; } return false; }
    void fault_note(const char *kind) { NoSim n; fired(kind); }
    u64 next_thread_ord() { return C.threads++; }
    bool is_active() { return g_active; }
    bool in_nosim() { return t_nosim > 0; }
    [[noreturn]] void leave_livelock() { leave(ST_LIVELOCK); }

    static int g_cpu_limit = getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : 30;
    static void on_abrt(int) { save_state(ST_ABORT); syscall(SYS_exit_group, 134); }
    static void on_xcpu(int) { syscall(SYS_exit_group, 98); }

    static i64 g_carry_real = 0;
    Run::Run(const Plan &p) : plan(p) { fs::reset(); g_boot_counters.clear(); g_carry_real = 0; }
    static void load_env(const Plan &p, const string &tag) {
        E = Env(); g_rnd0 = 0;
        if (auto e = p.first("env")) {
            E.seed = (u64) e->num("seed", 1); E.shortp = (int) e->num("short"); E.eintr = (int) e->num("eintr"); E.dirseed = (u64) e->num("dir");
            E.fill = (int) e->num("fill"); E.rnd = (u64) e->num("rnd", 1); E.clk = (int) e->num("clk"); E.tick = e->num("tick", 1000); E.clkseed = (u64) e->num("cs", 1);
            g_real = e->num("t0", 1700000000) * 1000000000LL;
        } else g_real = 1700000000LL * 1000000000LL;
        if (g_carry_real && !p.num("env", "clkreset")) g_real = g_carry_real + 1000000000LL;
        // env lines for one boot override
        for (auto &l: p.lines) if (l.type == "envboot" && l.get("boot") == tag) {
            if (l.has("short")) E.shortp = (int) l.num("short");
            if (l.has("eintr")) E.eintr = (int) l.num("eintr");
            if (l.has("dir")) E.dirseed = (u64) l.num("dir");
            if (l.has("fill")) E.fill = (int) l.num("fill");
            if (l.has("clk")) E.clk = (int) l.num("clk");
            if (l.has("tick")) E.tick = l.num("tick");
            if (l.has("seed")) E.seed = (u64) l.num("seed");
            if (l.has("cs")) E.clkseed = (u64) l.num("cs");
            if (l.has("rnd")) E.rnd = (u64) l.num("rnd");
            if (l.has("t0")) g_real = l.num("t0") * 1000000000LL;
        }
        E.seed = mix(E.seed ^ hash_str(tag));
        if (!p.num("env", "samernd")) E.rnd = mix(E.rnd ^ hash_str(tag));
    }
    void reseed(u64 v) { E.rnd = v; g_rnd0 = C.rnd; }
    BootResult Run::boot(const string &tag, const std::function<void()> &fn, bool with_faults) {
        shared_init();
        memset(SH, 0, sizeof *SH);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0) {
            // ---- the simulated process
            struct rlimit rl{(rlim_t) g_cpu_limit, (rlim_t) g_cpu_limit + 5};
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit as{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &as);
            struct rlimit co{0, 0}; setrlimit(RLIMIT_CORE, &co);
            signal(SIGABRT, on_abrt); signal(SIGXCPU, on_xcpu);
            if (getenv("SIM_BT")) std::set_terminate([] { void *b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); _exit(99); });
            g_faults.clear(); C = Counters(); g_event_hash = hash_str(tag); g_full = false; g_fault_fired = false;
            load_env(plan, tag);
            if (with_faults) for (auto l: plan.all("fault")) if (l->get("boot") == tag) {
                Fault f; f.kind = l->get("kind"); f.at = (u64) l->num("at"); f.a = l->num("a"); f.b = l->num("b");
                g_faults.push_back(f);
            }
            cap_out = new Capture; cap_err = new Capture;
            std::cout.rdbuf(cap_out); std::cerr.rdbuf(cap_err);
            if (!g_trace) { int nul = (int) syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0); syscall(SYS_dup3, nul, 1, 0); }
            g_active = true; g_armed = with_faults;
            if (const Line *s = plan.first("sched")) own_heap(), sched::reset((u64) s->num("seed", 1), (int) s->num("mean", 50), (int) s->num("strat"));
            try { fn(); }
            catch (const std::exception &e) { g_armed = false; boot_fail("harness-exception", string("uncaught in harness: ") + e.what()); }
            g_armed = false;
            g_event_hash = mix(g_event_hash ^ sched::schedule_hash());
            leave(ST_DONE);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        BootResult r;
        if (WIFSIGNALED(st)) { r.kind = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? BootResult::Timeout : BootResult::Signal; r.sig = WTERMSIG(st); }
        else if (WEXITSTATUS(st) == 98) r.kind = BootResult::Timeout;
        else if (SH->status == ST_DONE) r.kind = BootResult::Completed;
        else if (SH->status == ST_CRASH) r.kind = BootResult::Crashed;
        else if (SH->status == ST_LIVELOCK) r.kind = BootResult::Livelock;
        else if (SH->status == ST_ABORT) { r.kind = BootResult::Signal; r.sig = SIGABRT; }
        else { fprintf(stderr, "simkit: boot %s ended oddly (status %d exit %d)\n", tag.c_str(), SH->status, WEXITSTATUS(st)); exit(3); }
        if (SH->fs_len) fs::restore(string(sh_fs, SH->fs_len));
        r.c = SH->c; last = SH->c;
        g_carry_real = SH->real;
        g_boot_counters[tag] = SH->c;
        for (int i = 0; i < SH->nfired; i++) res.fired[SH->fired[i]] += SH->fired_n[i];
        res.hash = mix(res.hash ^ mix(SH->hash) ^ (u64) r.kind * 977);
        res.sim_ns += SH->c.sim_ns; res.io += SH->c.io; res.boots++; res.allocs += SH->c.alloc;
        if (r.kind == BootResult::Crashed) res.crashes++;
        size_t i = 0;
        while (i < SH->notes_len) {
            u64 kl, vl; memcpy(&kl, sh_notes + i, 8); i += 8; string k(sh_notes + i, kl); i += kl; memcpy(&vl, sh_notes + i, 8); i += 8; string v(sh_notes + i, vl); i += vl;
            if (k == "!fail") { auto p = v.find('\n'); fail(v.substr(0, p), v.substr(p + 1)); } else notes.push_back(k + '\0' + v);
        }
        return r;
    }
    void Run::fail(const string &c, const string &m) {
        if (!res.failed) { res.failed = true; res.failure = {c, m}; }
    }
    void Run::judged(u64 h) { res.state_hash = mix(res.state_hash * 31 + h); res.nontrivial = true; }
    string Run::note(const string &k, const string &d) const {
        string key = k + '\0';
        for (auto it = notes.rbegin(); it != notes.rend(); ++it) if (it->compare(0, key.size(), key) == 0) return it->substr(key.size());
        return d;
    }
    vector<string> Run::notes_of(const string &k) const { vector<string> r; string key = k + '\0'; for (auto &n: notes) if (n.compare(0, key.size(), key) == 0) r.push_back(n.substr(key.size())); return r; }
    bool Run::has_note(const string &k) const { string key = k + '\0'; for (auto &n: notes) if (n.compare(0, key.size(), key) == 0) return true; return false; }

    void gen_env(Plan &p, Rng &r, bool benign, bool wild) {
        Line e("env");
        e.set("seed", (i64) (r.next() >> 20)); e.set("rnd", (i64) (r.next() >> 20));
        bool b = benign && r.chance(700);
        if (b) { static const vector<i64> sh{0, 30, 200, 700}; e.set("short", r.pick(sh)); static const vector<i64> ei{0, 0, 20, 200}; e.set("eintr", r.pick(ei)); }
        if (r.chance(700)) e.set("dir", (i64) (r.next() >> 20));
        e.set("fill", (i64) r.below(5));
        e.set("cs", (i64) (r.next() >> 20));
        if (wild && r.chance(700)) e.set("clk", (i64) r.below(6));
        static const vector<i64> ticks{50, 1000, 200000, 20000000};
        e.set("tick", r.pick(ticks));
        e.set("t0", r.range(1000000000, 1900000000));
        p.lines.insert(p.lines.begin(), e);
    }
    vector<Plan> derive_faults(const Plan &base, const std::map<string, Counters> &bc, Rng &r, int tier, const DeriveOpt &o) {
        vector<Plan> out;
        vector<string> kinds;
        if (o.crash) { kinds.insert(kinds.end(), 4, "crash"); }
        if (o.err) { kinds.insert(kinds.end(), {"err", "err", "werr", "rerr", "oerr"}); }
        if (o.full) { kinds.insert(kinds.end(), 2, "full"); }
        if (o.alloc) { kinds.insert(kinds.end(), 2, "alloc"); }
        if (o.thread) { kinds.insert(kinds.end(), 1, "thread"); }
        int n = tier ? o.per_base_thorough : o.per_base_quick;
        static const vector<i64> errs{EIO, ENOSPC, EACCES, EMFILE};
        for (int i = 0; i < n; i++) {
            Plan p = base; int nf = r.chance(800) ? 1 : 2;
            for (auto &l: o.extra) p.lines.push_back(l);
            bool any = false;
            for (int j = 0; j < nf; j++) {
                string tag = r.pick(o.boots); auto it = bc.find(tag);
                if (it == bc.end()) continue;
                const Counters &c = it->second; string k = r.pick(kinds); u64 N = 0; i64 a = 0, b = 0;
                if (k == "crash") { N = c.mut; static const vector<i64> keep{0, 0, 1, 250, 500, 900, 999, 1000}; a = r.pick(keep); }
                else if (k == "err") { N = c.io; a = r.pick(errs); }
                else if (k == "werr") { N = c.writes; a = r.chance(500) ? ENOSPC : EIO; }
                else if (k == "rerr") { N = c.reads; a = EIO; }
                else if (k == "oerr") { N = c.opens; a = r.pick(errs); }
                else if (k == "full") { N = c.writes; a = r.chance(400) ? 0 : (i64) r.below(600); b = r.chance(500) ? 0 : (i64) r.range(1, 3); }
                else if (k == "alloc") N = c.alloc;
                else if (k == "thread") N = c.threads;
                if (!N) continue;
                // spread: uniform, with a bias to the last few points
                u64 at = r.chance(250) ? N - 1 - r.below(std::min<u64>(N, 8)) : r.below(N);
                p.add("fault").set("boot", tag).set("kind", k).set("at", (i64) at).set("a", a).set("b", b);
                any = true;
            }
            if (any) out.push_back(p);
        }
        return out;
    }

    // ------------------------------------------------------------------ driver
    static std::map<string, Property> &props() { static std::map<string, Property> m; return m; }
    void add_property(Property p) { string id = p.id; props()[id] = std::move(p); }

    static RunResult exec_plan(const Property &pr, const Plan &p) {
        Run r(p);
        pr.run(r);
        r.res.hash = mix(r.res.hash ^ (r.res.failed ? hash_str(r.res.failure.cls) : 0));
        return r.res;
    }
    static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec / 1e9; }
    static string jesc(const string &s) {
        string o; char b[8];
        for (unsigned char c: s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char) c; }
        return o;
    }
    static Plan minimise(const Property &pr, Plan p, const string &cls, double budget) {
        double t0 = wall();
        auto fails = [&](const Plan &q) { auto r = exec_plan(pr, q); return r.failed && r.failure.cls == cls; };
        bool progress = true;
        while (progress && wall() - t0 < budget) {
            progress = false;
            vector<size_t> idx;
            for (size_t i = 0; i < p.lines.size(); i++) if (pr.droppable.count(p.lines[i].type)) idx.push_back(i);
            // chunks, large to small
            for (size_t chunk = std::max<size_t>(1, idx.size() / 2); chunk >= 1 && wall() - t0 < budget; chunk /= 2) {
                for (size_t s = 0; s < idx.size() && wall() - t0 < budget;) {
                    std::set<size_t> drop(idx.begin() + (long) s, idx.begin() + (long) std::min(idx.size(), s + chunk));
                    Plan q; for (size_t i = 0; i < p.lines.size(); i++) if (!drop.count(i)) q.lines.push_back(p.lines[i]);
                    if (fails(q)) {
                        p = q; progress = true; idx.clear();
                        for (size_t i = 0; i < p.lines.size(); i++) if (pr.droppable.count(p.lines[i].type)) idx.push_back(i);
                    } else s += chunk;
                }
                if (chunk == 1) break;
            }
            // calm the environment
            static const vector<std::pair<string, string>> calm{{"short", "0"}, {"eintr", "0"}, {"dir", "0"}, {"fill", "0"}, {"clk", "0"}};
            for (auto &c: calm) {
                if (wall() - t0 > budget) break;
                for (size_t i = 0; i < p.lines.size(); i++) if (p.lines[i].type == "env" && p.lines[i].has(c.first) && p.lines[i].get(c.first) != c.second) {
                    Plan q = p; q.lines[i].set(c.first, c.second); if (fails(q)) { p = q; progress = true; }
                }
            }
        }
        return p;
    }
    static string self_exe;
    static bool replay_in_fresh_process(const string &prop, const string &file, const string &cls, u64 hash) {
        string cmd = "'" + self_exe + "' " + prop + " replay '" + file + "' --quiet 2>/dev/null";
        FILE *f = popen(cmd.c_str(), "r"); if (!f) return false;
        char buf[4096]; string out; while (fgets(buf, sizeof buf, f)) out += buf; pclose(f);
        std::ostringstream want; want << "RESULT failed=1 class=" << cls << " hash=" << std::hex << hash;
        return out.find(want.str()) != string::npos;
    }
    int main_entry(int argc, char **argv) {
        { void *b[4]; backtrace(b, 4); } // loads what it needs
        if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIMKIT_ASLR")) {
            if (personality(ADDR_NO_RANDOMIZE) >= 0) { setenv("SIMKIT_ASLR", "1", 1); execv("/proc/self/exe", argv); }
        }
        char ex[4096]; ssize_t l = syscall(SYS_readlinkat, AT_FDCWD, "/proc/self/exe", ex, sizeof ex - 1); ex[l > 0 ? l : 0] = 0; self_exe = ex;
        std::map<string, string> opt; vector<string> pos;
        for (int i = 1; i < argc; i++) {
            string a = argv[i];
            if (a == "--quiet" || a == "--trace") opt[a] = "1";
            else if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a] = argv[++i];
            else pos.push_back(a);
        }
        if (pos.size() < 2 || !props().count(pos[0])) { fprintf(stderr, "usage: harness PROP worker|replay|gen ...\n"); for (auto &p: props()) fprintf(stderr, " %s", p.first.c_str()); return 2; }
        auto &pr = props()[pos[0]];
        auto num = [&](const string &k, i64 d) { return opt.count(k) ? strtoll(opt[k].c_str(), nullptr, 10) : d; };
        g_trace = opt.count("--trace") > 0;
        int tier = (int) num("--tier", 0);
        u64 seed = (u64) num("--seed", 1);
        shared_init();
        auto rng_for = [&](u64 i) { return Rng(mix(seed * 1000003 + i) ^ hash_str(pr.id)); };
        if (pos[1] == "gen") { Rng r = rng_for((u64) num("--index", 0)); fputs(pr.generate(r, (u64) num("--index", 0), tier).text().c_str(), stdout); return 0; }
        if (pos[1] == "replay") {
            std::ifstream in(pos[2]); std::stringstream ss; ss << in.rdbuf();
            Plan p = Plan::parse(ss.str());
            auto r = exec_plan(pr, p);
            printf("RESULT failed=%d class=%s hash=%llx state=%llx boots=%llu io=%llu\n", r.failed, r.failed ? r.failure.cls.c_str() : "-", (unsigned long long) r.hash, (unsigned long long) r.state_hash, (unsigned long long) r.boots, (unsigned long long) r.io);
            if (!opt.count("--quiet")) { if (r.failed) printf("%s: %s\n", r.failure.cls.c_str(), r.failure.msg.c_str()); for (auto &f: r.fired) printf("fired %s %llu\n", f.first.c_str(), (unsigned long long) f.second); for (auto &f: r.tags) printf("tag %s %llu\n", f.first.c_str(), (unsigned long long) f.second);
              for (auto &c: g_boot_counters) printf("boot %s io=%llu mut=%llu reads=%llu writes=%llu opens=%llu alloc=%llu clock=%llu rnd=%llu\n", c.first.c_str(), (unsigned long long)c.second.io,(unsigned long long)c.second.mut,(unsigned long long)c.second.reads,(unsigned long long)c.second.writes,(unsigned long long)c.second.opens,(unsigned long long)c.second.alloc,(unsigned long long)c.second.clock,(unsigned long long)c.second.rnd);}
            return r.failed ? 1 : 0;
        }
        // ---- worker
        double t0 = wall(), secs = (double) num("--seconds", 20);
        u64 first = (u64) num("--first", 0), stride = (u64) num("--stride", 1), maxruns = (u64) num("--runs", 1000000000);
        string outdir = opt.count("--out") ? opt["--out"] : ".";
        std::map<string, u64> fired, tags, known;
        std::set<string> known_cls; { std::istringstream in(opt.count("--known") ? opt["--known"] : ""); string s; while (std::getline(in, s, ',')) if (!s.empty()) known_cls.insert(s); }
        std::set<u64> hashes, states;
        u64 runs = 0, faulty = 0, nontrivial = 0, boots = 0, crashes = 0, io = 0, det = 0, bases = 0; double sim_s = 0; u64 allocs = 0;
        vector<string> samples;
        int viol = 0; string err;
        string vjson;
        std::set<string> seen_cls;
        auto one = [&](const Plan &p, bool is_fault, std::map<string, Counters> *bc, RunResult *out) -> bool {
            auto r = exec_plan(pr, p);
            if (bc) *bc = g_boot_counters;
            runs++; if (is_fault) faulty++;
            boots += r.boots; crashes += r.crashes; io += r.io; sim_s += (double) r.sim_ns / 1e9; allocs += r.allocs;
            for (auto &f: r.fired) fired[f.first] += f.second;
            for (auto &f: r.tags) tags[f.first] += f.second;
            bool fresh = hashes.insert(r.hash).second;
            if (r.nontrivial) { if (fresh) nontrivial++; states.insert(r.state_hash); }
            if (samples.size() < 3 && (runs % 7 == 1)) samples.push_back(p.text().substr(0, 1500));
            // determinism: every 16th run and every failing run is repeated
            if (r.failed || runs % 16 == 5) {
                auto r2 = exec_plan(pr, p); det++;
                if (r2.hash != r.hash && getenv("SIM_ND")) for (int k = 0; k < 3; k++) { g_trace = true; freopen((string(getenv("SIM_ND")) + std::to_string(k)).c_str(), "w", stderr); auto r3 = exec_plan(pr, p); fprintf(stderr, "%llx %llx %llx\n", (unsigned long long) r.hash, (unsigned long long) r2.hash, (unsigned long long) r3.hash); }
                if (r2.hash != r.hash) { err = "nondeterministic run: " + p.text(); return false; }
            }
            if (out) *out = r;
            if (r.failed) {
                string cls = r.failure.cls;
                if (known_cls.count(cls)) { known[cls]++; return true; }
                if (seen_cls.count(cls)) { viol++; return true; }
                Plan m = minimise(pr, p, cls, tier ? 60 : 20);
                auto rm = exec_plan(pr, m);
                if (!rm.failed || rm.failure.cls != cls) { m = p; rm = exec_plan(pr, m); }
                char nm[128]; snprintf(nm, sizeof nm, "/%s-%llu-%s.plan", pr.id.c_str(), (unsigned long long) first, std::to_string(hash_str(cls) % 100000).c_str());
                string file = outdir + nm;
                { std::ofstream o(file); o << "# property " << pr.id << " violation " << cls << "\n"; std::istringstream is(rm.failure.msg); string ln; while (std::getline(is, ln)) o << "# " << ln << "\n"; o << m.text(); }
                if (!replay_in_fresh_process(pr.id, file, cls, rm.hash)) { err = "violation did not replay in a fresh process: " + file; return false; }
                viol++; seen_cls.insert(cls);
                vjson += (vjson.empty() ? "" : ",") + string("{\"class\":\"") + jesc(cls) + "\",\"msg\":\"" + jesc(rm.failure.msg.substr(0, 3000)) + "\",\"file\":\"" + jesc(file) + "\"}";
                return seen_cls.size() < 4 && (tier || wall() - t0 < secs);
            }
            return true;
        };
        for (u64 i = first; wall() - t0 < secs && runs < maxruns && err.empty(); i += stride) {
            Rng r = rng_for(i);
            Plan base = pr.generate(r, i, tier);
            std::map<string, Counters> bc; RunResult br;
            bases++;
            if (getenv("SIMKIT_VERBOSE")) { std::ofstream("/tmp/simkit_cur_" + pr.id + "_" + std::to_string(first)) << base.text(); }
            if (!one(base, false, &bc, &br)) break;
            if (br.failed || !pr.derive) continue;
            bool stop = false;
            for (auto &fp: pr.derive(base, br, bc, r, tier)) { if (!one(fp, true, nullptr, nullptr)) { stop = true; break; } if (wall() - t0 > secs) break; }
            if (stop) break;
            if (!seen_cls.empty() && !tier) break;
        }
        auto jm = [](const std::map<string, u64> &m) { string s = "{"; for (auto &e: m) { if (s.size() > 1) s += ","; s += "\"" + jesc(e.first) + "\":" + std::to_string(e.second); } return s + "}"; };
        string js = "{\"runs\":" + std::to_string(runs) + ",\"bases\":" + std::to_string(bases) + ",\"fault_runs\":" + std::to_string(faulty) + ",\"nontrivial\":" + std::to_string(nontrivial) + ",\"boots\":" + std::to_string(boots) + ",\"crashes\":" + std::to_string(crashes) + ",\"io\":" + std::to_string(io) + ",\"allocs\":" + std::to_string(allocs) + ",\"det_checks\":" + std::to_string(det) + ",\"sim_s\":" + std::to_string(sim_s) + ",\"wall\":" + std::to_string(wall() - t0) + ",\"violations\":" + std::to_string(viol) + ",\"error\":\"" + jesc(err) + "\",\"fired\":" + jm(fired) + ",\"tags\":" + jm(tags) + ",\"known\":" + jm(known) + ",\"rule\":\"" + jesc(pr.rule) + "\",\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) js += (i ? "," : "") + string("\"") + jesc(samples[i]) + "\"";
        js += "],\"viol\":[" + vjson + "]}";
        string base = outdir + "/w" + std::to_string(first);
        { std::ofstream o(base + ".json"); o << js; }
        { std::ofstream o(base + ".hash", std::ios::binary); for (u64 h: hashes) o.write((char *) &h, 8); }
        { std::ofstream o(base + ".state", std::ios::binary); for (u64 h: states) o.write((char *) &h, 8); }
        return err.empty() ? 0 : 3;
    }
}
