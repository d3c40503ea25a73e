// Property-based testing engine (choice-sequence based, in the style of
// Hypothesis/minithesis), self contained.
//
//  * every random decision of a generator is one recorded choice in [0, n];
//    a case is therefore fully described by (law, tier, choice sequence);
//  * case seeds are hash(VERIF_SEED, law, index): the run is a pure function
//    of the code and the seed, independent of the number of workers;
//  * workers are forked processes; the case being executed lives in shared
//    memory, so aborts, sanitizer reports, exits and endless loops are
//    attributed to the exact case;
//  * failures are shrunk on the choice sequence by re-executing candidates in
//    forked children, confirmed three times, and written to a replay file.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <initializer_list>
#include <limits>
#include <memory>
#include <array>

#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define PBT_ASAN 1
#else
#define PBT_ASAN 0
#endif

namespace pbt
{

struct Failure { std::string msg; };
struct Discard { };

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
    return mix(h);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) { }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : next(); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum { MAX_CHOICES = 1 << 16, MSG_LEN = 4096 };

struct Shared            // one per worker, in shared memory
{
    volatile int law;
    volatile int64_t index;
    volatile int state;          // 0 idle, 1 running, 2 failed (msg set), 3 finished, 4 timeout
    volatile uint64_t evaluations;
    volatile uint64_t discards;
    volatile uint32_t nchoices;
    uint64_t choices[MAX_CHOICES];
    char msg[MSG_LEN];
    char notes[2 * MSG_LEN];     // what the case said before it died
};

/// Source of all generated data of one case.
class S
{
public:
    int last_dim = -1;      // used by the generator of dimensions
    S(uint64_t seed, Shared* sh, const std::vector<uint64_t>* prefix, bool thorough_, bool verbose_)
        : rng(seed), shared(sh), pre(prefix), pos(0), thorough(thorough_), verbose(verbose_)
    { shared->nchoices = 0; hash = 0x1234567; }

    // ---- primitive: one recorded choice in [0, n]
    template <typename F> uint64_t choice(uint64_t n, F gen)
    {
        uint64_t v;
        if (pre) { v = pos < pre->size() ? (*pre)[pos] : 0; if (v > n) { v = n; } }
        else { v = gen(rng); if (v > n) { v = n; } }
        ++pos;
        uint32_t k = shared->nchoices;
        if (k < MAX_CHOICES) { shared->choices[k] = v; shared->nchoices = k + 1; }
        hash = mix(hash ^ v);
        return v;
    }
    uint64_t u(uint64_t n)          // uniform in [0, n]
    { return choice(n, [n](Rng & r) { return n == UINT64_MAX ? r.next() : r.next() % (n + 1); }); }
    int i(int lo, int hi)           // uniform in [lo, hi], shrinks to lo
    { return hi <= lo ? lo : lo + (int) u((uint64_t)(hi - lo)); }
    bool chance(double p)           // shrinks to false
    { return choice(1, [p](Rng & r) { return (uint64_t)(r.unit() < p); }) != 0; }
    int sgn_int(int m)              // in [-m, m], shrinks to 0 (zigzag)
    { uint64_t c = u(2 * (uint64_t) m); return (c & 1) ? (int)((c + 1) / 2) : -(int)(c / 2); }
    int weighted(std::initializer_list<double> w)   // shrinks to the first alternative
    {
        std::vector<double> ws(w);
        return (int) choice(ws.size() - 1, [&](Rng & r)
        {
            double t = 0; for (double x : ws) { t += x; }
            double z = r.unit() * t; uint64_t k = 0;
            while (k + 1 < ws.size() && z >= ws[k]) { z -= ws[k]; ++k; }
            return k;
        });
    }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + u(l.size() - 1)); }
    template <typename T> const T& pick(const std::vector<T>& l) { return l[u(l.size() - 1)]; }
    // skewed size in [lo, hi]: mostly small, sometimes up to hi
    int size(int lo, int hi)
    {
        if (hi <= lo) { return lo; }
        uint64_t n = (uint64_t)(hi - lo);
        return lo + (int) choice(n, [n](Rng & r)
        {
            double t = r.unit();
            uint64_t cap = t < 0.10 ? 1 : t < 0.55 ? 6 : t < 0.85 ? 14 : n;
            if (cap > n) { cap = n; }
            return r.next() % (cap + 1);
        });
    }
    // a private generator seeded by ONE choice; for bulk data. 0 = simplest
    Rng bulk(bool& simple) { uint64_t v = u(UINT64_MAX >> 1); simple = (v == 0); return Rng(mix(v)); }
    std::vector<int> permutation(int n)
    {
        std::vector<int> p(n);
        for (int k = 0; k < n; ++k) { p[k] = k; }
        if (n > 64) { bool simple; Rng r = bulk(simple); if (!simple) for (int k = n - 1; k > 0; --k) { std::swap(p[k], p[r.below(k + 1)]); } }
        else { for (int k = n - 1; k > 0; --k) { int j = k - i(0, k); std::swap(p[k], p[j]); } }
        return p;
    }

    // ---- annotations
    void nontrivial(bool b = true) { if (b) { is_nontrivial = true; } }
    void label(const std::string& l) { labels.insert(l); }
    void label(const std::string& l, bool b) { if (b) { labels.insert(l); } }
    template <typename F> void note(F f) { if (verbose) { std::ostringstream o; f(o); say(o.str()); } }
    void say(const std::string& s) { if (verbose) { notes += s; notes += "; "; snprintf(shared->notes, sizeof shared->notes, "%s", notes.c_str()); } }

    Rng rng;
    Shared* shared;
    const std::vector<uint64_t>* pre;
    size_t pos;
    bool thorough;
    bool verbose;
    bool is_nontrivial = false;
    uint64_t hash;
    std::set<std::string> labels;
    std::string notes;
};

// set by harnesses whose oracles read a real clock: their failures count only if they repeat
inline bool& timing_dependent() { static bool b = false; return b; }
struct Law
{
    std::string name;
    std::string rule;                 // what makes a case non-trivial
    int64_t quick, thorough;          // number of cases
    std::function<void(S&)> body;
    bool leaks;                       // check the allocation balance of every case
    bool isolate;                     // run every case in its own forked child (needed when the
                                      // code under test may call exit())
};

inline std::vector<Law>& laws() { static std::vector<Law> l; return l; }

struct Reg
{
    Reg(const char* name, int64_t quick, int64_t thorough, const char* rule, void(*body)(S&), bool leaks = false)
    { laws().push_back(Law{name, rule, quick, thorough, body, leaks, false}); }
};

// LAW(name, quick cases, thorough cases, "non-trivial rule") { ... use s ... }
#define LAW(name, q, t, rule) \
    static void law_##name(pbt::S& s); \
    static pbt::Reg reg_##name(#name, q, t, rule, law_##name); \
    static void law_##name(pbt::S& s)
#define LEAK_LAW(name, q, t, rule) \
    static void law_##name(pbt::S& s); \
    static pbt::Reg reg_##name(#name, q, t, rule, law_##name, true); \
    static void law_##name(pbt::S& s)

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }

#define FAIL(expr) do { std::ostringstream o_; o_.precision(17); o_ << expr; pbt::fail(o_.str()); } while (0)
#define CHECK(c, expr) do { if (!(c)) { std::ostringstream o_; o_.precision(17); o_ << #c << " is false: " << expr; pbt::fail(o_.str()); } } while (0)

// ---------------------------------------------------------------------------

struct Opts
{
    uint64_t seed = 1;
    bool thorough = false;
    int workers = 8;
    std::string property, flavour, out, replay_out, replay_in, only_law;
    double scale = 1.0;
    int cpu_limit = 30;
};

struct Outcome { bool failed = false; bool discarded = false; bool crash = false; bool timeout = false; std::string msg; std::string notes; };

inline Shared*& timeout_shared() { static Shared* p = nullptr; return p; }
inline void on_timeout(int)
{
    Shared* sh = timeout_shared();
    if (sh) { sh->state = 4; }
    _exit(97);
}
inline void arm(int seconds)
{
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline uint64_t allocated()
{
#if PBT_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

// executes one case in this process
inline Outcome exec_case(const Law& law, S& s)
{
    Outcome o;
    try { law.body(s); }
    catch (Failure& f) { o.failed = true; o.msg = f.msg; }
    catch (Discard&) { o.discarded = true; }
    catch (std::exception& e) { o.failed = true; o.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { o.failed = true; o.msg = "unexpected exception of unknown type"; }
    o.notes = s.notes;
    return o;
}

inline Outcome exec_checked(const Law& law, uint64_t seed, Shared* sh, const std::vector<uint64_t>* pre,
                            bool thorough, bool verbose, S** keep = nullptr)
{
    static std::unique_ptr<S> cur;
    cur.reset(new S(seed, sh, pre, thorough, verbose));
    uint64_t before = allocated();
    Outcome o = exec_case(law, *cur);
    if (law.leaks && PBT_ASAN && !o.failed && !verbose)
    {
        // measure on exact re-executions: first-use caches must not count
        std::vector<uint64_t> seq(sh->choices, sh->choices + sh->nchoices);
        bool leak = allocated() > before;
        int64_t grown = 0;
        for (int rep = 0; rep < 3 && leak; ++rep)
        {
            std::unique_ptr<S> t(new S(seed, sh, &seq, thorough, false));
            uint64_t b = allocated();
            bool bad = false;
            { Outcome r = exec_case(law, *t); bad = r.failed; std::set<std::string>().swap(t->labels); std::string().swap(t->notes); }
            int64_t d = (int64_t) allocated() - (int64_t) b;
            if (bad || d <= 0) { leak = false; }
            grown = d;
        }
        if (leak) { o.failed = true; std::ostringstream m; m << "memory leak: " << grown << " bytes still allocated after the case, on every repetition"; o.msg = m.str(); }
    }
    if (keep) { *keep = cur.get(); }
    return o;
}

inline std::string slurp(const std::string& p)
{ std::ifstream f(p.c_str()); std::stringstream b; b << f.rdbuf(); return b.str(); }

inline std::string tail(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(s.size() - n); }

inline std::string summarize_stderr(const std::string& t)
{
    // keep the interesting lines of an assertion or sanitizer report
    std::istringstream in(t); std::string line, out; int kept = 0;
    while (std::getline(in, line) && kept < 14)
    {
        if (line.find("ssertion") != std::string::npos || line.find("ERROR") != std::string::npos
            || line.find("runtime error") != std::string::npos || line.find(" ** On entry") != std::string::npos
            || line.find("SUMMARY") != std::string::npos || line.find("terminate") != std::string::npos
            || line.find("what():") != std::string::npos
            || (line.find("    #") == 0 && (line.find("/repo") != std::string::npos || line.find("linalgcpp") != std::string::npos)))
        { out += line; out += "\n"; ++kept; }
    }
    return out.empty() ? tail(t, 600) : out;
}

class Runner
{
public:
    Runner(const Opts& o_) : o(o_)
    {
        char tmpl[] = "/tmp/pbtXXXXXX";
        dir = mkdtemp(tmpl);
        probe = map_shared();
    }
    ~Runner()
    {
        std::string cmd;
        for (auto& f : tmpfiles) { unlink(f.c_str()); }
        rmdir(dir.c_str());
    }

    static Shared* map_shared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        memset(p, 0, offsetof(Shared, choices));
        return (Shared*) p;
    }

    std::string tmp(const std::string& name) { std::string p = dir + "/" + name; tmpfiles.insert(p); return p; }

    void child_setup(const std::string& err)
    {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        dup2(fd, 1); dup2(fd, 2); close(fd);
        signal(SIGPROF, on_timeout);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    }

    int64_t count(const Law& l) const
    {
        double n = (o.thorough ? l.thorough : 3.0 * l.quick) * o.scale;
        return n < 1 ? 1 : (int64_t) n;
    }
    uint64_t case_seed(const Law& l, int64_t idx) const
    { return mix(mix(o.seed * 0x9e3779b97f4a7c15ull + 77) ^ hash_str(l.name + "/" + o.flavour)) ^ mix((uint64_t) idx + 0xabcdef); }

    // run one case (from a choice sequence or, if pre==nullptr, from its seed) in a forked child
    Outcome run_forked(int li, const std::vector<uint64_t>* pre, uint64_t seed, bool verbose, std::vector<uint64_t>* actual = nullptr,
                       const std::vector<int64_t>* history = nullptr)
    {
        const Law& law = laws()[li];
        std::string err = tmp("probe.err"), nts = tmp("probe.notes");
        unlink(nts.c_str());
        Shared* sh = probe;
        sh->state = 1; sh->msg[0] = 0; sh->nchoices = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            child_setup(err);
            timeout_shared() = sh;
            if (history)
            {
                for (int64_t idx : *history)
                {
                    arm(o.cpu_limit);
                    Outcome r = exec_checked(law, case_seed(law, idx), sh, nullptr, o.thorough, false);
                    if (r.failed) { snprintf(sh->msg, MSG_LEN, "%s", r.msg.c_str()); sh->state = 2; _exit(0); }
                }
                sh->state = 3; _exit(0);
            }
            arm(o.cpu_limit);
            Outcome r = exec_checked(law, seed, sh, pre, o.thorough, false);
            if (r.failed) { snprintf(sh->msg, MSG_LEN, "%s", r.msg.c_str()); sh->state = 2; }
            else { sh->state = 3; }
            if (verbose)
            {
                std::vector<uint64_t> seq(sh->choices, sh->choices + sh->nchoices);
                int st = sh->state;
                S* k = nullptr;
                Outcome v = exec_checked(law, seed, sh, &seq, o.thorough, true, &k);
                std::ofstream f(nts.c_str()); f << v.notes; f.close();
                sh->state = st;
            }
            _exit(r.discarded ? 5 : 0);
        }
        int status = 0; waitpid(pid, &status, 0);
        Outcome out;
        if (sh->state == 2) { out.failed = true; out.msg = std::string(sh->msg); }
        else if (sh->state == 4) { out.failed = true; out.timeout = true; out.msg = "no termination within the CPU limit of one case"; }
        else if (sh->state == 1)
        {
            out.failed = true; out.crash = true; std::ostringstream m;
            if (WIFSIGNALED(status)) { m << "process died with signal " << WTERMSIG(status) << "\n"; }
            else { m << "process exited with status " << WEXITSTATUS(status) << " in the middle of the case\n"; }
            m << summarize_stderr(slurp(err));
            out.msg = m.str();
        }
        out.discarded = WIFEXITED(status) && WEXITSTATUS(status) == 5;
        out.notes = slurp(nts);
        if (verbose && (out.crash || out.timeout) && !history)
        {
            std::vector<uint64_t> seq(sh->choices, sh->choices + sh->nchoices);
            sh->notes[0] = 0; fflush(nullptr);
            pid = fork();
            if (pid == 0) { child_setup(err); arm(o.cpu_limit); exec_checked(law, seed, sh, &seq, o.thorough, true); _exit(0); }
            waitpid(pid, &status, 0);
            out.notes = std::string(sh->notes);
        }
        if (actual) { actual->assign(sh->choices, sh->choices + sh->nchoices); }
        return out;
    }

    static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
    { return a.size() != b.size() ? a.size() < b.size() : a < b; }

    std::vector<uint64_t> shrink(int li, std::vector<uint64_t> best, int& tries)
    {
        const int budget = 600;
        time_t t0 = time(nullptr);
        auto attempt = [&](const std::vector<uint64_t>& c) -> bool
        {
            if (tries >= budget || time(nullptr) - t0 > 60 || c == best) { return false; }
            ++tries;
            std::vector<uint64_t> act;
            Outcome r = run_forked(li, &c, 0, false, &act);
            if (!r.failed || r.timeout) { return false; }
            std::vector<uint64_t> cand = r.crash ? (act.size() <= c.size() && act.size() > 0 ? act : c) : act;
            while (!cand.empty() && cand.back() == 0) { cand.pop_back(); }
            if (smaller(cand, best)) { best = cand; return true; }
            return false;
        };
        while (!best.empty() && best.back() == 0) { best.pop_back(); }
        bool progress = true;
        while (progress && tries < budget && time(nullptr) - t0 <= 60)
        {
            progress = false;
            for (size_t len : {size_t(64), size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)})
            {
                for (size_t st = best.size(); st-- > 0;)
                {
                    if (st + len > best.size()) { continue; }
                    std::vector<uint64_t> c(best); c.erase(c.begin() + st, c.begin() + st + len);
                    if (attempt(c)) { progress = true; }
                    if (tries >= budget) { break; }
                }
            }
            for (size_t len : {size_t(8), size_t(2)})
            {
                for (size_t st = 0; st + len <= best.size(); ++st)
                {
                    std::vector<uint64_t> c(best); bool any = false;
                    for (size_t k = st; k < st + len; ++k) { any = any || c[k]; c[k] = 0; }
                    if (any && attempt(c)) { progress = true; }
                }
            }
            for (size_t k = 0; k < best.size(); ++k)
            {
                if (best[k] == 0) { continue; }
                std::vector<uint64_t> c(best); c[k] = 0;
                if (attempt(c)) { progress = true; continue; }
                if (k >= best.size()) { break; }
                uint64_t lo = 0, hi = best[k];
                while (hi - lo > 1 && tries < budget)
                {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best; if (k >= c.size()) { break; } c[k] = mid;
                    if (attempt(c)) { progress = true; if (k >= best.size()) { break; } hi = best[k]; }
                    else { lo = mid; }
                }
                if (k < best.size() && best[k] > 0)
                { c = best; c[k] = best[k] - 1; if (attempt(c)) { progress = true; } }
            }
        }
        return best;
    }

    // ---- worker body
    void worker(int w, Shared* sh, const std::string& statsfile)
    {
        timeout_shared() = sh;
        std::map<std::string, std::map<std::string, uint64_t>> labels;
        std::vector<std::vector<uint64_t>> hashes(laws().size());
        std::vector<uint64_t> evals(laws().size(), 0), disc(laws().size(), 0);
        std::ostringstream samples;
        for (size_t li = 0; li < laws().size(); ++li)
        {
            const Law& law = laws()[li];
            if (!o.only_law.empty() && o.only_law != law.name) { continue; }
            int64_t n = count(law);
            int nsample = 0;
            sh->law = (int) li;
            for (int64_t idx = w; idx < n; idx += o.workers)
            {
                sh->index = idx; sh->state = 1; sh->msg[0] = 0;
                if (idx % 64 < o.workers) { if (ftruncate(2, 0)) { } }
                arm(o.cpu_limit);
                S* k = nullptr;
                Outcome r = exec_checked(law, case_seed(law, idx), sh, nullptr, o.thorough, false, &k);
                if (r.failed)
                {
                    snprintf(sh->msg, MSG_LEN, "%s", r.msg.c_str());
                    sh->state = 2;
                    _exit(0);
                }
                sh->evaluations = sh->evaluations + 1;
                ++evals[li];
                if (r.discarded) { ++disc[li]; continue; }
                for (auto& l : k->labels) { ++labels[law.name][l]; }
                if (k->is_nontrivial)
                {
                    ++labels[law.name]["(non-trivial)"];
                    hashes[li].push_back(k->hash);
                    if (w == 0 && nsample < 2)
                    {
                        ++nsample;
                        std::vector<uint64_t> seq(sh->choices, sh->choices + sh->nchoices);
                        Outcome v = exec_checked(law, case_seed(law, idx), sh, &seq, o.thorough, true, &k);
                        std::string t = v.notes.substr(0, 700);
                        for (char& c : t) { if (c == '\n') { c = ' '; } }
                        samples << "SAMPLE\t" << law.name << "\t" << idx << "\t" << t << "\n";
                    }
                }
            }
        }
        arm(0);
        std::ofstream f(statsfile.c_str());
        for (size_t li = 0; li < laws().size(); ++li)
        {
            f << "EVAL\t" << laws()[li].name << "\t" << evals[li] << "\t" << disc[li] << "\n";
            for (uint64_t h : hashes[li]) { f << "H\t" << laws()[li].name << "\t" << h << "\n"; }
            for (auto& kv : labels[laws()[li].name]) { f << "L\t" << laws()[li].name << "\t" << kv.first << "\t" << kv.second << "\n"; }
        }
        f << samples.str();
        f.close();
        sh->state = 3;
    }

    static std::string jesc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
            else if (c == '\n') { r += "\\n"; }
            else if (c == '\t') { r += "\\t"; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else { r += (char) c; }
        }
        return r;
    }

    int run()
    {
        int W = o.workers;
        std::vector<Shared*> sh(W);
        std::vector<pid_t> pid(W);
        std::vector<std::string> stats(W), errs(W);
        for (int w = 0; w < W; ++w)
        {
            sh[w] = map_shared();
            stats[w] = tmp("stats." + std::to_string(w)); errs[w] = tmp("err." + std::to_string(w));
            fflush(nullptr);
            pid[w] = fork();
            if (pid[w] == 0)
            {
                child_setup(errs[w]);
                worker(w, sh[w], stats[w]);
                _exit(0);
            }
        }
        int failing = -1, running = W;
        std::vector<bool> done(W, false);
        while (running > 0)
        {
            int status = 0;
            pid_t p = waitpid(-1, &status, 0);
            if (p < 0) { break; }
            for (int w = 0; w < W; ++w)
            {
                if (pid[w] != p || done[w]) { continue; }
                done[w] = true; --running;
                if (sh[w]->state != 3 && failing < 0)
                {
                    failing = w;
                    for (int v = 0; v < W; ++v) { if (!done[v]) { kill(pid[v], SIGKILL); } }
                }
            }
        }

        uint64_t evals = 0;
        for (int w = 0; w < W; ++w) { evals += sh[w]->evaluations; }
        int rc = 0;
        std::string vmsg, vnotes, vlaw;
        int unconfirmed = 0;
        if (failing >= 0)
        {
            Shared* f = sh[failing];
            int li = f->law; int64_t idx = f->index;
            const Law& law = laws()[li];
            bool timeout = f->state == 4;
            std::vector<uint64_t> seq(f->choices, f->choices + f->nchoices);
            std::string first = f->state == 2 ? std::string(f->msg) : timeout ? std::string("no termination within the CPU limit of one case")
                                : "crash\n" + summarize_stderr(slurp(errs[failing]));
            std::vector<uint64_t> act;
            uint64_t cs = case_seed(law, idx);
            Outcome r = run_forked(li, nullptr, cs, false, &act);
            std::string mode = "choices"; int tries = 0, confirmed = 0;
            std::vector<int64_t> history;
            std::vector<uint64_t> best;
            if (r.failed)
            {
                best = r.timeout || r.crash ? (seq.size() ? seq : act) : act;
                Outcome chk = run_forked(li, &best, 0, false);
                if (!chk.failed) { mode = "seed"; }
                else if (!r.timeout) { best = shrink(li, best, tries); }
                for (int k = 0; k < (r.timeout ? 2 : 3); ++k)
                {
                    Outcome c = mode == "seed" ? run_forked(li, nullptr, cs, k == 0) : run_forked(li, &best, 0, k == 0);
                    confirmed += c.failed;
                    if (k == 0) { vmsg = c.msg; vnotes = c.notes; }
                }
                if (r.timeout) { ++confirmed; }
            }
            if (confirmed < 3)
            {
                // the failure may need the earlier cases of this process (state kept between calls)
                mode = "history";
                confirmed = 0;
                for (int64_t k = failing; k <= idx; k += W) { history.push_back(k); }
                for (int k = 0; k < 3; ++k) { Outcome c = run_forked(li, nullptr, 0, false, nullptr, &history); confirmed += c.failed; if (c.failed) { vmsg = c.msg; } }
            }
            vlaw = law.name;
            if (vmsg.empty()) { vmsg = first; }
            std::ofstream rf(o.replay_out.c_str());
            rf << "property " << o.property << "\nlaw " << law.name << "\nflavour " << o.flavour << "\ntier " << (o.thorough ? "thorough" : "quick")
               << "\nseed " << o.seed << "\nindex " << idx << "\nworkers " << W << "\nmode " << mode << "\nchoices";
            for (uint64_t c : best) { rf << " " << c; }
            rf << "\nconfirmed " << confirmed << "/3 shrink_executions " << tries << "\n--- what failed\n" << vmsg << "\n--- the case\n" << vnotes << "\n--- first observation\n" << first << "\n";
            rf.close();
            // a failed oracle, or a crash that happened again, is a violation; an unexplained crash or
            // time-out that never happens again (memory pressure) is not, nor a timing oracle that does not repeat
            if (confirmed >= 3 || (f->state == 2 && !timing_dependent()) || (confirmed >= 1 && !timeout && !timing_dependent())) { rc = 1; }
            else { unconfirmed = 1; rc = 4; }
        }

        // ---- merge statistics
        std::map<std::string, std::set<uint64_t>> hs;
        std::map<std::string, std::map<std::string, uint64_t>> labels;
        std::map<std::string, uint64_t> ev, ds;
        std::vector<std::array<std::string, 3>> samples;
        for (int w = 0; w < W; ++w)
        {
            std::ifstream f(stats[w].c_str()); std::string line;
            while (std::getline(f, line))
            {
                std::vector<std::string> p; std::string t; std::istringstream is(line);
                while (std::getline(is, t, '\t')) { p.push_back(t); }
                if (p.size() < 3) { continue; }
                if (p[0] == "H") { hs[p[1]].insert(std::stoull(p[2])); }
                else if (p[0] == "L" && p.size() > 3) { labels[p[1]][p[2]] += std::stoull(p[3]); }
                else if (p[0] == "EVAL") { ev[p[1]] += std::stoull(p[2]); if (p.size() > 3) { ds[p[1]] += std::stoull(p[3]); } }
                else if (p[0] == "SAMPLE") { samples.push_back({{p[1], p[2], p.size() > 3 ? p[3] : ""}}); }
            }
        }
        std::ofstream hf((o.out + ".hashes").c_str());
        for (auto& kv : hs) { for (uint64_t h : kv.second) { hf << mix(h ^ hash_str(kv.first)) << "\n"; } }
        hf.close();
        std::ofstream js(o.out.c_str());
        js << "{\"evaluations\": " << evals << ", \"violation\": " << (rc == 1 ? 1 : 0) << ", \"unconfirmed\": " << unconfirmed
           << ", \"law_failed\": \"" << jesc(vlaw) << "\", \"message\": \"" << jesc(vmsg) << "\", \"case\": \"" << jesc(vnotes.substr(0, 4000)) << "\",\n \"laws\": {";
        bool firstl = true;
        for (auto& law : laws())
        {
            if (!firstl) { js << ","; } firstl = false;
            js << "\n  \"" << law.name << "\": {\"evaluations\": " << ev[law.name] << ", \"discarded\": " << ds[law.name]
               << ", \"distinct_nontrivial\": " << hs[law.name].size() << ", \"rule\": \"" << jesc(law.rule) << "\", \"classes\": {";
            bool fc = true;
            for (auto& kv : labels[law.name]) { if (!fc) { js << ", "; } fc = false; js << "\"" << jesc(kv.first) << "\": " << kv.second; }
            js << "}}";
        }
        js << "\n },\n \"samples\": [";
        for (size_t k = 0; k < samples.size(); ++k)
        { js << (k ? "," : "") << "\n  {\"law\": \"" << samples[k][0] << "\", \"index\": " << samples[k][1] << ", \"case\": \"" << jesc(samples[k][2]) << "\"}"; }
        js << "\n ]}\n";
        js.close();
        return rc;
    }

    int replay()
    {
        std::ifstream f(o.replay_in.c_str()); std::string line, law, mode = "choices"; std::vector<uint64_t> ch; int64_t idx = 0; int workers = 8;
        while (std::getline(f, line))
        {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "law") { is >> law; }
            else if (k == "mode") { is >> mode; }
            else if (k == "index") { is >> idx; }
            else if (k == "workers") { is >> workers; }
            else if (k == "seed") { is >> o.seed; }
            else if (k == "flavour") { is >> o.flavour; }
            else if (k == "tier") { std::string t; is >> t; o.thorough = t == "thorough"; }
            else if (k == "choices") { uint64_t v; while (is >> v) { ch.push_back(v); } }
            else if (k == "---") { break; }
        }
        for (size_t li = 0; li < laws().size(); ++li)
        {
            if (laws()[li].name != law) { continue; }
            std::vector<int64_t> history;
            for (int64_t k = idx % workers; k <= idx; k += workers) { history.push_back(k); }
            Outcome r = mode == "choices" ? run_forked(li, &ch, 0, true)
                        : mode == "seed" ? run_forked(li, nullptr, case_seed(laws()[li], idx), true)
                        : run_forked(li, nullptr, 0, false, nullptr, &history);
            printf("law %s: %s\n%s\n--- case\n%s\n", law.c_str(), r.failed ? "FAILS" : "passes", r.msg.c_str(), r.notes.c_str());
            return r.failed ? 1 : 0;
        }
        fprintf(stderr, "no such law: %s\n", law.c_str());
        return 2;
    }

private:
    Opts o;
    std::string dir;
    std::set<std::string> tmpfiles;
    Shared* probe;
};

inline int main_(int argc, char** argv)
{
    Opts o;
    for (int k = 1; k < argc; ++k)
    {
        std::string a = argv[k];
        auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--seed") { o.seed = std::stoull(val()); }
        else if (a == "--tier") { o.thorough = val() == "thorough"; }
        else if (a == "--workers") { o.workers = std::stoi(val()); }
        else if (a == "--property") { o.property = val(); }
        else if (a == "--flavour") { o.flavour = val(); }
        else if (a == "--out") { o.out = val(); }
        else if (a == "--replay-out") { o.replay_out = val(); }
        else if (a == "--replay") { o.replay_in = val(); }
        else if (a == "--law") { o.only_law = val(); }
        else if (a == "--scale") { o.scale = std::stod(val()); }
        else if (a == "--list") { for (auto& l : laws()) { printf("%s %lld %lld\n", l.name.c_str(), (long long) l.quick, (long long) l.thorough); } return 0; }
    }
    Runner r(o);
    return o.replay_in.empty() ? r.run() : r.replay();
}

} // namespace pbt

#define PBT_MAIN int main(int argc, char** argv) { return pbt::main_(argc, argv); }

#endif
