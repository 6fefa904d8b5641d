// mc.hpp - a small explicit, exhaustive explorer for the real library code.
//
// A harness registers scenarios.  A scenario is a function that drives the real
// library and takes every decision (operation, argument, size, unit, fault
// point, ...) through mc::pick(n).  The explorer runs the scenario once for
// every sequence of decisions (stateless depth-first search, nothing is
// sampled); after each step the scenario compares what the library did with a
// reference model and calls mc::fail() on a difference.
//
//   states       distinct model states recorded with mc::state()
//   transitions  distinct edges of the decision tree that were executed
//   executions   complete executions of the real code (leaves of the tree)
//
// The search is split over worker processes by a hash of the first decisions;
// a worker that crashes or hangs is turned into a violation whose decisions are
// read from memory it shares with the parent.  Every violation is replayed in a
// fresh process before it is reported.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct failure { std::string what; };
struct skip {};      // branch belongs to another worker
struct prune {};     // state already expanded (explicit-state search)

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}
inline std::uint64_t hash_bytes(void const* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    unsigned char const* b = static_cast<unsigned char const*>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return mix(h, n);
}
inline std::uint64_t hash_str(std::string const& s, std::uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

struct shared_page
{
    volatile std::uint64_t seq;
    volatile int scenario;
    volatile int depth;
    volatile int choices[4000];
};

struct scenario_def
{
    std::string name;
    std::function<void()> body;
    bool thorough_only;
};

struct context
{
    std::vector<int> prefix;     // decisions forced
    std::vector<int> taken;      // decisions of this execution
    std::vector<int> arity;
    std::vector<std::string> log;
    bool logging = false;
    int shard = 0, shards = 1, shard_depth = 2;
    bool sharding = false;
    std::uint64_t scenario_hash = 0;
    std::unordered_set<std::uint64_t> states;
    std::uint64_t transitions = 0, executions = 0, evaluations = 0, steps = 0;
    std::size_t shared_prefix = 0;  // decisions shared with the previous execution
    std::set<std::string> known_seen;
    std::vector<std::string> samples;
    std::vector<std::string> obs;
    shared_page* page = nullptr;
    bool thorough = false;
    bool silent_tree = false;
};

inline context& ctx() { static context c; return c; }
inline std::vector<scenario_def>& scenarios() { static std::vector<scenario_def> v; return v; }
inline bool thorough() { return ctx().thorough; }

struct reg
{
    reg(std::string const& n, std::function<void()> f, bool thorough_only = false)
    { scenarios().push_back({n, f, thorough_only}); }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(name) \
    static void MC_CAT(mc_scn_, __LINE__)(); \
    static ::mc::reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_scn_, __LINE__)); \
    static void MC_CAT(mc_scn_, __LINE__)()
#define THOROUGH_SCENARIO(name) \
    static void MC_CAT(mc_scn_, __LINE__)(); \
    static ::mc::reg MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_scn_, __LINE__), true); \
    static void MC_CAT(mc_scn_, __LINE__)()

[[noreturn]] inline void fail(std::string const& what) { throw failure{what}; }

template <typename... A> inline std::string str(A const&... a)
{
    std::ostringstream o; o.precision(17);
    int dummy[] = {0, ((o << a), 0)...}; (void)dummy;
    return o.str();
}

inline std::string show(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

// one decision among n alternatives
inline int pick(int n)
{
    context& c = ctx();
    if (n <= 0) fail("harness error: pick among none");
    std::size_t d = c.taken.size();
    int v = d < c.prefix.size() ? c.prefix[d] : 0;
    if (v >= n) { std::fprintf(stderr, "replay diverged: decision %zu is %d of %d\n", d, v, n); std::_Exit(3); }
    c.taken.push_back(v);
    c.arity.push_back(n);
    if (c.page)
    {
        if (d < 4000) c.page->choices[d] = v;
        c.page->depth = int(d) + 1;
    }
    if (c.sharding && int(d) + 1 == c.shard_depth)
    {
        std::uint64_t h = c.scenario_hash;
        for (int i = 0; i < c.shard_depth; ++i) h = mix(h, c.taken[i]);
        if (int(h % c.shards) != c.shard) throw skip();
    }
    return v;
}
// the search is split over the workers at the n-th decision of this scenario
inline void split(int n) { ctx().shard_depth = n; }
template <typename T> inline T const& pick_from(std::vector<T> const& v) { return v[pick(int(v.size()))]; }
inline bool flip() { return pick(2) == 1; }

template <typename... A> inline void log(A const&... a)
{
    if (ctx().logging) ctx().log.push_back(str(a...));
}
// a reached model state
inline void state(std::uint64_t h) { context& c = ctx(); c.states.insert(mix(c.scenario_hash, h)); }
inline void state(std::string const& s) { state(hash_str(s)); }
// one comparison of the implementation with the reference
inline void evaluated(std::uint64_t n = 1) { ctx().evaluations += n; }
// steps that an inner exhaustive loop executed (in addition to picks)
inline void steps(std::uint64_t n) { ctx().steps += n; if (ctx().page) ctx().page->seq = ctx().page->seq + 1; }

template <typename... A> inline void check(bool ok, A const&... a)
{
    ctx().evaluations++;
    if (!ok) fail(str(a...));
}

// ---- known findings -------------------------------------------------------
inline std::map<std::string, std::string>& known_findings() { static std::map<std::string, std::string> k; return k; }
inline std::string& property() { static std::string p; return p; }
// reports the difference `what`, identified by `key`; suppressed only when the
// committed known-findings file lists exactly this key for this property
inline void finding(std::string const& key, std::string const& what)
{
    auto it = known_findings().find(key);
    if (it == known_findings().end()) fail(what + " [" + key + "]");
    ctx().known_seen.insert(key);
}

inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12)
{
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    double d = std::fabs(a - b);
    return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

// Runs f and returns "" or the dynamic type of what it threw
template <typename F> inline std::string thrown(F f)
{
    try { f(); }
    catch (failure const&) { throw; }
    catch (skip const&) { throw; }
    catch (prune const&) { throw; }
    catch (std::exception const& e) { return typeid(e).name(); }
    catch (...) { return "unknown"; }
    return "";
}

// ---- running --------------------------------------------------------------
inline std::string json_escape(std::string const& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

// executes the scenario with the forced prefix; returns the failure or ""
inline bool execute(scenario_def const& s, std::string& what, bool& skipped)
{
    context& c = ctx();
    c.taken.clear(); c.arity.clear(); c.log.clear();
    skipped = false;
    c.shard_depth = 2;
    if (c.page) { c.page->depth = 0; c.page->seq = c.page->seq + 1; }
    try { s.body(); }
    catch (failure const& f) { what = f.what; return false; }
    catch (skip const&) { skipped = true; }
    catch (prune const&) {}
    catch (std::exception const& e) { what = str("unexpected exception ", typeid(e).name(), ": ", e.what()); return false; }
    catch (...) { what = "unexpected exception of unknown type"; return false; }
    return true;
}

struct worker_result
{
    int worker = 0;   // which worker found it
    bool violated = false;
    int scenario = -1;
    std::vector<int> choices;
    std::string what;
};

inline void write_worker(std::string const& path, worker_result const& r, bool complete,
    std::vector<std::uint64_t> const& exec_per_scn)
{
    context& c = ctx();
    std::ofstream f(path, std::ios::binary);
    f << c.transitions << ' ' << c.executions << ' ' << c.evaluations << ' ' << c.steps << ' '
      << (complete ? 1 : 0) << ' ' << (r.violated ? 1 : 0) << ' ' << r.scenario << ' ' << r.choices.size();
    for (int v : r.choices) f << ' ' << v;
    f << ' ' << exec_per_scn.size();
    for (auto v : exec_per_scn) f << ' ' << v;
    f << '\n';
    f << json_escape(r.what) << '\n';
    f << c.known_seen.size() << '\n';
    for (auto& k : c.known_seen) f << k << '\n';
    f << c.samples.size() << '\n';
    for (auto& k : c.samples) f << k << '\n';
    f << c.states.size() << '\n';
    for (std::uint64_t h : c.states) f.write(reinterpret_cast<char const*>(&h), sizeof h);
}

inline int run_worker(int shard, int shards, shared_page* page, std::string const& out)
{
    context& c = ctx();
    c.shard = shard; c.shards = shards; c.sharding = shards > 1; c.page = page;
    worker_result r;
    std::vector<std::uint64_t> per(scenarios().size(), 0);
    for (std::size_t i = 0; i < scenarios().size() && !r.violated; ++i)
    {
        scenario_def const& s = scenarios()[i];
        if (s.thorough_only && !c.thorough) continue;
        if (page) page->scenario = int(i);
        c.scenario_hash = hash_str(s.name);
        c.prefix.clear();
        c.shared_prefix = 0;
        bool first_sample = true;
        for (;;)
        {
            std::string what; bool skipped;
            c.logging = first_sample && shard == 0;
            bool ok = execute(s, what, skipped);
            if (!ok)
            {
                r.violated = true; r.scenario = int(i); r.choices = c.taken; r.what = what;
                break;
            }
            if (!skipped)
            {
                bool mine = !c.sharding || int(c.taken.size()) >= c.shard_depth || shard == 0;
                if (mine)
                {
                    c.executions++; per[i]++;
                    std::size_t from = std::max<std::size_t>(c.shared_prefix, 0);
                    c.transitions += c.taken.size() > from ? c.taken.size() - from : 0;
                    if (c.logging)
                    {
                        std::string t = str("{\"scenario\":\"", json_escape(s.name), "\",\"decisions\":[");
                        for (std::size_t k = 0; k < c.taken.size() && k < 40; ++k) t += (k ? "," : "") + std::to_string(c.taken[k]);
                        t += "],\"log\":[";
                        for (std::size_t k = 0; k < c.log.size() && k < 12; ++k) t += (k ? "," : "") + str("\"", json_escape(c.log[k]), "\"");
                        t += "]}";
                        c.samples.push_back(t);
                        first_sample = false;
                    }
                }
            }
            // next sequence of decisions
            int k = int(c.taken.size()) - 1;
            while (k >= 0 && c.taken[k] + 1 >= c.arity[k]) --k;
            if (k < 0) break;
            c.prefix.assign(c.taken.begin(), c.taken.begin() + k + 1);
            c.prefix[k]++;
            c.shared_prefix = k;
        }
    }
    write_worker(out, r, !r.violated, per);
    return r.violated ? 1 : 0;
}

inline bool read_replay(std::string const& path, std::string& scn, std::vector<int>& choices)
{
    std::ifstream f(path);
    std::string line;
    bool got = false;
    while (std::getline(f, line))
    {
        if (line.compare(0, 9, "scenario ") == 0) { scn = line.substr(9); got = true; }
        if (line.compare(0, 10, "decisions ") == 0 || line == "decisions")
        {
            std::istringstream s(line.size() > 10 ? line.substr(10) : "");
            int v; while (s >> v) choices.push_back(v);
        }
    }
    return got;
}

// replays one sequence in this process; exit 1 when it violates the property
inline int replay(std::string const& scn, std::vector<int> const& choices, bool print)
{
    context& c = ctx();
    for (auto& s : scenarios()) if (s.name == scn)
    {
        c.scenario_hash = hash_str(s.name);
        c.prefix = choices; c.logging = true; c.sharding = false;
        std::string what; bool skipped;
        bool ok = execute(s, what, skipped);
        if (print)
        {
            for (auto& l : c.log) std::cout << "  " << l << "\n";
            std::cout << (ok ? "holds\n" : "VIOLATED: " + what + "\n") << std::flush;
        }
        return ok ? 0 : 1;
    }
    std::cerr << "no scenario " << scn << "\n";
    return 3;
}

inline double cpu_seconds(pid_t pid)
{
    clockid_t id; timespec t;
    if (clock_getcpuclockid(pid, &id) != 0 || clock_gettime(id, &t) != 0) return -1;
    return double(t.tv_sec) + t.tv_nsec * 1e-9;
}

// runs fn in a child; returns exit code, or -signal, or -1000 on cpu timeout
inline int in_child(std::function<int()> fn, double cpu_limit, std::string const& errfile)
{
    std::cout.flush(); std::cerr.flush();
    pid_t p = fork();
    if (p == 0)
    {
        int fd = ::open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        int rc = fn();
        std::cout.flush();
        std::_Exit(rc);
    }
    for (;;)
    {
        int st; pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p)
        {
            if (WIFSIGNALED(st)) return -WTERMSIG(st);
            return WEXITSTATUS(st);
        }
        if (cpu_seconds(p) > cpu_limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1000; }
        usleep(20000);
    }
}

inline std::string slurp(std::string const& p, std::size_t lim = 4000)
{
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > lim) s.resize(lim);
    return s;
}

inline double& case_cpu_limit() { static double d = 10; return d; }

// usage: harness --property ID --tier T --out RESULT.json --replay-out FILE --scratch DIR [--known FILE] [--jobs N]
//        harness --property ID --replay FILE
inline int main_(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    property() = a["--property"];
    ctx().thorough = a["--tier"] == "thorough";
    if (a.count("--known"))
    {
        std::ifstream f(a["--known"]); std::string line;
        while (std::getline(f, line))
        {
            std::size_t t = line.find('\t');
            if (t != std::string::npos) known_findings()[line.substr(0, t)] = line.substr(t + 1);
        }
    }
    if (a.count("--scratch")) { if (chdir(a["--scratch"].c_str()) != 0) { std::perror("scratch"); return 2; } }
    signal(SIGPIPE, SIG_IGN);
    if (a.count("--replay"))
    {
        std::string scn; std::vector<int> ch;
        if (!read_replay(a["--replay"], scn, ch)) { std::cerr << "bad replay file\n"; return 2; }
        std::ifstream f(a["--replay"]); std::string line; int worker, of;
        while (std::getline(f, line)) if (std::sscanf(line.c_str(), "history %d %d", &worker, &of) == 2)
        {
            int rc = run_worker(worker, of, nullptr, "again.res");
            std::cout << (rc ? "VIOLATED in the history of this worker\n" : "holds\n"); return rc;
        }
        return replay(scn, ch, true);
    }
    int jobs = a.count("--jobs") ? std::atoi(a["--jobs"].c_str()) : 8;
    std::string base = "mc_" + std::to_string(getpid());
    struct W { pid_t pid; shared_page* page; std::string out; bool done; int rc; std::uint64_t seq; double cpu0; std::string dir; bool killed; };
    std::vector<W> ws;
    std::cout.flush();
    char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 2;
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int i = 0; i < jobs; ++i)
    {
        W w{};
        w.page = static_cast<shared_page*>(mmap(nullptr, sizeof(shared_page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        w.out = std::string(cwd) + "/" + base + "_" + std::to_string(i) + ".res";
        w.dir = std::string(cwd) + "/w" + std::to_string(i);
        mkdir(w.dir.c_str(), 0700);
        w.pid = fork();
        if (w.pid == 0)
        {
            if (chdir(w.dir.c_str()) != 0) std::_Exit(4);
            int fd = ::open("stderr.txt", O_CREAT | O_WRONLY | O_TRUNC, 0600);
            if (fd >= 0) dup2(fd, 2);
            int rc = run_worker(i, jobs, w.page, w.out);
            std::_Exit(rc);
        }
        ws.push_back(w);
    }
    worker_result best; bool error = false; std::string errtext;
    int running = jobs;
    auto take = [&](worker_result const& r) {
        if (!best.violated || r.scenario < best.scenario || (r.scenario == best.scenario && r.choices.size() < best.choices.size())) best = r;
    };
    std::uint64_t transitions = 0, executions = 0, evaluations = 0, steps = 0;
    std::vector<std::uint64_t> hashes, per(scenarios().size(), 0);
    std::set<std::string> known; std::vector<std::string> samples;
    while (running > 0)
    {
        bool any = false;
        for (auto& w : ws) if (!w.done)
        {
            int st; pid_t p = waitpid(w.pid, &st, WNOHANG);
            if (p == w.pid)
            {
                any = true; w.done = true; --running;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1) && access(w.out.c_str(), R_OK) == 0)
                {
                    std::ifstream f(w.out, std::ios::binary);
                    std::uint64_t tr, ex, ev, sp; int comp, vio, scn; std::size_t nc;
                    f >> tr >> ex >> ev >> sp >> comp >> vio >> scn >> nc;
                    worker_result r; r.violated = vio; r.scenario = scn; r.worker = int(&w - &ws[0]);
                    for (std::size_t k = 0; k < nc; ++k) { int v; f >> v; r.choices.push_back(v); }
                    std::size_t np; f >> np;
                    for (std::size_t k = 0; k < np; ++k) { std::uint64_t v; f >> v; per[k] += v; }
                    std::string line; std::getline(f, line); std::getline(f, r.what);
                    std::size_t n; f >> n; std::getline(f, line);
                    for (std::size_t k = 0; k < n; ++k) { std::getline(f, line); known.insert(line); }
                    f >> n; std::getline(f, line);
                    for (std::size_t k = 0; k < n; ++k) { std::getline(f, line); samples.push_back(line); }
                    f >> n; std::getline(f, line);
                    std::size_t at = hashes.size(); hashes.resize(at + n);
                    if (n) f.read(reinterpret_cast<char*>(&hashes[at]), std::streamsize(n * sizeof(std::uint64_t)));
                    transitions += tr; executions += ex; evaluations += ev; steps += sp;
                    if (vio) take(r);
                    unlink(w.out.c_str());
                }
                else
                {
                    // the worker died: the case it was running is in the shared page
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { error = true; errtext = "decisions diverged"; continue; }
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !w.killed) { error = true; errtext = "worker killed from outside (out of memory?)"; continue; }
                    worker_result r; r.violated = true; r.scenario = w.page->scenario; r.worker = int(&w - &ws[0]);
                    for (int k = 0; k < w.page->depth && k < 4000; ++k) r.choices.push_back(int(w.page->choices[k]));
                    r.what = w.killed ? "the call did not terminate"
                        : str("the program died: ", WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st),
                              " ", json_escape(slurp(w.dir + "/stderr.txt", 1500)));
                    take(r);
                }
            }
            else
            {
                double cpu = cpu_seconds(w.pid);
                if (w.killed) {}
                else if (w.page->seq != w.seq) { w.seq = w.page->seq; w.cpu0 = cpu; }
                else if (cpu - w.cpu0 > case_cpu_limit()) { w.killed = true; kill(w.pid, SIGKILL); any = true; }
            }
        }
        if (best.violated)
        {
            for (auto& w : ws) if (!w.done) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); w.done = true; --running; }
        }
        if (!any) usleep(10000);
    }
    timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    double wall = double(t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());

    int rc = 0;
    if (best.violated)
    {
        // replay in a fresh process before reporting
        std::string scn = scenarios()[best.scenario].name;
        std::string err = std::string(cwd) + "/replay_err.txt";
        std::string rdir = std::string(cwd) + "/replay"; mkdir(rdir.c_str(), 0700);
        auto once = [&] { return in_child([&] { if (chdir(rdir.c_str())) return 4; return replay(scn, best.choices, true); }, 3 * case_cpu_limit(), err); };
        int r1 = once(); std::string text = slurp(err, 6000);
        int r2 = once();
        bool bad1 = r1 != 0 && r1 != 3, bad2 = r2 != 0 && r2 != 3;
        // a difference that the single execution does not show depends on what the process
        // executed before (static state, memory contents): repeat the worker's whole history
        bool history = false;
        if (!(bad1 && bad2))
        {
            shared_page* page = static_cast<shared_page*>(mmap(nullptr, sizeof(shared_page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            std::string again = std::string(cwd) + "/again.res";
            int rc2 = in_child([&] { if (chdir(ws[best.worker].dir.c_str())) return 4; return run_worker(best.worker, jobs, page, again); }, 400, err);
            std::vector<int> at; int scn2 = page->scenario;
            for (int k = 0; k < page->depth && k < 4000; ++k) at.push_back(int(page->choices[k]));
            history = rc2 != 0 && rc2 != 3 && rc2 != 4 && rc2 != -1000 && rc2 != -SIGKILL && scn2 == best.scenario && at == best.choices;
        }
        std::ofstream f(a["--replay-out"]);
        f << "property " << property() << "\nscenario " << scn << "\ndecisions";
        for (int v : best.choices) f << ' ' << v;
        if (history) f << "\nhistory " << best.worker << ' ' << jobs;
        f << "\nwhat " << best.what << "\n";
        f << "# replay: " << argv[0] << " --property " << property() << " --replay <this file>\n" << text;
        if (bad1 && bad2) { rc = 1; std::cout << "violated in scenario '" << scn << "': " << best.what << "\n"; }
        else if (history) { rc = 1; std::cout << "violated in scenario '" << scn << "' after the executions before it: " << best.what << "\n"; }
        else { rc = 2; std::cout << "a difference in scenario '" << scn << "' was not reproduced by its replay (" << r1 << "," << r2 << "): " << best.what << "\n"; }
    }
    else if (error) { std::cout << "error: " << errtext << "\n"; rc = 2; }

    std::ofstream o(a["--out"]);
    o << "{\"states\":" << hashes.size() << ",\"transitions\":" << transitions + steps << ",\"executions\":" << executions
      << ",\"evaluations\":" << evaluations << ",\"wall\":" << wall << ",\"scenarios\":{";
    bool first = true;
    for (std::size_t i = 0; i < per.size(); ++i)
    {
        if (scenarios()[i].thorough_only && !ctx().thorough) continue;
        o << (first ? "" : ",") << "\"" << json_escape(scenarios()[i].name) << "\":" << per[i]; first = false;
    }
    o << "},\"known\":["; first = true;
    for (auto& k : known) { o << (first ? "" : ",") << "\"" << json_escape(k) << "\""; first = false; }
    o << "],\"samples\":["; first = true;
    for (auto& k : samples) { o << (first ? "" : ",") << k; first = false; }
    o << "],\"violation\":\"" << (best.violated ? best.what : "") << "\"}\n";
    for (auto& k : known) std::cout << "KNOWN-FINDING: property=" << property() << " " << k << ": " << known_findings()[k] << "\n";
    std::cout.flush();
    return rc;
}

} // namespace mc

int main(int argc, char** argv) { return mc::main_(argc, argv); }

#endif
