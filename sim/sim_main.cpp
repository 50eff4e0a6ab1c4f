// Run loop, isolation, minimiser and replay.
#include "sim.hpp"

#include <cstdarg>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <set>
#include <unordered_set>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" const char* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:handle_abort=0:allocator_may_return_"
           "null=0:hard_rss_limit_mb=4000:malloc_context_size=12:detect_stack_"
           "use_after_return=0:abort_on_error=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=77:print_stacktrace=1";
}

namespace sim {

Run g_run;
const char* g_prop = "";
bool g_thorough    = false;
std::map<std::string, std::uint64_t> g_faults, g_probes, g_known;
void (*g_before_run)() = nullptr;
void (*g_after_run)()  = nullptr;

std::vector<Scenario>& Scenario::all()
{
    static std::vector<Scenario> v;
    return v;
}

// ---------------------------------------------------------------- shared ---
enum Status : int
{
    st_running = 0,
    st_ok,
    st_violation,
    st_crash,
    st_hang,
    st_harness
};

constexpr std::size_t max_tape = 1 << 20;

struct Shared
{
    volatile int status;
    volatile std::uint64_t run;
    char cls[256];
    char msg[4096];
    std::uint64_t hash;
    std::uint64_t nevents;
    std::uint32_t len[2];
    std::uint32_t nspans;
    std::uint32_t spans[65536][2];
    std::uint32_t tape[2][max_tape];
    // what a run isolated in its own process leaves for the statistics
    bool nontrivial;
    std::uint64_t sched_hash, steps, sim_time_us;
    char stats[65536], sample[2048];
};
bool g_fork_each = false; // every run in a process of its own
static Shared* sh          = nullptr;
static bool g_keep_trace   = false;
static void write_stats_now();

static void set_cls(const char* kind, const std::string& s)
{
    std::snprintf(sh->cls, sizeof(sh->cls), "%s:%s", kind, s.c_str());
}

static void publish(int status)
{
    sh->hash    = g_run.hash;
    sh->nevents = g_run.nevents;
    sh->status  = status;
}

std::string fmt(const char* f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

static void print_trace()
{
    auto& t = g_run.trace;
    for (auto& e : t)
        std::printf("  %-28s %lld %lld %lld\n", e.tag, e.a, e.b, e.c);
}

std::uint32_t choose(std::uint32_t n, Stream s)
{
    if (n <= 1)
        return 0;
    auto& r = g_run;
    std::uint32_t v;
    if (r.replay) {
        v = r.pos[s] < r.in[s].size() ? r.in[s][r.pos[s]] % n : 0;
    } else {
        v = r.rng.below(n);
    }
    if (r.pos[s] < max_tape) {
        sh->tape[s][r.pos[s]] = v;
        sh->len[s]            = r.pos[s] + 1;
    }
    r.pos[s]++;
    return v;
}

Span::Span()
    : from{g_run.pos[MAIN]}
{}
Span::~Span()
{
    if (sh->nspans < 65536) {
        sh->spans[sh->nspans][0] = from;
        sh->spans[sh->nspans][1] = g_run.pos[MAIN];
        sh->nspans++;
    }
}

static void hash_in(std::uint64_t& h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

// the kernel's own allocations neither fail nor count (see alloc.cpp)
int g_in_kernel = 0;
struct InKernel
{
    InKernel() { ++g_in_kernel; }
    ~InKernel() { --g_in_kernel; }
};

void ev(const char* tag, long long a, long long b, long long c)
{
    InKernel k;
    auto& r = g_run;
    r.nevents++;
    std::uint64_t th = 1469598103934665603ull;
    for (auto p = tag; *p; ++p)
        th = (th ^ (unsigned char) *p) * 1099511628211ull;
    hash_in(r.hash, th);
    hash_in(r.hash, a);
    hash_in(r.hash, b);
    hash_in(r.hash, c);
    if (g_keep_trace) {
        if (r.trace.size() < 20000)
            r.trace.push_back({tag, a, b, c});
        static bool live = std::getenv("SIM_LIVE") != nullptr;
        if (live)
            std::fprintf(stderr, "  %-28s %lld %lld %lld\n", tag, a, b, c);
    }
}

void ev_text(const char* tag, std::string_view text)
{
    std::uint64_t th = 1469598103934665603ull;
    for (auto ch : text)
        th = (th ^ (unsigned char) ch) * 1099511628211ull;
    ev(tag, (long long) th, (long long) text.size());
    static bool live = std::getenv("SIM_LIVE") != nullptr;
    if (g_keep_trace && live)
        std::fprintf(stderr, "    | %.*s\n", (int) text.size(), text.data());
}

void fault(const char* kind)
{
    InKernel k;
    g_faults[kind]++;
    ev(kind, -1);
}
void probe(const char* name)
{
    InKernel k;
    g_probes[name]++;
}
void known(const char* id)
{
    InKernel k;
    static std::string listed = [] {
        auto e = std::getenv("SIM_KNOWN");
        return "," + std::string(e ? e : "") + ",";
    }();
    if (listed.find("," + std::string(id) + ",") == std::string::npos)
        violation(id, "a finding that known_findings.txt does not list");
    g_known[id]++;
}
void nontrivial() { g_run.nontrivial = true; }

bool active_any(std::initializer_list<const char*> props)
{
    for (auto p : props)
        if (active(p))
            return true;
    return false;
}

void violation(const char* oracle, const std::string& msg)
{
    set_cls("oracle", oracle);
    std::snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    publish(st_violation);
    if (g_keep_trace) {
        print_trace();
        std::printf("  ** violated: %s\n  ** %s\n", oracle, msg.c_str());
        std::fflush(stdout);
    }
    write_stats_now();
    _exit(1);
}

void harness_error(const std::string& msg)
{
    set_cls("harness", msg);
    std::snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    publish(st_harness);
    std::fprintf(stderr, "harness error: %s\n", msg.c_str());
    _exit(2);
}

static void on_death()
{
    if (sh && sh->status == st_running) {
        const char* d =
            __asan_get_report_description ? __asan_get_report_description() : 0;
        set_cls("sanitizer", d && *d ? d : "undefined-behaviour");
        std::snprintf(sh->msg, sizeof sh->msg, "sanitizer report: %s", d ? d : "");
        publish(st_crash);
    }
}

static void on_alarm(int)
{
    if (sh && sh->status == st_running) {
        std::strcpy(sh->cls, "hang:no progress within the watchdog");
        std::strcpy(sh->msg, "the run did not finish (blocked or looping)");
        sh->status = st_hang;
    }
    _exit(3);
}

static void arm_watchdog(int secs)
{
    struct itimerval it = {};
    it.it_value.tv_sec  = secs;
    setitimer(ITIMER_REAL, &it, nullptr);
}

static void begin_run(std::uint64_t idx)
{
    g_run.tape[0].clear();
    g_run.pos[0]        = g_run.pos[1] = 0;
    g_run.hash          = 0x1234567;
    g_run.sched_hash    = 0x7654321;
    g_run.trace.clear();
    g_run.nevents     = 0;
    g_run.nontrivial  = false;
    g_run.sim_time_us = 0;
    g_run.steps       = 0;
    sh->run           = idx;
    sh->len[0] = sh->len[1] = 0;
    sh->nspans              = 0;
    sh->cls[0] = sh->msg[0] = 0;
    sh->status              = st_running;
}

static void exec(const Scenario& sc)
{
    if (g_before_run)
        g_before_run();
    try {
        sc.fn();
    } catch (const std::exception& e) {
        violation("no unexpected exception escapes",
                  fmt("uncaught exception in scenario %s: %s", sc.name, e.what()));
    } catch (...) {
        violation("no unexpected exception escapes",
                  fmt("uncaught non-std exception in scenario %s", sc.name));
    }
    if (g_after_run)
        g_after_run();
    publish(st_ok);
}

// ----------------------------------------------------------------- stats ---
static std::string opt_out, opt_hashes;
static std::uint64_t st_runs, st_nontriv, st_steps, st_events, st_time;
static std::unordered_set<std::uint64_t> st_hashes, st_sched;
static double st_t0;
static std::string st_sample;

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32 || c > 126)
            o += fmt("\\u%04x", c);
        else
            o += c;
    }
    return o + "\"";
}

static std::string json_map(const std::map<std::string, std::uint64_t>& m)
{
    std::string o = "{";
    bool first    = true;
    for (auto& [k, v] : m) {
        if (!first)
            o += ",";
        first = false;
        o += json_str(k) + ":" + std::to_string(v);
    }
    return o + "}";
}

static void write_stats_now()
{
    if (opt_out.empty())
        return;
    FILE* f = std::fopen(opt_out.c_str(), "w");
    if (!f)
        return;
    std::fprintf(
        f,
        "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"events\":%llu,"
        "\"sim_time_us\":%llu,\"wall\":%.3f,\"faults\":%s,\"probes\":%s,"
        "\"known\":%s,\"sample\":%s}\n",
        (unsigned long long) st_runs,
        (unsigned long long) st_nontriv,
        (unsigned long long) st_steps,
        (unsigned long long) st_events,
        (unsigned long long) st_time,
        now() - st_t0,
        json_map(g_faults).c_str(),
        json_map(g_probes).c_str(),
        json_map(g_known).c_str(),
        json_str(st_sample).c_str());
    std::fclose(f);
    f = std::fopen(opt_hashes.c_str(), "wb");
    if (!f)
        return;
    std::uint64_t n = st_hashes.size();
    std::fwrite(&n, 8, 1, f);
    for (auto h : st_hashes)
        std::fwrite(&h, 8, 1, f);
    n = st_sched.size();
    std::fwrite(&n, 8, 1, f);
    for (auto h : st_sched)
        std::fwrite(&h, 8, 1, f);
    std::fclose(f);
}

static std::uint64_t seed_of(std::uint64_t master,
                             const char* scen,
                             std::uint64_t idx)
{
    std::uint64_t h = master * 0x9e3779b97f4a7c15ull + 0x51ed27;
    for (auto p = scen; *p; ++p)
        h = (h ^ (unsigned char) *p) * 1099511628211ull;
    hash_in(h, idx);
    return h;
}

static const Scenario* find(const std::string& n)
{
    for (auto& s : Scenario::all())
        if (n == s.name)
            return &s;
    return nullptr;
}

static std::string sample_of_trace()
{
    std::string s;
    for (auto& e : g_run.trace) {
        if (s.size() > 1500)
            break;
        s += fmt("%s(%lld,%lld,%lld) ", e.tag, e.a, e.b, e.c);
    }
    return s;
}

// Runs one seed; when g_fork_each, in a process of its own, so that nothing
// (first-use initialisation, recycled memory) carries over between runs.
// Returns false after a run that did not end well, with its wait status.
static bool run_seed(const Scenario& sc, std::uint64_t seed, std::uint64_t i, bool keep, int& wst, bool print = false)
{
    begin_run(i);
    g_run.replay = false;
    if (!g_fork_each) {
        arm_watchdog(30);
        g_run.rng.reseed(seed);
        g_keep_trace = keep;
        exec(sc);
        if (print)
            print_trace();
        return true;
    }
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        arm_watchdog(30);
        opt_out.clear();
        g_faults.clear();
        g_probes.clear();
        g_known.clear();
        g_run.rng.reseed(seed);
        g_keep_trace = keep;
        exec(sc);
        sh->nontrivial  = g_run.nontrivial;
        sh->sched_hash  = g_run.sched_hash;
        sh->steps       = g_run.steps;
        sh->sim_time_us = g_run.sim_time_us;
        std::string t;
        for (auto [c, m] : {std::pair{'f', &g_faults}, {'p', &g_probes}, {'k', &g_known}})
            for (auto& [k, v] : *m)
                t += c + k + "\n" + std::to_string(v) + "\n";
        std::snprintf(sh->stats, sizeof(sh->stats), "%s", t.c_str());
        std::snprintf(sh->sample, sizeof(sh->sample), "%s", sample_of_trace().c_str());
        if (print)
            print_trace();
        std::fflush(stdout);
        _exit(0);
    }
    waitpid(pid, &wst, 0);
    if (wst != 0 || sh->status != st_ok)
        return false;
    g_run.hash        = sh->hash;
    g_run.nevents     = sh->nevents;
    g_run.nontrivial  = sh->nontrivial;
    g_run.sched_hash  = sh->sched_hash;
    g_run.steps       = sh->steps;
    g_run.sim_time_us = sh->sim_time_us;
    for (char* c = sh->stats; *c;) {
        char* k = c + 1;
        char* e = strchr(k, '\n');
        char* z = strchr(e + 1, '\n');
        auto& m = *c == 'f' ? g_faults : *c == 'p' ? g_probes : g_known;
        m[std::string(k, e)] += strtoull(e + 1, nullptr, 10);
        c = z + 1;
    }
    return true;
}

struct Verdict
{
    int status = st_running;
    std::string cls, msg;
    std::uint64_t hash = 0;
    std::vector<std::uint32_t> tape[2];
    std::vector<std::pair<std::uint32_t, std::uint32_t>> spans;
};

static Verdict collect(int wst)
{
    Verdict v;
    v.status = sh->status;
    v.cls    = sh->cls;
    v.msg    = sh->msg;
    v.hash   = sh->hash;
    if (v.status == st_running || (v.status == st_ok && wst != 0)) {
        v.status = st_crash;
        if (WIFSIGNALED(wst))
            v.cls = fmt("signal:%d", WTERMSIG(wst));
        else
            v.cls = fmt("exit:%d", WEXITSTATUS(wst));
        v.msg = "the process died while running the code under test";
        v.hash = 0;
    }
    if (v.status == st_crash || v.status == st_hang)
        v.hash = 0;
    for (int s = 0; s < 2; ++s)
        v.tape[s].assign(sh->tape[s], sh->tape[s] + std::min<std::size_t>(sh->len[s], max_tape));
    for (unsigned i = 0; i < sh->nspans; ++i)
        v.spans.push_back({sh->spans[i][0], sh->spans[i][1]});
    return v;
}

// One isolated run.  If `in` is null the run is generated from its seed.
static Verdict isolated(const Scenario& sc,
                        std::uint64_t seed,
                        std::uint64_t idx,
                        const std::vector<std::uint32_t>* in,
                        int watchdog,
                        bool quiet)
{
    std::fflush(stdout);
    std::fflush(stderr);
    begin_run(idx);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (quiet) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
        }
        arm_watchdog(watchdog);
        g_run.replay = in != nullptr;
        if (in) {
            g_run.in[0] = in[0];
            g_run.in[1] = in[1];
        } else
            g_run.rng.reseed(seed);
        exec(sc);
        if (g_keep_trace && !quiet)
            print_trace();
        std::fflush(stdout);
        _exit(0);
    }
    int wst = 0;
    waitpid(pid, &wst, 0);
    return collect(wst);
}

static void save_replay(const std::string& path,
                        const Scenario& sc,
                        std::uint64_t master,
                        std::uint64_t idx,
                        const Verdict& v)
{
    FILE* f = std::fopen(path.c_str(), "w");
    if (!f) {
        std::perror("replay");
        _exit(2);
    }
    std::fprintf(f, "lager-sim-replay 1\n");
    std::fprintf(f, "prop %s\nscenario %s\nmaster %llu\nrun %llu\ntier %s\n",
                 g_prop, sc.name, (unsigned long long) master,
                 (unsigned long long) idx, g_thorough ? "thorough" : "quick");
    std::fprintf(f, "class %s\n", v.cls.c_str());
    std::fprintf(f, "hash %016llx\n", (unsigned long long) v.hash);
    for (int s = 0; s < 2; ++s) {
        std::fprintf(f, "tape%d %zu", s, v.tape[s].size());
        for (auto x : v.tape[s])
            std::fprintf(f, " %u", x);
        std::fprintf(f, "\n");
    }
    std::string m = v.msg;
    for (auto& c : m)
        if (c == '\n')
            c = ' ';
    std::fprintf(f, "msg %s\n", m.c_str());
    std::fclose(f);
}

static int minimise(const Scenario& sc,
                    std::uint64_t master,
                    std::uint64_t idx,
                    const std::string& out,
                    double budget)
{
    auto seed = seed_of(master, sc.name, idx);
    auto a    = isolated(sc, seed, idx, nullptr, 30, true);
    if (a.status == st_ok || a.status == st_harness) {
        std::printf("NOREPRO status=%d %s\n", a.status, a.cls.c_str());
        return 2;
    }
    auto b = isolated(sc, seed, idx, nullptr, 30, true);
    if (b.cls != a.cls || b.hash != a.hash) {
        std::printf("NONDETERMINISTIC %s/%s %llx/%llx\n", a.cls.c_str(),
                    b.cls.c_str(), (unsigned long long) a.hash,
                    (unsigned long long) b.hash);
        return 2;
    }
    auto best     = a;
    double t0     = now();
    int tried     = 0;
    int wd        = a.status == st_hang ? 4 : 15;
    auto try_tape = [&](std::vector<std::uint32_t> m,
                        std::vector<std::uint32_t> s) -> bool {
        if (now() - t0 > budget)
            return false;
        ++tried;
        std::vector<std::uint32_t> in[2] = {std::move(m), std::move(s)};
        auto v = isolated(sc, seed, idx, in, wd, true);
        if (v.status != a.status || v.cls != a.cls)
            return false;
        // strictly simpler: shorter, or lexicographically smaller
        auto key = [](const Verdict& x) {
            unsigned long long sum = 0;
            for (int s = 0; s < 2; ++s)
                for (auto y : x.tape[s])
                    sum += y;
            return std::make_tuple(x.tape[0].size() + x.tape[1].size(), sum);
        };
        if (key(v) < key(best)) {
            best = std::move(v);
            return true;
        }
        return false;
    };
    // 1. try dropping the schedule altogether
    try_tape(best.tape[0], {});
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        // 2. drop whole operations (spans), last first
        for (int i = (int) best.spans.size() - 1; i >= 0; --i) {
            if (i >= (int) best.spans.size())
                continue;
            auto [f, t] = best.spans[i];
            if (t <= f || t > best.tape[0].size())
                continue;
            auto m = best.tape[0];
            // the loop flag (`more`) drawn just before the span goes with it
            if (f > 0) {
                auto m2 = m;
                m2.erase(m2.begin() + f - 1, m2.begin() + t);
                if (try_tape(m2, best.tape[1])) {
                    progress = true;
                    continue;
                }
            }
            m.erase(m.begin() + f, m.begin() + t);
            if (try_tape(m, best.tape[1]))
                progress = true;
        }
        // 3. chunk deletion and zeroing in both streams
        for (int s = 0; s < 2; ++s) {
            for (std::size_t w = 64; w >= 1; w /= 2) {
                for (std::size_t p = best.tape[s].size(); p > 0;) {
                    p = p > w ? p - w : 0;
                    if (p >= best.tape[s].size())
                        continue;
                    auto c = best.tape[s];
                    auto e = std::min(c.size(), p + w);
                    c.erase(c.begin() + p, c.begin() + e);
                    if (s == 0 ? try_tape(c, best.tape[1])
                               : try_tape(best.tape[0], c)) {
                        progress = true;
                        continue;
                    }
                    c = best.tape[s];
                    e = std::min(c.size(), p + w);
                    bool any = false;
                    for (auto i = p; i < e; ++i)
                        any |= c[i] != 0, c[i] = 0;
                    if (any && (s == 0 ? try_tape(c, best.tape[1])
                                       : try_tape(best.tape[0], c)))
                        progress = true;
                    if (now() - t0 > budget)
                        break;
                }
            }
        }
        // 4. lower single values
        for (int s = 0; s < 2; ++s)
            for (std::size_t p = 0; p < best.tape[s].size(); ++p) {
                for (int k = 0; k < 8; ++k) {
                    if (p >= best.tape[s].size() || best.tape[s][p] == 0)
                        break;
                    auto c = best.tape[s];
                    c[p]   = k % 2 ? c[p] - 1 : c[p] / 2;
                    if (s == 0 ? try_tape(c, best.tape[1])
                               : try_tape(best.tape[0], c))
                        progress = true;
                    else if (k % 2)
                        break;
                }
                if (now() - t0 > budget)
                    break;
            }
    }
    // trailing zeros are what an exhausted tape answers anyway
    for (auto& t : best.tape)
        while (!t.empty() && t.back() == 0)
            t.pop_back();
    save_replay(out, sc, master, idx, best);
    std::printf("MINIMISED tape=%zu+%zu (was %zu+%zu) candidates=%d class=%s\n",
                best.tape[0].size(), best.tape[1].size(), a.tape[0].size(),
                a.tape[1].size(), tried, best.cls.c_str());
    std::printf("MSG %s\n", best.msg.c_str());
    return 0;
}

static int replay_file(const std::string& path)
{
    FILE* f = std::fopen(path.c_str(), "r");
    if (!f) {
        std::perror(path.c_str());
        return 2;
    }
    std::string cls, scen, prop;
    unsigned long long hash = 0, master = 0, run = 0;
    std::vector<std::uint32_t> in[2];
    char word[64];
    while (std::fscanf(f, "%63s", word) == 1) {
        std::string w = word;
        auto rest     = [&] {
            std::string s;
            int c = std::fgetc(f);
            while ((c = std::fgetc(f)) != EOF && c != '\n')
                s += (char) c;
            return s;
        };
        if (w == "prop")
            prop = rest();
        else if (w == "scenario")
            scen = rest();
        else if (w == "class")
            cls = rest();
        else if (w == "tier")
            g_thorough = rest() == "thorough";
        else if (w == "hash")
            (void) !std::fscanf(f, "%llx", &hash);
        else if (w == "master")
            (void) !std::fscanf(f, "%llu", &master);
        else if (w == "run")
            (void) !std::fscanf(f, "%llu", &run);
        else if (w == "tape0" || w == "tape1") {
            std::size_t n = 0;
            (void) !std::fscanf(f, "%zu", &n);
            auto& t = in[w[4] - '0'];
            for (std::size_t i = 0; i < n; ++i) {
                unsigned x = 0;
                (void) !std::fscanf(f, "%u", &x);
                t.push_back(x);
            }
        } else
            rest();
    }
    std::fclose(f);
    g_prop   = strdup(prop.c_str());
    auto* sc = find(scen);
    if (!sc) {
        std::fprintf(stderr, "no scenario %s here\n", scen.c_str());
        return 2;
    }
    g_keep_trace = true;
    std::printf("replaying %s: property %s, scenario %s, run %llu of seed %llu\n",
                path.c_str(), prop.c_str(), scen.c_str(), run, master);
    auto v = isolated(*sc, 0, run, in, 30, false);
    std::printf("RESULT status=%d class=%s hash=%016llx\n", v.status,
                v.cls.c_str(), (unsigned long long) v.hash);
    if (v.status == st_ok) {
        std::printf("NOT REPRODUCED\n");
        return 0;
    }
    if (v.cls == cls && v.hash == hash) {
        std::printf("REPRODUCED %s\n", v.msg.c_str());
        return 1;
    }
    std::printf("DIFFERENT (expected class=%s hash=%016llx)\n", cls.c_str(), hash);
    return 2;
}

static int search(const Scenario& sc,
                  std::uint64_t master,
                  std::uint64_t from,
                  std::uint64_t step,
                  std::uint64_t max,
                  double secs)
{
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        st_t0 = now();
        for (std::uint64_t k = 0, i = from; k < max; ++k, i += step) {
            if (now() - st_t0 > secs)
                break;
            int wst = 0;
            if (!run_seed(sc, seed_of(master, sc.name, i), i, k < 1, wst)) {
                write_stats_now();
                if (WIFSIGNALED(wst))
                    kill(getpid(), WTERMSIG(wst));
                _exit(wst ? WEXITSTATUS(wst) : 1);
            }
            if (k < 1)
                st_sample = g_fork_each ? std::string(sh->sample) : sample_of_trace();
            st_runs++;
            st_steps += g_run.steps;
            st_events += g_run.nevents;
            st_time += g_run.sim_time_us;
            if (g_run.nontrivial) {
                st_nontriv++;
                if (st_hashes.size() < 4000000)
                    st_hashes.insert(g_run.hash);
                if (st_sched.size() < 4000000)
                    st_sched.insert(g_run.sched_hash);
            }
        }
        arm_watchdog(0);
        write_stats_now();
        _exit(0);
    }
    int wst = 0;
    waitpid(pid, &wst, 0);
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && sh->status == st_ok)
        return 0;
    auto v = collect(wst);
    std::printf("FOUND run=%llu status=%d class=%s msg=%s\n",
                (unsigned long long) sh->run, v.status, v.cls.c_str(),
                v.msg.c_str());
    return v.status == st_harness ? 2 : 1;
}

static int hashes(const Scenario& sc,
                  std::uint64_t master,
                  std::uint64_t from,
                  std::uint64_t step,
                  std::uint64_t n)
{
    // event-log hash of each run, for determinism diffs across processes
    auto dump = std::getenv("SIM_DUMP"); // print this run's event log
    pid_t pid = fork();
    if (pid == 0) {
        for (std::uint64_t k = 0, i = from; k < n; ++k, i += step) {
            bool d  = dump && std::strtoull(dump, nullptr, 10) == i;
            int wst = 0;
            if (!run_seed(sc, seed_of(master, sc.name, i), i, d, wst, d))
                _exit(2);
            std::printf("%llu %016llx %016llx %llu\n", (unsigned long long) i,
                        (unsigned long long) g_run.hash,
                        (unsigned long long) g_run.sched_hash,
                        (unsigned long long) g_run.nevents);
        }
        std::fflush(stdout);
        _exit(0);
    }
    int wst = 0;
    waitpid(pid, &wst, 0);
    return wst == 0 ? 0 : 2;
}

} // namespace sim

extern "C" void* sim_dummy_thread(void*) { return nullptr; }

int main(int argc, char** argv)
{
    using namespace sim;
    // no address randomisation: addresses must not differ between runs
    if (!std::getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        auto p = personality(0xffffffff);
        if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> rest;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0 && i + 1 < argc)
            o[a.substr(2)] = argv[++i];
        else
            rest.push_back(a);
    }
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    auto num = [&](const char* k, unsigned long long d) {
        return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d;
    };
    if (o.count("prop"))
        g_prop = strdup(o["prop"].c_str());
    g_thorough = o["tier"] == "thorough";
    if (mode == "replay" && !rest.empty())
        return replay_file(rest[0]);
    if (mode == "list") {
        for (auto& s : Scenario::all())
            std::printf("%s\n", s.name);
        return 0;
    }
    auto* sc = find(o["scenario"]);
    if (!sc) {
        std::fprintf(stderr, "usage: %s search|min|one|hashes|replay|list ...\n", argv[0]);
        return 2;
    }
    auto master = num("seed", 1);
    if (mode == "search") {
        opt_out    = o["out"];
        opt_hashes = o["hashes"];
        return search(*sc, master, num("from", 0), num("step", 1),
                      num("max", ~0ull), std::strtod(o["time"].c_str(), nullptr));
    }
    if (mode == "min")
        return minimise(*sc, master, num("run", 0), o["out"],
                        o.count("budget") ? std::strtod(o["budget"].c_str(), 0) : 40);
    if (mode == "one") {
        g_keep_trace = true;
        auto v = isolated(*sc, seed_of(master, sc->name, num("run", 0)),
                          num("run", 0), nullptr, 60, false);
        std::printf("RESULT status=%d class=%s hash=%016llx msg=%s tape=%zu+%zu\n",
                    v.status, v.cls.c_str(), (unsigned long long) v.hash,
                    v.msg.c_str(), v.tape[0].size(), v.tape[1].size());
        return v.status == st_ok ? 0 : v.status == st_harness ? 2 : 1;
    }
    if (mode == "hashes")
        return hashes(*sc, master, num("from", 0), num("step", 1), num("max", 10));
    return 2;
}
