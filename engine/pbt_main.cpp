// pbt_main.cpp - driver: forks workers that run random cases, turns a failing,
// crashing or hanging case into a shrunk replay file, and reports coverage.
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <unordered_set>

#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using clk = std::chrono::steady_clock;

static double since(clk::time_point t)
{
    return std::chrono::duration<double>(clk::now() - t).count();
}

static constexpr std::size_t max_hashes = 1 << 19;
static constexpr std::size_t max_labels = 256;
static constexpr std::size_t max_saved  = 6;

struct label_count
{
    char name[56];
    std::uint64_t n;
};

struct worker_shared
{
    shared_case c;
    std::atomic<std::uint64_t> beat; // bumps on every case start and end
    std::uint64_t done;              // cases finished
    std::uint64_t discarded;
    std::uint64_t first; // first index run by this worker
    std::uint64_t per_target[64];
    std::uint64_t nontrivial_n;
    std::uint64_t n_hashes;
    std::uint64_t hashes[max_hashes];
    std::uint64_t choices_total;
    std::uint64_t n_labels;
    label_count labels[max_labels];
    std::uint64_t n_saved;
    struct
    {
        std::uint32_t target, n;
        std::uint32_t choices[4096];
    } saved[max_saved];
    std::uint32_t finished;
};

static void* shared_alloc(std::size_t n)
{
    auto p = mmap(nullptr,
                  n,
                  PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                  -1,
                  0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    return p;
}

static std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static std::uint64_t hash_str(const char* s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (; *s; ++s)
        h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
    return h;
}

static std::uint64_t hash_case(const shared_case& c)
{
    std::uint64_t h = mix(c.target + 77);
    for (std::uint32_t i = 0; i < c.n; ++i)
        h = mix(h ^ c.choices[i]);
    return h;
}

static unsigned case_timeout()
{
    auto e = std::getenv("PBT_CASE_TIMEOUT");
    return e ? static_cast<unsigned>(std::atoi(e)) : 40;
}

static int g_only_target = -1;

static std::uint32_t target_of(std::uint64_t index)
{
    if (g_only_target >= 0)
        return static_cast<std::uint32_t>(g_only_target);
    std::uint64_t total = 0;
    for (auto& t : targets())
        total += t.weight;
    auto r = mix(index) % total;
    for (std::uint32_t i = 0; i < targets().size(); ++i) {
        if (r < targets()[i].weight)
            return i;
        r -= targets()[i].weight;
    }
    return 0;
}

enum class outcome
{
    ok,
    discard,
    fail
};

// runs the body; exceptions that are not ours are failures too
static outcome run_body(Case& c, shared_case& sh, std::uint32_t target)
{
    sh.target = target;
    try {
        targets()[target].fn(c);
    } catch (const discarded&) {
        if (!sh.failed)
            return outcome::discard;
    } catch (const failure& e) {
        c.note_failure(e.what());
    } catch (const std::exception& e) {
        c.note_failure(std::string{"unexpected exception: "} + e.what());
    } catch (...) {
        c.note_failure("unexpected exception of unknown type");
    }
    return sh.failed ? outcome::fail : outcome::ok;
}

// --- one case in a child process --------------------------------------------

struct result
{
    bool failing = false;
    bool discard = false;
    std::string message;
    std::string trace;
    std::vector<std::uint32_t> choices;
    bool nontrivial = false;
};

// one for each of the processes that try a case at the same time
static constexpr unsigned max_tries = 8;
static shared_case& scratch(unsigned i)
{
    static shared_case* p[max_tries] = {};
    if (!p[i])
        p[i] = static_cast<shared_case*>(shared_alloc(sizeof(shared_case)));
    return *p[i];
}

static std::string describe_status(int st)
{
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGALRM)
            return "case did not terminate (hang)";
        return std::string{"case was killed by signal "} +
               strsignal(WTERMSIG(st));
    }
    return "case ended the process with exit code " +
           std::to_string(WEXITSTATUS(st));
}

static void clear(shared_case& sh)
{
    sh.n          = 0;
    sh.failed     = 0;
    sh.nontrivial = 0;
    sh.trace_n    = 0;
    sh.trace[0]   = 0;
    sh.message[0] = 0;
}

// runs the case in a child, up to `loops` times, until it fails
static pid_t start_isolated(unsigned slot,
                            std::uint32_t target,
                            const std::vector<std::uint32_t>& choices,
                            bool tracing,
                            bool quiet,
                            unsigned loops,
                            std::atomic<int>* stop)
{
    auto& sh = scratch(slot);
    clear(sh);
    std::fflush(nullptr);
    auto pid = fork();
    if (pid == 0) {
        if (quiet) {
            (void) !freopen("/dev/null", "w", stdout);
            (void) !freopen("/dev/null", "w", stderr);
        }
        auto begin = clk::now();
        auto r     = outcome::ok;
        for (unsigned i = 0; i < std::max(1u, loops); ++i) {
            alarm(case_timeout());
            clear(sh);
            Case c{sh, choices};
            c.tracing = tracing;
            r         = run_body(c, sh, target);
            if (r == outcome::fail || since(begin) > 6 || (stop && *stop))
                break;
        }
        if (r == outcome::fail && stop)
            *stop = 1;
        std::fflush(nullptr);
        _exit(r == outcome::fail ? 101 : r == outcome::discard ? 102 : 0);
    }
    return pid;
}

static result collect(unsigned slot, pid_t pid)
{
    auto& sh = scratch(slot);
    int st   = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    result r;
    r.choices.assign(sh.choices, sh.choices + std::min<std::size_t>(
                                                  sh.n, max_choices));
    r.trace      = sh.trace;
    r.nontrivial = sh.nontrivial;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 102) {
        r.discard = true;
        return r;
    }
    r.failing = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 101)
        r.message = sh.message;
    else
        r.message = describe_status(st) +
                    (sh.message[0] ? std::string{"; "} + sh.message : "");
    return r;
}

static result run_isolated(std::uint32_t target,
                           const std::vector<std::uint32_t>& choices,
                           bool tracing,
                           bool quiet)
{
    return collect(
        0, start_isolated(0, target, choices, tracing, quiet, 1, nullptr));
}

// schedule-dependent targets get several attempts, in processes that compete
static result run_attempts(std::uint32_t target,
                           const std::vector<std::uint32_t>& cs,
                           bool tracing,
                           bool quiet,
                           unsigned attempts)
{
    if (attempts <= 1)
        return run_isolated(target, cs, tracing, quiet);
    static auto stop =
        static_cast<std::atomic<int>*>(shared_alloc(sizeof(std::atomic<int>)));
    *stop = 0;
    pid_t pids[max_tries];
    for (unsigned i = 0; i < max_tries; ++i)
        pids[i] = start_isolated(i, target, cs, tracing, quiet, attempts, stop);
    result r;
    for (unsigned i = 0; i < max_tries; ++i) {
        auto x = collect(i, pids[i]);
        if (i == 0 || (x.failing && !r.failing))
            r = x;
    }
    return r;
}

// --- shrinking ---------------------------------------------------------------

static bool simpler(const std::vector<std::uint32_t>& a,
                    const std::vector<std::uint32_t>& b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

static std::vector<std::uint32_t> shrink(std::uint32_t target,
                                         std::vector<std::uint32_t> best,
                                         unsigned attempts,
                                         double budget_s,
                                         unsigned& executions)
{
    auto start = clk::now();
    std::set<std::vector<std::uint32_t>> seen;
    auto try_ = [&](std::vector<std::uint32_t> cand) {
        while (!cand.empty() && cand.back() == 0)
            cand.pop_back();
        if (!simpler(cand, best) || since(start) > budget_s ||
            !seen.insert(cand).second)
            return false;
        ++executions;
        auto r = run_attempts(target, cand, false, true, attempts);
        if (!r.failing)
            return false;
        auto used = r.choices;
        while (!used.empty() && used.back() == 0)
            used.pop_back();
        best = (!used.empty() && simpler(used, cand)) ? used : cand;
        return true;
    };
    bool progress = true;
    while (progress && since(start) < budget_s) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1);
             len >= 1;
             len /= 2) {
            for (std::size_t i = 0; i + len <= best.size();) {
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (try_(cand))
                    progress = true;
                else
                    i += len > 8 ? len / 2 : 1;
                if (since(start) > budget_s)
                    return best;
            }
        }
        for (std::size_t len = 8; len >= 1; len /= 2)
            for (std::size_t i = 0; i + len <= best.size(); i += len) {
                auto cand = best;
                std::fill(cand.begin() + i, cand.begin() + i + len, 0);
                progress |= try_(cand);
            }
        for (std::size_t i = 0; i < best.size(); ++i) {
            std::uint32_t lo = 0;
            while (i < best.size() && lo < best[i]) {
                auto mid  = lo + (best[i] - lo) / 2;
                auto cand = best;
                cand[i]   = mid;
                if (try_(cand))
                    progress = true;
                else
                    lo = mid + 1;
            }
            // lower a choice and delete one after it (length prefixes)
            if (i + 1 < best.size() && best[i] > 0) {
                auto cand = best;
                cand[i]--;
                cand.erase(cand.begin() + i + 1);
                progress |= try_(cand);
            }
        }
    }
    return best;
}

// --- replay files ------------------------------------------------------------

static void write_replay(const std::string& path,
                         std::uint32_t target,
                         const std::vector<std::uint32_t>& cs,
                         const std::string& message,
                         const std::string& trace)
{
    std::ofstream f{path};
    f << "target " << targets()[target].name << "\n";
    f << "choices";
    for (auto x : cs)
        f << " " << x;
    f << "\n";
    std::istringstream m{message};
    for (std::string l; std::getline(m, l);)
        f << "# " << l << "\n";
    std::istringstream t{trace};
    for (std::string l; std::getline(t, l);)
        f << "#   " << l << "\n";
}

static bool read_replay(const std::string& path,
                        std::uint32_t& target,
                        std::vector<std::uint32_t>& cs,
                        std::string& range)
{
    std::ifstream f{path};
    if (!f)
        return false;
    bool ok = false;
    for (std::string l; std::getline(f, l);) {
        std::istringstream is{l};
        std::string k;
        is >> k;
        if (k == "target") {
            std::string n;
            is >> n;
            for (std::uint32_t i = 0; i < targets().size(); ++i)
                if (targets()[i].name == n)
                    target = i, ok = true;
        } else if (k == "choices") {
            for (std::uint32_t x; is >> x;)
                cs.push_back(x);
        } else if (k == "range") {
            range = l.substr(6);
            ok    = true;
        }
    }
    return ok;
}

// --- json --------------------------------------------------------------------

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\')
            r += '\\', r += static_cast<char>(ch);
        else if (ch == '\n')
            r += "\\n";
        else if (ch == '\t')
            r += "\\t";
        else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else
            r += static_cast<char>(ch);
    }
    return r + "\"";
}

// --- workers -----------------------------------------------------------------

static void bump_label(worker_shared& w, const char* name)
{
    for (std::size_t i = 0; i < w.n_labels; ++i)
        if (std::strcmp(w.labels[i].name, name) == 0) {
            ++w.labels[i].n;
            return;
        }
    if (w.n_labels < max_labels) {
        auto& l = w.labels[w.n_labels++];
        std::snprintf(l.name, sizeof l.name, "%s", name);
        l.n = 1;
    }
}

static std::uint64_t case_seed(std::uint64_t seed,
                               std::uint32_t target,
                               std::uint64_t index)
{
    return mix(mix(seed) ^ mix(index * 2 + 1) ^ hash_str(targets()[target].name));
}

// returns false when the case failed
static bool
worker_step(worker_shared& w, std::uint64_t seed, std::uint64_t index)
{
    auto target = target_of(index);
    w.c.index   = index;
    w.c.running = 1;
    w.beat.fetch_add(1);
    Case c{w.c, case_seed(seed, target, index)};
    auto r      = run_body(c, w.c, target);
    w.c.running = 0;
    w.beat.fetch_add(1);
    if (r == outcome::fail)
        return false;
    if (r == outcome::discard) {
        ++w.discarded;
        return true;
    }
    ++w.done;
    ++w.per_target[target];
    w.choices_total += w.c.n;
    for (auto l : c.labels)
        bump_label(w, l);
    if (w.c.nontrivial) {
        ++w.nontrivial_n;
        if (w.n_hashes < max_hashes)
            w.hashes[w.n_hashes++] = hash_case(w.c);
        if (w.n_saved < max_saved && w.c.n < 4096 && w.done > 3 &&
            w.done % (7 * (1 + w.n_saved * w.n_saved * 20)) == 0) {
            auto& s  = w.saved[w.n_saved++];
            s.target = target;
            s.n      = w.c.n;
            std::memcpy(
                s.choices, w.c.choices, w.c.n * sizeof(std::uint32_t));
        }
    }
    return true;
}

static std::string arg(int argc, char** argv, const char* k, const char* def)
{
    for (int i = 2; i + 1 < argc; ++i)
        if (std::strcmp(argv[i], k) == 0)
            return argv[i + 1];
    return def;
}

static volatile sig_atomic_t g_stop = 0;

// run a contiguous range of one worker again in a fresh process: for failures
// that depend on what earlier cases left behind
static bool range_fails(std::uint64_t seed,
                        std::uint64_t first,
                        std::uint64_t stride,
                        std::uint64_t last)
{
    std::fflush(nullptr);
    auto w   = static_cast<worker_shared*>(shared_alloc(sizeof(worker_shared)));
    auto pid = fork();
    if (pid == 0) {
        (void) !freopen("/dev/null", "w", stdout);
        (void) !freopen("/dev/null", "w", stderr);
        alarm(300);
        for (auto i = first; i <= last; i += stride)
            if (!worker_step(*w, seed, i))
                _exit(101);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    munmap(w, sizeof(worker_shared));
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static int cmd_run(int argc, char** argv)
{
    auto seed    = std::stoull(arg(argc, argv, "--seed", "1"));
    auto cases   = std::stoull(arg(argc, argv, "--cases", "1000"));
    auto workers = std::stoul(arg(argc, argv, "--workers", "8"));
    auto tmax    = std::stod(arg(argc, argv, "--time", "600"));
    auto out     = arg(argc, argv, "--out", "");
    auto replay  = arg(argc, argv, "--replay", "failure.replay");
    auto shr     = std::stod(arg(argc, argv, "--shrink", "40"));
    auto only    = arg(argc, argv, "--target", "");
    auto start   = clk::now();
    for (std::size_t i = 0; i < targets().size(); ++i)
        if (targets()[i].name == only)
            g_only_target = static_cast<int>(i);
    if (targets().empty() || targets().size() > 64)
        return 2;

    std::vector<worker_shared*> ws;
    std::vector<pid_t> pids;
    std::vector<std::uint64_t> beats(workers, 0);
    std::vector<clk::time_point> beat_at(workers, clk::now());
    std::fflush(nullptr);
    auto start_worker = [&](unsigned long i, std::uint64_t from) {
        auto w   = ws[i];
        auto pid = fork();
        if (pid == 0) {
            std::signal(SIGTERM, [](int) { g_stop = 1; });
            w->first    = from;
            w->c.failed = 0;
            w->c.message[0] = 0;
            for (auto k = from; k < cases && !g_stop; k += workers)
                if (!worker_step(*w, seed, k))
                    _exit(101);
            w->finished = 1;
            std::fflush(nullptr);
            _exit(0);
        }
        return pid;
    };
    for (unsigned long i = 0; i < workers; ++i) {
        ws.push_back(
            static_cast<worker_shared*>(shared_alloc(sizeof(worker_shared))));
        pids.push_back(start_worker(i, i));
    }

    struct bad
    {
        unsigned long worker;
        std::uint64_t index;
        std::uint32_t target;
        std::vector<std::uint32_t> choices;
        std::string message;
        bool checked = false; // a check of the oracle failed
        std::uint64_t first = 0;
    };
    std::vector<bad> bads;
    bool stopping = false, timed_out = false;
    std::vector<bool> alive(workers, true);
    auto n_alive = workers;
    clk::time_point stop_at{};
    auto stop_all = [&] {
        if (!stopping) {
            stopping = true;
            stop_at  = clk::now();
            for (unsigned long i = 0; i < workers; ++i)
                if (alive[i])
                    kill(pids[i], SIGTERM);
        }
    };
    while (n_alive) {
        bool any = false;
        for (unsigned long i = 0; i < workers; ++i) {
            if (!alive[i])
                continue;
            int st = 0;
            auto r = waitpid(pids[i], &st, WNOHANG);
            if (r == pids[i]) {
                any      = true;
                alive[i] = false;
                --n_alive;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && ws[i]->finished)
                    continue;
                if (stopping && WIFSIGNALED(st) &&
                    (WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGKILL))
                    continue;
                bad b;
                b.worker = i;
                b.index  = ws[i]->c.index;
                b.target = ws[i]->c.target;
                b.choices.assign(
                    ws[i]->c.choices,
                    ws[i]->c.choices +
                        std::min<std::size_t>(ws[i]->c.n, max_choices));
                b.message = WIFEXITED(st) && WEXITSTATUS(st) == 101
                                ? std::string{ws[i]->c.message}
                                : describe_status(st) + "; " +
                                      ws[i]->c.message;
                b.checked = WIFEXITED(st) && WEXITSTATUS(st) == 101;
                b.first   = ws[i]->first;
                bads.push_back(b);
                // what depends on the schedule may not come back: look for more
                if (!stopping && b.checked &&
                    targets()[b.target].attempts > 1 && bads.size() < 3) {
                    pids[i]  = start_worker(i, b.index + workers);
                    alive[i] = true;
                    ++n_alive;
                    continue;
                }
                stop_all();
                continue;
            }
            auto beat = ws[i]->beat.load();
            if (beat != beats[i]) {
                beats[i]   = beat;
                beat_at[i] = clk::now();
            } else if (ws[i]->c.running &&
                       since(beat_at[i]) > case_timeout()) {
                // hang: take the case and kill the worker
                bad b;
                b.worker = i;
                b.index  = ws[i]->c.index;
                b.target = ws[i]->c.target;
                b.choices.assign(
                    ws[i]->c.choices,
                    ws[i]->c.choices +
                        std::min<std::size_t>(ws[i]->c.n, max_choices));
                b.message = "case did not terminate (hang)";
                b.first   = ws[i]->first;
                kill(pids[i], SIGKILL);
                while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {
                }
                alive[i] = false;
                --n_alive;
                bads.push_back(b);
                stop_all();
            }
        }
        if (!stopping && since(start) > tmax) {
            timed_out = true;
            stop_all();
        }
        if (stopping && since(stop_at) > case_timeout() + 5)
            for (unsigned long i = 0; i < workers; ++i)
                if (alive[i])
                    kill(pids[i], SIGKILL);
        if (!any)
            usleep(5000);
    }
    auto explore_s = since(start);

    // confirm and shrink
    std::sort(bads.begin(), bads.end(), [](auto& a, auto& b) {
        return a.index < b.index;
    });
    bool violation = false;
    std::string vmessage, vtrace, unreproduced;
    unsigned executions = 0;
    for (auto& b : bads) {
        auto att = targets()[b.target].attempts;
        std::fprintf(stderr,
                     "[pbt] target %s case %llu failed: %s\n",
                     targets()[b.target].name,
                     (unsigned long long) b.index,
                     b.message.c_str());
        // a crash can lose choices only drawn, never skip them, so the
        // recorded prefix (completed with zeros) is tried first, then the
        // case is re-run from its seed
        auto again = [&](const std::vector<std::uint32_t>& cs, int times) {
            for (int i = 0; i < times; ++i)
                if (!run_attempts(b.target, cs, false, true, att).failing)
                    return false;
            return true;
        };
        if (again(b.choices, 1)) {
            auto best = shrink(b.target, b.choices, att, shr, executions);
            if (!again(best, 3))
                best = b.choices;
            if (again(best, 3)) {
                auto r    = run_attempts(b.target, best, true, false, att);
                violation = true;
                vmessage  = r.message.empty() ? b.message : r.message;
                vtrace    = r.trace;
                write_replay(replay, b.target, best, vmessage, vtrace);
                break;
            }
        }
        // depends on earlier cases of the same worker?
        auto ok = true;
        for (int i = 0; i < 3 && ok; ++i)
            ok = range_fails(seed, b.first, workers, b.index);
        if (ok) {
            violation = true;
            vmessage  = b.message + " (only after the cases before it)";
            std::ofstream f{replay};
            f << "range " << seed << " " << b.first << " " << workers << " "
              << b.index << "\n";
            f << "# " << vmessage << "\n";
            break;
        }
        // seen again in another case of the same target
        auto times = 0;
        for (auto& o : bads)
            times += o.checked && o.target == b.target;
        if (b.checked && att > 1 && times > 1) {
            violation = true;
            vmessage  = b.message + " (and " + std::to_string(times - 1) +
                       " times more; depends on the schedule)";
            auto r = run_isolated(b.target, b.choices, true, true);
            vtrace = r.trace;
            write_replay(replay, b.target, b.choices, vmessage, vtrace);
            break;
        }
        unreproduced = std::string{targets()[b.target].name} + ": " + b.message;
        std::fprintf(stderr, "[pbt] not reproducible: %s\n", unreproduced.c_str());
    }

    // coverage report
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::uint64_t done = 0, disc = 0, nontriv = 0, choices = 0;
    std::vector<std::uint64_t> per(targets().size(), 0);
    for (auto w : ws) {
        done += w->done;
        disc += w->discarded;
        nontriv += w->nontrivial_n;
        choices += w->choices_total;
        for (std::size_t i = 0; i < per.size(); ++i)
            per[i] += w->per_target[i];
        for (std::size_t i = 0; i < w->n_hashes; ++i)
            distinct.insert(w->hashes[i]);
        for (std::size_t i = 0; i < w->n_labels; ++i)
            labels[w->labels[i].name] += w->labels[i].n;
    }
    std::vector<std::string> samples;
    if (!violation) {
        std::set<std::uint32_t> sampled;
        for (auto w : ws)
            for (std::size_t i = 0; i < w->n_saved && samples.size() < 6; ++i) {
                auto& s = w->saved[i];
                if (sampled.count(s.target) && samples.size() >= targets().size())
                    continue;
                if (sampled.count(s.target) && i == 0)
                    continue;
                sampled.insert(s.target);
                auto r = run_isolated(
                    s.target, {s.choices, s.choices + s.n}, true, true);
                auto t = r.trace.substr(0, 1200);
                if (!t.empty())
                    samples.push_back(std::string{targets()[s.target].name} +
                                      ": " + t);
            }
    }
    if (!out.empty()) {
        std::ofstream f{out};
        f << "{\n \"evaluations\": " << done
          << ",\n \"distinct_nontrivial\": " << distinct.size()
          << ",\n \"nontrivial\": " << nontriv << ",\n \"discarded\": " << disc
          << ",\n \"choices\": " << choices
          << ",\n \"explore_s\": " << explore_s
          << ",\n \"timed_out\": " << (timed_out ? "true" : "false")
          << ",\n \"shrink_executions\": " << executions
          << ",\n \"violation\": " << (violation ? "true" : "false")
          << ",\n \"message\": " << jstr(vmessage)
          << ",\n \"unreproduced\": " << jstr(unreproduced)
          << ",\n \"per_target\": {";
        for (std::size_t i = 0; i < per.size(); ++i)
            f << (i ? ", " : "") << jstr(targets()[i].name) << ": " << per[i];
        f << "},\n \"rules\": {";
        for (std::size_t i = 0; i < per.size(); ++i)
            f << (i ? ", " : "") << jstr(targets()[i].name) << ": "
              << jstr(targets()[i].rule);
        f << "},\n \"labels\": {";
        bool first = true;
        for (auto& [k, v] : labels) {
            f << (first ? "" : ", ") << jstr(k) << ": " << v;
            first = false;
        }
        f << "},\n \"samples\": [";
        for (std::size_t i = 0; i < samples.size(); ++i)
            f << (i ? ", " : "") << jstr(samples[i]);
        f << "]\n}\n";
    }
    if (violation) {
        std::fprintf(stderr, "[pbt] %s\n%s", vmessage.c_str(), vtrace.c_str());
        return 1;
    }
    return 0;
}

static int cmd_replay(int argc, char** argv)
{
    std::uint32_t target = 0;
    std::vector<std::uint32_t> cs;
    std::string range;
    if (argc < 3 || !read_replay(argv[2], target, cs, range)) {
        std::fprintf(stderr, "cannot read replay file\n");
        return 2;
    }
    if (!range.empty()) {
        std::istringstream is{range};
        std::uint64_t s, f, st, l;
        is >> s >> f >> st >> l;
        auto bad = range_fails(s, f, st, l);
        std::printf("range replay: %s\n", bad ? "FAILS" : "passes");
        return bad ? 1 : 0;
    }
    auto r =
        run_attempts(target, cs, true, false, targets()[target].attempts);
    std::printf("%s", r.trace.c_str());
    std::printf("%s %s\n", r.failing ? "FAILS:" : "passes", r.message.c_str());
    return r.failing ? 1 : 0;
}

// confirm + shrink a replay file in place (used on fuzzer findings)
static int cmd_shrink(int argc, char** argv)
{
    std::uint32_t target = 0;
    std::vector<std::uint32_t> cs;
    std::string range;
    if (argc < 3 || !read_replay(argv[2], target, cs, range))
        return 2;
    auto att = targets()[target].attempts;
    for (int i = 0; i < 3; ++i)
        if (!run_attempts(target, cs, false, true, att).failing)
            return 0;
    unsigned n = 0;
    auto best  = shrink(target, cs, att, 60, n);
    auto r     = run_attempts(target, best, true, false, att);
    if (!r.failing) {
        best = cs;
        r    = run_attempts(target, best, true, false, att);
    }
    write_replay(argv[2], target, best, r.message, r.trace);
    std::fprintf(stderr, "[pbt] %s\n%s", r.message.c_str(), r.trace.c_str());
    return 1;
}

static int cmd_probe(int argc, char** argv)
{
    for (auto& p : probes())
        if (argc > 2 && std::strcmp(p.name, argv[2]) == 0) {
            std::fflush(nullptr);
            auto pid = fork();
            if (pid == 0) {
                alarm(60);
                bool r = true;
                try {
                    r = p.fn();
                } catch (...) {
                }
                _exit(r ? 1 : 0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            }
            // a crash also counts as "still reproduces"
            return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
        }
    return 2;
}

int main(int argc, char** argv)
{
    auto cmd = std::string{argc > 1 ? argv[1] : ""};
    if (cmd == "run")
        return cmd_run(argc, argv);
    if (cmd == "replay")
        return cmd_replay(argc, argv);
    if (cmd == "shrink")
        return cmd_shrink(argc, argv);
    if (cmd == "probe")
        return cmd_probe(argc, argv);
    if (cmd == "list") {
        for (auto& t : targets())
            std::printf("%s\n", t.name);
        return 0;
    }
    std::fprintf(stderr, "usage: run|replay|shrink|probe|list\n");
    return 2;
}
