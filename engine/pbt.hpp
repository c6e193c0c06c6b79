// pbt.hpp - a small choice-sequence property-based testing engine.
//
// A target is a function of a Case.  Every random decision is drawn through
// the Case and recorded as one number, so a whole case *is* its choice
// sequence: replaying, shrinking (delete / zero / lower choices) and
// coverage-guided fuzzing (bytes decoded into choices) work on any target.
// Exhausted choices read as 0, and 0 is always the simplest choice.
#pragma once

#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

struct failure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// the case is outside the domain (counted, never a violation)
struct discarded
{};

constexpr std::size_t max_choices = 1 << 15;

// Everything the driver needs to know about a running case.  It lives in
// memory shared with the driver so that it survives a crash of the case.
struct shared_case
{
    std::uint64_t index;
    std::uint32_t target;
    std::uint32_t running;
    std::uint32_t n;
    std::uint32_t failed;
    std::uint32_t nontrivial;
    std::uint32_t choices[max_choices];
    char message[8192];
    char trace[1 << 16];
    std::uint32_t trace_n;
};

class Case
{
public:
    enum class mode
    {
        random,
        replay,
        bytes
    };

    Case(shared_case& sh, std::uint64_t seed)
        : sh_{sh}
        , mode_{mode::random}
        , rng_{seed}
    {
        reset_();
    }
    Case(shared_case& sh, std::vector<std::uint32_t> cs)
        : sh_{sh}
        , mode_{mode::replay}
        , in_{std::move(cs)}
    {
        reset_();
    }
    Case(shared_case& sh, const std::uint8_t* data, std::size_t size)
        : sh_{sh}
        , mode_{mode::bytes}
        , bytes_{data}
        , bytes_n_{size}
    {
        reset_();
    }

    // -- draws ---------------------------------------------------------------

    // uniform in [0, n); n == 0 means the full 32 bits
    std::uint32_t below(std::uint32_t n)
    {
        if (n == 1)
            return 0;
        std::uint32_t v = 0;
        switch (mode_) {
        case mode::random: {
            auto r = next_();
            v      = n ? static_cast<std::uint32_t>(
                        (static_cast<unsigned __int128>(r) * n) >> 64)
                       : static_cast<std::uint32_t>(r);
            break;
        }
        case mode::replay:
            v = pos_ < in_.size() ? in_[pos_++] : 0;
            if (n && v >= n)
                v %= n;
            break;
        case mode::bytes: {
            int k           = n == 0 ? 4 : n <= 256 ? 1 : n <= 65536 ? 2 : 4;
            std::uint32_t b = 0;
            while (k-- && bytes_pos_ < bytes_n_)
                b = (b << 8) | bytes_[bytes_pos_++];
            v = n ? b % n : b;
            break;
        }
        }
        if (sh_.n >= max_choices)
            throw discarded{};
        sh_.choices[sh_.n++] = v;
        return v;
    }

    // inclusive range; lo is the simplest
    long range(long lo, long hi)
    {
        return lo + static_cast<long>(
                        below(static_cast<std::uint32_t>(hi - lo + 1)));
    }

    bool flip() { return below(2) == 1; }
    // true with probability num/den; false is the simplest
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }
    // continue a repetition whose expected length is `avg`; stop is simplest
    bool more(unsigned avg) { return below(avg + 1) != 0; }

    // an int biased to small values, sometimes extreme
    int integer()
    {
        switch (below(8)) {
        case 0:
        case 1:
        case 2:
        case 3:
            return static_cast<int>(below(4));
        case 4:
        case 5:
            return static_cast<int>(below(64)) - 32;
        case 6:
            return static_cast<int>(below(0));
        default: {
            static const int xs[] = {0,
                                     -1,
                                     2147483647,
                                     -2147483647 - 1,
                                     65535,
                                     65536,
                                     255,
                                     256};
            return xs[below(8)];
        }
        }
    }
    // small int without overflow worries
    int small(int n = 8) { return static_cast<int>(below(n)); }

    std::string text(unsigned avg = 3)
    {
        auto s = std::string{};
        while (s.size() < 64 && more(avg))
            s.push_back("abcAB 0_.~\"\\/\n\t\x01\x7f\xc3\xa9{}[],:"[below(26)]);
        return s;
    }
    std::string word(unsigned avg = 3)
    {
        auto s = std::string{};
        while (s.size() < 16 && more(avg))
            s.push_back(static_cast<char>('a' + below(6)));
        return s;
    }
    template <typename Vec>
    auto& pick(Vec& v)
    {
        return v[below(static_cast<std::uint32_t>(v.size()))];
    }

    // -- bookkeeping ---------------------------------------------------------

    void nontrivial() { sh_.nontrivial = 1; }
    void nontrivial(bool b)
    {
        if (b)
            sh_.nontrivial = 1;
    }
    void label(const char* name) { labels.push_back(name); }
    void label(const char* name, bool b)
    {
        if (b)
            labels.push_back(name);
    }

    template <typename... Ts>
    void log(const Ts&... xs)
    {
        if (tracing) {
            std::ostringstream os;
            (os << ... << xs);
            os << "\n";
            auto s    = os.str();
            auto room = sizeof(sh_.trace) - 1 - sh_.trace_n;
            auto k    = std::min<std::size_t>(room, s.size());
            std::memcpy(sh_.trace + sh_.trace_n, s.data(), k);
            sh_.trace_n += static_cast<std::uint32_t>(k);
            sh_.trace[sh_.trace_n] = 0;
        }
    }

    [[noreturn]] void fail(const std::string& msg)
    {
        note_failure(msg);
        throw failure{msg};
    }

    // records the failure without throwing (for use where exceptions may not
    // pass); the case fails when it ends
    void note_failure(const std::string& msg)
    {
        if (!sh_.failed) {
            sh_.failed = 1;
            std::snprintf(
                sh_.message, sizeof(sh_.message), "%s", msg.c_str());
        }
    }

    bool failed() const { return sh_.failed; }

    bool tracing = false;
    std::vector<const char*> labels;

private:
    shared_case& sh_;
    mode mode_;
    std::uint64_t rng_ = 0;
    std::vector<std::uint32_t> in_;
    std::size_t pos_           = 0;
    const std::uint8_t* bytes_ = nullptr;
    std::size_t bytes_n_       = 0;
    std::size_t bytes_pos_     = 0;

    void reset_()
    {
        sh_.n = sh_.failed = sh_.nontrivial = 0;
        sh_.trace_n                         = 0;
        sh_.trace[0]                        = 0;
        sh_.message[0]                      = 0;
    }
    std::uint64_t next_()
    {
        auto z = (rng_ += 0x9e3779b97f4a7c15ull);
        z      = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z      = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

using target_fn = void (*)(Case&);

struct target
{
    const char* name;
    target_fn fn;
    unsigned weight; // share of the cases
    const char* rule;
    unsigned attempts; // how often a replay is tried (schedule-dependent: > 1)
};

inline std::vector<target>& targets()
{
    static std::vector<target> ts;
    return ts;
}

struct register_target
{
    register_target(target t) { targets().push_back(t); }
};

struct probe
{
    const char* name;
    bool (*fn)(); // true: the recorded finding still reproduces
};

inline std::vector<probe>& probes()
{
    static std::vector<probe> ps;
    return ps;
}

struct register_probe
{
    register_probe(probe p) { probes().push_back(p); }
};

// -- printing helpers ---------------------------------------------------------

template <typename T>
auto show_(const T& x, int)
    -> decltype(std::declval<std::ostream&>() << x, std::string{})
{
    std::ostringstream os;
    os << x;
    return os.str();
}
template <typename T>
auto show_(const T& x, long)
    -> decltype(x.begin(), x.end(), std::string{})
{
    std::string r = "[";
    for (auto const& e : x)
        r += (r.size() > 1 ? "," : "") + show_(e, 0);
    return r + "]";
}
template <typename T>
std::string show_(const T&, ...)
{
    return "?";
}
template <typename T>
std::string show(const T& x)
{
    return show_(x, 0);
}

// an object whose live instances are counted; used to see leaks and
// use of dead or moved-from values
struct counted
{
    static long& live()
    {
        static long n = 0;
        return n;
    }
    counted() { ++live(); }
    counted(const counted&) { ++live(); }
    counted(counted&&) noexcept { ++live(); }
    counted& operator=(const counted&) = default;
    counted& operator=(counted&&)      = default;
    ~counted() { --live(); }
    bool operator==(const counted&) const { return true; }
};

} // namespace pbt

#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)

#define PBT_TARGET_N(name, weight, rule, attempts)                             \
    static void name(::pbt::Case& c);                                          \
    static ::pbt::register_target PBT_CAT(reg_, name){                         \
        {#name, name, weight, rule, attempts}};                                \
    static void name([[maybe_unused]] ::pbt::Case& c)

#define PBT_TARGET(name, weight, rule) PBT_TARGET_N(name, weight, rule, 1)

#define PBT_PROBE(name)                                                        \
    static bool name();                                                        \
    static ::pbt::register_probe PBT_CAT(reg_, name){{#name, name}};           \
    static bool name()

#define P_CHECK(cond, ...)                                                     \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::ostringstream os_;                                            \
            os_ << "check failed: " #cond " (" << __FILE__ << ":" << __LINE__  \
                << ") " __VA_OPT__(<<) __VA_ARGS__;                            \
            c.fail(os_.str());                                                 \
        }                                                                      \
    } while (0)

#define P_EQ(a, b, ...)                                                        \
    do {                                                                       \
        auto&& va_ = (a);                                                      \
        auto&& vb_ = (b);                                                      \
        if (!(va_ == vb_)) {                                                   \
            std::ostringstream os_;                                            \
            os_ << "expected equal: " #a " = " << ::pbt::show(va_)             \
                << " but " #b " = " << ::pbt::show(vb_) << " (" << __FILE__    \
                << ":" << __LINE__ << ") " __VA_OPT__(<<) __VA_ARGS__;         \
            c.fail(os_.str());                                                 \
        }                                                                      \
    } while (0)
