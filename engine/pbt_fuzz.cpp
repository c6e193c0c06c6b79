// pbt_fuzz.cpp - the same targets under libFuzzer: bytes are decoded into
// choices; a failing input is written as a replay file (choice sequence).
#include "pbt.hpp"

#include <cstdlib>
#include <fstream>

using namespace pbt;

extern "C" void __sanitizer_set_death_callback(void (*)(void));

static shared_case g_case;
static std::uint32_t g_target;

static void dump()
{
    auto out = std::getenv("PBT_FUZZ_OUT");
    std::ofstream f{out ? out : "fuzz.replay"};
    f << "target " << targets()[g_target].name << "\nchoices";
    for (std::uint32_t i = 0; i < g_case.n; ++i)
        f << " " << g_case.choices[i];
    f << "\n# " << g_case.message << "\n";
    f.flush();
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t n)
{
    static bool init = [] {
        __sanitizer_set_death_callback(dump);
        auto t = std::getenv("PBT_TARGET");
        for (std::uint32_t i = 0; t && i < targets().size(); ++i)
            if (targets()[i].name == std::string{t})
                g_target = i;
        return true;
    }();
    (void) init;
    Case c{g_case, data, n};
    g_case.target = g_target;
    try {
        targets()[g_target].fn(c);
    } catch (const discarded&) {
        if (!g_case.failed)
            return -1;
    } catch (const failure&) {
    } catch (const std::exception& e) {
        c.note_failure(std::string{"unexpected exception: "} + e.what());
    }
    if (g_case.failed) {
        std::fprintf(stderr, "[pbt] %s\n", g_case.message);
        dump();
        std::_Exit(77);
    }
    return 0;
}
