// C20: the server itself, compiled once
#include "c20.hpp"

#include <lager/debug/http_server.hpp>

namespace dbg {

serving::serving(std::vector<std::string> args,
                 std::string resources,
                 lager::context<debugger_t::action> ctx,
                 lager::reader<debugger_t::model> data)
{
    auto argv = std::vector<const char*>{};
    for (auto& a : args)
        argv.push_back(a.c_str());
    static int next = 10000 + static_cast<int>((::getpid() * 37ll) % 20000);
    for (int tries = 0;; ++tries) {
        port = next;
        if (++next >= 32000)
            next = 10000;
        auto s = lager::http_debug_server{static_cast<int>(argv.size()),
                                          argv.data(),
                                          static_cast<std::uint16_t>(port),
                                          resources};
        auto h = s.make(debugger_t{});
        try {
            h->init(ctx, data);
        } catch (const boost::system::system_error&) {
            if (tries > 500)
                throw;
            continue;
        }
        handle = h;
        return;
    }
}

} // namespace dbg
