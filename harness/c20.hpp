// C20: a HTTP client of our own and the application that is debugged
#pragma once

#include <cassert>
#include <pbt.hpp>

#include "json_dom.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/struct.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <cereal/archives/json.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>

#include <deque>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <variant>
#include <vector>

namespace dbg {

struct add
{
    int by = 0;
};
struct say
{
    std::string what;
};
struct twice // adds by an effect
{
    int by = 0;
};
struct nothing
{};
using act = std::variant<add, say, twice, nothing>;

struct app
{
    int value = 0;
    std::string said;
    std::vector<int> log;
};

} // namespace dbg

LAGER_STRUCT(dbg, add, by);
LAGER_STRUCT(dbg, say, what);
LAGER_STRUCT(dbg, twice, by);
LAGER_STRUCT(dbg, nothing);
LAGER_STRUCT(dbg, app, value, said, log);

namespace dbg {

inline std::string show_v(const app& m)
{
    auto s = std::to_string(m.value) + " '" + m.said + "' [";
    for (auto x : m.log)
        s += " " + std::to_string(x);
    return s + "]";
}
inline std::string show_v(const act& a)
{
    static const char* names[] = {"add ", "say ", "twice ", "nothing "};
    auto s = std::string{names[a.index()]};
    if (auto p = std::get_if<add>(&a))
        s += std::to_string(p->by);
    if (auto p = std::get_if<say>(&a))
        s += "'" + p->what + "'";
    if (auto p = std::get_if<twice>(&a))
        s += std::to_string(p->by);
    return s;
}

// the loop, run by hand, to which any thread may post
struct loop
{
    struct state
    {
        std::mutex m;
        std::deque<std::function<void()>> queue;
        std::thread::id home = std::this_thread::get_id();
        int foreign          = 0; // posts by other threads
        std::vector<std::string> asked;
    };
    std::shared_ptr<state> s = std::make_shared<state>();

    void post(std::function<void()> f)
    {
        auto l = std::lock_guard{s->m};
        if (std::this_thread::get_id() != s->home)
            ++s->foreign;
        s->queue.push_back(std::move(f));
    }
    void async(std::function<void()>) { s->asked.push_back("async"); }
    void finish() { s->asked.push_back("finish"); }
    void pause() { s->asked.push_back("pause"); }
    void resume() { s->asked.push_back("resume"); }

    bool step()
    {
        auto f = std::function<void()>{};
        {
            auto l = std::lock_guard{s->m};
            if (s->queue.empty())
                return false;
            f = std::move(s->queue.front());
            s->queue.pop_front();
        }
        f();
        return true;
    }
    void run()
    {
        while (step())
            ;
    }
    int foreign()
    {
        auto l = std::lock_guard{s->m};
        return s->foreign;
    }
};

// What the debugger hands to its server, kept for later
template <typename D>
struct record
{
    lager::context<typename D::action> ctx;
    lager::reader<typename D::model> data;
    void init(lager::context<typename D::action> c,
              lager::reader<typename D::model> d)
    {
        ctx  = std::move(c);
        data = std::move(d);
    }
};
using debugger_t = lager::debugger<act, app, lager::deps<>>;
struct recorder
{
    std::shared_ptr<record<debugger_t>> rec;
    template <typename D>
    auto make(D)
    {
        auto r = std::make_shared<record<D>>();
        rec    = r;
        return r;
    }
};

inline lager::result<app, act> update(app m, act a)
{
    auto log = [&](int x) { m.log.push_back(x); };
    if (auto p = std::get_if<add>(&a)) {
        m.value += p->by;
        log(p->by);
        return m;
    }
    if (auto p = std::get_if<say>(&a)) {
        m.said = p->what;
        log(0);
        return m;
    }
    if (auto p = std::get_if<twice>(&a)) {
        m.value += p->by;
        log(-p->by);
        return {m, [by = p->by](auto& ctx) { ctx.dispatch(add{by}); }};
    }
    return m;
}

// an application under the debugger
template <typename Tag>
struct debugged
{
    static auto make(app init, loop l, recorder& r)
    {
        return lager::make_store<act, Tag>(
            init, l, lager::with_reducer(update), lager::with_debugger(r));
    }
    loop l;
    recorder r;
    decltype(make(std::declval<app>(), std::declval<loop>(), std::declval<recorder&>())) store;

    debugged(app init)
        : store{make(init, l, r)}
    {}
    ~debugged()
    {
        r.rec->ctx  = {};
        r.rec->data = {};
    }
};

// The real server, on the first free port (c20_server.cpp)
struct serving
{
    std::shared_ptr<void> handle;
    int port = 0;

    serving(std::vector<std::string> args,
            std::string resources,
            lager::context<debugger_t::action> ctx,
            lager::reader<debugger_t::model> data);
};

struct reply
{
    int status = 0; // none: the server closed the connection
    std::string body;
    std::string problem;
    bool error() const { return status == 0 || status >= 400; }
};

class client
{
    int fd_ = -1;
    std::string in_;

    bool more_()
    {
        char b[65536];
        auto n = ::recv(fd_, b, sizeof(b), 0);
        if (n < 0 && errno == EINTR)
            return true;
        if (n <= 0) {
            timed_out = n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK);
            return false;
        }
        in_.append(b, static_cast<std::size_t>(n));
        return true;
    }

public:
    bool timed_out = false;

    client(int port)
    {
        fd_      = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        auto lin = linger{1, 0}; // leaves nothing behind when closed
        ::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &lin, sizeof(lin));
        auto tv = timeval{25, 0};
        ::setsockopt(fd_, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
        ::setsockopt(fd_, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
        int one = 1;
        ::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
        auto a            = sockaddr_in{};
        a.sin_family      = AF_INET;
        a.sin_port        = htons(static_cast<std::uint16_t>(port));
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(fd_, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0) {
            ::close(fd_);
            fd_ = -1;
        }
    }
    client(const client&) = delete;
    ~client()
    {
        if (fd_ >= 0)
            ::close(fd_);
    }
    bool connected() const { return fd_ >= 0; }

    void send(const std::string& bytes)
    {
        for (std::size_t i = 0; i < bytes.size();) {
            auto n = ::send(fd_, bytes.data() + i, bytes.size() - i, MSG_NOSIGNAL);
            if (n < 0 && errno == EINTR)
                continue;
            if (n <= 0)
                return;
            i += static_cast<std::size_t>(n);
        }
    }
    void no_more() { ::shutdown(fd_, SHUT_WR); }

    reply read(bool head = false)
    {
        auto r   = reply{};
        auto end = std::string::npos;
        while ((end = in_.find("\r\n\r\n")) == std::string::npos)
            if (!more_()) {
                if (!in_.empty())
                    r.problem = "half a response";
                return r;
            }
        auto h = in_.substr(0, end + 2);
        in_.erase(0, end + 4);
        if (h.compare(0, 7, "HTTP/1.") != 0 || h.size() < 12) {
            r.problem = "not a response: " + h;
            return r;
        }
        r.status = std::atoi(h.c_str() + 9);
        auto low = h;
        for (auto& ch : low)
            ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
        auto at  = low.find("\r\ncontent-length:");
        auto len = std::size_t{};
        if (at == std::string::npos) {
            if (low.find("\r\ntransfer-encoding:") != std::string::npos) {
                r.problem = "unknown transfer encoding";
                return r;
            }
            if (r.status != 204) // until it is closed
                while (more_())
                    ;
            r.body = std::move(in_);
            in_.clear();
            return r;
        }
        len = std::strtoul(low.c_str() + at + 17, nullptr, 10);
        if (head)
            return r;
        while (in_.size() < len)
            if (!more_()) {
                r.problem = "half a body";
                return r;
            }
        r.body = in_.substr(0, len);
        in_.erase(0, len);
        return r;
    }
};

inline std::string request(const std::string& verb,
                           const std::string& target,
                           const std::string& body = {})
{
    auto s = verb + " " + target + " HTTP/1.1\r\nHost: localhost\r\n";
    if (!body.empty())
        s += "Content-Type: text/plain\r\nContent-Length: " +
             std::to_string(body.size()) + "\r\n";
    else if (verb != "GET" && verb != "HEAD")
        s += "Content-Length: 0\r\n";
    return s + "\r\n" + body;
}

// -- what the replies should be

inline std::string wrong_overview(const reply& r,
                                  const std::string& program,
                                  const debugger_t::model& m)
{
    if (!r.problem.empty())
        return r.problem;
    if (r.status != 200)
        return "status " + std::to_string(r.status) + ": " + r.body;
    auto want = dom::obj();
    want.put("program", dom::str(program));
    want.put("summary", dom::num(static_cast<long long>(m.history.size())));
    want.put("cursor", dom::num(static_cast<long long>(m.cursor)));
    want.put("paused", dom::boo(m.paused));
    try {
        auto d = json_reader{r.body}.whole();
        if (d.kind != dom::object)
            return "not an object: " + r.body;
        for (std::size_t k = 0; k < want.keys.size(); ++k) {
            auto found = 0;
            for (std::size_t i = 0; i < d.keys.size(); ++i)
                if (d.keys[i] == want.keys[k]) {
                    ++found;
                    if (!agree(d.items[i], want.items[k]))
                        return want.keys[k] + " of " + r.body + " instead of " +
                               write(want);
                }
            if (found != 1)
                return "no " + want.keys[k] + " in " + r.body;
        }
    } catch (const bad_json& e) {
        return "bad JSON " + std::string{e.what()} + ": " + r.body;
    }
    return {};
}

inline std::string wrong_step(const reply& r,
                              std::size_t i,
                              const debugger_t::model& m)
{
    if (!r.problem.empty())
        return r.problem;
    if (i > m.history.size()) {
        if (r.status < 400)
            return "status " + std::to_string(r.status) +
                   " for a step that does not exist: " + r.body;
        return {};
    }
    if (r.status != 200)
        return "status " + std::to_string(r.status) + ": " + r.body;
    try {
        auto d = json_reader{r.body}.whole();
        auto n = 0;
        for (auto& k : d.keys)
            n += k == "action";
        if (n != (i > 0))
            return "actions: " + std::to_string(n) + " in " + r.body;
        auto is = std::istringstream{r.body};
        auto in = cereal::JSONInputArchive{is};
        if (i > 0) {
            auto a = act{};
            in(cereal::make_nvp("action", a));
            if (!(a == m.history[i - 1].action))
                return "action '" + show_v(a) + "' instead of '" +
                       show_v(m.history[i - 1].action) + "'";
        }
        auto x = app{};
        in(cereal::make_nvp("model", x));
        auto& want = i > 0 ? m.history[i - 1].model : m.init;
        if (x != want)
            return "model " + show_v(x) + " instead of " + show_v(want);
    } catch (const std::exception& e) {
        return std::string{e.what()} + ": " + r.body;
    }
    return {};
}

// whether two debuggers are in the same state
inline std::string different(const debugger_t::model& a, const debugger_t::model& b)
{
    auto s = std::ostringstream{};
    if (a.cursor != b.cursor)
        s << "cursor " << a.cursor << " instead of " << b.cursor;
    else if (a.paused != b.paused)
        s << "paused " << a.paused << " instead of " << b.paused;
    else if (a.init != b.init)
        s << "initial model " << show_v(a.init) << " instead of " << show_v(b.init);
    else if (a.history.size() != b.history.size())
        s << a.history.size() << " steps instead of " << b.history.size();
    else if (a.pending.size() != b.pending.size())
        s << a.pending.size() << " pending instead of " << b.pending.size();
    else {
        for (std::size_t i = 0; i < a.history.size(); ++i)
            if (!(a.history[i].action == b.history[i].action) ||
                a.history[i].model != b.history[i].model)
                s << "step " << i + 1 << " is " << show_v(a.history[i].action)
                  << " to " << show_v(a.history[i].model) << " instead of "
                  << show_v(b.history[i].action) << " to "
                  << show_v(b.history[i].model);
        for (std::size_t i = 0; i < a.pending.size(); ++i)
            if (!(a.pending[i] == b.pending[i]))
                s << "pending " << i << " is " << show_v(a.pending[i])
                  << " instead of " << show_v(b.pending[i]);
    }
    return s.str();
}

} // namespace dbg
