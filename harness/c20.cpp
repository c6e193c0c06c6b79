// C20: the HTTP server of the debugger, against a twin of the application
// whose debugger is given the same commands directly
#include "c20.hpp"

#include <atomic>
#include <filesystem>
#include <fstream>

using namespace dbg;
using pbt::Case;
namespace fs = std::filesystem;

namespace {

std::string one_of(Case& c, std::vector<std::string> v)
{
    return v[c.below(v.size())];
}

app gen_app(Case& c)
{
    return {static_cast<int>(c.small(20)), "", {}};
}
act gen_act(Case& c)
{
    static const char* words[] = {
        "", "a", "two words", "\"quoted\"", "back\\slash", "line\nbreak",
        "\xc3\xa9", "</html>", "{\"a\":1}", "tab\t"};
    switch (c.small(4)) {
    case 0:
        return add{static_cast<int>(c.small(50)) - 5};
    case 1:
        return say{words[c.below(10)]};
    case 2:
        return twice{static_cast<int>(c.small(9)) + 1};
    default:
        return nothing{};
    }
}
std::vector<std::string> gen_args(Case& c)
{
    static const char* words[] = {"prog", "./prog", "-x", "two words",
                                  "\"q\"", "", "a\\b", "\xc3\xa9"};
    auto r = std::vector<std::string>{words[c.below(2)]};
    while (r.size() < 5 && c.more(1))
        r.push_back(words[c.below(8)]);
    return r;
}
std::string joined(const std::vector<std::string>& v)
{
    auto s = v[0];
    for (std::size_t i = 1; i < v.size(); ++i)
        s += " " + v[i];
    return s;
}

enum verb_t
{
    v_overview,
    v_step,
    v_goto,
    v_undo,
    v_redo,
    v_pause,
    v_resume,
    v_unknown
};
struct asked
{
    verb_t what;
    std::size_t arg;
    std::string verb, target, body;
    std::string bytes() const { return request(verb, target, body); }
};

asked unknown(Case& c)
{
    static const char* targets[] = {
        "/api/undo/",   "/api/undo?x=1", "/api/goto/",    "/api/goto/x",
        "/api/goto/-1", "/api/goto/1/2", "/api/goto/0x1", "/api/goto/1x",
        "/api/goto",    "/api/pausee",   "/api/paus",     "/apiundo",
        "/api//undo",   "//api/undo",    "/undo",         "/api/unpause",
        "/API/undo",    "/api/Undo",     "/api/step/0",   "/",
        "/api",         "/api/",         "*",             "/x/api/undo",
        "/api/redo%20", "/api/goto/ 1",  "/api/goto/+1",  "/api/resume.html",
        "/api/goto/%31",
        "/api/goto/99999999999999999999", "/api/goto/18446744073709551616"};
    auto verb = one_of(c, {
        "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO", "post"});
    auto target = std::string{};
    if (verb == "POST") {
        target = targets[c.below(std::size(targets))];
        if (target.find(' ') != std::string::npos)
            target = "/api/nothing";
    } else
        target = one_of(c, {"/api/undo", "/api/redo",
                                                 "/api/pause", "/api/resume",
                                                 "/api/goto/0", "/api", "/",
                                                 "/api/step/0", "/nothing"});
    if (verb == "POST" && c.chance(1, 12))
        target = "/api/goto/" + std::string(c.below(3000) + 20, '9');
    if (c.chance(1, 8))
        switch (c.small(3)) {
        case 0: {
            verb   = "GET";
            target = one_of(c, {
                "/api/undo", "/api/goto/0", "/api/nothing", "/api/step/",
                "/api/step/x", "/api/step/-1", "/api/step/1/2", "/api/step",
                "/api/step/99999999999999999999999", "/api/step/0x0",
                "/api/step/18446744073709551616", "/apix", "/step/0"});
            break;
        }
        case 1:
            verb   = "GET";
            target = "/api/step/" + std::string(c.below(4000) + 20, '7');
            break;
        default:
            verb   = "GET";
            target = "/" + std::string(c.below(6000), 'x');
            if (target == "/")
                target = "/nothing";
        }
    return {v_unknown, 0, verb, target, {}};
}

asked gen_asked(Case& c, std::size_t steps)
{
    auto index = [&] {
        return c.chance(1, 8) ? c.below(1000000) : c.below(steps + 3);
    };
    auto digits = [&](std::size_t i) {
        return std::string(c.chance(1, 10) ? 1 + c.below(3) : 0, '0') +
               std::to_string(i);
    };
    auto a = asked{v_unknown, 0, {}, {}, {}};
    switch (c.below(11)) {
    case 0:
    case 1:
        a = {v_overview, 0, "GET", c.flip() ? "/api" : "/api/", {}};
        break;
    case 2:
    case 3: {
        auto i = index();
        a      = {v_step, i, "GET", "/api/step/" + digits(i), {}};
        break;
    }
    case 4:
    case 5: {
        auto i = index();
        a      = {v_goto, i, "POST", "/api/goto/" + digits(i), {}};
        break;
    }
    case 6:
        a = {v_undo, 0, "POST", "/api/undo", {}};
        break;
    case 7:
        a = {v_redo, 0, "POST", "/api/redo", {}};
        break;
    case 8:
        a = {v_pause, 0, "POST", "/api/pause", {}};
        break;
    case 9:
        a = {v_resume, 0, "POST", "/api/resume", {}};
        break;
    default:
        a = unknown(c);
    }
    if (a.verb == "POST" && c.chance(1, 8))
        a.body = std::string(c.chance(1, 6) ? 20000 : c.below(30) + 1, 'b');
    return a;
}

// bytes that are no HTTP request
std::string gibberish(Case& c)
{
    switch (c.small(7)) {
    case 0:
        return "nonsense\r\n\r\n";
    case 1:
        return "GET /api HTTP/9.9\r\n\r\n";
    case 2:
        return "POST /api/undo\r\n\r\n";
    case 3:
        return "POST /api/undo HTTP/1.1\r\nContent-Length: x\r\n\r\n";
    case 4:
        return "POST /api/undo HTTP/1.1\r\nX: " + std::string(20000, 'y') +
               "\r\n\r\n";
    case 5: { // cut short
        auto s = request("POST", "/api/undo", "body");
        return s.substr(0, c.below(s.size() - 1) + 1);
    }
    default: {
        auto s = std::string{"\x01"};
        while (s.size() < 200 && c.more(20))
            s += static_cast<char>(c.below(256));
        return s + "\r\n\r\n";
    }
    }
}

template <typename Tag>
void talk(Case& c)
{
    constexpr auto automatic = std::is_same_v<Tag, lager::automatic_tag>;
    auto init = gen_app(c);
    auto args = gen_args(c);
    c.log("application ", show_v(init), ", run as ", joined(args));
    auto a   = debugged<Tag>{init};
    auto b   = debugged<Tag>{init};
    auto run = [&] {
        a.l.run();
        b.l.run();
    };
    auto commit = [&] {
        if constexpr (!automatic) {
            lager::commit(a.store);
            lager::commit(b.store);
        }
    };
    // before the server is up
    while (c.chance(1, 3)) {
        auto x = gen_act(c);
        c.log("before: ", show_v(x));
        a.store.dispatch(x);
        b.store.dispatch(x);
        run();
        commit();
    }
    auto server = std::make_unique<serving>(
        args, "/nonexistent-folder", a.r.rec->ctx, a.r.rec->data);
    auto conns = std::vector<std::unique_ptr<client>>{};
    auto conn  = [&](std::size_t i) -> client& {
        while (conns.size() <= i)
            conns.push_back(nullptr);
        if (!conns[i]) {
            conns[i] = std::make_unique<client>(server->port);
            P_CHECK(conns[i]->connected(), "cannot connect");
        }
        return *conns[i];
    };
    auto seen  = [&] { return b.r.rec->data.get(); };
    auto posts = 0, gets = 0, bads = 0, acts = 0;
    auto command = [&](const asked& q) {
        auto& ctx = b.r.rec->ctx;
        switch (q.what) {
        case v_goto:
            return ctx.dispatch(debugger_t::goto_action{q.arg}), true;
        case v_undo:
            return ctx.dispatch(debugger_t::undo_action{}), true;
        case v_redo:
            return ctx.dispatch(debugger_t::redo_action{}), true;
        case v_pause:
            return ctx.dispatch(debugger_t::pause_action{}), true;
        case v_resume:
            return ctx.dispatch(debugger_t::resume_action{}), true;
        default:
            return false;
        }
    };
    auto judge = [&](const asked& q, const reply& r) {
        P_CHECK(r.problem.empty(), q.verb << " " << q.target << ": " << r.problem);
        P_CHECK(r.status != 0, q.verb << " " << q.target << ": no response");
        auto m = seen();
        switch (q.what) {
        case v_overview: {
            ++gets;
            auto e = wrong_overview(r, joined(args), m);
            P_CHECK(e.empty(), q.target << ": " << e);
            break;
        }
        case v_step: {
            ++gets;
            auto e = wrong_step(r, q.arg, m);
            P_CHECK(e.empty(), q.target << ": " << e);
            break;
        }
        case v_unknown:
            ++bads;
            P_CHECK(r.status >= 400, "status " << r.status << " for " << q.verb
                                               << " " << q.target << ": "
                                               << r.body);
            break;
        default:
            ++posts;
            command(q);
            // a goto beyond the history may be refused
            P_CHECK(q.what == v_goto || (r.status >= 200 && r.status < 300),
                    "status " << r.status << " for " << q.verb << " "
                              << q.target << ": " << r.body);
        }
    };
    auto compare = [&] {
        auto e = different(a.store.get(), b.store.get());
        P_CHECK(e.empty(), "application: " << e);
        e = different(a.r.rec->data.get(), b.r.rec->data.get());
        P_CHECK(e.empty(), "debugger: " << e);
        P_EQ(a.l.s->asked, b.l.s->asked, "asked of the loop");
        P_CHECK(a.l.foreign() <= posts, "the server dispatched "
                                            << a.l.foreign() << " actions for "
                                            << posts << " commands");
    };
    auto ask_all = [&] {
        auto n  = seen().history.size();
        auto& x = conn(0);
        auto q  = asked{v_overview, 0, "GET", "/api", {}};
        x.send(q.bytes());
        judge(q, x.read());
        for (std::size_t i = 0; i <= n + 1; ++i) {
            q = asked{v_step, i, "GET", "/api/step/" + std::to_string(i), {}};
            x.send(q.bytes());
            judge(q, x.read());
        }
    };
    if (c.flip())
        ask_all();
    auto n = 0;
    while (n++ < 40 && c.more(14)) {
        switch (c.below(10)) {
        case 0:
        case 1:
        case 2: {
            auto x = gen_act(c);
            c.log(show_v(x));
            ++acts;
            a.store.dispatch(x);
            b.store.dispatch(x);
            break;
        }
        case 3: {
            run();
            commit();
            c.log("loop");
            compare();
            break;
        }
        case 4: { // on several connections or all at once on one
            auto qs = std::vector<std::pair<asked, std::size_t>>{};
            auto k  = 1 + c.small(3);
            while (qs.size() < 5 && c.more(3)) {
                qs.emplace_back(gen_asked(c, seen().history.size()), c.below(k));
                c.log(qs.back().first.verb, " ", qs.back().first.target,
                      " on connection ", qs.back().second, " with others");
            }
            if (k == 1) {
                auto s = std::string{};
                for (auto& q : qs)
                    s += q.first.bytes();
                for (auto& q : qs)
                    conn(q.second);
                if (!qs.empty())
                    conn(0).send(s);
                for (auto& q : qs)
                    judge(q.first, conn(0).read());
            } else {
                // commands of different connections come in any order, so
                // only requests that tell are sent at the same time
                for (auto& q : qs)
                    if (q.first.verb == "GET")
                        conn(q.second).send(q.first.bytes());
                for (auto& q : qs)
                    if (q.first.verb == "GET")
                        judge(q.first, conn(q.second).read());
                for (auto& q : qs)
                    if (q.first.verb != "GET") {
                        conn(q.second).send(q.first.bytes());
                        judge(q.first, conn(q.second).read());
                    }
            }
            break;
        }
        case 5: {
            auto s = gibberish(c);
            c.log("gibberish of ", s.size());
            ++bads;
            auto x = client{server->port};
            P_CHECK(x.connected(), "cannot connect");
            x.send(s);
            x.no_more();
            auto r = x.read();
            P_CHECK(!x.timed_out, "connection left open after gibberish");
            P_CHECK(r.error(), "status " << r.status << " for gibberish");
            break;
        }
        case 6:
            if (c.flip() && !conns.empty()) {
                c.log("hang up");
                conns[c.below(conns.size())] = nullptr;
                break;
            }
            if (c.flip()) {
                c.log("HEAD and gone");
                auto x = client{server->port};
                P_CHECK(x.connected(), "cannot connect");
                x.send(request("HEAD", c.flip() ? "/" : "/api"));
                x.read(true);
                break;
            }
            [[fallthrough]];
        default: {
            auto q = gen_asked(c, seen().history.size());
            c.log(q.verb, " ", q.target.substr(0, 60));
            auto& x = conn(c.small(3));
            auto s  = q.bytes();
            if (c.chance(1, 6)) { // in pieces
                auto i = c.below(s.size());
                x.send(s.substr(0, i));
                if (c.flip())
                    std::this_thread::yield();
                x.send(s.substr(i));
            } else
                x.send(s);
            judge(q, x.read());
            if (c.flip()) {
                run();
                commit();
                compare();
            }
        }
        }
    }
    run();
    commit();
    compare();
    ask_all();
    if (c.flip()) {
        c.log("server gone");
        server = nullptr; // with connections open
    }
    conns.clear();
    server = nullptr;
    run();
    c.nontrivial(posts >= 2 && gets >= 4 && acts >= 2);
    c.label("refused requests", bads > 0);
    c.label("acts and commands", posts >= 2 && acts >= 2);
}

} // namespace

PBT_TARGET(requests, 4, "two actions, two commands and four reports over HTTP")
{
    if (c.chance(1, 4))
        talk<lager::transactional_tag>(c);
    else
        talk<lager::automatic_tag>(c);
}

namespace {

struct folder
{
    fs::path path;
    folder()
    {
        auto t   = std::getenv("TMPDIR");
        auto s   = std::string{t ? t : "/tmp"} + "/pbt-c20-XXXXXX";
        auto res = ::mkdtemp(s.data());
        if (!res)
            throw std::runtime_error{"no scratch folder"};
        path = res;
    }
    ~folder()
    {
        auto ec = std::error_code{};
        fs::remove_all(path, ec);
    }
};

void put(const fs::path& p, const std::string& bytes)
{
    fs::create_directories(p.parent_path());
    auto o = std::ofstream{p, std::ios::binary};
    o.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
}

std::string content(Case& c)
{
    switch (c.small(4)) {
    case 0:
        return "text\n";
    case 1:
        return "";
    case 2: {
        auto s = std::string{};
        for (int i = 0; i < 256; ++i)
            s += static_cast<char>(i);
        return s + std::to_string(c.below(1000)) + "\r\n\r\n";
    }
    default: {
        auto s = std::string(c.below(200000), 'z');
        return s + std::to_string(c.below(1000));
    }
    }
}

const std::vector<std::string> names{
    "index.html", "main.js",      "style.css",       "a",
    "..a",        "a..b",         "...",             ".hidden",
    "sub/x.json", "sub/deep/y",   "sub/..b/c",       "%2e%2e",
    "sub/z..",    "%2e%2e/inner", "with+plus&=,;@~", "api/undo",
    "noext.",     "a.b.c.png",    "sub/index.html"};

} // namespace

PBT_TARGET(files, 2, "a file served and a path leading out refused")
{
    auto f       = folder{};
    auto app_    = debugged<lager::automatic_tag>{app{}};
    auto inside  = std::vector<std::pair<std::string, std::string>>{};
    auto taken   = [&](const std::string& n) {
        for (auto& i : inside)
            if (i.first == n || i.first.rfind(n + "/", 0) == 0 ||
                n.rfind(i.first + "/", 0) == 0)
                return true;
        return false;
    };
    auto gui = f.path / "root" / "gui";
    fs::create_directories(gui);
    fs::create_directories(f.path / "other");
    fs::create_directories(gui / "dir");
    while (inside.size() < 7 && c.more(4)) {
        auto n = c.pick(names);
        if (taken(n))
            continue;
        inside.emplace_back(n, content(c));
        c.log("file ", n, " of ", inside.back().second.size(), " bytes");
        put(gui / n, inside.back().second);
    }
    const auto secret = std::string{"a secret outside"};
    put(f.path / "secret", secret);
    put(f.path / "index.html", secret);
    put(f.path / "other" / "secret", secret);
    put(f.path / "root2" / "secret", secret);
    put(f.path / "gui" / "secret", secret);
    auto base      = f.path.string();
    auto resources = one_of(c, {
        base + "/root", base + "/root/", base + "/other/../root",
        base + "/./root"});
    c.log("resources ", resources.substr(base.size()));
    auto server = serving{std::vector<std::string>{"prog"}, resources, app_.r.rec->ctx, app_.r.rec->data};
    auto x      = std::make_unique<client>(server.port);
    P_CHECK(x->connected(), "cannot connect");
    auto ask = [&](const std::string& verb, const std::string& target) {
        auto shown = target;
        if (auto i = shown.find(base); i != std::string::npos)
            shown.replace(i, base.size(), "<folder>");
        c.log(verb, " ", shown);
        x->send(request(verb, target));
        auto r = x->read();
        P_CHECK(r.problem.empty(), r.problem);
        P_CHECK(r.body.find(secret) == std::string::npos,
                "a file outside is served for " << shown);
        if (r.status == 0) {
            x = std::make_unique<client>(server.port);
            P_CHECK(x->connected(), "cannot connect");
        }
        return r;
    };
    auto served = 0, refused = 0, n = 0;
    while (n++ < 20 && c.more(8)) {
        switch (c.small(6)) {
        case 0:
            if (!inside.empty()) {
                auto& [name, bytes] = c.pick(inside);
                auto r              = ask("GET", "/" + name);
                P_EQ(r.status, 200, "for " << name << ": " << r.body.substr(0, 100));
                P_CHECK(r.body == bytes, name << " has " << r.body.size()
                                              << " bytes instead of "
                                              << bytes.size());
                ++served;
            }
            break;
        case 1: {
            auto r    = ask("GET", "/");
            auto want = std::find_if(inside.begin(), inside.end(), [](auto& i) {
                return i.first == "index.html";
            });
            if (want == inside.end())
                P_CHECK(r.status >= 400, "status " << r.status << " for no index");
            else {
                P_EQ(r.status, 200, "for the index");
                P_CHECK(r.body == want->second, "the index");
                ++served;
            }
            break;
        }
        case 2: { // nothing there, or no file
            auto target = c.pick(names);
            if (c.chance(1, 4))
                target = one_of(c, {
                    "dir", "dir/", "nothing", "index.htm", "INDEX.HTML", "sub",
                    "index.html/", "index.html/x", "gui/index.html",
                    "root/gui/index.html", "favicon.ico"});
            auto there = false;
            for (auto& i : inside)
                there = there || i.first == target;
            if (there)
                break;
            auto r = ask("GET", "/" + target);
            P_CHECK(r.error(), "status " << r.status << " for missing " << target);
            break;
        }
        case 3: {
            auto verb = one_of(c, {"POST", "PUT", "DELETE"});
            auto name = inside.empty() ? "index.html" : c.pick(inside).first;
            if (name == "api/undo")
                break;
            auto r = ask(verb, "/" + name);
            P_CHECK(r.error(), verb << " " << name << " gives " << r.status);
            break;
        }
        default: { // out of the folder, in one way or another
            auto target = std::string{c.chance(1, 5) ? "" : "/"};
            if (c.chance(1, 10))
                target = "http://localhost/";
            auto k = 0;
            while (k++ < 12 && c.more(4)) {
                if (c.chance(1, 6))
                    target += "/";
                target += c.chance(2, 3)
                              ? std::string{"../"}
                              : one_of(c, {
                                    "./", "sub/", "dir/", "root/", "gui/",
                                    "%2e%2e/", "..%2f", "..\\", "%2e%2e%2f",
                                    "..;/", "a/", ".../", "nothing/", "sub/../",
                                    "dir/../", ".%2e/"});
            }
            switch (c.small(7)) {
            case 0:
                target += "secret";
                break;
            case 1:
                target += "../secret";
                break;
            case 2:
                target += "../../secret";
                break;
            case 3:
                target += "../../root2/secret";
                break;
            case 4:
                target += base + "/secret";
                break;
            case 5:
                target += "../../../gui/secret";
                break;
            default:
                target += inside.empty() ? "index.html" : c.pick(inside).first;
            }
            if (c.chance(1, 8))
                target += one_of(c, {"?x", "#y", "/.", "/.."});
            if (target.empty())
                break;
            auto r = ask("GET", target);
            if (!r.error() && r.status == 200) {
                // then only the file that is meant
                auto path = target.substr(0, target.find_first_of("?#"));
                auto norm = (gui / ("./" + path)).lexically_normal();
                auto ok   = false;
                for (auto& i : inside)
                    ok = ok || (r.body == i.second &&
                                (norm == gui / i.first ||
                                 path.find("%") != std::string::npos ||
                                 path.find(":") != std::string::npos));
                P_CHECK(ok, "served something else for " << target);
            } else
                ++refused;
        }
        }
    }
    // and none of this did anything
    x->send(request("GET", "/api"));
    auto e = wrong_overview(x->read(), "prog", app_.r.rec->data.get());
    P_CHECK(e.empty(), e);
    P_EQ(app_.l.foreign(), 0, "actions dispatched by the server");
    c.nontrivial(served && refused);
}

// Requests while the application goes on: what is told is a state there was,
// not older than what was told before.
PBT_TARGET_N(concurrent_requests, 2, "several clients and actions at a time", 20)
{
    auto init = gen_app(c);
    c.log("application ", show_v(init));
    auto a = debugged<lager::automatic_tag>{init};
    auto states    = std::vector<debugger_t::model>{a.r.rec->data.get()};
    auto published = std::atomic<std::size_t>{0};
    auto server    = std::make_unique<serving>(std::vector<std::string>{"p"},
                                            "/nonexistent-folder",
                                            a.r.rec->ctx,
                                            a.r.rec->data);
    auto data = a.r.rec->data;
    lager::watch(data, [&](const debugger_t::model& m) { states.push_back(m); });

    struct seen
    {
        asked q;
        reply r;
        std::size_t from; // published before it was asked
    };
    std::size_t k = 1 + c.small(3);
    auto scripts = std::vector<std::vector<seen>>(k);
    auto posts   = 0;
    auto gotos   = 0;
    for (std::size_t i = 0; i < k; ++i)
        while (scripts[i].size() < 15 && c.more(6)) {
            auto q = gen_asked(c, 4);
            c.log("client ", i, ": ", q.verb, " ", q.target.substr(0, 60));
            posts += q.what != v_unknown && q.verb == "POST";
            gotos += q.what == v_goto;
            scripts[i].push_back({q, {}, 0});
        }
    auto acts = std::vector<act>{};
    while (acts.size() < 30 && c.more(10)) {
        acts.push_back(gen_act(c));
        c.log(show_v(acts.back()));
    }
    auto busy    = std::atomic<std::size_t>{scripts.size()};
    auto ready   = std::atomic<std::size_t>{0};
    auto threads = std::vector<std::thread>{};
    auto failed  = std::atomic<bool>{false};
    for (auto& s : scripts)
        threads.emplace_back([&, port = server->port] {
            auto x = client{port};
            ++ready;
            if (!x.connected())
                failed = true;
            else
                for (auto& i : s) {
                    i.from = published.load();
                    x.send(i.q.bytes());
                    i.r = x.read();
                }
            --busy;
        });
    while (ready.load() < k)
        std::this_thread::yield();
    auto step = [&] {
        auto r = a.l.step();
        if (r)
            published.store(states.size() - 1);
        return r;
    };
    for (auto& x : acts) {
        a.store.dispatch(x);
        step();
    }
    while (busy.load())
        if (!step())
            std::this_thread::yield();
    for (auto& t : threads)
        t.join();
    while (step())
        ;
    P_CHECK(!failed.load(), "cannot connect");
    // (a goto beyond the history may be refused)
    P_CHECK(a.l.foreign() <= posts && a.l.foreign() >= posts - gotos,
            "the server dispatched " << a.l.foreign() << " actions for "
                                     << posts << " commands");
    auto gets = 0;
    for (std::size_t i = 0; i < k; ++i) {
        auto at = std::size_t{};
        for (auto& s : scripts[i]) {
            P_CHECK(s.r.status != 0 && s.r.problem.empty(),
                    "client " << i << ": no answer to " << s.q.target << " "
                              << s.r.problem);
            at = std::max(at, s.from);
            switch (s.q.what) {
            case v_overview:
            case v_step: {
                ++gets;
                auto first = std::string{};
                auto found = false;
                for (auto j = at; j < states.size() && !found; ++j) {
                    auto e = s.q.what == v_overview
                                 ? wrong_overview(s.r, "p", states[j])
                                 : wrong_step(s.r, s.q.arg, states[j]);
                    if (e.empty()) {
                        found = true;
                        at    = j;
                    } else if (first.empty())
                        first = e;
                }
                P_CHECK(found, "client " << i << ", " << s.q.target
                                         << ": told no state from " << at
                                         << " on, " << first);
                break;
            }
            case v_unknown:
                P_CHECK(s.r.status >= 400, s.q.verb << " " << s.q.target);
                break;
            default:
                P_CHECK(s.q.what == v_goto || s.r.status / 100 == 2,
                        s.q.verb << " " << s.q.target << " gives " << s.r.status);
            }
        }
    }
    server = nullptr;
    c.nontrivial(k >= 2 && gets >= 3 && posts >= 1 && acts.size() >= 3);
}
