// A small JSON reader and writer of our own, to look into saved documents and
// to make up documents that no one saved.
#pragma once

#include <cassert>

#include <algorithm>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace {

struct dom
{
    enum kind_t
    {
        null,
        boolean,
        number,
        text,
        array,
        bag, // an array in any order
        object
    };
    kind_t kind = null;
    std::string s; // number or text
    bool b = false;
    std::vector<dom> items;
    std::vector<std::string> keys; // of objects

    static dom num(long long x)
    {
        auto d = dom{number, std::to_string(x), false, {}, {}};
        return d;
    }
    static dom str(std::string x)
    {
        return dom{text, std::move(x), false, {}, {}};
    }
    static dom boo(bool x) { return dom{boolean, {}, x, {}, {}}; }
    static dom arr() { return dom{array, {}, false, {}, {}}; }
    static dom any_order() { return dom{bag, {}, false, {}, {}}; }
    static dom obj() { return dom{object, {}, false, {}, {}}; }
    dom& put(std::string k, dom v)
    {
        keys.push_back(std::move(k));
        items.push_back(std::move(v));
        return *this;
    }
    dom& add(dom v)
    {
        items.push_back(std::move(v));
        return *this;
    }
};

inline void write_string(std::string& o, const std::string& s)
{
    o += '"';
    for (auto ch : s) {
        auto u = static_cast<unsigned char>(ch);
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (u < 0x20) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", u);
            o += b;
        } else
            o += ch;
    }
    o += '"';
}

inline void write(std::string& o, const dom& d)
{
    switch (d.kind) {
    case dom::null:
        o += "null";
        break;
    case dom::boolean:
        o += d.b ? "true" : "false";
        break;
    case dom::number:
        o += d.s;
        break;
    case dom::text:
        write_string(o, d.s);
        break;
    case dom::array:
    case dom::bag:
        o += '[';
        for (auto i = 0u; i < d.items.size(); ++i) {
            if (i)
                o += ',';
            write(o, d.items[i]);
        }
        o += ']';
        break;
    case dom::object:
        o += '{';
        for (auto i = 0u; i < d.items.size(); ++i) {
            if (i)
                o += ',';
            write_string(o, d.keys[i]);
            o += ':';
            write(o, d.items[i]);
        }
        o += '}';
        break;
    }
}
inline std::string write(const dom& d)
{
    auto o = std::string{};
    write(o, d);
    return o;
}

struct bad_json : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct json_reader
{
    const std::string& t;
    std::size_t i = 0;

    void space()
    {
        while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' ||
                                t[i] == '\r'))
            ++i;
    }
    [[noreturn]] void bad() { throw bad_json{"at " + std::to_string(i)}; }
    void want(const char* w)
    {
        for (; *w; ++w, ++i)
            if (i >= t.size() || t[i] != *w)
                bad();
    }
    std::string string()
    {
        auto r = std::string{};
        want("\"");
        while (true) {
            if (i >= t.size())
                bad();
            auto ch = t[i++];
            if (ch == '"')
                return r;
            if (ch != '\\') {
                r += ch;
                continue;
            }
            if (i >= t.size())
                bad();
            ch = t[i++];
            switch (ch) {
            case 'n':
                r += '\n';
                break;
            case 't':
                r += '\t';
                break;
            case 'r':
                r += '\r';
                break;
            case 'b':
                r += '\b';
                break;
            case 'f':
                r += '\f';
                break;
            case 'u': {
                if (i + 4 > t.size())
                    bad();
                auto x = std::strtol(t.substr(i, 4).c_str(), nullptr, 16);
                i += 4;
                if (x >= 0x80)
                    bad(); // not needed here
                r += static_cast<char>(x);
                break;
            }
            default:
                r += ch;
            }
        }
    }
    dom value()
    {
        space();
        if (i >= t.size())
            bad();
        switch (t[i]) {
        case '{': {
            auto d = dom::obj();
            ++i;
            space();
            if (i < t.size() && t[i] == '}') {
                ++i;
                return d;
            }
            while (true) {
                space();
                auto k = string();
                space();
                want(":");
                d.put(std::move(k), value());
                space();
                if (i < t.size() && t[i] == ',') {
                    ++i;
                    continue;
                }
                want("}");
                return d;
            }
        }
        case '[': {
            auto d = dom::arr();
            ++i;
            space();
            if (i < t.size() && t[i] == ']') {
                ++i;
                return d;
            }
            while (true) {
                d.add(value());
                space();
                if (i < t.size() && t[i] == ',') {
                    ++i;
                    continue;
                }
                want("]");
                return d;
            }
        }
        case '"':
            return dom::str(string());
        case 't':
            want("true");
            return dom::boo(true);
        case 'f':
            want("false");
            return dom::boo(false);
        case 'n':
            want("null");
            return dom{};
        default: {
            auto from = i;
            while (i < t.size() &&
                   (std::isdigit(static_cast<unsigned char>(t[i])) ||
                    std::string{"+-.eE"}.find(t[i]) != std::string::npos))
                ++i;
            if (i == from)
                bad();
            return dom{dom::number, t.substr(from, i - from), false, {}, {}};
        }
        }
    }
    dom whole()
    {
        auto d = value();
        space();
        if (i != t.size())
            bad();
        return d;
    }
};

inline bool agree(const dom& got, const dom& want)
{
    if (want.kind == dom::bag) {
        if (got.kind != dom::array || got.items.size() != want.items.size())
            return false;
        auto used = std::vector<bool>(want.items.size());
        for (auto const& g : got.items) {
            auto found = false;
            for (auto i = 0u; i < want.items.size() && !found; ++i)
                if (!used[i] && agree(g, want.items[i]))
                    used[i] = found = true;
            if (!found)
                return false;
        }
        return true;
    }
    if (got.kind != want.kind || got.items.size() != want.items.size() ||
        got.keys != want.keys)
        return false;
    if (got.kind == dom::number)
        return got.s == want.s || std::strtod(got.s.c_str(), nullptr) ==
                                      std::strtod(want.s.c_str(), nullptr);
    if (got.kind == dom::text && got.s != want.s)
        return false;
    if (got.kind == dom::boolean && got.b != want.b)
        return false;
    for (auto i = 0u; i < got.items.size(); ++i)
        if (!agree(got.items[i], want.items[i]))
            return false;
    return true;
}

} // namespace
