// C21: saving and loading gives back what was saved.
#pragma once

#include "c21.hpp"

namespace {

template <typename A, typename T>
void round_trip(Case& c)
{
    auto r    = room{};
    auto x    = ty<T>::make(c, r);
    auto held = text_of(x);
    c.log(A::name, " ", boost::core::demangle(typeid(T).name()), ": ", held);
    auto doc = save<A>(x);
    c.nontrivial(held.size() > 12);
    P_EQ(text_of(x), held, "saving changed the value");
    // into an empty one
    {
        auto y = T{};
        load<A>(doc, y);
        P_EQ(text_of(y), held);
        P_CHECK(x == y && !(x != y));
        // what was loaded saves as the same document, if the order is the same
        auto again = save<A>(y);
        auto z     = T{};
        load<A>(again, z);
        P_CHECK(z == x);
    }
    // over something else
    auto r2 = room{20};
    auto y  = ty<T>::make(c, r2);
    c.log("over ", text_of(y));
    auto keep      = y;
    auto keep_text = text_of(keep);
    load<A>(doc, y);
    P_EQ(text_of(y), held);
    P_CHECK(x == y);
    P_EQ(text_of(keep), keep_text, "loading changed a copy of the old value");
    // several in a row
    if (c.chance(1, 3)) {
        auto n    = c.integer();
        auto doc2 = save<A>(x, n, keep);
        auto a    = T{};
        auto b    = T{};
        auto m    = 0;
        load<A>(doc2, a, m, b);
        P_CHECK(a == x && m == n && b == keep);
    }
    // does not depend on the history of a sequence
    if constexpr (requires { ty<T>::rebuilt(c, x); }) {
        auto w = ty<T>::rebuilt(c, x);
        P_CHECK(w == x);
        P_EQ(save<A>(w), doc);
    }
    if constexpr (std::is_same_v<A, json_archive>) {
        auto d    = json_reader{doc}.whole();
        auto want = dom::obj().put("value0", ty<T>::dom_of(x));
        P_CHECK(agree(d, want), doc << "\nrather than\n" << write(want));
        // under a name
        {
            std::ostringstream os;
            {
                cereal::JSONOutputArchive ar{os};
                ar(cereal::make_nvp("before", 3), cereal::make_nvp("it", x));
            }
            auto y2 = keep;
            std::istringstream is{os.str()};
            cereal::JSONInputArchive ar{is};
            ar(cereal::make_nvp("it", y2));
            P_CHECK(y2 == x);
        }
    }
}

// without anything around
template <typename T>
void inline_json(Case& c)
{
    auto r   = room{};
    auto x   = ty<T>::make(c, r);
    auto doc = lager::to_json(x);
    c.log("inline ", doc);
    c.nontrivial(text_of(x).size() > 12);
    auto d = json_reader{doc}.whole();
    P_CHECK(agree(d, ty<T>::dom_of(x)),
            doc << "\nrather than\n"
                << text_of(x));
    auto y = lager::from_json<T>(doc);
    P_CHECK(x == y);
    P_EQ(text_of(x), text_of(y));
}

template <typename T>
void all_archives(Case& c)
{
    switch (c.below(3)) {
    case 0:
        return round_trip<json_archive, T>(c);
    case 1:
        return round_trip<binary_archive, T>(c);
    default:
        return round_trip<portable_archive, T>(c);
    }
}

template <template <typename> class F, typename... Ts>
void one_of(Case& c)
{
    auto k = c.below(sizeof...(Ts));
    auto i = 0u;
    ((i++ == k ? (F<Ts>{}(c), 0) : 0), ...);
}
template <typename T>
struct do_all
{
    void operator()(Case& c) const { all_archives<T>(c); }
};
template <typename T>
struct do_inline
{
    void operator()(Case& c) const { inline_json<T>(c); }
};

} // namespace
