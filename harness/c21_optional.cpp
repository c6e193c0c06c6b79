// C21: members left out of a document, with an archive that can tell.
//
// The archive of this file reads a document tree and offers `hasName`, like
// the one of a patched cereal.
#include "c21.hpp"

#include <cstring>

namespace domar {

class dom_out
    : public cereal::OutputArchive<dom_out>
    , public cereal::traits::TextArchive
{
public:
    dom_out()
        : cereal::OutputArchive<dom_out>{this}
    {
    }
};

class dom_in
    : public cereal::InputArchive<dom_in>
    , public cereal::traits::TextArchive
{
public:
    explicit dom_in(const dom& root)
        : cereal::InputArchive<dom_in>{this}
    {
        stack_.push_back({&root, 0});
    }
    bool hasName(const char* name) const
    {
        auto& n = *stack_.back().node;
        return n.kind == dom::object &&
               std::find(n.keys.begin(), n.keys.end(), name) != n.keys.end();
    }
    void name(const char* n) { name_ = n; }
    const dom& next()
    {
        auto& at = stack_.back();
        auto& n  = *at.node;
        if (name_) {
            auto k = std::exchange(name_, nullptr);
            for (auto i = 0u; i < n.keys.size(); ++i)
                if (n.keys[i] == k)
                    return n.items[i];
            throw cereal::Exception{std::string{"no member "} + k};
        }
        if (at.index >= n.items.size())
            throw cereal::Exception{"no more elements"};
        return n.items[at.index++];
    }
    void enter() { stack_.push_back({&next(), 0}); }
    void leave() { stack_.pop_back(); }
    std::size_t size() const { return stack_.back().node->items.size(); }

private:
    struct place
    {
        const dom* node;
        std::size_t index;
    };
    std::vector<place> stack_;
    const char* name_ = nullptr;
};

template <typename T>
void prologue(dom_in&, const cereal::NameValuePair<T>&)
{
}
template <typename T>
void epilogue(dom_in&, const cereal::NameValuePair<T>&)
{
}
template <typename T>
void prologue(dom_in&, const cereal::SizeTag<T>&)
{
}
template <typename T>
void epilogue(dom_in&, const cereal::SizeTag<T>&)
{
}
template <typename T>
constexpr bool is_scalar_v =
    std::is_arithmetic_v<T> || std::is_same_v<T, std::string> ||
    std::is_enum_v<T>;
template <typename T>
void prologue(dom_in& ar, const T&)
{
    if constexpr (!is_scalar_v<T>)
        ar.enter();
}
template <typename T>
void epilogue(dom_in& ar, const T&)
{
    if constexpr (!is_scalar_v<T>)
        ar.leave();
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(dom_in& ar, cereal::NameValuePair<T>& t)
{
    ar.name(t.name);
    ar(t.value);
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(dom_in& ar, cereal::SizeTag<T>& t)
{
    t.size = ar.size();
}
template <typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
void CEREAL_LOAD_FUNCTION_NAME(dom_in& ar, T& x)
{
    auto& d = ar.next();
    if constexpr (std::is_same_v<T, bool>)
        x = d.b;
    else
        x = static_cast<T>(std::strtod(d.s.c_str(), nullptr));
}
inline void CEREAL_LOAD_FUNCTION_NAME(dom_in& ar, std::string& x)
{
    x = ar.next().s;
}

} // namespace domar
CEREAL_SETUP_ARCHIVE_TRAITS(domar::dom_in, domar::dom_out)

namespace ns {
struct partial
{
    int a;
    std::string snake_b;
    point inner;
    bool flag;
    color hue;
};
struct partial_camel
{
    static constexpr auto serialize_camel_case = true;
    int a_one;
    partial b_two;
    double C_THREE;
};
struct partial_item
{
    int id;
    double weight;
    bool flag;
};
struct holder
{
    immer::vector<partial> seq;
    immer::flex_vector<point> flex;
    immer::array<partial_item> arr;
    immer::box<partial_item> one;
    immer::map<int, partial_item> by_id;
    immer::map<std::string, partial_item> by_key;
    immer::vector<immer::box<partial_item>> boxes;
    std::variant<std::monostate, partial_item> var;
    partial_camel in_camel;
};
} // namespace ns
LAGER_STRUCT(ns, partial, a, snake_b, inner, flag, hue);
LAGER_STRUCT(ns, partial_camel, a_one, b_two, C_THREE);
LAGER_STRUCT(ns, partial_item, id, weight, flag);
LAGER_STRUCT(ns, holder, seq, flex, arr, one, by_id, by_key, boxes, var, in_camel);

namespace {

#define L_PARTIAL(M)                                                           \
    M(a, "a") M(snake_b, "snake_b") M(inner, "inner") M(flag, "flag")          \
        M(hue, "hue")
#define L_PCAMEL(M) M(a_one, "aOne") M(b_two, "bTwo") M(C_THREE, "cThree")
#define L_PITEM(M) M(id, "id") M(weight, "weight") M(flag, "flag")
#define L_HOLDER(M)                                                            \
    M(seq, "seq") M(flex, "flex") M(arr, "arr") M(one, "one")                  \
        M(by_id, "by_id") M(by_key, "by_key") M(boxes, "boxes") M(var, "var")  \
            M(in_camel, "in_camel")
TY_STRUCT(ns::partial, L_PARTIAL);
TY_STRUCT(ns::partial_camel, L_PCAMEL);
template <>
struct map_form<int, ns::partial_item>;
TY_STRUCT(ns::partial_item, L_PITEM);
template <>
struct map_form<int, ns::partial_item>
{
    static dom dom_of(int, const ns::partial_item& x)
    {
        return ty<ns::partial_item>::dom_of(x);
    }
    static int key(Case&, room&, const ns::partial_item& x) { return x.id; }
};
TY_STRUCT(ns::holder, L_HOLDER);

// What a document with members left out should give.  `base` is the document
// of the value it is loaded over; new elements start from zero.
dom fresh(const dom& like)
{
    auto d = like;
    switch (d.kind) {
    case dom::number:
        d.s = "0";
        break;
    case dom::text:
        d.s = d.s == "red" || d.s == "green" || d.s == "dark_blue" ? "red" : "";
        break;
    case dom::boolean:
        d.b = false;
        break;
    case dom::array:
    case dom::bag:
        d.items.clear();
        break;
    default:
        for (auto& i : d.items)
            i = fresh(i);
    }
    return d;
}

// names that are always there: what is not a member of a reflected struct,
// and the keys of maps
bool structural(const dom& o)
{
    return o.keys == std::vector<std::string>{"key", "value"} ||
           o.keys == std::vector<std::string>{"value"} ||
           o.keys == std::vector<std::string>{"type", "data"};
}

// leaves members out of `d` and tells the outcome in `want` (which comes as
// the base with the same shape as far as it goes)
void leave_out(Case& c, dom& d, dom& want, bool top, int& dropped)
{
    switch (d.kind) {
    case dom::array:
    case dom::bag: {
        want       = d;
        want.items = d.items;
        for (auto i = 0u; i < d.items.size(); ++i) {
            auto w = fresh(d.items[i]);
            leave_out(c, d.items[i], w, false, dropped);
            want.items[i] = w;
        }
        break;
    }
    case dom::object: {
        if (structural(d)) {
            // all of it is new
            auto w = fresh(d);
            for (auto i = 0u; i < d.items.size(); ++i)
                leave_out(c, d.items[i], w.items[i], false, dropped);
            want = w;
            break;
        }
        if (want.kind != dom::object || want.keys != d.keys)
            want = fresh(d);
        auto keys  = std::vector<std::string>{};
        auto items = std::vector<dom>{};
        for (auto i = 0u; i < d.items.size(); ++i) {
            if (d.keys[i] != "id" && c.chance(1, 4)) {
                ++dropped;
                continue;
            }
            leave_out(c, d.items[i], want.items[i], false, dropped);
            keys.push_back(d.keys[i]);
            items.push_back(d.items[i]);
        }
        d.keys  = keys;
        d.items = items;
        break;
    }
    default:
        want = d;
    }
    (void) top;
}

template <typename T>
void partly(Case& c)
{
    auto r       = room{20};
    auto x       = ty<T>::make(c, r);
    auto over    = ty<T>::make(c, r);
    auto doc     = ty<T>::dom_of(x);
    auto want    = ty<T>::dom_of(over);
    auto dropped = 0;
    leave_out(c, doc, want, true, dropped);
    c.nontrivial(dropped > 0);
    c.log("over ", text_of(over), "\nload ", write(doc));
    auto root = dom::arr().add(doc);
    domar::dom_in ar{root};
    ar(over);
    P_EQ(text_of(over), write(canonical(want)));
    // members given in another order
    auto shuffled = ty<T>::dom_of(x);
    std::reverse(shuffled.items.begin(), shuffled.items.end());
    std::reverse(shuffled.keys.begin(), shuffled.keys.end());
    root = dom::arr().add(shuffled);
    domar::dom_in ar2{root};
    ar2(over);
    P_CHECK(over == x);
}

} // namespace

PBT_TARGET(members_left_out, 4, "something was left out")
{
    switch (c.below(4)) {
    case 0:
        return partly<ns::partial>(c);
    case 1:
        return partly<ns::partial_camel>(c);
    case 2:
        return partly<ns::partial_item>(c);
    default:
        return partly<ns::holder>(c);
    }
}
