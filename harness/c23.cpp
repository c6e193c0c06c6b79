#include "c23.hpp"

// -- plain structs ------------------------------------------------------------

namespace ns {
struct empty
{};
struct one
{
    int a;
};
struct pair_of
{
    int a;
    std::string b;
};
struct five
{
    bool flag;
    double number;
    std::string text;
    unsigned char small;
    hue color;
};
struct holds
{
    pair_of first;
    std::optional<int> second;
    five third;
    one fourth;
};
// members whose order matters, of the same type
struct same_types
{
    int a, b, c, d;
};
} // namespace ns
LAGER_DERIVE((EQ, HANA, HASH), ns, empty);
LAGER_DERIVE((HASH, HANA, EQ), ns, one, a);
LAGER_DERIVE((EQ, HANA, HASH, SIZE_CHECK), ns, pair_of, a, b);
LAGER_DERIVE((EQ, HANA, HASH), ns, five, flag, number, text, small, color);
LAGER_DERIVE((EQ, HANA, HASH), ns, holds, first, second, third, fourth);
LAGER_DERIVE((EQ, HANA, HASH), ns, same_types, a, b, c, d);

namespace {
#define LIST_NONE(M)
#define LIST_ONE(M) M(a)
#define LIST_PAIR(M) M(a) M(b)
#define LIST_FIVE(M) M(flag) M(number) M(text) M(small) M(color)
#define LIST_HOLDS(M) M(first) M(second) M(third) M(fourth)
#define LIST_SAME(M) M(a) M(b) M(c) M(d)
MEMBERS(ns::empty, LIST_NONE);
MEMBERS(ns::one, LIST_ONE);
MEMBERS(ns::pair_of, LIST_PAIR);
MEMBERS(ns::five, LIST_FIVE);
MEMBERS(ns::holds, LIST_HOLDS);
MEMBERS(ns::same_types, LIST_SAME);
} // namespace

PBT_TARGET(plain_equality, 6, "a member was altered")
{
    switch (c.below(6)) {
    case 0:
        return equality<ns::empty>(c);
    case 1:
        return equality<ns::one>(c);
    case 2:
        return equality<ns::pair_of>(c);
    case 3:
        return equality<ns::five>(c);
    case 4:
        return equality<ns::holds>(c);
    default:
        return equality<ns::same_types>(c);
    }
}
PBT_TARGET(plain_reflection, 4, "more than one member")
{
    switch (c.below(6)) {
    case 0:
        return reflection<ns::empty>(c);
    case 1:
        return reflection<ns::one>(c);
    case 2:
        return reflection<ns::pair_of>(c);
    case 3:
        return reflection<ns::five>(c);
    case 4:
        return reflection<ns::holds>(c);
    default:
        return reflection<ns::same_types>(c);
    }
}
