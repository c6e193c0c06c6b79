// many members; in nested namespaces; only the combined macros
#include "c23.hpp"

namespace outer::inner {
struct big
{
    int m1;
    std::string m2;
    short m3;
    bool m4;
    unsigned long m5;
    double m6;
    std::optional<std::string> m7;
    int m8;
    hue m9;
    int m10;
    std::string m11;
    unsigned char m12;
    short m13;
    int m14;
    bool m15;
    std::string m16;
    int m17;
    int m18;
};
struct structured
{
    int snake_case_name;
    std::vector<int> numbers;
    std::string TEXT;
};
struct structured_empty
{};
struct wrapper
{
    std::vector<structured> all;
    structured_empty nothing;
    std::optional<structured> maybe;
};
} // namespace outer::inner
LAGER_DERIVE((EQ, HASH, HANA), outer::inner, big, m1, m2, m3, m4, m5, m6, m7, m8,
             m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
LAGER_STRUCT(outer::inner, structured, snake_case_name, numbers, TEXT);
LAGER_STRUCT(outer::inner, structured_empty);
LAGER_STRUCT(outer::inner, wrapper, all, nothing, maybe);

namespace {
#define LIST_BIG(M)                                                            \
    M(m1) M(m2) M(m3) M(m4) M(m5) M(m6) M(m7) M(m8) M(m9) M(m10) M(m11) M(m12) \
        M(m13) M(m14) M(m15) M(m16) M(m17) M(m18)
#define LIST_STRUCTURED(M) M(snake_case_name) M(numbers) M(TEXT)
#define LIST_NONE(M)
#define LIST_WRAPPER(M) M(all) M(nothing) M(maybe)
using outer::inner::big;
using outer::inner::structured;
using outer::inner::structured_empty;
using outer::inner::wrapper;
MEMBERS(big, LIST_BIG);
MEMBERS(structured, LIST_STRUCTURED);
MEMBERS(structured_empty, LIST_NONE);
MEMBERS(wrapper, LIST_WRAPPER);
} // namespace

PBT_TARGET(big_equality, 2, "a member was altered") { equality<big>(c); }
PBT_TARGET(big_reflection, 1, "more than one member") { reflection<big>(c); }
PBT_TARGET(struct_equality, 2, "a member was altered")
{
    switch (c.below(3)) {
    case 0:
        return equality<structured>(c);
    case 1:
        return equality<structured_empty>(c);
    default:
        return equality<wrapper>(c);
    }
}
PBT_TARGET(struct_reflection, 2, "more than one member")
{
    switch (c.below(3)) {
    case 0:
        return reflection<structured>(c);
    case 1:
        return reflection<structured_empty>(c);
    default:
        return reflection<wrapper>(c);
    }
}
