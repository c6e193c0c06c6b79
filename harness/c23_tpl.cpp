// templates, nested structs, and combinations of these
#include "c23.hpp"

namespace ns {
template <typename A, typename B>
struct tpl
{
    A a;
    B b;
};
template <typename A>
struct tpl_one
{
    A value;
};
template <typename A>
struct tpl_empty
{};
template <typename A, int N, typename B>
struct tpl_three
{
    B first;
    int second;
    A third;
};
template <typename A>
struct tpl_struct
{
    A x;
    std::vector<A> y;
    int z;
};
template <typename A>
struct host
{
    struct nested
    {
        A a;
        int b;
        std::string c;
        LAGER_DERIVE_NESTED((EQ, HANA), nested, a, b, c);
    };
    struct nothing
    {
        LAGER_DERIVE_NESTED((HANA, EQ), nothing);
    };
    template <typename B>
    struct deeper
    {
        B b;
        A a;
        LAGER_STRUCT_NESTED(deeper, b, a);
    };
};
} // namespace ns
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), ns, (class A, class B), (tpl<A, B>), a, b);
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), ns, (class A), (tpl_one<A>), value);
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), ns, (class A), (tpl_empty<A>));
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), ns, (class A, int N, class B),
                      (tpl_three<A, N, B>), first, second, third);
LAGER_STRUCT_TEMPLATE(ns, (class A), (tpl_struct<A>), x, y, z);

// not in a namespace
struct unnamed_host
{
    struct nested
    {
        int x;
        std::string y;
        LAGER_STRUCT_NESTED(nested, x, y);
    };
    nested n;
    std::optional<nested> o;
    double d;
    LAGER_STRUCT_NESTED(unnamed_host, n, o, d);
};

namespace {
#define LIST_NONE(M)
#define LIST_AB(M) M(a) M(b)
#define LIST_BA(M) M(b) M(a)
#define LIST_VALUE(M) M(value)
#define LIST_THREE(M) M(first) M(second) M(third)
#define LIST_XYZ(M) M(x) M(y) M(z)
#define LIST_ABC(M) M(a) M(b) M(c)
#define LIST_XY(M) M(x) M(y)
#define LIST_NOD(M) M(n) M(o) M(d)
using t_is = ns::tpl<int, std::string>;
using t_di = ns::tpl<double, int>;
using t_tt = ns::tpl<t_is, ns::tpl_one<int>>;
using o_t  = ns::tpl_one<std::optional<int>>;
using o_i  = ns::tpl_one<int>;
using e_t  = ns::tpl_empty<int>;
using h_t  = ns::tpl_three<std::string, 7, unsigned long>;
using s_t  = ns::tpl_struct<std::string>;
using n_t  = ns::host<t_is>::nested;
using n_e  = ns::host<int>::nothing;
using n_d  = ns::host<int>::deeper<std::string>;
using u_n  = unnamed_host::nested;
MEMBERS(t_is, LIST_AB);
MEMBERS(t_di, LIST_AB);
MEMBERS(t_tt, LIST_AB);
MEMBERS(o_t, LIST_VALUE);
MEMBERS(o_i, LIST_VALUE);
MEMBERS(e_t, LIST_NONE);
MEMBERS(h_t, LIST_THREE);
MEMBERS(s_t, LIST_XYZ);
MEMBERS(n_t, LIST_ABC);
MEMBERS(n_e, LIST_NONE);
MEMBERS(n_d, LIST_BA);
MEMBERS(u_n, LIST_XY);
MEMBERS(unnamed_host, LIST_NOD);

#define EVERY(f)                                                               \
    switch (c.below(12)) {                                                     \
    case 0:                                                                    \
        return f<t_is>(c);                                                     \
    case 1:                                                                    \
        return f<t_di>(c);                                                     \
    case 2:                                                                    \
        return f<t_tt>(c);                                                     \
    case 3:                                                                    \
        return f<o_t>(c);                                                      \
    case 4:                                                                    \
        return f<e_t>(c);                                                      \
    case 5:                                                                    \
        return f<h_t>(c);                                                      \
    case 6:                                                                    \
        return f<s_t>(c);                                                      \
    case 7:                                                                    \
        return f<n_t>(c);                                                      \
    case 8:                                                                    \
        return f<n_e>(c);                                                      \
    case 9:                                                                    \
        return f<n_d>(c);                                                      \
    case 10:                                                                   \
        return f<u_n>(c);                                                      \
    default:                                                                   \
        return f<unnamed_host>(c);                                             \
    }
} // namespace

PBT_TARGET(template_equality, 6, "a member was altered") { EVERY(equality) }
PBT_TARGET(template_reflection, 4, "more than one member")
{
    EVERY(reflection)
}
