// C11: lenses into absent or optional parts are safe and never lose data.
#include <cassert>
#include "c11.hpp"
using pbt::Case;
using namespace lt;

#define RULE "the part set differs from the part viewed"

template <typename W, typename K>
static void containers(Case& c, K k)
{
    using P = typename access_<W>::P;
    c.log("key ", k);
    switch (c.below(3)) {
    case 0:
        return check_partial(c, L::at(k), ref_at<W>(k));
    case 1:
        return check_lens(c, L::at_or(k), ref_at_or<W>(k, P{}), false);
    default:
        auto def = P{};
        gen(c, def);
        return check_lens(c, L::at_or(k, def), ref_at_or<W>(k, def), false);
    }
}

PBT_TARGET(sequences, 4, RULE)
{
    auto k = gen_index(c);
    switch (c.below(5)) {
    case 0:
        return containers<std::vector<In>>(c, k);
    case 1:
        return containers<immer::vector<In>>(c, k);
    case 2:
        return containers<immer::flex_vector<std::string>>(c, k);
    case 3:
        return containers<std::vector<std::string>>(c, static_cast<int>(k));
    default:
        return containers<std::array<In, 2>>(c, k);
    }
}
PBT_TARGET(maps, 4, RULE)
{
    auto k = gen_key(c);
    switch (c.below(3)) {
    case 0:
        return containers<std::map<int, In>>(c, k);
    case 1:
        return containers<immer::map<int, In>>(c, k);
    default:
        return containers<std::unordered_map<std::string, std::string>>(
            c, std::string(1, static_cast<char>('a' + k % 5)));
    }
}
