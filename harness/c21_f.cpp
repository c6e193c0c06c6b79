#include "c21_check.hpp"

PBT_TARGET(variants, 4, "a document longer than 12 characters")
{
    one_of<do_all,
           var_a,
           var_b,
           var_n,
           std::optional<var_a>>(c);
}
PBT_TARGET(inline_variants, 1, "a document longer than 12 characters")
{
    one_of<do_inline,
           var_a,
           var_n>(c);
}
