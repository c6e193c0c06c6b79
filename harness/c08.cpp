// C08: writing through a cursor updates exactly its focus in the roots.
#include <cassert>
#include "graph.hpp"

using graph::options;
using graph::world;
namespace cls = graph::check_class;
using pbt::Case;

PBT_TARGET(graph_cursors, 4,
           "writes went through two or more lenses or a merge")
{
    options o;
    o.check         = cls::root_values;
    o.write_weight  = 10;
    o.derive_weight = 6;
    o.watch_weight  = 1;
    o.only_cursors  = true;
    world w{c, o};
    w.run();
    c.nontrivial(w.composed_writes + w.merged_writes >= 2 &&
                 w.publications >= 1);
    c.label("write to a merged cursor", w.merged_writes > 0);
    c.label("update of a value with pending writes", w.stale_updates > 0);
    c.label("height >= 4", w.max_height >= 4);
}
