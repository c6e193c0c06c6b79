// C04: uncommitted writes stay invisible until commit, then all appear at once.
#include <cassert>
#include "graph.hpp"
#include "graph_probes.hpp"

using graph::options;
using graph::world;
namespace cls = graph::check_class;
using pbt::Case;

PBT_TARGET(isolated_writes, 6,
           "writes were pending across a commit of other roots or several "
           "writes composed before one commit, with watchers or derived "
           "readers present")
{
    options o;
    o.check         = cls::isolation | cls::root_values;
    o.write_weight  = 8;
    o.derive_weight = 4;
    world w{c, o};
    w.run();
    c.nontrivial(w.pending_writes >= 2 && w.publications >= 1 &&
                 (w.notified || w.max_height));
    c.label("update of a value with pending writes", w.stale_updates > 0);
    c.label("write through two or more lenses", w.composed_writes > 0);
    c.label("write to a merged cursor", w.merged_writes > 0);
    c.label("commit of several changed roots", w.multi_commits > 0);
    c.label("commit with nothing pending", w.noop_commits > 0);
    c.label("watchers invoked", w.notified > 0);
}

PBT_TARGET(overlapping_cursors, 4,
           "two or more writes composed on the pending value of overlapping "
           "cursors before a commit")
{
    options o;
    o.check         = cls::isolation | cls::root_values;
    o.write_weight  = 12;
    o.derive_weight = 4;
    o.only_cursors  = true;
    world w{c, o};
    w.run();
    c.nontrivial(w.pending_writes >= 2 && w.composed_writes &&
                 w.publications >= 1);
    c.label("update of a value with pending writes", w.stale_updates > 0);
    c.label("write to a merged cursor", w.merged_writes > 0);
}

PBT_TARGET(writing_watchers, 3,
           "a watcher wrote to a transactional root during a commit")
{
    options o;
    o.check          = cls::isolation | cls::root_values;
    o.watcher_writes = true;
    o.watch_weight   = 6;
    world w{c, o};
    w.run();
    c.nontrivial(w.watcher_acts > 0);
}

PBT_PROBE(partial_commit) { return graph_probes::partial_commit_leaks(); }
