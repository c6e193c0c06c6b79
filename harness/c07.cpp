// C07: watchers only ever observe a consistent, fully propagated world.
#include <cassert>
#include "graph.hpp"
#include "graph_probes.hpp"

using graph::options;
using graph::world;
namespace cls = graph::check_class;
using pbt::Case;

static void stats(Case& c, const world& w)
{
    c.label("value reached through several paths", w.diamonds > 0);
    c.label("commit of several changed roots", w.multi_commits > 0);
    c.label("a watcher wrote", w.watcher_acts > 0);
}

PBT_TARGET(consistency, 6,
           "the whole world was read from inside watchers, several roots or "
           "derived readers changing together")
{
    options o;
    o.check        = cls::in_watcher;
    o.watch_weight = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.observed >= 2 && (w.multi_commits || w.max_height >= 2));
    stats(c, w);
}

PBT_TARGET(pending_from_watchers, 3,
           "a watcher wrote to a transactional root and the world was read "
           "afterwards")
{
    options o;
    o.check          = cls::in_watcher;
    o.watcher_writes = true;
    o.watch_weight   = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.watcher_acts > 0 && w.observed >= 2);
    stats(c, w);
}

PBT_TARGET(updates_from_watchers, 3,
           "a watcher updated an automatic root and the world was read in "
           "the nested notifications and afterwards")
{
    options o;
    o.check        = cls::in_watcher;
    o.watcher_auto = true;
    o.watch_weight = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.watcher_acts > 0 && w.observed >= 2);
    stats(c, w);
}

PBT_TARGET(reshaping_watchers, 3,
           "a watcher derived or dropped readers in the middle of a "
           "publication and the world was read afterwards")
{
    options o;
    o.check            = cls::in_watcher;
    o.watcher_reshapes = true;
    o.watch_weight     = 8;
    o.derive_weight    = 6;
    world w{c, o};
    w.run();
    c.nontrivial(w.reshaped_drops + w.reshaped_derives > 0 && w.observed >= 2);
    stats(c, w);
}

PBT_PROBE(partial_commit)
{
    return graph_probes::partial_commit_leaks_to_watchers();
}
