// C05: derived readers always equal their defining function of the roots.
#include <cassert>
#include "graph.hpp"
#include "graph_probes.hpp"

using graph::options;
using graph::world;
namespace cls = graph::check_class;
using pbt::Case;

static void stats(Case& c, const world& w)
{
    c.nontrivial(w.max_height >= 2 && w.publications >= 2);
    c.label("value reached through several paths", w.diamonds > 0);
    c.label("filtered reader", w.filters > 0);
    c.label("reader created after a commit", w.late > 0);
    c.label("source handle dropped", w.dropped_sources > 0);
    c.label("height >= 4", w.max_height >= 4);
    c.label("commit of several changed roots", w.multi_commits > 0);
}

PBT_TARGET(derivations, 6,
           "derivations of height two or more and two or more publications")
{
    options o;
    o.check         = cls::values | cls::root_values;
    o.derive_weight = 8;
    o.watch_weight  = 1;
    world w{c, o};
    w.run();
    stats(c, w);
}

PBT_TARGET(watched_derivations, 4,
           "derivations of height two or more and two or more publications")
{
    options o;
    o.check         = cls::values | cls::root_values;
    o.derive_weight = 8;
    o.watch_weight  = 6;
    world w{c, o};
    w.run();
    stats(c, w);
}

PBT_TARGET(writing_watchers, 2, "a watcher wrote during a commit or update")
{
    options o;
    o.check          = cls::values | cls::root_values;
    o.derive_weight  = 6;
    o.watch_weight   = 6;
    o.watcher_writes = true;
    o.watcher_auto   = true;
    world w{c, o};
    w.run();
    c.nontrivial(w.watcher_acts > 0);
}

PBT_TARGET(reshaping_watchers, 2,
           "a watcher derived or dropped readers in the middle of a "
           "publication")
{
    options o;
    o.check            = cls::values | cls::root_values;
    o.derive_weight    = 6;
    o.watch_weight     = 6;
    o.watcher_reshapes = true;
    world w{c, o};
    w.run();
    c.nontrivial(w.reshaped_drops + w.reshaped_derives > 0);
}

PBT_PROBE(filter_transient) { return graph_probes::filter_keeps_transient(); }
