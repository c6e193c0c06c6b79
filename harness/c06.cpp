// C06: watchers fire exactly once per published change, with the new value.
#include <cassert>
#include "graph.hpp"
#include "graph_probes.hpp"

using graph::options;
using graph::world;
namespace cls = graph::check_class;
using pbt::Case;

PBT_TARGET(notifications, 6,
           "watchers were invoked by two or more publications or in a graph "
           "of height two or more")
{
    options o;
    o.check        = cls::counts;
    o.watch_weight = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.notified >= 3 && w.publications >= 2);
    c.label("value reached through several paths", w.diamonds > 0);
    c.label("commit of several changed roots", w.multi_commits > 0);
    c.label("commit with nothing pending", w.noop_commits > 0);
    c.label("reader created after a commit", w.late > 0);
    c.label("height >= 4", w.max_height >= 4);
}

PBT_TARGET(deep_notifications, 4,
           "watchers were invoked in a graph of height three or more")
{
    options o;
    o.check         = cls::counts;
    o.watch_weight  = 6;
    o.derive_weight = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.notified >= 2 && w.max_height >= 3);
    c.label("value reached through several paths", w.diamonds > 0);
}

PBT_TARGET(writing_watchers, 3, "a watcher wrote to a transactional root")
{
    options o;
    o.check          = cls::counts;
    o.watcher_writes = true;
    o.watch_weight   = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.watcher_acts > 0);
}

PBT_TARGET(updating_watchers, 3, "a watcher updated an automatic root")
{
    options o;
    o.check        = cls::counts;
    o.watcher_auto = true;
    o.watch_weight = 8;
    world w{c, o};
    w.run();
    c.nontrivial(w.watcher_acts > 0);
}

PBT_TARGET(reshaping_watchers, 3,
           "a watcher derived or dropped readers in the middle of a "
           "publication that reached two or more watchers")
{
    options o;
    o.check            = cls::counts;
    o.watcher_reshapes = true;
    o.watch_weight     = 8;
    o.derive_weight    = 6;
    world w{c, o};
    w.run();
    c.nontrivial(w.reshaped > 0 && w.notified >= 2 &&
                 w.reshaped_drops + w.reshaped_derives > 0);
    c.label("dropped readers", w.reshaped_drops > 0);
    c.label("dropped and derived readers",
            w.reshaped_drops > 0 && w.reshaped_derives > 0);
}

PBT_PROBE(spurious) { return graph_probes::spurious_notification(); }
