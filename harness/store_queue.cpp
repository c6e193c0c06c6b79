#include "store_exec.hpp"
void sx::run_queue(Case& c, outcome& o, unsigned which) { run_kind<queue_kind>(c, o, which); }
