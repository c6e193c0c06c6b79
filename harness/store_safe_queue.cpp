#include "store_exec.hpp"
void sx::run_safe_queue(Case& c, outcome& o, unsigned which) { run_kind<safe_queue_kind>(c, o, which); }
