#include "store_exec.hpp"
void sx::run_manual(Case& c, outcome& o, unsigned which) { run_kind<manual_kind>(c, o, which); }
