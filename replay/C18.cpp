#include "sched_scen.hpp"
void scenarios() { timers(); timers_busy(); }
