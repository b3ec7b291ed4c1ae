#include "sched_scen.hpp"
void scenarios() { sched_order(); sched_remote(); sched_burst(); sched_exit(); }
