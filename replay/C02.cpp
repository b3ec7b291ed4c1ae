#include "mutex_scen.hpp"
void scenarios() { basic< bf::recursive_mutex, true >(); basic< bf::recursive_timed_mutex, true >(); timed< bf::recursive_timed_mutex, true >(); }
