#include "mutex_scen.hpp"
void scenarios() { basic< bf::mutex, false >(); basic< bf::timed_mutex, false >(); timed< bf::timed_mutex, false >(); }
