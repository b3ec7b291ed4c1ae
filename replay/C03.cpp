#include "mutex_scen.hpp"
void scenarios() { basic< bf::mutex, false >(); basic< bf::timed_mutex, false >(); timed< bf::timed_mutex, false >();
    basic< bf::recursive_mutex, true >(); basic< bf::recursive_timed_mutex, true >(); timed< bf::recursive_timed_mutex, true >(); }
