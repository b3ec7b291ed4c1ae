#include "life_scen.hpp"
void scenarios() { handle_scen(); }
