// flags: -DNDEBUG
#include "life_scen.hpp"
void scenarios() { cycle_scen(); }
