#include "waker_scen.hpp"
void scenarios() { wakers(); }
