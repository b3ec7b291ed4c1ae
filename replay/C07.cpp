#include "bchan.hpp"
void scenarios() { closing(); fifo(); }
