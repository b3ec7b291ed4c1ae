#include "bchan.hpp"
void scenarios() { fifo(); }
