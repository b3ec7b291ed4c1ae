// instrumentation of every function entry and exit (-finstrument-functions): random delays make rare interleavings likely
#include <cstdint>
#include <sched.h>
#include <time.h>
#define NI __attribute__((no_instrument_function))
static thread_local uint64_t fvc_rng = 0;
static NI __attribute__((noinline)) void fvc_delay() {
    uint64_t x = fvc_rng; if ( 0 == x) { timespec t; clock_gettime( CLOCK_MONOTONIC, & t); x = (uint64_t)(uintptr_t)& fvc_rng * 0x9E3779B97F4A7C15ull ^ (uint64_t)t.tv_nsec; if ( 0 == x) x = 1; }
    x ^= x << 13; x ^= x >> 7; x ^= x << 17; fvc_rng = x;
    if ( x & 0x1f) return;
    unsigned n = 16u << ( ( x >> 8) % 15);         // log-uniform
    if ( n < 8192) for ( volatile unsigned i = 0; i < n; i = i + 1) ; else { timespec t{ 0, (long)n }; nanosleep( & t, nullptr); }
}
extern "C" NI void __cyg_profile_func_enter( void *, void *) { fvc_delay(); }
extern "C" NI void __cyg_profile_func_exit( void *, void *) { fvc_delay(); }
