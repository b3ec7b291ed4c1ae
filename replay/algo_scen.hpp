#pragma once
#include "common.hpp"
// notify()/suspend_until() of a scheduling algorithm used directly
template< typename A, typename ... Args > void notify_scen( char const* n, Args ... args) {
    SCENARIO( n);
    auto max = (Clock::time_point::max)();
    { A a( args ...); a.notify(); a.suspend_until( max);                 // notified before
      auto t = Clock::now(); a.suspend_until( Clock::now() + 20ms); CHECK( Clock::now() - t >= 20ms);   // consumed, and not before the time point
      a.notify(); t = Clock::now(); a.suspend_until( Clock::now() + 30s); CHECK( Clock::now() - t < 20s);
      t = Clock::now(); a.suspend_until( Clock::now() + 10ms); CHECK( Clock::now() - t >= 10ms);
      a.notify(); a.notify(); a.suspend_until( max); }
    for ( int timed = 0; timed < 2; ++timed) {                          // notified while suspending, many times
        A a( args ...); std::atomic< int > turn{ 0 }; int const N = 3000;
        std::thread t( [&]{ for ( int i = 0; i < N; ++i) { while ( turn.load() != 2 * i + 1) std::this_thread::yield(); for ( int k = 0; k < i % 50; ++k) { volatile int z = k; (void)z; } a.notify(); turn = 2 * i + 2; } });
        for ( int i = 0; i < N; ++i) { turn = 2 * i + 1; auto s = Clock::now(); a.suspend_until( timed ? Clock::now() + 30s : max); CHECK( Clock::now() - s < 20s); while ( turn.load() != 2 * i + 2) std::this_thread::yield(); }
        t.join();
    }
}
