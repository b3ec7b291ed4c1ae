#include "common.hpp"
template< typename M, bool Rec > void basic() {
    M m;
    SCENARIO( "ownership errors");
    int e_perm = (int)std::errc::operation_not_permitted, e_dead = (int)std::errc::resource_deadlock_would_occur;
    CHECK( code_of( [&]{ m.unlock(); }) == e_perm);
    m.lock();
    if constexpr ( Rec) {
        CHECK( code_of( [&]{ m.lock(); }) == 0);
        CHECK( m.try_lock());
        bf::fiber( [&]{ CHECK( ! m.try_lock()); CHECK( code_of( [&]{ m.unlock(); }) == e_perm); CHECK( ! m.try_lock()); }).join();
        m.unlock();
        bf::fiber( [&]{ CHECK( ! m.try_lock()); }).join();
        m.unlock();
        bf::fiber( [&]{ CHECK( ! m.try_lock()); CHECK( code_of( [&]{ m.unlock(); }) == e_perm); }).join();
    } else {
        CHECK( code_of( [&]{ m.lock(); }) == e_dead);
        CHECK( code_of( [&]{ m.try_lock(); }) == e_dead);
        bf::fiber( [&]{ CHECK( ! m.try_lock()); CHECK( code_of( [&]{ m.unlock(); }) == e_perm); CHECK( ! m.try_lock()); }).join();
    }
    m.unlock();
    CHECK( code_of( [&]{ m.unlock(); }) == e_perm);
    bf::fiber( [&]{ CHECK( m.try_lock()); m.unlock(); }).join();
    CHECK( m.try_lock()); m.unlock();

    SCENARIO( "every waiter gets the mutex, one at a time, in order");
    { std::vector< int > order; int in = 0; std::vector< bf::fiber > fs;
      m.lock(); if ( Rec) m.lock();
      for ( int i = 0; i < 6; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ m.lock(); if ( Rec) m.lock(); ++in; CHECK( in == 1); order.push_back( i); boost::this_fiber::yield(); boost::this_fiber::yield(); CHECK( in == 1); --in; if ( Rec) m.unlock(); m.unlock(); });
      if ( Rec) { m.unlock(); boost::this_fiber::yield(); CHECK( order.empty()); }
      CHECK( order.empty());
      m.unlock();
      for ( auto & f : fs) f.join();
      CHECK( order.size() == 6); for ( size_t i = 0; i < order.size(); ++i) CHECK( order[i] == (int)i); }
    SCENARIO( "release with a barging fiber still hands on");
    { int got = 0; m.lock();
      bf::fiber w( bf::launch::dispatch, [&]{ m.lock(); ++got; m.unlock(); });
      m.unlock(); m.lock(); boost::this_fiber::yield(); boost::this_fiber::yield(); CHECK( got == 0); m.unlock(); w.join(); CHECK( got == 1); }
    SCENARIO( "threads");
    { long n = 0; std::vector< std::thread > ts; std::atomic< int > in{ 0}; std::atomic< bool > bad{ false};
      for ( int t = 0; t < 4; ++t) ts.emplace_back( [&]{
          std::vector< bf::fiber > fs;
          for ( int i = 0; i < 4; ++i) fs.emplace_back( [&]{ for ( int k = 0; k < 500; ++k) { if ( k % 3) m.lock(); else while ( ! m.try_lock()) boost::this_fiber::yield(); if ( ++in != 1) bad = true; ++n; if ( k % 7 == 0) boost::this_fiber::yield(); --in; m.unlock(); } });
          for ( auto & f : fs) f.join(); });
      for ( auto & t : ts) t.join();
      CHECK( ! bad); CHECK( n == 4 * 4 * 500); }
}
template< typename M, bool Rec > void timed() {
    SCENARIO( "timed lock of a free mutex, also with a deadline that has passed");
    M m;
    CHECK( m.try_lock_for( 1ms)); m.unlock();
    { bool r = m.try_lock_until( Clock::now() - 1s); if ( r) m.unlock();
      r = m.try_lock_for( -1s); if ( r) m.unlock(); CHECK( m.try_lock()); m.unlock(); }
    if constexpr ( Rec) { m.lock(); for ( auto d : { -1000ms, 0ms}) if ( m.try_lock_until( Clock::now() + d)) m.unlock(); bf::fiber( [&]{ CHECK( ! m.try_lock()); }).join(); m.unlock(); }
    if constexpr ( Rec) { m.lock(); CHECK( m.try_lock_for( 1ms)); CHECK( m.try_lock_until( Clock::now() + 1ms)); m.unlock(); m.unlock(); m.unlock(); CHECK( code_of( [&]{ m.unlock(); }) != 0); }
    else { m.lock(); bool r = false; code_of( [&]{ r = m.try_lock_for( 1ms); }); CHECK( ! r); m.unlock(); }
    SCENARIO( "timed lock of a held mutex gives up after the deadline, not before");
    { m.lock(); bf::fiber( [&]{ auto t = Clock::now(); CHECK( ! m.try_lock_for( 20ms)); CHECK( Clock::now() - t >= 20ms); CHECK( ! m.try_lock_until( t)); }).join(); m.unlock(); CHECK( m.try_lock()); m.unlock(); }
    SCENARIO( "the mutex passes on behind a waiter that timed out");
    { m.lock(); int got = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ CHECK( ! m.try_lock_for( 10ms)); });
      bf::fiber b( bf::launch::dispatch, [&]{ m.lock(); ++got; m.unlock(); });
      bf::fiber c( bf::launch::dispatch, [&]{ CHECK( m.try_lock_for( 20s)); ++got; m.unlock(); });
      boost::this_fiber::sleep_for( 40ms); m.unlock(); b.join(); c.join(); a.join(); CHECK( got == 2); }
    SCENARIO( "wake-up at the deadline is not lost");
    for ( int k = 0; k < 3; ++k) { m.lock(); bool r = false; int got = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ r = m.try_lock_for( 10ms); if ( r) { ++got; m.unlock(); } });
      bf::fiber b( bf::launch::dispatch, [&]{ m.lock(); ++got; m.unlock(); });
      boost::this_fiber::yield();
      if ( k == 1) { std::this_thread::sleep_for( 15ms); m.unlock(); }              // woken before the timer runs, resumed after the deadline
      else if ( k == 2) { std::this_thread::sleep_for( 15ms); boost::this_fiber::yield(); m.unlock(); }
      else m.unlock();
      a.join(); b.join(); CHECK( got >= 1); CHECK( m.try_lock()); m.unlock(); }
    SCENARIO( "wake-ups racing with deadlines");
    { std::vector< std::thread > ts; std::atomic< long > n{ 0}; std::atomic< int > in{ 0}; std::atomic< bool > bad{ false};
      for ( int t = 0; t < 3; ++t) ts.emplace_back( [&]{ std::vector< bf::fiber > fs;
          for ( int i = 0; i < 4; ++i) fs.emplace_back( [&,i]{ for ( int k = 0; k < 60; ++k) {
              bool r = true; if ( i % 2) r = m.try_lock_for( std::chrono::microseconds( 50 * ( k % 9))); else m.lock();
              if ( r) { if ( ++in != 1) bad = true; ++n; boost::this_fiber::sleep_for( 30us); --in; m.unlock(); } } });
          for ( auto & f : fs) f.join(); });
      for ( auto & t : ts) t.join(); CHECK( ! bad); CHECK( m.try_lock()); m.unlock(); }
}
