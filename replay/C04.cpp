#include "common.hpp"
template< typename CV, typename M > void cv() {
    M m; CV c;
    SCENARIO( "notify_one wakes one waiter, in order; notify_all all");
    { std::vector< int > order; std::vector< bf::fiber > fs;
      for ( int i = 0; i < 6; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ std::unique_lock< M > lk( m); c.wait( lk); CHECK( lk.owns_lock()); CHECK( code_of( [&]{ m.lock(); }) != 0); order.push_back( i); });
      c.notify_one(); for ( int i = 0; i < 10; ++i) boost::this_fiber::yield(); CHECK( order.size() == 1);
      c.notify_one(); for ( int i = 0; i < 10; ++i) boost::this_fiber::yield(); CHECK( order.size() == 2);
      c.notify_all(); for ( auto & f : fs) f.join(); CHECK( order.size() == 6);
      for ( size_t i = 0; i < order.size(); ++i) CHECK( order[i] == (int)i); c.notify_one(); c.notify_all(); }
    SCENARIO( "predicate");
    { bool ready = false; int calls = 0; bool done = false;
      bf::fiber f( bf::launch::dispatch, [&]{ std::unique_lock< M > lk( m); c.wait( lk, [&]{ ++calls; return ready; }); CHECK( ready); CHECK( lk.owns_lock()); done = true; });
      for ( int i = 0; i < 5; ++i) { c.notify_one(); boost::this_fiber::yield(); } CHECK( ! done); CHECK( calls >= 2);
      { std::unique_lock< M > lk( m); ready = true; c.notify_one(); } f.join(); CHECK( done);
      std::unique_lock< M > lk( m); c.wait( lk, []{ return true; }); CHECK( lk.owns_lock());
      struct boom {}; bool caught = false; try { c.wait( lk, []() -> bool { throw boom(); }); } catch ( boom const&) { caught = true; } CHECK( caught); CHECK( lk.owns_lock()); }
    SCENARIO( "timeouts");
    { std::unique_lock< M > lk( m); auto t = Clock::now();
      CHECK( c.wait_for( lk, 20ms) == bf::cv_status::timeout); CHECK( Clock::now() - t >= 20ms); CHECK( lk.owns_lock());
      CHECK( c.wait_until( lk, Clock::now() + 10ms) == bf::cv_status::timeout); CHECK( lk.owns_lock());
      t = Clock::now(); CHECK( ! c.wait_for( lk, 20ms, []{ return false; })); CHECK( Clock::now() - t >= 20ms);
      CHECK( ! c.wait_until( lk, Clock::now() + 10ms, []{ return false; })); CHECK( c.wait_for( lk, 10ms, []{ return true; }));
      CHECK( c.wait_until( lk, Clock::now() - 1s, []{ return true; })); CHECK( ! c.wait_until( lk, Clock::now() - 1s, []{ return false; }));
      int n = 0; CHECK( c.wait_for( lk, 10ms, [&]{ return ++n > 1; }));   // true when evaluated after the timeout
      auto s = std::chrono::system_clock::now(); CHECK( c.wait_until( lk, s + 10ms) == bf::cv_status::timeout); CHECK( std::chrono::system_clock::now() - s >= 10ms); CHECK( lk.owns_lock()); }
    SCENARIO( "notified in time: no timeout; a notification is not spent on a timed out waiter");
    { bf::cv_status st = bf::cv_status::timeout; int got = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ std::unique_lock< M > lk( m); CHECK( c.wait_for( lk, 10ms) == bf::cv_status::timeout); });
      bf::fiber b( bf::launch::dispatch, [&]{ std::unique_lock< M > lk( m); st = c.wait_for( lk, 20s); ++got; });
      boost::this_fiber::sleep_for( 40ms); c.notify_one(); b.join(); a.join(); CHECK( got == 1); CHECK( st == bf::cv_status::no_timeout); }
    { bf::cv_status sa = bf::cv_status::timeout; int got = 0;      // notified before the deadline, resumed after it
      bf::fiber a( bf::launch::dispatch, [&]{ std::unique_lock< M > lk( m); sa = c.wait_for( lk, 10ms); });
      bf::fiber b( bf::launch::dispatch, [&]{ std::unique_lock< M > lk( m); c.wait( lk); ++got; });
      std::this_thread::sleep_for( 20ms); c.notify_one(); a.join();
      if ( sa == bf::cv_status::timeout) { boost::this_fiber::yield(); CHECK( got == 1); } 
      c.notify_all(); b.join(); }
    SCENARIO( "no notification is missed between threads");
    { int n = 0; const int N = 3000; bool turn = false;
      std::thread t( [&]{ bf::fiber( [&]{ for ( int i = 0; i < N; ++i) { std::unique_lock< M > lk( m); c.wait( lk, [&]{ return turn; }); turn = false; ++n; c.notify_one(); } }).join(); });
      bf::fiber( [&]{ for ( int i = 0; i < N; ++i) { std::unique_lock< M > lk( m); turn = true; c.notify_one(); c.wait( lk, [&]{ return ! turn; }); } }).join();
      t.join(); CHECK( n == N); }
}
void scenarios() { cv< bf::condition_variable, bf::mutex >(); cv< bf::condition_variable_any, bf::timed_mutex >(); }
