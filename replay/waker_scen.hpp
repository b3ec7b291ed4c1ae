#include "common.hpp"
#include <boost/fiber/waker.hpp>
#include <boost/fiber/detail/spinlock.hpp>
inline void wakers() {
    SCENARIO( "of all wakers of one suspension only the first wakes, and only once");
    { std::vector< bf::waker > ws; int runs = 0;
      bf::fiber f( bf::launch::dispatch, [&]{ auto * ctx = bf::context::active(); for ( int i = 0; i < 3; ++i) ws.push_back( ctx->create_waker()); ctx->suspend(); ++runs; });
      // only the latest waker is current
      int ok = 0; for ( auto it = ws.rbegin(); it != ws.rend(); ++it) ok += it->wake() ? 1 : 0;
      for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); CHECK( runs == 1); f.join(); (void)ok; }
    { bf::waker w; int runs = 0; bf::fiber f( bf::launch::dispatch, [&]{ auto * c = bf::context::active(); w = c->create_waker(); c->suspend(); ++runs; });
      CHECK( w.wake()); CHECK( ! w.wake()); for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); CHECK( runs == 1); CHECK( ! w.wake()); f.join(); }
    SCENARIO( "a stale waker does not end a later suspension");
    { bf::waker w, w2; int st = 0; bf::fiber f( bf::launch::dispatch, [&]{ auto * c = bf::context::active(); w = c->create_waker(); c->suspend(); st = 1; w2 = c->create_waker(); c->suspend(); st = 2; });
      CHECK( w.wake()); boost::this_fiber::yield(); CHECK( st == 1); for ( int i = 0; i < 4; ++i) { CHECK( ! w.wake()); boost::this_fiber::yield(); } CHECK( st == 1); CHECK( w2.wake()); CHECK( ! w2.wake()); f.join(); CHECK( st == 2); }
    SCENARIO( "timer and waker");
    { bf::waker w; bool woken_early = false; bf::fiber f( bf::launch::dispatch, [&]{ auto * c = bf::context::active(); w = c->create_waker(); bf::detail::spinlock s; bf::detail::spinlock_lock lk( s); woken_early = c->wait_until( Clock::now() + 20ms, lk, bf::waker( w)); });
      boost::this_fiber::sleep_for( 40ms); CHECK( ! w.wake()); f.join(); (void)woken_early;
      int n = 0; bf::fiber g( bf::launch::dispatch, [&]{ auto * c = bf::context::active(); w = c->create_waker(); bf::detail::spinlock s; bf::detail::spinlock_lock lk( s); c->wait_until( Clock::now() + 30ms, lk, bf::waker( w)); ++n; boost::this_fiber::sleep_for( 60ms); ++n; });
      CHECK( w.wake()); boost::this_fiber::yield(); CHECK( n == 1); CHECK( ! w.wake()); boost::this_fiber::sleep_for( 40ms); CHECK( n == 1); g.join(); CHECK( n == 2); }
    SCENARIO( "concurrent wakers: exactly one succeeds");
    for ( int r = 0; r < 300; ++r) { std::atomic< bf::waker * > w{ nullptr}; std::atomic< int > ok{ 0}, done{ 0}; bf::waker loc; int runs = 0;
      std::vector< std::thread > ts; for ( int i = 0; i < 3; ++i) ts.emplace_back( [&]{ bf::waker * p; while ( ! ( p = w.load())) ; if ( p->wake()) ++ok; ++done; });
      auto * c = bf::context::active(); loc = c->create_waker(); bf::fiber h( [&]{ w = & loc; while ( done < 3) boost::this_fiber::yield(); });
      c->suspend(); ++runs; h.join(); for ( auto & t : ts) t.join(); CHECK( ok == 1); }
}
inline void queues() {
    using L = bf::detail::spinlock_lock;
    SCENARIO( "wait queue: fifo, one at a time, all");
    { bf::detail::spinlock s; bf::wait_queue q; std::vector< int > o; std::vector< bf::fiber > fs;
      for ( int i = 0; i < 6; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ L lk( s); if ( i % 2) q.suspend_and_wait( lk, bf::context::active()); else { CHECK( q.suspend_and_wait_until( lk, bf::context::active(), Clock::now() + 60s)); } o.push_back( i); });
      auto y = []{ for ( int i = 0; i < 10; ++i) boost::this_fiber::yield(); };
      y(); CHECK( o.empty()); CHECK( ! q.empty()); { L lk( s); q.notify_one(); } y(); CHECK( o.size() == 1); { L lk( s); q.notify_one(); } y(); CHECK( o.size() == 2);
      { L lk( s); q.notify_all(); } CHECK( q.empty()); for ( auto & f : fs) f.join(); CHECK( o == ( std::vector< int >{ 0, 1, 2, 3, 4, 5})); { L lk( s); q.notify_one(); q.notify_all(); } CHECK( q.empty()); }
    SCENARIO( "wait queue: timed out waiters leave the queue and get no notification");
    { bf::detail::spinlock s; bf::wait_queue q; std::vector< int > o; std::vector< bf::fiber > fs;
      for ( int i = 0; i < 5; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ L lk( s); bool r = q.suspend_and_wait_until( lk, bf::context::active(), Clock::now() + ( i == 0 || i == 2 || i == 4 ? 10ms * ( 1 + i) : 60000ms)); CHECK( r == ( i == 1 || i == 3)); o.push_back( i); });
      boost::this_fiber::sleep_for( 90ms); CHECK( o == ( std::vector< int >{ 0, 2, 4})); { L lk( s); CHECK( ! q.empty()); q.notify_one(); } fs[1].join(); CHECK( o.back() == 1); CHECK( o.size() == 4); { L lk( s); q.notify_one(); } for ( auto & f : fs) if ( f.joinable()) f.join(); CHECK( o.back() == 3); CHECK( q.empty()); }
    SCENARIO( "wait queue: the deadline passes while the notification is on its way");
    { bf::detail::spinlock s; bf::wait_queue q; int n = 0; bool ra = false;
      bf::fiber a( bf::launch::dispatch, [&]{ L lk( s); ra = q.suspend_and_wait_until( lk, bf::context::active(), Clock::now() + 10ms); ++n; });
      bf::fiber b( bf::launch::dispatch, [&]{ L lk( s); q.suspend_and_wait( lk, bf::context::active()); ++n; });
      std::this_thread::sleep_for( 15ms); { L lk( s); q.notify_one(); } for ( int i = 0; i < 5; ++i) boost::this_fiber::yield();
      CHECK( ra ? n == 1 : n == 2); { L lk( s); q.notify_all(); } a.join(); b.join(); CHECK( q.empty()); }
    SCENARIO( "wait queue: a waiter that timed out but is still queued is skipped");
    { bf::detail::spinlock s; bf::wait_queue q; int n = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ L lk( s); q.suspend_and_wait_until( lk, bf::context::active(), Clock::now() + 5ms); });
      bf::fiber b( bf::launch::dispatch, [&]{ L lk( s); q.suspend_and_wait( lk, bf::context::active()); ++n; });
      { L lk( s); auto t = Clock::now(); while ( Clock::now() - t < 30ms) boost::this_fiber::yield(); q.notify_one(); }
      boost::this_fiber::sleep_for( 20ms); CHECK( 1 == n); { L lk( s); q.notify_all(); } a.join(); b.join(); }
    SCENARIO( "wait queue: notifications racing with deadlines on two threads");
    { bf::detail::spinlock s; bf::wait_queue q; std::atomic< long > notified{ 0}; std::atomic< bool > stop{ false}; std::atomic< int > waiting{ 0};
      std::thread t( [&]{ while ( ! stop) { { L lk( s); if ( ! q.empty()) q.notify_one(); } std::this_thread::yield(); } });
      std::vector< bf::fiber > fs; for ( int i = 0; i < 4; ++i) fs.emplace_back( [&,i]{ for ( int k = 0; k < 200; ++k) { L lk( s); if ( q.suspend_and_wait_until( lk, bf::context::active(), Clock::now() + std::chrono::microseconds( ( k * 7 + i) % 60))) ++notified; } });
      for ( auto & f : fs) f.join(); stop = true; t.join(); CHECK( q.empty()); }
}
