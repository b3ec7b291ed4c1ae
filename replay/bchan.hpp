#include "chan.hpp"
inline void fifo() {
    using C = bf::buffered_channel< Obj >;
    SCENARIO( "capacities");
    for ( size_t n : { 0, 1, 3, 5, 6, 7, 12, 24, 100, 1023}) CHECK( code_of( [&]{ C c( n); }) == (int)std::errc::invalid_argument);
    for ( size_t n : { 2, 4, 8, 64, 1024}) CHECK( code_of( [&]{ C c( n); }) == 0);
    CHECK( Obj::live == 0);
    SCENARIO( "fifo, full, empty");
    for ( size_t cap : { 2, 4, 8}) { C c( cap); size_t room = cap - 1; int in = 0, out = 0;
      for ( int round = 0; round < 20; ++round) { size_t k = 0;
        for ( ;; ++k) { Obj o( in); auto s = round % 2 ? c.try_push( o) : c.try_push( std::move( o));
          if ( s == channel_op_status::success) { ++in; continue; } CHECK( s == channel_op_status::full); CHECK( o.v == in); CHECK( ! o.moved); break; }
        CHECK( k <= room); CHECK( in - out == (int)room);
        { Obj o( 77); CHECK( c.push_wait_for( std::move( o), 1ms) == channel_op_status::timeout); CHECK( ! o.moved && o.v == 77); CHECK( c.push_wait_until( o, Clock::now()) == channel_op_status::timeout); }
        size_t take = round % 3 == 2 ? room : ( 1 + round % room);
        for ( size_t t = 0; t < take; ++t) { Obj o; channel_op_status s = channel_op_status::success;
          switch ( ( round + t) % 4) { case 0: s = c.try_pop( o); break; case 1: s = c.pop( o); break; case 2: s = c.pop_wait_for( o, 1s); break; default: o = c.value_pop(); }
          CHECK( s == channel_op_status::success); CHECK( o.v == out); ++out; } }
      Obj o; while ( out < in) { CHECK( c.try_pop( o) == channel_op_status::success); CHECK( o.v == out++); }
      o.v = 5; CHECK( c.try_pop( o) == channel_op_status::empty); CHECK( o.v == 5);
      auto t = Clock::now(); CHECK( c.pop_wait_for( o, 10ms) == channel_op_status::timeout); CHECK( Clock::now() - t >= 10ms); CHECK( c.pop_wait_until( o, t) == channel_op_status::timeout);
      for ( size_t i = 0; i + 1 < cap; ++i) CHECK( c.push( Obj( 1)) == channel_op_status::success); }
    CHECK( Obj::live == 0);
    SCENARIO( "an element that throws when stored or fetched is neither lost nor duplicated");
    { C c( 4); Obj a( 1), b( 2); c.push( a); Obj::throw_at = 1; bool th = false; try { c.push( b); } catch ( std::runtime_error const&) { th = true; } Obj::throw_at = 0; CHECK( th); c.push( b);
      Obj r; Obj::throw_at = 1; th = false; try { c.pop( r); } catch ( std::runtime_error const&) { th = true; } Obj::throw_at = 0; CHECK( th);
      CHECK( c.pop( r) == channel_op_status::success); CHECK( r.v == 1); CHECK( c.pop( r) == channel_op_status::success); CHECK( r.v == 2); CHECK( c.try_pop( r) == channel_op_status::empty); }
    CHECK( Obj::live == 0);
    stress< bf::buffered_channel< int >, true >( 3, 3, 800);
    stress< bf::buffered_channel< int >, true >( 1, 1, 2000);
}
inline void closing() {
    using C = bf::buffered_channel< int >;
    SCENARIO( "close: pushes report closed, pops drain, then report closed");
    { C c( 4); int v = 0; CHECK( c.push( 1) == channel_op_status::success); CHECK( c.push( 2) == channel_op_status::success); CHECK( ! c.is_closed()); c.close(); CHECK( c.is_closed()); c.close();
      int x = 9; CHECK( c.push( x) == channel_op_status::closed); CHECK( c.try_push( 3) == channel_op_status::closed); CHECK( c.push_wait_for( 3, 1ms) == channel_op_status::closed);
      CHECK( c.push_wait_until( x, Clock::now()) == channel_op_status::closed); CHECK( c.push( 3) == channel_op_status::closed); CHECK( c.try_push( x) == channel_op_status::closed);
      CHECK( c.try_pop( v) == channel_op_status::success && v == 1); CHECK( c.pop( v) == channel_op_status::success && v == 2);
      CHECK( c.pop( v) == channel_op_status::closed); CHECK( c.try_pop( v) == channel_op_status::closed); CHECK( c.pop_wait_for( v, 1ms) == channel_op_status::closed);
      CHECK( c.pop_wait_until( v, Clock::now()) == channel_op_status::closed); CHECK( code_of( [&]{ c.value_pop(); }) == (int)std::errc::operation_not_permitted); }
    { C c( 2); c.push( 1); c.close(); CHECK( c.try_push( 1) == channel_op_status::closed); CHECK( c.push_wait_for( 1, 1ms) == channel_op_status::closed); }
    SCENARIO( "close wakes every blocked producer and consumer");
    for ( bool timed : { false, true}) { C c( 2); int n = 0; std::vector< bf::fiber > fs;
      for ( int i = 0; i < 3; ++i) fs.emplace_back( bf::launch::dispatch, [&]{ int v; CHECK( ( timed ? c.pop_wait_for( v, 60s) : c.pop( v)) == channel_op_status::closed); ++n; });
      c.close(); for ( auto & f : fs) f.join(); CHECK( n == 3); }
    for ( bool timed : { false, true}) { C c( 2); c.push( 1); int n = 0; std::vector< bf::fiber > fs;
      for ( int i = 0; i < 3; ++i) fs.emplace_back( bf::launch::dispatch, [&]{ CHECK( ( timed ? c.push_wait_for( 5, 60s) : c.push( 5)) == channel_op_status::closed); ++n; });
      c.close(); for ( auto & f : fs) f.join(); CHECK( n == 3); }
    SCENARIO( "every value wakes a consumer, every removed value a producer");
    for ( int kind = 0; kind < 3; ++kind) { C c( 4); int n = 0; std::vector< bf::fiber > fs;
      for ( int i = 0; i < 3; ++i) fs.emplace_back( bf::launch::dispatch, [&]{ int v; CHECK( c.pop( v) == channel_op_status::success); ++n; });
      for ( int i = 0; i < 3; ++i) CHECK( ( kind == 0 ? c.push( i) : kind == 1 ? c.try_push( i) : c.push_wait_for( i, 1s)) == channel_op_status::success);
      for ( auto & f : fs) f.join(); CHECK( n == 3); }
    for ( int kind = 0; kind < 4; ++kind) { C c( 4); int n = 0, v; std::vector< bf::fiber > fs; for ( int i = 0; i < 3; ++i) c.push( i);
      for ( int i = 0; i < 3; ++i) fs.emplace_back( bf::launch::dispatch, [&]{ CHECK( c.push( 7) == channel_op_status::success); ++n; });
      for ( int i = 0; i < 3; ++i) { if ( kind == 3) c.value_pop(); else CHECK( ( kind == 0 ? c.pop( v) : kind == 1 ? c.try_pop( v) : c.pop_wait_for( v, 1s)) == channel_op_status::success); }
      for ( auto & f : fs) f.join(); CHECK( n == 3); }
    SCENARIO( "a timed out waiter does not swallow the wake-up");
    { C c( 2); c.push( 0); int n = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ CHECK( c.push_wait_for( 1, 10ms) == channel_op_status::timeout); });
      bf::fiber b( bf::launch::dispatch, [&]{ CHECK( c.push( 2) == channel_op_status::success); ++n; });
      boost::this_fiber::sleep_for( 30ms); int v; c.pop( v); b.join(); a.join(); CHECK( n == 1); }
    { C c( 2); int n = 0, v;
      bf::fiber a( bf::launch::dispatch, [&]{ int x; CHECK( c.pop_wait_for( x, 10ms) == channel_op_status::timeout); });
      bf::fiber b( bf::launch::dispatch, [&]{ int x; CHECK( c.pop( x) == channel_op_status::success); ++n; });
      boost::this_fiber::sleep_for( 30ms); c.push( 1); b.join(); a.join(); CHECK( n == 1); (void)v; }
    for ( int k = 0; k < 2; ++k) { C c( 2); channel_op_status s = channel_op_status::success; int n = 0;   // woken before, resumed after the deadline
      bf::fiber a( bf::launch::dispatch, [&]{ int x; s = c.pop_wait_for( x, 10ms); if ( s == channel_op_status::success) ++n; });
      bf::fiber b( bf::launch::dispatch, [&]{ int x; if ( c.pop( x) == channel_op_status::success) ++n; });
      std::this_thread::sleep_for( 15ms); if ( k) boost::this_fiber::yield(); c.push( 1); for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); CHECK( n == 1); c.close(); a.join(); b.join(); }
    for ( int k = 0; k < 2; ++k) { C c( 2); c.push( 0); int n = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ if ( c.push_wait_for( 1, 10ms) == channel_op_status::success) ++n; });
      bf::fiber b( bf::launch::dispatch, [&]{ if ( c.push( 2) == channel_op_status::success) ++n; });
      std::this_thread::sleep_for( 15ms); if ( k) boost::this_fiber::yield(); int v; c.pop( v); for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); CHECK( n == 1); c.close(); a.join(); b.join(); }
    stress< bf::buffered_channel< int >, true >( 2, 3, 800);
}
