#include "chan.hpp"
using I = bf::unbuffered_channel< int >;
static auto push = []( I & c, int v, bool copy, int timed) { int const w = v; auto d = 20ms; return timed == 2 ? ( copy ? c.push_wait_until( w, Clock::now() + d) : c.push_wait_until( int( v), Clock::now() + d)) : timed ? ( copy ? c.push_wait_for( w, d) : c.push_wait_for( int( v), d)) : copy ? c.push( w) : c.push( int( v)); };
static void closing( int rounds) {
    SCENARIO( "close() against pushes on other threads");
    for ( int r = 0; r < rounds; ++r) { I c; std::atomic< int > in{ 0 }; std::vector< std::thread > t; for ( int k = 0; k < 3; ++k) t.emplace_back( [&,k]{ ++in; while ( in < 4) ; int i = 0; while ( push( c, i++, k % 2, k == 2) != channel_op_status::closed) ; }); ++in; while ( in < 4) ; for ( int i = r % 7; i > 0; --i) { int v; c.pop_wait_for( v, 1ms); } c.close(); for ( auto & x : t) x.join(); }
}
void stress() {
    closing( 300);
    for ( int i = 0; i < 2 && ! g_fail; ++i) { stress< I, false >( 3, 3, 500); stress< I, false >( 1, 1, 1000); stress< I, false >( 4, 1, 300); stress< I, false >( 1, 4, 500); }
}
void scenarios() {
    using C = bf::unbuffered_channel< Obj >;
    SCENARIO( "rendezvous");
    { C c; std::vector< int > got; int pushed = 0;
      bf::fiber p( bf::launch::dispatch, [&]{ for ( int i = 0; i < 6; ++i) { Obj o( i); if ( i % 2) CHECK( c.push( o) == channel_op_status::success); else { CHECK( c.push( std::move( o)) == channel_op_status::success); } ++pushed; } });
      for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); CHECK( pushed == 0);          // blocks until taken
      for ( int i = 0; i < 6; ++i) { Obj o; if ( i % 3 == 2) o = c.value_pop(); else CHECK( ( i % 3 ? c.pop_wait_for( o, 10s) : c.pop( o)) == channel_op_status::success); CHECK( o.v == i); }
      p.join(); CHECK( pushed == 6); }
    CHECK( Obj::live == 0);
    { I c; int n = 0; bf::fiber q( bf::launch::dispatch, [&]{ int v; CHECK( c.pop( v) == channel_op_status::success); CHECK( v == 4); ++n; }); for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); CHECK( n == 0); CHECK( c.push( 4) == channel_op_status::success); q.join(); }
    SCENARIO( "several producers, each value once");
    { I c; int n = 0; std::set< int > s; std::vector< bf::fiber > fs; for ( int i = 0; i < 5; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ CHECK( c.push( i) == channel_op_status::success); ++n; });
      for ( int i = 0; i < 5; ++i) { int v = -1; CHECK( c.pop( v) == channel_op_status::success); CHECK( s.insert( v).second); } for ( auto & f : fs) f.join(); CHECK( n == 5); }
    SCENARIO( "a timed out push is withdrawn");
    { I c; auto t = Clock::now(); bool done = false;
      bf::fiber p( bf::launch::dispatch, [&]{ CHECK( c.push_wait_for( 1, 15ms) == channel_op_status::timeout); CHECK( Clock::now() - t >= 15ms); done = true; });
      p.join(); int v = 7; t = Clock::now(); CHECK( c.pop_wait_for( v, 10ms) == channel_op_status::timeout); CHECK( v == 7); CHECK( Clock::now() - t >= 10ms);
      CHECK( c.push_wait_until( 1, Clock::now() - 1s) == channel_op_status::timeout); CHECK( c.pop_wait_until( v, Clock::now() - 1s) == channel_op_status::timeout); CHECK( v == 7);
      bf::fiber q( bf::launch::dispatch, [&]{ int x = 0; CHECK( c.pop( x) == channel_op_status::success); CHECK( x == 3); }); CHECK( c.push( 3) == channel_op_status::success); q.join(); }
    { C c; Obj o( 5); CHECK( c.push_wait_for( o, 5ms) == channel_op_status::timeout); CHECK( o.v == 5 && ! o.moved);
      int n = 0; bf::fiber a( bf::launch::dispatch, [&]{ Obj x( 8); CHECK( c.push( x) == channel_op_status::closed); CHECK( x.v == 8 && ! x.moved); ++n; }); c.close(); a.join(); CHECK( n == 1); }
    SCENARIO( "a producer behind one that timed out gets its turn");
    { I c; int n = 0;
      bf::fiber a( bf::launch::dispatch, [&]{ CHECK( c.push_wait_for( 1, 20ms) == channel_op_status::timeout); });
      bf::fiber b( bf::launch::dispatch, [&]{ CHECK( c.push( 2) == channel_op_status::success); ++n; });
      bf::fiber d( bf::launch::dispatch, [&]{ CHECK( c.push( 3) == channel_op_status::success); ++n; });
      boost::this_fiber::sleep_for( 50ms); int v = 0; CHECK( c.pop( v) == channel_op_status::success); CHECK( v == 2); CHECK( c.pop( v) == channel_op_status::success); CHECK( v == 3); a.join(); b.join(); d.join(); CHECK( n == 2); }
    SCENARIO( "value taken before the deadline, producer resumed after it");
    for ( int k = 0; k < 2; ++k) { I c; channel_op_status s = channel_op_status::empty;
      bf::fiber a( bf::launch::dispatch, [&]{ s = c.push_wait_for( 1, 10ms); });
      std::this_thread::sleep_for( 15ms); int v = 0; channel_op_status r = k ? c.pop_wait_for( v, 1ms) : c.pop( v); 
      a.join(); CHECK( ( r == channel_op_status::success) == ( s == channel_op_status::success)); if ( r == channel_op_status::success) CHECK( v == 1); }
    SCENARIO( "close");
    { I c; int n = 0, v; std::vector< bf::fiber > fs; for ( int i = 0; i < 4; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ int x; CHECK( ( i % 2 ? c.pop( x) : c.pop_wait_for( x, 60s)) == channel_op_status::closed); ++n; });
      c.close(); CHECK( c.is_closed()); for ( auto & f : fs) f.join(); CHECK( n == 4);
      CHECK( c.push( 1) == channel_op_status::closed); CHECK( c.pop( v) == channel_op_status::closed); CHECK( c.push_wait_for( 1, 1ms) == channel_op_status::closed); CHECK( c.pop_wait_for( v, 1ms) == channel_op_status::closed);
      CHECK( code_of( [&]{ c.value_pop(); }) == (int)std::errc::operation_not_permitted); }
    { I c; int n = 0; std::vector< bf::fiber > fs; for ( int i = 0; i < 4; ++i) fs.emplace_back( bf::launch::dispatch, [&,i]{ CHECK( ( i % 2 ? c.push( 1) : c.push_wait_for( 1, 60s)) == channel_op_status::closed); ++n; });
      c.close(); for ( auto & f : fs) f.join(); CHECK( n == 4); int v = 7; CHECK( c.pop( v) == channel_op_status::closed); CHECK( v == 7); }
    SCENARIO( "copied and moved values, every push");
    for ( int k = 0; k < 6; ++k) { bool copy = k % 2; int timed = 1 + k / 2 % 2; I c; int n = 0; bool closing = k >= 4;
      bf::fiber a( bf::launch::dispatch, [&]{ CHECK( push( c, 1, copy, timed) == channel_op_status::timeout); });
      bf::fiber b( bf::launch::dispatch, [&]{ CHECK( push( c, 2, copy, 0) == channel_op_status::success); ++n; });
      bf::fiber d( bf::launch::dispatch, [&]{ CHECK( push( c, 3, copy, 0) == ( closing ? channel_op_status::closed : channel_op_status::success)); ++n; });
      boost::this_fiber::sleep_for( 50ms); int v = 0; CHECK( c.pop( v) == channel_op_status::success); CHECK( v == 2); if ( closing) c.close(); else { CHECK( c.pop( v) == channel_op_status::success); CHECK( v == 3); } a.join(); b.join(); d.join(); CHECK( n == 2); }
    for ( int k = 0; k < 6; ++k) { I c; channel_op_status s = channel_op_status::empty; bf::fiber a( bf::launch::dispatch, [&]{ s = push( c, 1, k % 2, k / 2); }); boost::this_fiber::yield(); c.close(); a.join(); CHECK( s == channel_op_status::closed); int v = 7; CHECK( c.pop( v) == channel_op_status::closed && v == 7); }
    SCENARIO( "an element whose move throws in a pop");
    for ( int k = 0; k < 3; ++k) { C c; int n = 0; bf::fiber a( bf::launch::dispatch, [&]{ Obj o( 4); CHECK( c.push( o) == channel_op_status::success); ++n; }); bool thrown = false; boost::this_fiber::yield(); { Obj o; Obj::throw_at = 1; try { if ( k == 0) c.pop( o); else if ( k == 1) c.pop_wait_for( o, 10s); else c.value_pop(); } catch ( std::runtime_error const&) { thrown = true; } Obj::throw_at = 0; } CHECK( thrown); a.join(); CHECK( n == 1); }
    CHECK( Obj::live == 0);
    closing( 300);
    stress< I, false >( 3, 3, 500);
    stress< I, false >( 1, 1, 1500);
    stress< I, false >( 4, 1, 300);
}
