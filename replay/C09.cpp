#include "chan.hpp"
#include <algorithm>
#include <iterator>
template< typename C > void iter( C & c, int N) {
    { std::vector< int > got;
      bf::fiber p( bf::launch::dispatch, [&]{ for ( int i = 0; i < N; ++i) CHECK( c.push( Obj( i)) == channel_op_status::success); c.close(); });
      for ( auto & o : c) { got.push_back( o.v); CHECK( ! o.moved); }
      p.join(); CHECK( (int)got.size() == N); for ( int i = 0; i < (int)got.size(); ++i) CHECK( got[i] == i);
      int k = 0; for ( auto & o : c) { (void)o; ++k; } CHECK( k == 0); CHECK( begin( c) == end( c)); }
}
void scenarios() {
    using B = bf::buffered_channel< Obj >; using U = bf::unbuffered_channel< Obj >;
    SCENARIO( "iteration yields every value once and destroys every element once");
    for ( int n : { 0, 1, 2, 10}) { { B c( 4); iter( c, n); } CHECK( Obj::live == 0); { U c; iter( c, n); } CHECK( Obj::live == 0); }
    SCENARIO( "explicit iterator use");
    { B c( 8); for ( int i = 0; i < 3; ++i) c.push( Obj( i)); c.close(); auto it = begin( c), e = end( c); CHECK( it != e); CHECK( it->v == 0); CHECK( ( * it).v == 0); ++it; CHECK( it != e); CHECK( it->v == 1); ++it; CHECK( it->v == 2); ++it; CHECK( it == e); }
    CHECK( Obj::live == 0);
    SCENARIO( "an iteration that stops early, and one left by an exception");
    { B c( 8); for ( int i = 0; i < 5; ++i) c.push( Obj( i)); for ( auto & o : c) { if ( o.v == 2) break; } CHECK( Obj::live == 2 + 8 - 2); try { for ( auto & o : c) { CHECK( o.v == 3); throw 1; } } catch ( int) {} c.close(); int n = 0; for ( auto & o : c) { CHECK( o.v == 4); ++n; } CHECK( n == 1); }
    CHECK( Obj::live == 0);
    { U c; bf::fiber p( bf::launch::dispatch, [&]{ for ( int i = 0; i < 3; ++i) c.push( Obj( i)); }); for ( auto & o : c) { if ( o.v == 1) break; } Obj o; c.pop( o); p.join(); CHECK( o.v == 2); }
    CHECK( Obj::live == 0);
    SCENARIO( "the channel is closed while an iterator holds an element");
    { U c; bf::fiber p( bf::launch::dispatch, [&]{ CHECK( c.push( Obj( 1)) == channel_op_status::success); c.close(); }); auto it = begin( c), e = end( c); p.join(); CHECK( it != e && ! ( it == e) && e != it && ! ( e == it)); CHECK( it->v == 1 && ( * it).v == 1); ++it; CHECK( it == e && ! ( it != e)); }
    { B c( 8); c.push( Obj( 1)); auto it = begin( c), e = end( c); c.close(); CHECK( it != e && ! ( it == e) && e != it && ! ( e == it)); CHECK( it->v == 1); ++it; CHECK( it == e && ! ( it != e)); }
    CHECK( Obj::live == 0);
    SCENARIO( "copied and assigned iterators");
    { B c( 8); for ( int i = 0; i < 4; ++i) c.push( Obj( i)); c.close(); auto a = begin( c); auto b = a; CHECK( b == a && b->v == 0 && a->v == 0); ++b; CHECK( b->v == 1 && a->v == 0); a = b; CHECK( a->v == 1 && b->v == 1); auto & r = a; a = r; CHECK( a->v == 1); auto d = std::move( a); CHECK( d->v == 1); b = end( c); CHECK( b == end( c)); b = d; CHECK( b->v == 1); ++b; CHECK( b->v == 2); }
    CHECK( Obj::live == 0);
    { bf::buffered_channel< int > c( 16); for ( int i = 0; i < 10; ++i) c.push( i); c.close(); std::vector< int > v; { auto b = begin( c); std::for_each( b, end( c), [&]( int x) { v.push_back( x); }); } CHECK( v.size() == 10); for ( int i = 0; i < (int)v.size(); ++i) CHECK( v[i] == i); }
    { bf::unbuffered_channel< int > c; bf::fiber p( bf::launch::dispatch, [&]{ for ( int i = 0; i < 10; ++i) c.push( i); c.close(); }); std::vector< int > v; { auto b = begin( c); std::for_each( b, end( c), [&]( int x) { v.push_back( x); }); } p.join(); CHECK( v.size() == 10); for ( int i = 0; i < (int)v.size(); ++i) CHECK( v[i] == i); }
    SCENARIO( "an element whose move throws during an iteration");
    { B c( 8); for ( int i = 0; i < 4; ++i) c.push( Obj( i)); c.close(); auto it = begin( c); Obj::throw_at = 1; bool thrown = false; try { ++it; } catch ( std::runtime_error const&) { thrown = true; } Obj::throw_at = 0; CHECK( thrown); }
    CHECK( Obj::live == 0);
    SCENARIO( "move-only elements");
    { bf::buffered_channel< std::unique_ptr< int > > c( 4); c.push( std::unique_ptr< int >( new int( 3))); c.close(); int n = 0; for ( auto & p : c) n += * p; CHECK( n == 3); }
}
