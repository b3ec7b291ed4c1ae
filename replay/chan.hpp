#include "common.hpp"
using bf::channel_op_status;
struct Obj {        // counted, throwing, move-aware element
    static int live, throw_at; static std::set< Obj const* > all;
    int v; bool moved{ false};
    static void may_throw() { if ( throw_at > 0 && 0 == --throw_at) throw std::runtime_error( "element"); }
    void reg() { ++live; if ( ! all.insert( this).second) { printf( "FAIL: scenario '%s': object constructed over a live object\n", g_scenario); g_fail = 1; } }
    Obj() : v( -1) { reg(); }
    explicit Obj( int i) : v( i) { reg(); }
    Obj( Obj const& o) : v( o.v) { may_throw(); reg(); }
    Obj( Obj && o) : v( o.v) { may_throw(); o.moved = true; o.v = -2; reg(); }
    Obj & operator=( Obj const& o) { may_throw(); v = o.v; moved = false; return * this; }
    Obj & operator=( Obj && o) { may_throw(); v = o.v; moved = false; if ( & o != this) { o.moved = true; o.v = -2; } return * this; }
    ~Obj() { --live; if ( ! all.erase( this)) { printf( "FAIL: scenario '%s': destructor of an object that is not alive\n", g_scenario); fflush( stdout); g_fail = 1; } }
};
int Obj::live = 0, Obj::throw_at = 0; std::set< Obj const* > Obj::all;
template< typename Ch, bool Buf > void stress( int producers, int consumers, int per) {
    SCENARIO( "producers and consumers on several threads");
    std::unique_ptr< Ch > chp; if constexpr ( Buf) chp.reset( new Ch( 4)); else chp.reset( new Ch());
    Ch & c = * chp; std::vector< std::thread > ps, cs; std::mutex mtx; std::map< int, int > seen; std::atomic< bool > bad{ false}; std::atomic< int > alive{ producers};
    for ( int p = 0; p < producers; ++p) ps.emplace_back( [&,p]{ bf::fiber( [&,p]{ for ( int i = 0; i < per; ++i) { int v = p * 1000000 + i;
        if ( i % 3 == 0) { while ( channel_op_status::success != c.push_wait_for( v, std::chrono::microseconds( 1 + i % 50))) ; }
        else if ( Buf && i % 3 == 1) { if constexpr ( Buf) { while ( channel_op_status::success != c.try_push( v)) boost::this_fiber::yield(); } }
        else if ( channel_op_status::success != c.push( v)) bad = true; } }).join(); });
    for ( int k = 0; k < consumers; ++k) cs.emplace_back( [&,k]{ bf::fiber( [&,k]{ std::vector< int > mine; std::map< int, int > last; int i = 0;
        for (;;) { int v = -1; channel_op_status s; ++i;
          if ( i % 3 == 0) { s = c.pop_wait_for( v, std::chrono::microseconds( 1 + i % 70)); if ( s == channel_op_status::timeout) continue; }
          else s = c.pop( v);
          if ( s == channel_op_status::closed) break; if ( s != channel_op_status::success) { bad = true; break; }
          mine.push_back( v); int p = v / 1000000; if ( last.count( p) && last[p] >= v) bad = true; last[p] = v; }
        std::unique_lock< std::mutex > lk( mtx); for ( int v : mine) ++seen[v]; }).join(); });
    for ( auto & t : ps) t.join(); c.close(); for ( auto & t : cs) t.join();
    CHECK( ! bad); CHECK( (int)seen.size() == producers * per); for ( auto & x : seen) if ( x.second != 1) bad = true; CHECK( ! bad);
}
