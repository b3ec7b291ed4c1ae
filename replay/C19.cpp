#include "common.hpp"
#include <map>
#include <boost/fiber/fss.hpp>
#include <random>
#include <set>
struct obj { static long live; static int twice; int id; unsigned magic; explicit obj( int i) : id( i), magic( 0x1234) { ++live; } obj( obj const& o) : obj( o.id) {} ~obj() { if ( magic != 0x1234) ++twice; magic = 0; --live; } };
long obj::live{ 0 }; int obj::twice{ 0 };
static std::map< obj *, int > cleaned; static void clean( obj * o) { ++cleaned[o]; }
static void settle() { for ( int i = 0; i < 20; ++i) boost::this_fiber::yield(); }
static int null_calls{ 0 };
void scenarios() {
    SCENARIO( "random histories");
    for ( int seed = 0; seed < 40; ++seed) {
        std::mt19937 g( 77 + seed); constexpr int F = 6, P = 4; cleaned.clear();
        std::vector< std::unique_ptr< bf::fiber_specific_ptr< obj > > > ptrs; for ( int i = 0; i < P; ++i) ptrs.emplace_back( new bf::fiber_specific_ptr< obj >( [](obj * o){ if ( ! o) ++null_calls; else clean( o); }));
        std::vector< std::unique_ptr< obj > > pool; std::map< obj *, int > expect; bool ok = true;
        std::vector< bf::fiber > fs;
        for ( int f = 0; f < F; ++f) fs.emplace_back( f % 2 ? bf::launch::dispatch : bf::launch::post, [&,f]{
            obj * mine[P] = {};
            for ( int step = 0; step < 30; ++step) {
                int p = g() % P; auto & q = *ptrs[p];
                switch ( g() % 6) {
                case 0: { pool.emplace_back( new obj( f)); obj * n = pool.back().get(); if ( mine[p]) ++expect[mine[p]]; mine[p] = n; q.reset( n); break; }
                case 1: q.reset( mine[p]); break;
                case 2: if ( mine[p]) ++expect[mine[p]]; mine[p] = nullptr; q.reset( nullptr); break;
                case 3: { obj * r = q.release(); if ( r != mine[p]) ok = false; mine[p] = nullptr; break; }
                case 4: boost::this_fiber::yield(); break;
                default: break; }
                for ( int i = 0; i < P; ++i) { if ( ptrs[i]->get() != mine[i]) ok = false; if ( mine[i] && ( (*ptrs[i])->id != f || & **ptrs[i] != mine[i])) ok = false; }
            }
            for ( int i = 0; i < P; ++i) if ( mine[i]) ++expect[mine[i]];
        });
        for ( auto & f : fs) f.join();
        settle(); CHECK( ok); CHECK( cleaned == expect); CHECK( null_calls == 0);
    }
    SCENARIO( "neighbouring pointers");
    {   static std::map< obj *, int > n; n.clear(); struct P { bf::fiber_specific_ptr< obj > p{ [](obj * o){ ++n[o]; } }; }; std::vector< P > v( 64); std::vector< obj > o; for ( int i = 0; i < 64; ++i) o.emplace_back( i); bool ok = true;
        bf::fiber( [&]{ for ( int i = 0; i < 64; i += 2) v[i].p.reset( & o[i]); for ( int i = 0; i < 64; ++i) if ( v[i].p.get() != ( i % 2 ? nullptr : & o[i]) ) ok = false; }).join(); settle();
        CHECK( ok && n.size() == 32); for ( auto & e : n) CHECK( e.second == 1); }
    settle();
    SCENARIO( "default cleanup deletes");
    { bf::fiber_specific_ptr< obj > p; bf::fiber f( [&]{ p.reset( new obj( 1)); p.reset( p.get()); p.reset( new obj( 2)); delete p.release(); p.reset( new obj( 3)); }); f.join(); CHECK( ! p.get()); p.reset( new obj( 4)); }
    settle(); CHECK( obj::live == 0); CHECK( obj::twice == 0);
    SCENARIO( "cleanup functions that use fiber-specific data");
    {   static int n; n = 0; static bf::fiber_specific_ptr< obj > * pa, * pb; obj o1( 1), o2( 2);
        bf::fiber_specific_ptr< obj > a( [](obj *){ ++n; }); pa = & a; static obj * second; second = & o2;
        bf::fiber_specific_ptr< obj > b( [](obj *){ ++n; if ( second) { obj * s = second; second = nullptr; pa->reset( s); boost::this_fiber::yield(); pa->get(); } }); pb = & b;
        bf::fiber f( [&]{ a.reset( & o1); b.reset( & o1); }); f.join(); settle(); CHECK( n == 3);
        n = 0; second = & o2; bf::fiber_specific_ptr< obj > c( [](obj *){ ++n; if ( second) { obj * s = second; second = nullptr; pb->reset( s); } }); bf::fiber f2( [&]{ c.reset( & o1); }); f2.join(); settle(); CHECK( n == 2); }
    SCENARIO( "before joiners see the end of the fiber");
    { bool done = false; static bool * d; d = & done; obj o( 1); bf::fiber_specific_ptr< obj > p( [](obj *){ boost::this_fiber::yield(); *d = true; }); bf::fiber f( [&]{ p.reset( & o); boost::this_fiber::yield(); }); f.join(); CHECK( done); }
    SCENARIO( "a fiber that is unwound is cleaned up");
    { static int n; n = 0; obj o( 1), o2( 2); bf::fiber_specific_ptr< obj > p( [](obj *){ ++n; }); std::thread( [&]{ bf::fiber( [&]{ p.reset( & o); }).join(); p.reset( & o2); }).join(); CHECK( n == 2); }
    SCENARIO( "destruction of the pointer cleans the value of the running fiber");
    { static int n; n = 0; obj o( 1); { bf::fiber_specific_ptr< obj > p( [](obj *){ ++n; }); p.reset( & o); } CHECK( n == 1); bf::fiber_specific_ptr< obj > q( [](obj *){ ++n; }); CHECK( ! q.get()); }
    SCENARIO( "null cleanup function");
    { obj o( 1); bf::fiber_specific_ptr< obj > p( nullptr); p.reset( & o); p.reset( nullptr); bf::fiber( [&]{ p.reset( & o); }).join(); }
}
