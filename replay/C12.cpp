#include "fut.hpp"
#include <tuple>
// what a callable is given and what it does
struct Rec { static std::atomic< int > calls, live, moves, copies; static std::atomic< int > throw_at; };
std::atomic< int > Rec::calls{ 0 }, Rec::live{ 0 }, Rec::moves{ 0 }, Rec::copies{ 0 }, Rec::throw_at{ 0 };
struct Arg { int v; bool moved{ false }; Arg * self; explicit Arg( int x) : v{ x }, self{ this } { ++Rec::live; }
    static void tick() { if ( 0 < Rec::throw_at.load() && 0 == --Rec::throw_at) throw 77; }
    Arg( Arg const& o) : v{ o.v }, moved{ o.moved }, self{ this } { tick(); ++Rec::live; ++Rec::copies; } Arg( Arg && o) : v{ o.v }, moved{ o.moved }, self{ this } { tick(); o.moved = true; ++Rec::live; ++Rec::moves; }
    ~Arg() { CHECK( self == this); self = nullptr; --Rec::live; } bool is( int x) const { return v == x && ! moved && self == this; } };
static int g_target = 41;
enum Mode { VALUE, THROWS, UNWINDS };
struct Body { int id; bool moved{ false }; Arg a; explicit Body( int i) : id{ i }, a{ i } {} Body( Body const&) = default; Body( Body && o) : id{ o.id }, moved{ o.moved }, a{ std::move( o.a) } { o.moved = true; }
    void go( Arg && x, int n) { ++Rec::calls; CHECK( ! moved); CHECK( a.is( id)); CHECK( x.is( n)); CHECK( n == id + 1); if ( id < 0) throw id; } };
template< typename R > struct Job;
template<> struct Job< Track > : Body { using Body::Body; Track operator()( Arg x, int n) { go( std::move( x), n); return Track( id * 10); } };
template<> struct Job< Track & > : Body { using Body::Body; static Track * t; Track & operator()( Arg x, int n) { go( std::move( x), n); return * t; } };
template<> struct Job< void > : Body { using Body::Body; void operator()( Arg x, int n) { go( std::move( x), n); } };
Track * Job< Track & >::t = nullptr;
template< typename F > int outcome( F & f, Track *, int id) { return int_of( [&]{ Track t( f.get()); CHECK( t.is( id * 10)); }); }
template< typename F > int outcome( F & f, int *, int) { return int_of( [&]{ CHECK( & f.get() == Job< Track & >::t); }); }
template< typename F > int outcome( F & f, void *, int) { return int_of( [&]{ f.get(); }); }
template< typename R > struct Tag { typedef R * type; }; template< typename R > struct Tag< R & > { typedef int * type; };
#define OUTCOME( f, id) CHECK( outcome( f, typename Tag< R >::type{}, id) == ( ( id) < 0 ? ( id) : 0))
template< typename R > void tasks() {
    typedef bf::packaged_task< R( Arg, int) > T;
    for ( int id : { 3, -4 }) {
        {   // one run, before and after the future is taken
            Rec::calls = 0; T t( std::allocator_arg, Alloc< int >{}, Job< R >( id)); auto f = t.get_future(); CHECK( Rec::calls == 0); CHECK( f.wait_for( 0s) == bf::future_status::timeout);
            t( Arg( id + 1), id + 1); CHECK( Rec::calls == 1); CHECK( f.wait_for( 0s) == bf::future_status::ready);
            CHECK( code_of( [&]{ t( Arg( id + 1), id + 1); }) == SATISFIED); CHECK( f.valid()); OUTCOME( f, id); CHECK( ! f.valid()); CHECK( int_of( [&]{ t.get_future(); }) == RETRIEVED);
        }
        { Rec::calls = 0; Job< R > j( id); T t( std::allocator_arg, Alloc< int >{}, j); CHECK( j.a.is( id)); t( Arg( id + 1), id + 1); CHECK( Rec::calls == 1); auto f = t.get_future(); OUTCOME( f, id); }
        {   // reset before, between and after runs; the function stays the same
            Rec::calls = 0; T t( std::allocator_arg, Alloc< int >{}, Job< R >( id)); int runs = 0; bf::future< R > keep;
            for ( int k = 0; k < 4; ++k) { if ( k % 2) { t.reset(); if ( keep.valid()) OUTCOME( keep, id); } else if ( k) { CHECK( code_of( [&]{ t( Arg( id + 1), id + 1); }) == SATISFIED); ++runs; t.reset(); if ( keep.valid()) OUTCOME( keep, id); }
                auto f = t.get_future(); CHECK( f.wait_for( 0s) == bf::future_status::timeout); t( Arg( id + 1), id + 1); ++runs; CHECK( Rec::calls == runs); CHECK( f.wait_for( 0s) == bf::future_status::ready); if ( k % 2) OUTCOME( f, id); else keep = std::move( f); }
        }
        {   // reset without a run breaks the old promise
            T t( std::allocator_arg, Alloc< int >{}, Job< R >( id)); auto f = t.get_future(); t.reset(); CHECK( int_of( [&]{ f.get(); }) == BROKEN); auto g = t.get_future(); t( Arg( id + 1), id + 1); OUTCOME( g, id); }
        {   // moved and swapped
            T t( std::allocator_arg, Alloc< int >{}, Job< R >( id)); auto f = t.get_future(); T u( std::move( t)); CHECK( code_of( [&]{ t( Arg( 1), 1); }) == NOSTATE); T w; w.swap( u); T x; x = std::move( w); x( Arg( id + 1), id + 1); OUTCOME( f, id); }
        {   // the invocation runs on another fiber, the future outlives the task
            bf::future< R > f; { T t( std::allocator_arg, Alloc< int >{}, Job< R >( id)); f = t.get_future(); bf::fiber( std::move( t), Arg( id + 1), id + 1).detach(); } OUTCOME( f, id); }
        boost::this_fiber::sleep_for( 1ms); CHECK( Rec::live == 0);
        {   // passing an argument on throws: also an outcome
            for ( int k = 1; k <= 8; ++k) { Rec::calls = 0; T t( std::allocator_arg, Alloc< int >{}, Job< R >( id)); auto f = t.get_future(); Arg a( id + 1); Rec::throw_at = k; int e = int_of( [&]{ t( a, id + 1); }); Rec::throw_at = 0;
                if ( e == 77) { CHECK( Rec::calls == 0); CHECK( f.wait_for( 0s) == bf::future_status::timeout); t( Arg( id + 1), id + 1); OUTCOME( f, id); continue; }      // the copy into operator()'s own parameter
                CHECK( e == 0); CHECK( f.wait_for( 0s) == bf::future_status::ready); if ( Rec::calls) OUTCOME( f, id); else CHECK( int_of( [&]{ f.get(); }) == 77); }
        }
    }
    CHECK( Rec::live == 0);
    {   // the result's move throws
        if ( std::is_same< R, Track >::value) { T t( std::allocator_arg, Alloc< int >{}, Job< R >( 3)); auto f = t.get_future(); Track::throw_at = 1; t( Arg( 4), 4); Track::throw_at = 0; bool bad = false; try { f.get(); } catch ( std::runtime_error const&) { bad = true; } CHECK( bad); }
    }
    CHECK( Rec::live == 0); CHECK( Count::n == 0); CHECK( Count::bytes == 0);
    {   // construction and reset that fail leave everything as it was
        Job< R > j( 3); for ( int k = 1; k < 3; ++k) { Rec::throw_at = k; bool bad = false; try { T t( std::allocator_arg, Alloc< int >{}, j); } catch ( int) { bad = true; } Rec::throw_at = 0; CHECK( bad == ( k == 1)); }
        CHECK( Rec::live == 1); T t( std::allocator_arg, Alloc< int >{}, j); auto f = t.get_future(); Count::fail = 1; bool bad = false; try { t.reset(); } catch ( std::bad_alloc const&) { bad = true; } Count::fail = 0; CHECK( bad); bad = false; Rec::throw_at = 1; try { t.reset(); } catch ( int) { bad = true; } Rec::throw_at = 0; CHECK( bad); CHECK( Count::n == 1); t( Arg( 4), 4); OUTCOME( f, 3); }
    CHECK( Rec::live == 0); CHECK( Count::n == 0); CHECK( Count::bytes == 0);
}
struct Stack { static std::atomic< int > n; boost::fibers::fixedsize_stack s{ 64 * 1024 }; boost::context::stack_context allocate() { ++n; return s.allocate(); } void deallocate( boost::context::stack_context & c) noexcept { --n; s.deallocate( c); } };
std::atomic< int > Stack::n{ 0 };
template< typename R > void asyncs() {
    for ( int id : { 3, -4 }) for ( auto p : { bf::launch::post, bf::launch::dispatch }) for ( int k = 0; k < 4; ++k) for ( int copy = 0; copy < 2; ++copy) {
        Rec::calls = 0;
        {
            Job< R > j( id); Arg a( id + 1); bf::future< R > f;
            auto run = [&]( auto && fn, auto && arg) { typedef decltype( fn) F; typedef decltype( arg) A; switch ( k) {
                case 0: f = bf::async( std::forward< F >( fn), std::forward< A >( arg), id + 1); break;
                case 1: f = bf::async( p, std::forward< F >( fn), std::forward< A >( arg), id + 1); break;
                case 2: f = bf::async( p, std::allocator_arg, Stack{}, std::forward< F >( fn), std::forward< A >( arg), id + 1); break;
                case 3: f = bf::async( p, std::allocator_arg, Stack{}, Alloc< int >{}, std::forward< F >( fn), std::forward< A >( arg), id + 1); break; } };
            if ( copy) { run( j, a); CHECK( j.a.is( id)); CHECK( a.is( id + 1)); } else run( std::move( j), std::move( a));
            if ( k && p == bf::launch::dispatch) { CHECK( Rec::calls == 1); CHECK( f.wait_for( 0s) == bf::future_status::ready); } else CHECK( Rec::calls == 0);
            CHECK( f.valid()); if ( k == 3) CHECK( Count::n == 1); OUTCOME( f, id); CHECK( Rec::calls == 1);
        }
        boost::this_fiber::sleep_for( 1ms); CHECK( Rec::live == 0); CHECK( Count::n == 0); CHECK( Stack::n == 0);
    }
}
void move_only() {
    SCENARIO( "move-only functions and arguments, references by wrapper");
    { auto q = std::make_unique< int >( 4); bf::packaged_task< int( std::unique_ptr< int >) > t( [q = std::move( q)]( std::unique_ptr< int > a){ return * q + * a; }); auto f = t.get_future(); t( std::make_unique< int >( 5)); CHECK( f.get() == 9); }
    { int x = 1; auto f = bf::async( []( int & r){ r = 8; }, std::ref( x)); f.get(); CHECK( x == 8); }
    { auto f = bf::async( bf::launch::dispatch, []( std::unique_ptr< int > a){ return a; }, std::make_unique< int >( 3)); CHECK( * f.get() == 3); }
    { bf::packaged_task< int( int) > t; CHECK( ! t.valid()); CHECK( code_of( [&]{ t( 1); }) == NOSTATE); CHECK( code_of( [&]{ t.reset(); }) == NOSTATE); CHECK( code_of( [&]{ t.get_future(); }) == NOSTATE); }
    { bf::packaged_task< int( int) > t( []( int x){ boost::this_fiber::yield(); return x; }); auto f = t.get_future(); bf::fiber a( bf::launch::dispatch, [&]{ t( 1); }); int e = code_of( [&]{ t( 2); }); a.join(); int v = f.get(); CHECK( ( v == 1 && e == SATISFIED) || ( v == 2 && e == 0) || e == SATISFIED); }
}
// two threads invoke the same task: one outcome, the other is told
void race( int rounds) {
    for ( int i = 0; i < rounds; ++i) {
        std::atomic< int > n{ 0 }, told{ 0 }, ready{ 0 }, first{ -1 }; bf::packaged_task< Track( int) > t( std::allocator_arg, Alloc< int >{}, [&n]( int x){ ++n; if ( x == 2) throw 5; return Track( x); }); auto f = t.get_future(); std::vector< std::thread > ts;
        for ( int k = 0; k < 3; ++k) ts.emplace_back( [&,k]{ ++ready; while ( ready < 3) ; int c = code_of( [&]{ t( k); }); CHECK( c == 0 || c == SATISFIED); if ( c) ++told; else first = k; });
        int e = -1; try { Track r( f.get()); e = r.v; CHECK( ! r.moved); } catch ( int x) { CHECK( x == 5); e = 2; }
        for ( auto & x : ts) x.join(); CHECK( n == 3); CHECK( told == 2); CHECK( first == e);
    }
    CLEAN();
}
void scenarios() {
    {
    Track tr( 9); Job< Track & >::t = & tr;
    SCENARIO( "a task's outcome is captured: value"); tasks< Track >();
    SCENARIO( "a task's outcome is captured: reference"); tasks< Track & >();
    SCENARIO( "a task's outcome is captured: void"); tasks< void >();
    SCENARIO( "async"); asyncs< Track >(); asyncs< Track & >(); asyncs< void >();
    move_only(); CHECK( Track::live == 1);
    Job< Track & >::t = nullptr; }
    SCENARIO( "invocations race"); race( 300);
}
void stress() { SCENARIO( "invocations race"); race( 150); }
