#pragma once
#include "common.hpp"
#include <boost/fiber/fss.hpp>
#include <cstring>
#include <numeric>
// stack allocator that checks what it gets back and notices writes to a stack after it was given back
struct track_stack {
    struct rec { char * p; std::size_t n; };
    static std::mutex m; static std::map< void *, rec > live; static std::vector< rec > dead; static std::atomic< int > allocs, frees, bad; static bool keep;
    std::size_t size{ 64 * 1024 }; std::size_t skew{ 0 };
    boost::context::stack_context allocate() {
        char * p = static_cast< char * >( std::malloc( size + 4096)); boost::context::stack_context c; c.size = size; c.sp = p + size + skew; std::unique_lock< std::mutex > lk( m); live[c.sp] = rec{ p, size }; ++allocs; return c; }
    void deallocate( boost::context::stack_context & c) {
        std::unique_lock< std::mutex > lk( m); auto i = live.find( c.sp);
        if ( i == live.end() || i->second.n != c.size) { ++bad; return; }
        ++frees; rec r = i->second; live.erase( i); std::memset( r.p, 0xdd, r.n); if ( keep) dead.push_back( r); else std::free( r.p); }
    static int touched() { std::unique_lock< std::mutex > lk( m); int n = 0; for ( auto & r : dead) { for ( std::size_t i = 0; i < r.n; ++i) if ( static_cast< unsigned char >( r.p[i]) != 0xdd) { ++n; break; } std::free( r.p); } dead.clear(); return n; }
    static void reset() { touched(); allocs = frees = bad = 0; }
};
std::mutex track_stack::m; std::map< void *, track_stack::rec > track_stack::live; std::vector< track_stack::rec > track_stack::dead; std::atomic< int > track_stack::allocs{ 0 }, track_stack::frees{ 0 }, track_stack::bad{ 0 }; bool track_stack::keep{ true };
static void settle() { for ( int i = 0; i < 5; ++i) boost::this_fiber::yield(); }
template< typename F > bf::fiber tracked( F && f, bf::launch p = bf::launch::post) { return bf::fiber( p, std::allocator_arg, track_stack{}, std::forward< F >( f)); }

static void handle_scen() {
    const int inval = static_cast< int >( std::errc::invalid_argument), dead = static_cast< int >( std::errc::resource_deadlock_would_occur);
    SCENARIO( "join waits for the end of the fiber's function");
    for ( auto p : { bf::launch::post, bf::launch::dispatch }) for ( int y = 0; y < 5; ++y) { int n = 0; bf::fiber f( p, [&]{ for ( int i = 0; i < y; ++i) boost::this_fiber::yield(); ++n; }); CHECK( f.joinable() ); CHECK( f.get_id() != bf::fiber::id() ); f.join(); CHECK( n == 1); CHECK( ! f.joinable() ); CHECK( f.get_id() == bf::fiber::id() ); }
    { bool done = false; bf::fiber f( [&]{ boost::this_fiber::sleep_for( 20ms); done = true; }); f.join(); CHECK( done); }
    { bool done = false; bf::fiber f( [&]{ done = true; }); settle(); CHECK( done); f.join(); CHECK( ! f.joinable() ); }
    SCENARIO( "errors of join and detach");
    { bf::fiber e; CHECK( inval == code_of( [&]{ e.join(); })); CHECK( inval == code_of( [&]{ e.detach(); })); bf::fiber f( []{}); f.join(); CHECK( inval == code_of( [&]{ f.join(); })); CHECK( inval == code_of( [&]{ f.detach(); })); }
    { bf::fiber f( []{}); bf::fiber g( std::move( f)); CHECK( inval == code_of( [&]{ f.join(); })); g.join(); }
    { int c = 0; bool still = false; bf::fiber f; f = bf::fiber( [&]{ c = code_of( [&]{ f.join(); }); still = f.joinable(); }); f.join(); CHECK( c == dead && still); }
    { int c = 0, x = 0; bf::fiber f( [&]{ bf::fiber g( [&]{ x = 1; }); g.join(); c = code_of( [&]{ g.join(); }); }); f.join(); CHECK( c == inval && x == 1); }
    SCENARIO( "detach does not wait");
    { bool done = false; bf::fiber f( [&]{ boost::this_fiber::yield(); done = true; }); f.detach(); CHECK( ! f.joinable() && ! done); settle(); CHECK( done); }
    SCENARIO( "move, swap, ids");
    { int n = 0; bf::fiber a( [&]{ ++n; }), b; auto id = a.get_id(); b = std::move( a); CHECK( b.get_id() == id && ! a.joinable() ); bf::fiber c( [&]{ n += 10; }); auto ic = c.get_id(); CHECK( id != ic && ( id < ic) != ( ic < id)); b.swap( c); CHECK( c.get_id() == id && b.get_id() == ic); swap( b, c); CHECK( b.get_id() == id); bf::fiber d( std::move( b)); CHECK( ! b.joinable() && d.get_id() == id); d.join(); c.join(); CHECK( n == 11); bf::fiber e; e.swap( d); CHECK( ! e.joinable() ); }
    { bf::fiber::id in; bf::fiber f( [&]{ in = boost::this_fiber::get_id(); }); auto id = f.get_id(); f.join(); CHECK( in == id && in != boost::this_fiber::get_id() ); }
    SCENARIO( "a joinable handle must not be dropped");
    CHECK( terminates( []{ bf::fiber f( []{}); })); CHECK( terminates( []{ bf::fiber f( []{}), g; f = std::move( g); })); CHECK( terminates( []{ bf::fiber f( []{}), g( []{}); f = std::move( g); }));
    CHECK( ! terminates( []{ bf::fiber f( []{}), g; g = std::move( f); g.join(); }));
    SCENARIO( "join from another thread");
    for ( int i = 0; i < 300; ++i) {
        std::atomic< int > v{ 0 }; std::atomic< bool > have{ false }, joined{ false }; bf::fiber h;
        std::thread a( [&]{ h = bf::fiber( [&]{ for ( int k = 0; k < i % 4; ++k) boost::this_fiber::yield(); if ( i % 50 == 0) boost::this_fiber::sleep_for( 2ms); v = 1; }); have = true; while ( ! joined) boost::this_fiber::yield(); });
        while ( ! have) ; h.join(); CHECK( v == 1); joined = true; a.join(); }
    SCENARIO( "a fiber that ends while it is joined from another thread");
    for ( int i = 0; i < 200; ++i) {
        std::atomic< int > v{ 0 }, stage{ 0 }; bf::fiber h; std::atomic< bool > joined{ false };
        std::thread a( [&]{ h = bf::fiber( [&]{ while ( stage < 1) boost::this_fiber::yield(); v = 1; }); stage = -1; while ( ! joined) boost::this_fiber::yield(); });
        while ( stage != -1) ; bf::fiber w( [&]{ h.join(); CHECK( v == 1); joined = true; }); bf::fiber g( [&]{ for ( int k = 0; k < i % 7; ++k) boost::this_fiber::yield(); stage = 1; }); w.join(); g.join(); a.join(); }
    SCENARIO( "join races with termination");
    { std::atomic< int > st{ 0 }, round{ 0 }; std::atomic< bool > joined{ false }, over{ false }; bf::fiber h;
      std::thread a( [&]{ int mine = 0; while ( ! over) { if ( round == mine) { boost::this_fiber::yield(); continue; }
          mine = round; h = bf::fiber( [&]{ st = 1; while ( st < 2) ; for ( volatile int k = 0; k < round % 400; ++k) ; }); while ( ! joined) boost::this_fiber::yield(); round = -1; mine = -1; } });
      auto end = Clock::now() + 8s;
      for ( int i = 0; i < 40000 && Clock::now() < end; ++i) { st = 0; joined = false; round = i + 1; while ( st < 1) ; st = 2; h.join(); CHECK( ! h.joinable() ); joined = true; while ( round != -1) ; }
      over = true; a.join(); }
    SCENARIO( "joining a fiber that blocks in a cleanup function");
    { static bf::mutex m; static int cleaned; cleaned = 0; bf::fiber_specific_ptr< int > p( []( int * x){ std::unique_lock< bf::mutex > lk( m); boost::this_fiber::yield(); ++cleaned; delete x; });
      std::unique_lock< bf::mutex > lk( m); bf::fiber f( [&]{ p.reset( new int{ 1 }); }); bf::fiber u( [&]{ boost::this_fiber::yield(); }); settle(); lk.unlock(); f.join(); u.join(); CHECK( cleaned == 1); }
}
struct cnt_props : public bf::fiber_properties { static std::atomic< int > live; cnt_props( bf::context * c) : bf::fiber_properties{ c } { ++live; } ~cnt_props() { --live; } };
std::atomic< int > cnt_props::live{ 0 };
static void cycle_scen() {
    SCENARIO( "the function runs once with its arguments");
    for ( auto p : { bf::launch::post, bf::launch::dispatch }) {
        int n = 0, s = 0; std::string t; auto sp = std::make_shared< int >( 7); std::weak_ptr< int > w = sp; int ref = 1;
        bf::fiber f( p, [&]( int a, std::string b, std::shared_ptr< int > c, int & r){ ++n; s = a + * c; t = b; CHECK( c.use_count() >= 1); r = 5; boost::this_fiber::yield(); }, 4, std::string( "abc"), sp, std::ref( ref));
        sp.reset(); CHECK( n == ( p == bf::launch::dispatch ? 1 : 0)); f.join(); CHECK( n == 1 && s == 11 && t == "abc" && ref == 5); CHECK( w.expired() ); }
    { auto u = std::make_unique< int >( 3); int v = 0; bf::fiber f( [&]( std::unique_ptr< int > x){ v = * x; }, std::move( u)); f.join(); CHECK( v == 3); }
    { auto sp = std::make_shared< int >( 7); int v = 0; bf::fiber f( [sp,&v]{ v = * sp; }); f.join(); CHECK( v == 7 && sp.use_count() == 1); }
    SCENARIO( "constructor overloads");
    for ( auto p : { bf::launch::post, bf::launch::dispatch }) {
        int n = 0; auto fn = [&]( int k){ n += k; };
        { bf::fiber f( fn, 1); CHECK( n == 0); f.join(); } CHECK( n == 1); { bf::fiber f( p, fn, 2); CHECK( n == ( p == bf::launch::dispatch ? 3 : 1)); f.join(); } CHECK( n == 3);
        { bf::fiber f( std::allocator_arg, track_stack{}, fn, 4); CHECK( n == 3); f.join(); } CHECK( n == 7); { bf::fiber f( p, std::allocator_arg, track_stack{}, fn, 8); CHECK( n == ( p == bf::launch::dispatch ? 15 : 7)); f.join(); } CHECK( n == 15); }
    SCENARIO( "constructor overloads with properties");
    for ( auto p : { bf::launch::post, bf::launch::dispatch }) {
        int n = 0; auto fn = [&]( int k){ n += k; }; auto pr = []{ return static_cast< bf::fiber_properties * >( new cnt_props( nullptr)); };
        { bf::fiber f( pr(), fn, 1); CHECK( n == 0); f.join(); } CHECK( n == 1); { bf::fiber f( p, pr(), fn, 2); CHECK( n == ( p == bf::launch::dispatch ? 3 : 1)); f.join(); } CHECK( n == 3);
        { bf::fiber f( pr(), std::allocator_arg, track_stack{}, fn, 4); CHECK( n == 3); f.join(); } CHECK( n == 7); { bf::fiber f( p, pr(), std::allocator_arg, track_stack{}, fn, 8); CHECK( n == ( p == bf::launch::dispatch ? 15 : 7)); f.join(); } CHECK( n == 15); }
    settle(); CHECK( cnt_props::live == 0);
    CHECK( track_stack::allocs == track_stack::frees && track_stack::bad == 0 && track_stack::touched() == 0);
    SCENARIO( "function and arguments are destroyed before joiners are woken");
    { struct arg { std::shared_ptr< int > p; bf::mutex * m; ~arg() { if ( p && m) { m->lock(); boost::this_fiber::yield(); m->unlock(); } } arg( std::shared_ptr< int > p_, bf::mutex * m_) : p( p_), m( m_) {} arg( arg && o) : p( std::move( o.p)), m( o.m) { o.m = nullptr; } };
      bf::mutex m; auto sp = std::make_shared< int >( 1); bf::fiber f( []( arg &&){}, arg( sp, & m)); f.join(); CHECK( sp.use_count() == 1);
      bf::fiber g( [a=std::make_shared< arg >( sp, & m)]{}); g.join(); CHECK( sp.use_count() == 1); }
    { auto sp = std::make_shared< int >( 1); bf::fiber f( []( std::shared_ptr< int > const&){}, sp); bf::fiber g( [&]{ f.join(); CHECK( sp.use_count() == 1); }); g.join(); }
    { auto sp = std::make_shared< int >( 1); bf::fiber f( []( std::shared_ptr< int > const&){}, sp); settle(); CHECK( sp.use_count() == 1); f.join(); }
    SCENARIO( "stack and control block are released once");
    track_stack::reset();
    { bf::fiber f = tracked( []{}); settle(); CHECK( track_stack::frees == 0); CHECK( f.joinable() ); f.detach(); CHECK( track_stack::frees == 1); }
    { bf::fiber f = tracked( []{}); settle(); CHECK( track_stack::frees == 1); f.join(); CHECK( track_stack::frees == 2); }
    { bf::fiber f = tracked( []{}); f.join(); settle(); CHECK( track_stack::frees == 3); }
    { bf::fiber f = tracked( []{ boost::this_fiber::yield(); }); f.detach(); CHECK( track_stack::frees == 3); settle(); CHECK( track_stack::frees == 4); }
    { bf::fiber f = tracked( []{ boost::this_fiber::yield(); }, bf::launch::dispatch); f.detach(); settle(); CHECK( track_stack::frees == 5); }
    CHECK( track_stack::bad == 0 && track_stack::touched() == 0);
    SCENARIO( "fibers left over at thread exit");
    track_stack::reset(); { std::atomic< int > n{ 0 }; std::thread( [&]{ for ( int i = 0; i < 20; ++i) tracked( [&,i]{ if ( i % 3 == 0) boost::this_fiber::yield(); if ( i % 5 == 0) boost::this_fiber::sleep_for( 1ms); ++n; }, i % 2 ? bf::launch::post : bf::launch::dispatch).detach(); }).join(); CHECK( n == 20); }
    CHECK( track_stack::allocs == 20 && track_stack::frees == 20 && track_stack::bad == 0 && track_stack::touched() == 0);
    SCENARIO( "many fibers left over at thread exit");
    for ( int y = 0; y < 2; ++y) { track_stack::reset(); std::thread( [&]{ for ( int i = 0; i < 200; ++i) tracked( [y]{ if ( y) boost::this_fiber::yield(); }).detach(); }).join(); CHECK( track_stack::allocs == 200 && track_stack::frees == 200 && track_stack::bad == 0 && track_stack::touched() == 0); }
    SCENARIO( "the last reference is dropped in another thread");
    track_stack::reset();
    for ( int i = 0; i < 200; ++i) {
        bf::fiber h; std::atomic< int > st{ 0 };
        std::thread a( [&]{ h = tracked( [&]{ while ( st < 2 && i % 2) boost::this_fiber::yield(); }); st = 1; while ( st < 3) boost::this_fiber::yield(); });
        while ( st < 1) ; st = 2; if ( i % 3) h.join(); else h.detach(); st = 3; a.join(); if ( i % 50 == 49) { CHECK( track_stack::allocs == track_stack::frees); CHECK( track_stack::bad == 0 && track_stack::touched() == 0); } }
    SCENARIO( "every joiner is woken and a finished fiber does not run again");
    { std::atomic< int > runs{ 0 }; bf::condition_variable cv; bf::mutex m; std::vector< bf::fiber > fs; for ( int i = 0; i < 50; ++i) fs.push_back( tracked( [&]{ ++runs; boost::this_fiber::yield(); { std::unique_lock< bf::mutex > lk( m); cv.wait_for( lk, 1ms); } })); for ( auto & f : fs) f.join(); settle(); boost::this_fiber::sleep_for( 3ms); CHECK( runs == 50); }
    CHECK( track_stack::allocs == track_stack::frees && track_stack::bad == 0 && track_stack::touched() == 0);
}
