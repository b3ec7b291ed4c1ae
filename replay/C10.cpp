#include "fut.hpp"
template< typename P, typename F > void second_is_refused( P & p, F && f, bool exc) {
    CHECK( code_of( f) == SATISFIED); CHECK( code_of( [&]{ p.set_exception( std::make_exception_ptr( 99)); }) == SATISFIED); (void)exc;
}
void once() {
    SCENARIO( "a result is set at most once");
    { bf::promise< Track > p; auto f = p.get_future(); Track t( 1); p.set_value( t); CHECK( t.is( 1)); second_is_refused( p, [&]{ p.set_value( Track( 2)); }, false); CHECK( code_of( [&]{ p.set_value( t); }) == SATISFIED); CHECK( ! f.get_exception_ptr()); CHECK( f.wait_for( 0ms) == bf::future_status::ready); CHECK( f.get().is( 1)); }
    { bf::promise< Track > p; auto f = p.get_future(); p.set_value( Track( 3)); CHECK( f.get().is( 3)); }
    { bf::promise< Track > p; auto f = p.get_future(); p.set_exception( std::make_exception_ptr( 7)); second_is_refused( p, [&]{ p.set_value( Track( 2)); }, true); auto e = f.get_exception_ptr(); CHECK( e == f.get_exception_ptr()); int r = int_of( [&]{ std::rethrow_exception( e); }); CHECK( r == 7); CHECK( int_of( [&]{ f.get(); }) == 7); }
    { int a = 1, b = 2; bf::promise< int & > p; auto f = p.get_future(); p.set_value( a); second_is_refused( p, [&]{ p.set_value( b); }, false); CHECK( & f.get() == & a); }
    { bf::promise< int & > p; auto f = p.get_future(); int b = 0; p.set_exception( std::make_exception_ptr( 8)); second_is_refused( p, [&]{ p.set_value( b); }, true); CHECK( int_of( [&]{ f.get(); }) == 8); }
    { bf::promise< void > p; auto f = p.get_future(); p.set_value(); second_is_refused( p, [&]{ p.set_value(); }, false); CHECK( int_of( [&]{ f.get(); }) == 0); }
    { bf::promise< void > p; auto f = p.get_future(); p.set_exception( std::make_exception_ptr( 9)); second_is_refused( p, [&]{ p.set_value(); }, true); CHECK( int_of( [&]{ f.get(); }) == 9); }
    CHECK( Track::live == 0);
    SCENARIO( "a value whose copy throws");
    { bf::promise< Track > p; auto f = p.get_future(); Track t( 4); for ( int k = 0; k < 2; ++k) { Track::throw_at = 1; bool thrown = false; try { if ( k) p.set_value( std::move( t)); else p.set_value( t); } catch ( std::runtime_error const&) { thrown = true; } Track::throw_at = 0; CHECK( thrown); CHECK( f.wait_for( 0ms) == bf::future_status::timeout); } p.set_value( t); CHECK( f.get().is( 4)); }
    CHECK( Track::live == 0);
    { bf::promise< Track > p; { auto f = p.get_future(); p.set_value( Track( 5)); } CHECK( Track::live == 1); }
    CHECK( Track::live == 0);
    { bf::promise< Track > p; { auto f = p.get_future(); Track::throw_at = 1; try { Track t( 6); p.set_value( t); } catch ( std::runtime_error const&) {} Track::throw_at = 0; } }
    CHECK( Track::live == 0);
    { bf::promise< Track > p; auto f = p.get_future(); p.set_exception( std::make_exception_ptr( 1)); }
    CHECK( Track::live == 0);
}
// many waiters of every kind, on fibers and on other threads
template< typename R, typename Set, typename Chk > void waiters( Set && set, Chk && chk, int threads, int fibers, bool late) {
    bf::promise< R > p; bf::shared_future< R > sf = p.get_future().share(); std::atomic< int > n{ 0 }; std::atomic< bool > isset{ false };
    auto waiter = [&,sf]( int k) {
        switch ( k % 5) {
        case 0: break;
        case 1: sf.wait(); CHECK( isset.load()); break;
        case 2: CHECK( sf.wait_for( 60s) == bf::future_status::ready); CHECK( isset.load()); break;
        case 3: CHECK( sf.wait_until( Clock::now() + 60s) == bf::future_status::ready); break;
        case 4: { bf::shared_future< R > c( sf); (void)c.get_exception_ptr(); CHECK( isset.load()); break; } }
        chk( sf); CHECK( isset.load()); ++n; };
    std::vector< std::thread > ts; for ( int t = 0; t < threads; ++t) ts.emplace_back( [&,t]{ std::vector< bf::fiber > fs; for ( int i = 0; i < fibers; ++i) fs.emplace_back( bf::launch::dispatch, waiter, i + t); for ( auto & f : fs) f.join(); });
    std::vector< bf::fiber > fs; for ( int i = 0; i < fibers; ++i) fs.emplace_back( bf::launch::dispatch, waiter, i);
    if ( late) boost::this_fiber::sleep_for( 2ms);
    isset = true; set( p); for ( auto & f : fs) f.join(); for ( auto & t : ts) t.join(); CHECK( n == ( threads + 1) * fibers);
}
static int g_ref = 5;
void all_kinds( int threads, int fibers, bool late) {
    waiters< Track >( []( bf::promise< Track > & p) { p.set_value( Track( 3)); }, []( bf::shared_future< Track > f) { CHECK( f.get().is( 3)); }, threads, fibers, late);
    waiters< Track >( []( bf::promise< Track > & p) { Track t( 3); p.set_value( t); }, []( bf::shared_future< Track > f) { CHECK( f.get().is( 3)); }, threads, fibers, late);
    waiters< int & >( []( bf::promise< int & > & p) { p.set_value( g_ref); }, []( bf::shared_future< int & > f) { CHECK( & f.get() == & g_ref); }, threads, fibers, late);
    waiters< void >( []( bf::promise< void > & p) { p.set_value(); }, []( bf::shared_future< void > f) { CHECK( int_of( [&]{ f.get(); }) == 0); CHECK( ! f.get_exception_ptr()); }, threads, fibers, late);
    waiters< Track >( []( bf::promise< Track > & p) { p.set_exception( std::make_exception_ptr( 4)); }, []( bf::shared_future< Track > f) { CHECK( int_of( [&]{ f.get(); }) == 4); }, threads, fibers, late);
    waiters< void >( []( bf::promise< void > & p) { p.set_exception( std::make_exception_ptr( 4)); }, []( bf::shared_future< void > f) { CHECK( int_of( [&]{ f.get(); }) == 4); }, threads, fibers, late);
    waiters< int & >( []( bf::promise< int & > & p) { bf::promise< int & > q( std::move( p)); }, []( bf::shared_future< int & > f) { CHECK( int_of( [&]{ f.get(); }) == BROKEN); }, threads, fibers, late);
    CHECK( Track::live == 0);
}
void timed() {
    SCENARIO( "timed waits report ready exactly when the result is available");
    { bf::promise< int > p; auto f = p.get_future(); auto t = Clock::now(); CHECK( f.wait_for( 15ms) == bf::future_status::timeout); CHECK( Clock::now() - t >= 15ms); auto d = Clock::now() + 15ms; CHECK( f.wait_until( d) == bf::future_status::timeout); CHECK( Clock::now() >= d); CHECK( f.wait_for( -1s) == bf::future_status::timeout); CHECK( f.wait_until( Clock::now() - 1s) == bf::future_status::timeout);
      bf::fiber s( bf::launch::dispatch, [&]{ boost::this_fiber::sleep_for( 10ms); p.set_value( 6); }); t = Clock::now(); CHECK( f.wait_for( 60s) == bf::future_status::ready); CHECK( Clock::now() - t < 30s); s.join(); CHECK( f.wait_for( -1s) == bf::future_status::ready); CHECK( f.wait_until( Clock::now() - 1s) == bf::future_status::ready); CHECK( f.valid()); CHECK( f.get() == 6); }
    { bf::promise< void > p; auto f = p.get_future(); bf::fiber s( bf::launch::dispatch, [&]{ boost::this_fiber::sleep_for( 5ms); std::this_thread::sleep_for( 20ms); p.set_value(); }); auto r = f.wait_for( 10ms); CHECK( r == bf::future_status::ready); s.join(); }      // set before the waiter is resumed: available, whatever the clock says
    { bf::promise< void > p; auto f = p.get_future(); int n = 0; bf::fiber a( bf::launch::dispatch, [&]{ CHECK( f.wait_for( 10ms) == bf::future_status::timeout); ++n; }), b( bf::launch::dispatch, [&]{ f.wait(); ++n; }); boost::this_fiber::sleep_for( 30ms); CHECK( n == 1); p.set_value(); a.join(); b.join(); CHECK( n == 2); }
}
// setters race: exactly one wins, and its result is the one delivered
void race( int rounds) {
    for ( int i = 0; i < rounds; ++i) {
        bf::promise< Track > p; auto f = p.get_future().share(); std::atomic< int > wins{ 0 }, winner{ -1 }, ready{ 0 }; std::vector< std::thread > ts;
        for ( int t = 0; t < 3; ++t) ts.emplace_back( [&,t]{ ++ready; while ( ready < 3) ; int c = code_of( [&]{ if ( t == 2) p.set_exception( std::make_exception_ptr( 2)); else p.set_value( Track( t)); }); CHECK( c == 0 || c == SATISFIED); if ( c == 0) { ++wins; winner = t; } });
        int got = -1; try { got = f.get().v; } catch ( int x) { got = x; }
        for ( auto & t : ts) t.join(); CHECK( wins == 1); CHECK( winner == got); int again = -1; try { again = f.get().v; } catch ( int x) { again = x; } CHECK( again == got);
    }
    CHECK( Track::live == 0);
}
void scenarios() {
    once(); timed();
    SCENARIO( "becoming ready wakes every waiter"); all_kinds( 0, 7, true); all_kinds( 2, 5, true); all_kinds( 0, 7, false);
    SCENARIO( "waiters and setters at the same time"); for ( int i = 0; i < 40; ++i) all_kinds( 2, 5, i % 2);
    SCENARIO( "setters race"); race( 300);
}
void stress() {
    SCENARIO( "waiters and setters at the same time"); for ( int i = 0; i < 30; ++i) all_kinds( 2, 3, i % 2);
    SCENARIO( "setters race"); race( 200);
}
