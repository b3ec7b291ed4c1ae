#include "common.hpp"
#include <map>
#include <set>
#include <memory>
#include <random>
#include <deque>
struct props : public bf::fiber_properties {
    static long live; static std::set< props * > all; int prio{ 0 }; bool custom{ false };
    explicit props( bf::context * c) : bf::fiber_properties( c) { ++live; if ( ! all.insert( this).second) ++twice; } ~props() { --live; if ( ! all.erase( this) ) ++twice; } static int twice;
    void set( int p) { prio = p; notify(); }
    bf::context * ctx() const { return ctx_; } bf::algo::algorithm * alg() const { return algo_; }
};
long props::live{ 0 }; std::set< props * > props::all; int props::twice{ 0 };
struct alg : public bf::algo::algorithm_with_properties< props > {
    std::deque< std::pair< bf::context *, props * > > q; static int changes, bad; static alg * last; static std::map< bf::context *, props * > known; static int made; static long told;
    void awakened( bf::context * c, props & p) noexcept override {
        ++told; if ( p.ctx() != c || p.alg() != this || & properties( c) != & p) ++bad;
        for ( auto & e : q) if ( e.first == c) ++bad;
        c->ready_link( rq); q.emplace_back( c, & p); }
    bf::fiber_properties * new_properties( bf::context * c) override { ++made; return super_new( c); }
    bf::fiber_properties * super_new( bf::context * c) { return bf::algo::algorithm_with_properties< props >::new_properties( c); }
    bf::context * pick_next() noexcept override { if ( q.empty()) return nullptr; auto i = q.begin(); auto c = i->first; q.erase( i); c->ready_unlink(); return c; }
    bool has_ready_fibers() const noexcept override { return ! q.empty(); }
    void suspend_until( std::chrono::steady_clock::time_point const& t) noexcept override { if ( t != (std::chrono::steady_clock::time_point::max)()) std::this_thread::sleep_until( t); }
    void notify() noexcept override {}
    void property_change( bf::context * c, props & p) noexcept override { ++changes; last = this; bool in = false; for ( auto & e : q) if ( e.first == c && e.second == & p) in = true; if ( ! in) ++bad; }
    bf::scheduler::ready_queue_type rq{};
};
int alg::changes{ 0 }, alg::bad{ 0 }, alg::made{ 0 }; long alg::told{ 0 }; alg * alg::last{ nullptr }; std::map< bf::context *, props * > alg::known;
template< typename F > static void thr( F f) { std::thread( [&]{ bf::use_scheduling_algorithm< alg >(); f(); }).join(); }
void scenarios() {
    SCENARIO( "one object per fiber");
    thr( []{ std::vector< bf::fiber > v; std::set< props * > seen; bool ok = true;
        for ( int i = 0; i < 20; ++i) v.emplace_back( i % 2 ? bf::launch::post : bf::launch::dispatch, [&,i]{ props & p = boost::this_fiber::properties< props >(); ok = ok && seen.insert( & p).second; for ( int k = 0; k < 5; ++k) { boost::this_fiber::yield(); ok = ok && & p == & boost::this_fiber::properties< props >() && p.ctx() == bf::context::active(); } });
        boost::this_fiber::yield(); for ( auto & f : v) ok = ok && seen.count( & f.properties< props >());
        for ( auto & f : v) f.join(); CHECK( ok && seen.size() == 20); });
    CHECK( props::live == 0 && props::twice == 0 && alg::bad == 0);
    SCENARIO( "the main fiber gets properties at first use");
    thr( []{ props & p = boost::this_fiber::properties< props >(); CHECK( p.ctx() == bf::context::active()); CHECK( & p == & boost::this_fiber::properties< props >()); });
    CHECK( props::live == 0 && alg::bad == 0);
    SCENARIO( "properties given to the fiber");
    thr( []{ int before = alg::made; props * mine = new props( nullptr); mine->prio = 7; bf::fiber f( static_cast< bf::fiber_properties * >( mine), [&]{ CHECK( & boost::this_fiber::properties< props >() == mine && mine->prio == 7); boost::this_fiber::yield(); CHECK( mine->ctx() == bf::context::active()); });
        CHECK( & f.properties< props >() == mine); f.join(); CHECK( alg::made <= before + 2); bf::fiber g( bf::launch::dispatch, static_cast< bf::fiber_properties * >( new props( nullptr)), []{}); g.join(); });
    CHECK( props::live == 0 && props::twice == 0 && alg::bad == 0);
    SCENARIO( "notify reaches the algorithm for ready fibers only");
    thr( []{ std::mt19937 g( 3); bf::mutex m; bf::condition_variable cv; bool go = false, end = false; std::vector< bf::fiber > v; int running = 0;
        for ( int i = 0; i < 6; ++i) v.emplace_back( [&,i]{ int b = alg::changes; boost::this_fiber::properties< props >().set( 1); if ( alg::changes != b) ++running; if ( i % 2) { std::unique_lock< bf::mutex > lk( m); while ( ! go) cv.wait( lk); } else while ( ! end) boost::this_fiber::yield(); });
        for ( int k = 0; k < 3; ++k) boost::this_fiber::yield();
        bool ok = true; for ( int k = 0; k < 60; ++k) { int i = g() % 6, b = alg::changes; v[i].properties< props >().set( g() % 3); if ( alg::changes != b + ( i % 2 ? 0 : 1)) ok = false; if ( k % 10 == 0) boost::this_fiber::yield(); }
        CHECK( ok); CHECK( running == 0);
        { std::unique_lock< bf::mutex > lk( m); go = true; } cv.notify_all();
        ok = true; for ( int i = 1; i < 6; i += 2) { int b = alg::changes; v[i].properties< props >().set( 2); if ( alg::changes != b + 1) ok = false; } CHECK( ok);
        end = true; for ( auto & f : v) f.join(); });
    CHECK( props::live == 0 && props::twice == 0 && alg::bad == 0);
    SCENARIO( "a replaced algorithm is no longer notified");
    thr( []{ bool end = false; bf::fiber a( [&]{ while ( ! end) boost::this_fiber::yield(); }), b( [&]{ while ( ! end) boost::this_fiber::yield(); }); boost::this_fiber::yield(); a.properties< props >().set( 1); alg * first = alg::last; props * pa = & a.properties< props >(), * pb = & b.properties< props >(); int made = alg::made;
        bf::algo::algorithm::ptr_t keep( first); bf::use_scheduling_algorithm< alg >(); a.properties< props >().set( 2); CHECK( alg::last && alg::last != first); b.properties< props >().set( 3); CHECK( alg::last != first); CHECK( pa == & a.properties< props >() && pb == & b.properties< props >()); CHECK( alg::made == made);
        end = true; a.join(); b.join(); });
    CHECK( props::live == 0 && props::twice == 0 && alg::bad == 0);
}
