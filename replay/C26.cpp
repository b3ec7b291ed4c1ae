#include "common.hpp"
#include <boost/fiber/algo/shared_work.hpp>
#include <deque>
#include <random>
static std::atomic< int > algs{ 0 }, bad{ 0 }, sallocs{ 0 };
struct alg : public bf::algo::algorithm {      // FIFO, checks what it is told
    std::deque< bf::context * > q; bool dead{ false }; int arg; static thread_local alg * cur; std::vector< bf::context * > told; std::mutex mtx; std::condition_variable cv; bool flag{ false };
    explicit alg( int a = 0) : arg{ a } { ++algs; cur = this; }
    ~alg() { --algs; if ( dead || ! q.empty()) ++bad; dead = true; if ( cur == this) cur = nullptr; }
    void awakened( bf::context * c) noexcept override { if ( dead || ! c || c->ready_is_linked()) { ++bad; if ( ! c) return; } if ( ! c->get_scheduler()) ++bad; for ( auto x : q) if ( x == c) ++bad; q.push_back( c); told.push_back( c); }
    bf::context * pick_next() noexcept override { if ( dead) ++bad; if ( q.empty()) return nullptr; auto c = q.front(); q.pop_front(); return c; }
    bool has_ready_fibers() const noexcept override { return ! q.empty(); }
    void suspend_until( std::chrono::steady_clock::time_point const& t) noexcept override { std::unique_lock< std::mutex > lk( mtx); if ( t == (std::chrono::steady_clock::time_point::max)()) cv.wait( lk, [&]{ return flag; }); else cv.wait_until( lk, t, [&]{ return flag; }); flag = false; }
    void notify() noexcept override { std::unique_lock< std::mutex > lk( mtx); if ( dead) ++bad; flag = true; lk.unlock(); cv.notify_all(); }
};
thread_local alg * alg::cur{ nullptr };
struct lifo : public alg { using alg::alg; bf::context * pick_next() noexcept override { if ( q.empty()) return nullptr; auto c = q.back(); q.pop_back(); return c; } };
struct salloc { bf::default_stack s; std::shared_ptr< int > n; boost::context::stack_context allocate() { ++*n; ++sallocs; return s.allocate(); } void deallocate( boost::context::stack_context & c) { --*n; s.deallocate( c); } };
template< typename F > static void thr( F f) { std::thread( f).join(); }
struct hides : public alg { bool has_ready_fibers() const noexcept override { for ( auto c : q) if ( ! c->is_context( bf::type::dispatcher_context)) return true; return false; } }; // event-loop style
static int tls_live = 0; struct tls_obj { tls_obj() { ++tls_live; } ~tls_obj() { --tls_live; } };
void scenarios() {
    SCENARIO( "ready fibers in order, every kind of old and new algorithm");
    for ( int from = 0; from < 3; ++from) for ( int to = 0; to < 2; ++to) for ( int n = 0; n < 9; n += 1 + n / 3) for ( int replacements = 1; replacements < 4; ++replacements)
        thr( [=]{ if ( from == 1) bf::use_scheduling_algorithm< alg >(); else if ( from == 2) bf::use_scheduling_algorithm< bf::algo::shared_work >( true);
            bf::fiber::id me = boost::this_fiber::get_id(); std::vector< int > v; std::vector< bf::fiber > f; std::vector< bf::context * > expect;
            for ( int i = 0; i < n; ++i) f.emplace_back( bf::launch::post, [&v,i]{ v.push_back( i); boost::this_fiber::yield(); v.push_back( i); });
            for ( int r = 0; r < replacements; ++r) { if ( to == 0) bf::use_scheduling_algorithm< alg >( 7 + r); else bf::use_scheduling_algorithm< bf::algo::round_robin >(); if ( to == 0) CHECK( alg::cur && alg::cur->arg == 7 + r && (int)alg::cur->q.size() >= n); }
            CHECK( me == boost::this_fiber::get_id()); for ( auto & x : f) x.join(); CHECK( me == boost::this_fiber::get_id());
            std::vector< int > w; for ( int k = 0; k < 2; ++k) for ( int i = 0; i < n; ++i) w.push_back( i); CHECK( v == w || ( from == 2 && v.size() == w.size())); });
    CHECK( algs == 0 && bad == 0);
    SCENARIO( "algorithms that share their ready queue");
    for ( int n = 0; n < 6; ++n) thr( [=]{ bf::use_scheduling_algorithm< bf::algo::shared_work >( true); std::vector< int > v, w; std::vector< bf::fiber > f; for ( int i = 0; i < n; ++i) { w.push_back( i); f.emplace_back( [&v,i]{ v.push_back( i); }); }
        bf::use_scheduling_algorithm< bf::algo::shared_work >( true); bf::use_scheduling_algorithm< bf::algo::shared_work >( false); for ( auto & x : f) x.join(); CHECK( v == w); });
    SCENARIO( "a fiber of the shared queue is taken by another thread meanwhile");
    for ( int round = 0; round < 20; ++round) { std::atomic< int > sum{ 0 }; std::atomic< bool > end{ false }; std::thread other( [&]{ bf::use_scheduling_algorithm< bf::algo::shared_work >(); while ( ! end) boost::this_fiber::yield(); });
        thr( [&]{ bf::use_scheduling_algorithm< bf::algo::shared_work >(); for ( int k = 0; k < 50; ++k) { for ( int i = 0; i < 8; ++i) bf::fiber( [&sum]{ ++sum; }).detach(); bf::use_scheduling_algorithm< bf::algo::shared_work >(); } while ( sum < 400) boost::this_fiber::yield(); });
        end = true; other.join(); CHECK( sum == 400); }
    SCENARIO( "replaced by a worker fiber; sleeping, blocked and remotely woken fibers stay");
    thr( []{ bf::mutex m; int a = 0, b = 0, c = 0; bf::fiber s( [&]{ boost::this_fiber::sleep_for( 30ms); a = 1; }); m.lock(); bf::fiber l( [&]{ m.lock(); b = 1; m.unlock(); }); bf::promise< int > p; auto fu = p.get_future(); bf::fiber r( [&]{ c = fu.get(); });
        bf::fiber chg( [&]{ bf::use_scheduling_algorithm< alg >( 3); boost::this_fiber::yield(); bf::use_scheduling_algorithm< lifo >( 4); boost::this_fiber::yield(); bf::use_scheduling_algorithm< alg >( 5); }); chg.join(); CHECK( alg::cur && alg::cur->arg == 5); CHECK( algs == 1);
        std::thread t( [&]{ std::this_thread::sleep_for( 20ms); p.set_value( 9); }); m.unlock(); s.join(); l.join(); r.join(); t.join(); CHECK( a == 1 && b == 1 && c == 9); });
    CHECK( algs == 0 && bad == 0);
    SCENARIO( "other threads keep waking fibers of a thread that replaces its algorithm");
    for ( int round = 0; round < 10; ++round) { bf::buffered_channel< int > ch( 4); long got = 0; std::thread t( [&]{ bf::fiber r( [&]{ for ( int x : ch) got += x; }); bf::fiber chg( [&]{ for ( int i = 0; i < 200; ++i) { bf::use_scheduling_algorithm< alg >( i); boost::this_fiber::yield(); } }); r.join(); chg.join(); });
        for ( int i = 1; i <= 500; ++i) ch.push( i); ch.close(); t.join(); CHECK( got == 500 * 501 / 2); }
    CHECK( algs == 0 && bad == 0);
    SCENARIO( "set-up with the given algorithm and stack allocator; result of initialize_thread");
    for ( int first = 0; first < 2; ++first) { auto n = std::make_shared< int >( 0); sallocs = 0;
        thr( [&]{ if ( first) bf::context::active(); bool r = bf::initialize_thread( new alg( 1), bf::make_stack_allocator_wrapper< salloc >( salloc{ bf::default_stack{}, n })); CHECK( r == ! first); CHECK( *n == ( first ? 0 : 1) && sallocs == *n); CHECK( alg::cur && alg::cur->arg == 1); CHECK( ! bf::initialize_thread( new alg( 2), bf::make_stack_allocator_wrapper< salloc >( salloc{ bf::default_stack{}, n }))); CHECK( algs == 1 && alg::cur && alg::cur->arg == 2);
            int k = 0; bf::fiber f( [&]{ boost::this_fiber::yield(); k = 1; }); f.join(); CHECK( k == 1); CHECK( *n == ( first ? 0 : 1)); });
        CHECK( algs == 0 && bad == 0 && *n == 0 && n.use_count() == 1); }
    SCENARIO( "an algorithm referenced by its user outlives its scheduler");
    thr( []{ bf::algo::algorithm::ptr_t p( new alg( 1)); bf::initialize_thread( p, bf::make_stack_allocator_wrapper< bf::default_stack >()); CHECK( algs == 1); { bf::fiber f( []{}); f.join(); } bf::use_scheduling_algorithm< bf::algo::round_robin >(); CHECK( algs == 1); p.reset(); CHECK( algs == 0); });
    CHECK( algs == 0 && bad == 0);
    SCENARIO( "a thread's exit waits for its fibers and tears down once");
    for ( int kind = 0; kind < 3; ++kind) { std::atomic< int > ended{ 0 }; thr( [&]{ if ( kind == 1) bf::use_scheduling_algorithm< alg >(); if ( kind == 2) { bf::context::active(); bf::use_scheduling_algorithm< alg >(); }
            static bf::fiber_specific_ptr< tls_obj > p; p.reset( new tls_obj); CHECK( tls_live == 1);
            for ( int i = 0; i < 5; ++i) bf::fiber( [&ended,i]{ if ( i % 2) boost::this_fiber::sleep_for( 10ms); else for ( int k = 0; k < 3; ++k) boost::this_fiber::yield(); bf::fiber( [&ended]{ boost::this_fiber::yield(); ++ended; }).detach(); }).detach(); });
        CHECK( ended == 5); CHECK( tls_live == 0); CHECK( algs == 0 && bad == 0); }
    SCENARIO( "the fibers that ended last are released before the scheduler");
    for ( int k = 0; k < 4; ++k) { auto n = std::make_shared< int >( 0); thr( [&]{ if ( k % 2) bf::use_scheduling_algorithm< hides >(); else bf::use_scheduling_algorithm< alg >(); for ( int i = 0; i < 3; ++i) { bf::fiber f( k < 2 ? bf::launch::dispatch : bf::launch::post, std::allocator_arg, salloc{ bf::default_stack{}, n }, []{}); f.join(); } }); CHECK( *n == 0); }
    SCENARIO( "main fibers are distinct, threads are independent");
    { std::set< void const * > ids; std::vector< std::thread > t; std::mutex m; std::atomic< int > in{ 0 }; for ( int i = 0; i < 6; ++i) t.emplace_back( [&,i]{ if ( i % 2) bf::use_scheduling_algorithm< alg >( i); { std::lock_guard< std::mutex > lk( m); ids.insert( bf::context::active()); ids.insert( bf::context::active()->get_scheduler()); } ++in; while ( in < 6) std::this_thread::yield(); int k = 0; bf::fiber f( [&]{ boost::this_fiber::yield(); ++k; }); f.join(); CHECK( k == 1); if ( i % 2) CHECK( alg::cur && alg::cur->arg == i); }); for ( auto & x : t) x.join(); CHECK( ids.size() == 12); }
    CHECK( algs == 0 && bad == 0);
}
