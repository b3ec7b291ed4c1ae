#include "algo_scen.hpp"
#include <deque>
#include <boost/fiber/detail/context_spinlock_queue.hpp>
static void queue_model() {
    SCENARIO( "queue against a model");
    std::vector< bf::context* > cs; std::vector< bf::fiber > fs; bool stop = false; bf::mutex m; bf::condition_variable cv;
    for ( int i = 0; i < 40; ++i) { fs.emplace_back( bf::launch::dispatch, [&]{ cs.push_back( bf::context::active()); std::unique_lock< bf::mutex > l( m); cv.wait( l, [&]{ return stop; }); }); }
    bf::context * pin = bf::context::active();
    unsigned r = 7; auto rnd = [&]{ r = r * 1103515245 + 12345; return (r >> 16) & 0x7fff; };
    for ( int cap = 2; cap < 12; ++cap) for ( int round = 0; round < 40; ++round) {
        bf::detail::context_spinlock_queue q( cap); std::deque< bf::context* > d; unsigned bias = 2 + round % 4;
        for ( int k = 0; k < 400; ++k) { switch ( rnd() % (bias + 2)) {
            case 0: { auto e = d.empty() ? nullptr : d.front(); auto c = q.pop(); CHECK( c == e); if ( e) d.pop_front(); break; }
            case 1: { auto e = d.empty() || d.front() == pin ? nullptr : d.front(); auto c = q.steal(); CHECK( c == e); if ( e) d.pop_front(); break; }
            default: { if ( bias < 4 || d.size() < 9) { auto c = rnd() % 5 ? cs[rnd() % cs.size()] : pin; q.push( c); d.push_back( c); } } }
            CHECK( q.empty() == d.empty()); }
        while ( ! d.empty()) { CHECK( q.pop() == d.front()); d.pop_front(); } CHECK( nullptr == q.pop()); CHECK( q.empty()); }
    stop = true; cv.notify_all(); for ( auto & f : fs) f.join();
    SCENARIO( "queue, two thieves");
    bf::detail::context_spinlock_queue q( 2); std::atomic< long > got{ 0 }; std::atomic< bool > end{ false }; long pushed = 0;
    // contexts of ended fibers are only used as tokens here: keep them alive
    std::vector< bf::fiber > keep; cs.clear(); bool go = false; for ( int i = 0; i < 8; ++i) keep.emplace_back( bf::launch::dispatch, [&]{ cs.push_back( bf::context::active()); std::unique_lock< bf::mutex > l( m); cv.wait( l, [&]{ return go; }); });
    std::vector< std::thread > ts; for ( int t = 0; t < 2; ++t) ts.emplace_back( [&]{ while ( ! end) if ( q.steal()) ++got; while ( q.steal()) ++got; });
    for ( int k = 0; k < 60000; ++k) { q.push( cs[k % 8]); ++pushed; if ( k % 3 == 0 && q.pop()) ++got; }
    end = true; for ( auto & t : ts) t.join(); CHECK( got == pushed);
    go = true; cv.notify_all(); for ( auto & f : keep) f.join();
}
struct spy : bf::algo::work_stealing {
    spy( unsigned n, bool s) : work_stealing( n, s) {}
    bf::context * pick_next() noexcept override { bf::context * c = work_stealing::pick_next(); if ( c) CHECK( c->get_scheduler() == bf::context::active()->get_scheduler()); return c; }
    bf::context * steal() noexcept override { bf::context * c = work_stealing::steal(); if ( c) CHECK( ! c->is_context( bf::type::pinned_context)); return c; }
};
static void single( bool suspend) {     // a single participating thread: in its own process, the registry is global
    fflush( stdout); pid_t p = fork();
    if ( 0 == p) { alarm( 20); signal( SIGALRM, SIG_DFL); bf::use_scheduling_algorithm< bf::algo::work_stealing >( 1, suspend); int n = 0; bf::fiber f( [&]{ for ( int i = 0; i < 50; ++i) { ++n; boost::this_fiber::sleep_for( 100us); } }); f.join(); _exit( n == 50 ? 0 : 3); }
    int st = 0; waitpid( p, & st, 0); CHECK( WIFEXITED( st) && 0 == WEXITSTATUS( st));
}
static void notify_child() {
    fflush( stdout); pid_t p = fork();
    if ( 0 == p) { alarm( 40); struct one : bf::algo::work_stealing { one() : work_stealing( 1, true) {} };
        // the registry of a one-thread configuration has one slot: one object only
        auto * a = new one(); auto max = (Clock::time_point::max)(); a->notify(); a->suspend_until( max);
        auto t = Clock::now(); a->suspend_until( Clock::now() + 20ms); int bad = Clock::now() - t < 20ms;
        std::atomic< int > turn{ 0 }; int const N = 4000;
        std::thread th( [&]{ for ( int i = 0; i < N; ++i) { while ( turn.load() != 2 * i + 1) std::this_thread::yield(); a->notify(); turn = 2 * i + 2; } });
        for ( int i = 0; i < N; ++i) { turn = 2 * i + 1; auto s = Clock::now(); a->suspend_until( i % 2 ? Clock::now() + 30s : max); bad |= Clock::now() - s > 20s; while ( turn.load() != 2 * i + 2) std::this_thread::yield(); }
        th.join(); _exit( bad ? 3 : 0); }
    int st = 0; waitpid( p, & st, 0); CHECK( WIFEXITED( st) && 0 == WEXITSTATUS( st));
}
static void run( bool suspend) {
    fflush( stdout); pid_t p = fork();
    if ( p) { int st = 0; waitpid( p, & st, 0); CHECK( WIFEXITED( st) && 0 == WEXITSTATUS( st)); return; }
    alarm( 40);
    int const T = 4, F = 60, R = 60;
    std::atomic< int > fin{ 0 };
    bf::mutex mtx; bf::condition_variable_any cv; bool done = false;
    std::vector< std::atomic< int > > running( F), runs( F); for ( auto & x : running) x = 0; for ( auto & x : runs) x = 0;
    std::vector< std::thread > ts;
    auto body = [&]( int i) { for ( int k = 0; k < R; ++k) { CHECK( 0 == running[i]++); ++runs[i]; for ( int z = 0; z < 20; ++z) { volatile int y = z; (void)y; } CHECK( 1 == running[i]--); if ( k % 7) boost::this_fiber::yield(); else boost::this_fiber::sleep_for( 10us); }
        if ( ++fin == F) { std::unique_lock< bf::mutex > l( mtx); done = true; l.unlock(); cv.notify_all(); } };
    auto worker = [&]( int id) { bf::use_scheduling_algorithm< spy >( T, suspend); std::thread::id me = std::this_thread::get_id();
        if ( id == 0) for ( int i = 0; i < F; ++i) bf::fiber( body, i).detach();
        for ( int k = 0; k < 50; ++k) { boost::this_fiber::yield(); CHECK( me == std::this_thread::get_id()); }
        std::unique_lock< bf::mutex > l( mtx); cv.wait( l, [&]{ return done; }); CHECK( me == std::this_thread::get_id()); };
    for ( int t = 0; t < T; ++t) ts.emplace_back( worker, t);
    for ( auto & t : ts) t.join();
    for ( int i = 0; i < F; ++i) CHECK( runs[i] == R);
    fflush( stdout); _exit( g_fail);
}
#if __has_include( <../src/numa/linux/pin_thread.cpp>)
#include <../src/numa/algo/work_stealing.cpp>
#include <../src/numa/linux/pin_thread.cpp>
#include <sched.h>
static std::vector< unsigned > cpus() { std::vector< unsigned > v; cpu_set_t s; CPU_ZERO( & s); sched_getaffinity( 0, sizeof s, & s); for ( unsigned i = 0; i < CPU_SETSIZE && v.size() < 3; ++i) if ( CPU_ISSET( i, & s)) v.push_back( i); return v; }
static bf::numa::node mk( unsigned id, std::initializer_list< unsigned > l) { bf::numa::node n; n.id = id; n.logical_cpus.insert( l.begin(), l.end()); n.distance = { 10, 20, 20 }; return n; }
// the thread of cpu v[i] is in node nd[i]; ready fibers of the blocked owner have to be run by other threads
static void numa_child( std::vector< unsigned > v, std::vector< unsigned > nd, std::vector< bf::numa::node > topo, int owner, bool suspend) {
    fflush( stdout); pid_t p = fork();
    if ( 0 == p) { alarm( 30); std::atomic< int > ran{ 0 }, up{ 0 }; std::atomic< bool > end{ false }; std::vector< std::thread > ts;
        for ( unsigned i = 0; i < v.size(); ++i) ts.emplace_back( [&,i]{
            bf::use_scheduling_algorithm< bf::numa::algo::work_stealing >( v[i], nd[i], topo, suspend);
            ++up; while ( up != int( v.size())) std::this_thread::yield();
            if ( int( i) == owner) { bf::fiber f( [&]{ auto t = Clock::now(); while ( 4 != ran && Clock::now() - t < 10s) std::this_thread::sleep_for( 1ms); CHECK( 4 == ran); end = true; }); for ( int k = 0; k < 4; ++k) bf::fiber( [&]{ ++ran; }).detach(); f.join(); }
            else while ( ! end) boost::this_fiber::sleep_for( 1ms);
        });
        for ( auto & t : ts) t.join(); _exit( g_fail); }
    int st = 0; waitpid( p, & st, 0); CHECK( WIFEXITED( st) && 0 == WEXITSTATUS( st));
}
static void numa() {
    auto v = cpus(); if ( v.size() < 3) return; alarm( 100);
    numa_child( { v[0], v[1], v[2] }, { 0, 1, 2 }, { mk( 0, { v[0] }), mk( 1, { v[1] }), mk( 2, { v[2] }) }, 0, false);
    numa_child( { v[0], v[1], v[2] }, { 1, 1, 0 }, { mk( 0, { v[2] }), mk( 1, { v[0], v[1] }) }, 0, true);
    numa_child( { v[0], v[1], v[2] }, { 5, 5, 5 }, { mk( 5, { v[0], v[1], v[2] }) }, 1, false);
    numa_child( { v[0] , v[2] }, { 1, 0 }, { mk( 0, { v[2] }), mk( 1, { v[0] }) }, 1, true);
}
#else
static void numa() {}
#endif
void scenarios() {
    SCENARIO( "single thread"); single( true); single( false);
    SCENARIO( "notify/suspend_until"); notify_child();
    SCENARIO( "threads, suspending"); run( true);
    SCENARIO( "threads, spinning"); run( false);
    SCENARIO( "NUMA"); numa();
    queue_model();
}
