#include "algo_scen.hpp"
static thread_local int tl_id = -1;
// participating threads that record who resumes what
struct spy : bf::algo::shared_work {
    spy( bool s) : shared_work( s) {}
    bf::context * pick_next() noexcept override {
        bf::context * c = shared_work::pick_next();
        if ( c && ! c->is_context( bf::type::pinned_context)) CHECK( c->get_scheduler() == bf::context::active()->get_scheduler());
        return c; }
};
static void run( bool suspend) {
    int const T = 4, F = 60, R = 60;
    std::atomic< bool > stop{ false }; std::atomic< int > fin{ 0 }, ready{ 0 };
    bf::mutex mtx; bf::condition_variable_any cv; bool done = false;
    std::vector< std::atomic< int > > running( F), runs( F); for ( auto & x : running) x = 0; for ( auto & x : runs) x = 0;
    std::vector< std::thread > ts;
    auto body = [&]( int i) { for ( int k = 0; k < R; ++k) { CHECK( 0 == running[i]++); ++runs[i]; for ( int z = 0; z < 20; ++z) { volatile int y = z; (void)y; } CHECK( 1 == running[i]--); boost::this_fiber::yield(); }
        if ( ++fin == F) { std::unique_lock< bf::mutex > l( mtx); done = true; l.unlock(); cv.notify_all(); } };
    auto worker = [&]( int id) { tl_id = id; bf::use_scheduling_algorithm< spy >( suspend); ++ready; while ( ready < T) std::this_thread::yield();
        std::thread::id me = std::this_thread::get_id();
        if ( id == 0) for ( int i = 0; i < F; ++i) bf::fiber( body, i).detach();
        for ( int k = 0; k < 50; ++k) { boost::this_fiber::yield(); CHECK( me == std::this_thread::get_id()); CHECK( tl_id == id); }
        std::unique_lock< bf::mutex > l( mtx); cv.wait( l, [&]{ return done; }); CHECK( me == std::this_thread::get_id()); CHECK( tl_id == id); };
    for ( int t = 0; t < T; ++t) ts.emplace_back( worker, t);
    for ( auto & t : ts) t.join();
    for ( int i = 0; i < F; ++i) CHECK( runs[i] == R);
}
void scenarios() {
    notify_scen< bf::algo::shared_work >( "notify/suspend_until", true);
    SCENARIO( "no suspension"); { bf::algo::shared_work a( false); a.suspend_until( (Clock::time_point::max)()); }
    SCENARIO( "fifo");
    std::thread( []{ bf::use_scheduling_algorithm< bf::algo::shared_work >( true); std::vector< int > order; std::vector< bf::fiber > fs;
        for ( int i = 0; i < 10; ++i) fs.emplace_back( [&,i]{ for ( int k = 0; k < 20; ++k) { order.push_back( i); boost::this_fiber::yield(); } });
        for ( auto & f : fs) f.join(); CHECK( order.size() == 200); for ( int k = 0; k < 200; ++k) CHECK( order[k] == k % 10); }).join();
    SCENARIO( "threads, suspending"); run( true);
    SCENARIO( "threads, spinning"); run( false);
    SCENARIO( "ready after suspension");
    { std::atomic< int > hop{ 0 }; bf::unbuffered_channel< int > a, b; std::vector< std::thread > ts;
      ts.emplace_back( [&]{ bf::use_scheduling_algorithm< bf::algo::shared_work >( true); int v; while ( bf::channel_op_status::success == a.pop( v)) { b.push( v + 1); } });
      ts.emplace_back( [&]{ bf::use_scheduling_algorithm< bf::algo::shared_work >( true); for ( int i = 0; i < 2000; ++i) { a.push( i); int v; b.pop( v); CHECK( v == i + 1); ++hop; } a.close(); });
      for ( auto & t : ts) t.join(); CHECK( hop == 2000); }
}
