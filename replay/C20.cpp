#include "algo_scen.hpp"
#include <deque>
// round_robin observed from outside
struct spy : bf::algo::round_robin {
    std::deque< bf::context* > q;
    void awakened( bf::context * c) noexcept override { CHECK( has_ready_fibers() == ! q.empty()); q.push_back( c); bf::algo::round_robin::awakened( c); CHECK( has_ready_fibers()); }
    bf::context * pick_next() noexcept override {
        bf::context * e = q.empty() ? nullptr : q.front(); if ( e) q.pop_front();
        bf::context * c = bf::algo::round_robin::pick_next(); CHECK( c == e); CHECK( has_ready_fibers() == ! q.empty()); return c; }
};
void scenarios() {
    notify_scen< bf::algo::round_robin >( "notify/suspend_until");
    SCENARIO( "fifo");
    std::thread( []{
        bf::use_scheduling_algorithm< spy >();
        std::vector< int > order; std::vector< bf::fiber > fs; unsigned r = 1;
        for ( int i = 0; i < 10; ++i) fs.emplace_back( [&,i]{ for ( int k = 0; k < 20; ++k) { order.push_back( i); boost::this_fiber::yield(); } });
        for ( auto & f : fs) f.join();
        CHECK( order.size() == 200); for ( int k = 0; k < 200; ++k) CHECK( order[k] == k % 10);
        fs.clear(); int live = 0; bf::mutex m; bf::condition_variable cv; int go = 0;
        for ( int i = 0; i < 30; ++i) fs.emplace_back( [&]{ for ( int k = 0; k < 40; ++k) { r = r * 1103515245 + 12345; switch ( (r >> 16) % 4) { case 0: boost::this_fiber::yield(); break; case 1: boost::this_fiber::sleep_for( 10us); break;
            case 2: { std::unique_lock< bf::mutex > l( m); ++go; cv.notify_all(); break; } default: { std::unique_lock< bf::mutex > l( m); cv.wait_for( l, 50us); } } } ++live; });
        for ( auto & f : fs) f.join(); CHECK( live == 30);
    }).join();
}
