#pragma once
#include "common.hpp"
#include <algorithm>
// a scheduling algorithm that checks what the scheduler hands to it
struct watch : public bf::algo::round_robin {
    static std::atomic< int > dup, dead, in_notify, destroyed_in_notify; static std::atomic< bool > slow;
    std::multiset< bf::context * > q; std::thread::id me{ std::this_thread::get_id() };
    void awakened( bf::context * c) noexcept override { if ( q.count( c)) ++dup; if ( c->terminated_is_linked() || c->sleep_is_linked()) ++dead; q.insert( c); bf::algo::round_robin::awakened( c); }
    bf::context * pick_next() noexcept override { auto * c = bf::algo::round_robin::pick_next(); if ( c) q.erase( q.find( c)); return c; }
    void notify() noexcept override {
        if ( slow && std::this_thread::get_id() != me) { ++in_notify; std::this_thread::sleep_for( 100ms); --in_notify; }
        bf::algo::round_robin::notify(); }
    ~watch() { if ( in_notify) ++destroyed_in_notify; }
};
std::atomic< int > watch::dup{ 0 }, watch::dead{ 0 }, watch::in_notify{ 0 }, watch::destroyed_in_notify{ 0 }; std::atomic< bool > watch::slow{ false };
static void sched_order() {
    SCENARIO( "launch, yield and order");
    std::thread( []{
        bf::use_scheduling_algorithm< watch >();
        std::string s; std::vector< bf::fiber > fs;
        for ( char c = 'a'; c < 'e'; ++c) fs.emplace_back( [&s,c]{ for ( int i = 0; i < 3; ++i) { s += c; boost::this_fiber::yield(); } });
        for ( auto & f : fs) f.join();
        CHECK( s == "abcdabcdabcd");
        s.clear(); bf::fiber d( bf::launch::dispatch, [&]{ s += '1'; boost::this_fiber::yield(); s += '3'; }); s += '2'; d.join(); CHECK( s == "123");
    }).join();
    CHECK( 0 == watch::dup && 0 == watch::dead);
}
static void sched_remote() {
    SCENARIO( "wake-ups from other threads");
    for ( int round = 0; round < 40; ++round) {
        std::atomic< int > n{ 0 }, go{ 0 }; bf::mutex m; bf::condition_variable cv; int open = 0;
        std::thread t( [&]{ bf::use_scheduling_algorithm< watch >(); std::vector< bf::fiber > fs;
            for ( int i = 0; i < 8; ++i) fs.emplace_back( [&]{ for ( int k = 0; k < 20; ++k) { std::unique_lock< bf::mutex > lk( m); ++go; cv.wait( lk, [&]{ return open > 0; }); --open; ++n; } });
            for ( auto & f : fs) f.join(); });
        for ( int k = 0; k < 160; ++k) { { std::unique_lock< bf::mutex > lk( m); ++open; } cv.notify_one(); if ( k % 40 == 0) std::this_thread::sleep_for( 1ms); if ( k % 7 == 0) cv.notify_all(); }
        while ( n < 160) { cv.notify_all(); std::this_thread::sleep_for( 1ms); }
        t.join(); CHECK( n == 160);
    }
    CHECK( 0 == watch::dup && 0 == watch::dead);
    SCENARIO( "a remote wake-up ends an idle thread's sleep");
    for ( int i = 0; i < 100; ++i) {
        bf::promise< int > p; auto f = p.get_future(); auto t0 = Clock::now();
        std::thread t( [&]{ bf::fiber sl( []{ }); sl.join(); CHECK( f.wait_for( 20s) == bf::future_status::ready); });
        if ( i % 2) std::this_thread::sleep_for( 1ms);
        p.set_value( 1); t.join(); CHECK( Clock::now() - t0 < 10s);
    }
    SCENARIO( "the algorithm outlives a foreign notification");
    { bf::promise< void > p; auto f = p.get_future(); std::atomic< int > go{ 0 };
      std::thread b( [&]{ bf::use_scheduling_algorithm< watch >(); bool stop = false; bf::fiber y( [&]{ while ( ! stop) boost::this_fiber::yield(); }); go = 1; f.wait(); stop = true; y.join(); });
      while ( ! go) std::this_thread::yield(); std::this_thread::sleep_for( 50ms); watch::slow = true; p.set_value(); watch::slow = false; b.join();
      CHECK( 0 == watch::destroyed_in_notify); }
}
static void sched_exit() {
    SCENARIO( "thread exit runs every detached fiber to its end");
    for ( int i = 0; i < 20; ++i) {
        std::atomic< int > n{ 0 };
        std::thread( [&]{ for ( int k = 0; k < 10; ++k) bf::fiber( [&,k]{ for ( int j = 0; j < k; ++j) boost::this_fiber::yield(); if ( k % 3 == 0) boost::this_fiber::sleep_for( 3ms); ++n; }).detach(); }).join();
        CHECK( 10 == n);
    }
    SCENARIO( "a detached fiber that waits for another thread at exit");
    for ( int k = 0; k < 3; ++k) {
        std::atomic< int > n{ 0 }; bf::promise< void > p; bf::shared_future< void > f = p.get_future().share();
        std::thread s( [&]{ std::this_thread::sleep_for( 40ms); p.set_value(); });
        std::thread t( [&]{ for ( int i = 0; i < k + 1; ++i) bf::fiber( bf::launch::dispatch, [&n,f]{ f.wait(); ++n; }).detach(); if ( k) bf::fiber( [&n]{ boost::this_fiber::sleep_for( 60ms); n += 10; }).detach(); }); t.join(); CHECK( k + 1 + ( k ? 10 : 0) == n); s.join();
    }
    SCENARIO( "terminated fibers are released");
    { static std::atomic< int > live; live = 0; struct R { R() { ++live; } R( R const&) { ++live; } ~R() { --live; } };
      std::thread( []{ for ( int k = 0; k < 50; ++k) { R r; bf::fiber( [r]{ boost::this_fiber::yield(); }).detach(); boost::this_fiber::yield(); } }).join(); CHECK( 0 == live); }
}
struct slow_awake : public bf::algo::round_robin {
    std::atomic< bool > * in; slow_awake( std::atomic< bool > * i) : in( i) {}
    void awakened( bf::context * c) noexcept override { if ( in && * in && ! c->is_context( bf::type::dispatcher_context)) std::this_thread::sleep_for( 3ms); bf::algo::round_robin::awakened( c); } };
static void sched_burst() {
    SCENARIO( "bursts of remote wake-ups while earlier ones are handled");
    int const N = 40; std::atomic< bool > in{ false }; std::atomic< int > n{ 0 }, up{ 0 }; std::vector< bf::promise< void > > ps( N); std::vector< int > order;
    std::thread t( [&]{ bf::use_scheduling_algorithm< slow_awake >( & in); std::vector< bf::fiber > fs; for ( int i = 0; i < N; ++i) fs.emplace_back( [&,i]{ auto f = ps[i].get_future(); ++up; f.wait(); ++n; }); for ( auto & f : fs) f.join(); });
    while ( up < N) std::this_thread::yield(); std::this_thread::sleep_for( 20ms); in = true;
    for ( int i = 0; i < N; ++i) { ps[i].set_value(); if ( i > 5 && i % 2) std::this_thread::sleep_for( 1ms); }
    for ( int i = 0; i < 5000 && n < N; ++i) std::this_thread::sleep_for( 1ms);
    CHECK( n == N); if ( n != N) { fflush( stdout); _exit( 1); } t.join();
}
// runs every fiber before the dispatcher, the last one made ready first
struct lifo : public bf::algo::round_robin { std::vector< bf::context * > q;
    void awakened( bf::context * c) noexcept override { q.push_back( c); }
    bf::context * pick_next() noexcept override { if ( q.empty()) return nullptr; auto * c = q.back(); if ( c->is_context( bf::type::dispatcher_context) && q.size() > 1) { c = q[q.size() - 2]; q.erase( q.end() - 2); return c; } q.pop_back(); return c; }
    bool has_ready_fibers() const noexcept override { return ! q.empty(); } };
static void timers_busy() {
    SCENARIO( "deadlines of a busy thread");
    { bool stop = false; int early = 0; bf::fiber y( [&]{ while ( ! stop) boost::this_fiber::yield(); });
      for ( int i = 0; i < 300; ++i) { auto d = Clock::now() + std::chrono::microseconds( 200 + i); boost::this_fiber::sleep_until( d); if ( Clock::now() < d) ++early; } CHECK( 0 == early); stop = true; y.join(); }
    SCENARIO( "notified after the deadline, before the timer was handled");
    for ( int k = 0; k < 2; ++k) std::thread( [k]{ if ( k) bf::use_scheduling_algorithm< lifo >(); bf::mutex m; bf::condition_variable c; int n = 0;
      bf::fiber f( bf::launch::dispatch, [&]{ std::unique_lock< bf::mutex > lk( m); c.wait_for( lk, 2ms); lk.unlock(); boost::this_fiber::sleep_for( 20ms); ++n; });
      bf::fiber g( bf::launch::dispatch, [&]{ boost::this_fiber::sleep_for( 30ms); ++n; });
      { auto e = Clock::now() + 10ms; while ( Clock::now() < e) ; } c.notify_one(); auto t = Clock::now(); f.join(); g.join(); CHECK( n == 2); CHECK( Clock::now() - t >= 19ms); }).join();
}
struct slow_clock {
    using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point< slow_clock >;
    static constexpr bool is_steady = true; static bool slow;
    static time_point now() { if ( slow) std::this_thread::sleep_for( 20ms); return time_point( std::chrono::duration_cast< duration >( Clock::now().time_since_epoch() - 1000s)); }
};
bool slow_clock::slow = false;
static void timers() {
    SCENARIO( "earliest deadline first, never early");
    { std::vector< int > order; std::vector< bf::fiber > fs; auto t0 = Clock::now(); int ms[] = { 30, 5, 20, 5, 50, 1, 40, 10 };
      for ( int m : ms) fs.emplace_back( bf::launch::dispatch, [&,m]{ auto d = t0 + std::chrono::milliseconds( m); boost::this_fiber::sleep_until( d); CHECK( Clock::now() >= d); order.push_back( m); });
      for ( auto & f : fs) f.join(); CHECK( 8u == order.size()); CHECK( std::is_sorted( order.begin(), order.end())); CHECK( Clock::now() - t0 < 10s); }
    SCENARIO( "deadline in the past");
    { auto t0 = Clock::now(); boost::this_fiber::sleep_until( Clock::now() - 5s); boost::this_fiber::sleep_for( -5s); CHECK( Clock::now() - t0 < 5s); }
    SCENARIO( "woken earlier: leaves the timer queue");
    for ( int i = 0; i < 50; ++i) {
        bf::mutex m; bf::condition_variable c; int n = 0; bool b = false;
        bf::fiber f( bf::launch::dispatch, [&]{ std::unique_lock< bf::mutex > lk( m); CHECK( c.wait_for( lk, i % 2 ? 2ms : 20s, [&]{ return b; }) || i % 2); ++n; lk.unlock(); auto t = Clock::now(); boost::this_fiber::sleep_for( 4ms); CHECK( Clock::now() - t >= 4ms); ++n; });
        if ( i % 4 < 2) boost::this_fiber::yield(); else boost::this_fiber::sleep_for( 1ms);
        { std::unique_lock< bf::mutex > lk( m); b = true; } c.notify_one(); f.join(); CHECK( 2 == n);
    }
    SCENARIO( "woken from another thread at the deadline: woken once");
    for ( int i = 0; i < 100; ++i) {
        bf::mutex m; bf::condition_variable c; std::atomic< int > go{ 0 };
        std::thread t( [&]{ while ( ! go) std::this_thread::yield(); std::this_thread::sleep_for( 1ms); c.notify_all(); });
        std::unique_lock< bf::mutex > lk( m); go = 1; c.wait_for( lk, 1ms); auto s = Clock::now(); lk.unlock(); boost::this_fiber::sleep_for( 2ms); CHECK( Clock::now() - s >= 2ms); t.join();
    }
    SCENARIO( "deadlines on other clocks");
    { auto d = std::chrono::system_clock::now() + 20ms; boost::this_fiber::sleep_until( d); CHECK( std::chrono::system_clock::now() >= d);
      auto e = slow_clock::now() + 50ms; slow_clock::slow = true; boost::this_fiber::sleep_until( e); slow_clock::slow = false; CHECK( slow_clock::now() >= e);
      auto t = Clock::now(); boost::this_fiber::sleep_for( std::chrono::microseconds( 1500)); CHECK( Clock::now() - t >= 1500us); }
    SCENARIO( "an idle thread wakes up for the earliest deadline");
    { auto t0 = Clock::now(); bf::fiber a( bf::launch::dispatch, []{ boost::this_fiber::sleep_for( 200ms); }); boost::this_fiber::sleep_for( 5ms); CHECK( Clock::now() - t0 < 10s); a.join(); }
}
