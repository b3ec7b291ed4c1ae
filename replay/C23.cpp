// flags: -fsanitize=thread
#include "common.hpp"
#include <boost/fiber/detail/spinlock_ttas.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
#include <boost/fiber/detail/spinlock_ttas_futex.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp>
// hardware transactions, scripted: rtm_begin() follows the script (0 succeeds, else a status); rtm_abort continues at rtm_begin()
#define BOOST_FIBERS_DETAIL_RTM_H
#define BOOST_FIBER_DETAIL_RTM_H
#include <csetjmp>
#include <deque>
#include <functional>
static thread_local std::jmp_buf g_jb; static int g_tx = 0, g_ends = 0, g_aborts = 0, g_begins = 0; static std::deque< std::uint32_t > g_script; static std::function< void() > g_before;
static std::uint32_t tx_start() {
    ++g_begins; if ( g_begins > 1000) { CHECK( "no progress" == nullptr); _exit( 1); }
    if ( g_before) { auto f = std::move( g_before); g_before = nullptr; f(); }
    std::uint32_t r = 32; if ( ! g_script.empty() ) { r = g_script.front(); g_script.pop_front(); }
    if ( 0 == r) { ++g_tx; return ~std::uint32_t( 0); }
    return r == 64 ? 0 : r;
}
static std::uint32_t tx_undo() { g_tx = 0; ++g_aborts; return 1; }
#define rtm_begin() ( setjmp( g_jb) ? tx_undo() : tx_start() )
namespace boost { namespace fibers { namespace detail {
struct rtm_status { enum { none = 0, explicit_abort = 1, may_retry = 2, memory_conflict = 4, buffer_overflow = 8, debug_hit = 16, nested_abort = 32 }; static constexpr std::uint32_t success = ~std::uint32_t{ 0 }; };
constexpr std::uint32_t rtm_status::success;
inline void rtm_end() noexcept { CHECK( g_tx > 0); --g_tx; ++g_ends; }
inline void rtm_abort_lock_not_free() noexcept { if ( g_tx) std::longjmp( g_jb, 1); }
inline bool rtm_test() noexcept { return g_tx != 0; }
}}}
#include <boost/fiber/detail/spinlock_rtm.hpp>
static void script( std::initializer_list< std::uint32_t > l) { g_script.assign( l); g_tx = g_ends = g_aborts = g_begins = 0; g_before = nullptr; }
template< typename S > void rtm( const char * n) {
    g_scenario = n; alarm( 60); using L = bf::detail::spinlock_rtm< S >;
    { L l; script( { 0 }); l.lock(); CHECK( 1 == g_tx && 0 == g_ends); l.unlock(); CHECK( 0 == g_tx && 1 == g_ends); }            // elided
    { L l; script( { 0 }); CHECK( l.try_lock() ); CHECK( 1 == g_tx); l.unlock(); CHECK( 0 == g_tx && 1 == g_ends); }
    for ( std::uint32_t st : { 8u, 16u, 32u, 33u, 64u }) {                                                              // not possible: fall back
        L l; script( { st, 0, 0 }); l.lock(); CHECK( 0 == g_tx && 1 == g_begins);
        bool b = true; std::thread( [&]{ b = l.try_lock(); }).join(); CHECK( ! b); CHECK( 0 == g_tx && 1 == g_aborts);  // seen by a transaction
        l.unlock(); CHECK( 0 == g_ends); script( { 0 }); CHECK( l.try_lock() ); l.unlock(); }
    for ( std::uint32_t st : { 2u, 4u, 6u, 1u }) { L l; script( { st, st, 0 }); l.lock(); CHECK( 1 == g_tx && 3 == g_begins); l.unlock(); CHECK( 0 == g_tx && 1 == g_ends); }
    { L l; script( { 8 }); if ( l.try_lock() ) l.unlock(); script( { 0 }); CHECK( l.try_lock() ); l.unlock(); CHECK( 0 == g_tx); }
    { L l; script( { 64, 0, 0, 0 });                                                                                    // taken by another thread just before the transaction
        std::atomic< int > go{ 0 }; std::thread t;
        script( { 0, 0, 0 }); g_before = [&]{ t = std::thread( [&]{ auto s = g_script; g_script = { 8 }; l.lock(); g_script = s; g_begins = 0; go = 1; while ( 2 != go) std::this_thread::yield(); std::this_thread::sleep_for( 20ms); go = 3; l.unlock(); }); while ( 1 != go) std::this_thread::yield(); go = 2; };
        l.lock(); CHECK( 3 == go); CHECK( 1 == g_tx); l.unlock(); CHECK( 0 == g_tx); t.join(); }
}
template< typename S > void sl( const char * n) {
    g_scenario = n; alarm( 90);
    S s; s.lock(); CHECK( ! s.try_lock()); CHECK( ! s.try_lock()); s.unlock(); CHECK( s.try_lock()); CHECK( ! s.try_lock()); s.unlock();
    long plain = 0; std::vector< std::thread > ts;
    for ( int t = 0; t < 4; ++t) ts.emplace_back( [&,t]{ for ( int i = 0; i < 3000; ++i) { if ( t % 2) s.lock(); else while ( ! s.try_lock()) std::this_thread::yield(); ++plain; s.unlock(); } });
    for ( auto & t : ts) t.join(); CHECK( plain == 12000);
    // long critical sections: waiters sleep and have to be woken
    plain = 0; ts.clear();
    for ( int t = 0; t < 3; ++t) ts.emplace_back( [&]{ for ( int i = 0; i < 5; ++i) { s.lock(); ++plain; std::this_thread::sleep_for( 2ms); s.unlock(); } });
    for ( auto & t : ts) t.join(); CHECK( plain == 15);
    // uncontended hand over: no join or start in between orders the accesses
    { S a; long x = 0; std::atomic< int > stop{ 0}; std::thread p( [&]{ for ( int i = 0; i < 20000; ++i) { a.lock(); ++x; a.unlock(); } }), q( [&]{ for ( int i = 0; i < 20000; ++i) { if ( a.try_lock()) { ++x; a.unlock(); } } }); p.join(); q.join(); }
}
void scenarios() {
    sl< bf::detail::spinlock_ttas >( "spinlock_ttas"); sl< bf::detail::spinlock_ttas_adaptive >( "spinlock_ttas_adaptive");
    sl< bf::detail::spinlock_ttas_futex >( "spinlock_ttas_futex"); sl< bf::detail::spinlock_ttas_adaptive_futex >( "spinlock_ttas_adaptive_futex");
    rtm< bf::detail::spinlock_ttas >( "rtm ttas"); rtm< bf::detail::spinlock_ttas_adaptive >( "rtm ttas_adaptive");
    rtm< bf::detail::spinlock_ttas_futex >( "rtm ttas_futex"); rtm< bf::detail::spinlock_ttas_adaptive_futex >( "rtm ttas_adaptive_futex");
}
