// flags: -DNDEBUG
#include "life_scen.hpp"
#include <alloca.h>
template< std::size_t N > struct alignas( N) wide { static int off; char c[N]; wide() { std::memset( c, 7, N); } wide( wide const& o) { std::memcpy( c, o.c, N); if ( ! ok() ) ++off; } bool ok() const { return reinterpret_cast< std::uintptr_t >( this) % N == 0; } };
template< std::size_t N > int wide< N >::off{ 0 };
// hands out areas surrounded by patterns; counts what comes back
struct guard_stack {
    static constexpr std::size_t G = 8192;
    std::size_t size, skew; int id;
    struct rec { char * p; std::size_t n; std::size_t skew; int id; };
    static std::map< void *, rec > live; static int allocs, frees, bad; static rec last;
    boost::context::stack_context allocate() { char * p = static_cast< char * >( std::aligned_alloc( 4096, size + 2 * G)); std::memset( p, 0xa5, size + 2 * G); boost::context::stack_context c; c.size = size - skew; c.sp = p + G + size - skew; last = rec{ p, size, skew, id }; live[c.sp] = last; ++allocs; return c; }
    void deallocate( boost::context::stack_context & c) {
        auto i = live.find( c.sp); if ( i == live.end() || i->second.n - i->second.skew != c.size || i->second.id != id) { ++bad; return; }
        rec r = i->second; live.erase( i); ++frees; unsigned char * u = reinterpret_cast< unsigned char * >( r.p);
        for ( std::size_t k = 0; k < G; ++k) if ( u[k] != 0xa5) { ++bad; break; }
        for ( std::size_t k = G + r.n - r.skew; k < r.n + 2 * G; ++k) if ( u[k] != 0xa5) { ++bad; break; }
        std::free( r.p); }
    static bool inside( void const * p) { char const * c = static_cast< char const * >( p); return c >= last.p + G && c < last.p + G + last.n - last.skew; }
};
std::map< void *, guard_stack::rec > guard_stack::live; int guard_stack::allocs{ 0 }, guard_stack::frees{ 0 }, guard_stack::bad{ 0 }; guard_stack::rec guard_stack::last;
struct thrower { bool * on; thrower( bool * o) : on( o) {} thrower( thrower const& o) : on( o.on) { if ( * on) throw 1; } thrower( thrower && o) : on( o.on) { if ( * on) throw 2; } void operator()() const {} };
static bool use_stack( std::size_t n, void * lo) { char * a = static_cast< char * >( alloca( n)); std::memset( a, 0x11, n); return a >= static_cast< char * >( lo); }
void scenarios() {
    SCENARIO( "areas of any size and alignment");
    for ( std::size_t sz : { 16384u, 20000u & ~15u, 65536u, 70000u & ~15u }) for ( std::size_t skew = 0; skew < 1100; skew += 16) {
        guard_stack gs{ sz, skew, int( skew) }; bool in = false, use = false; std::vector< int > big( 10, 3); int sum = 0;
        bf::fiber f( bf::launch::post, std::allocator_arg, gs, [&]( std::vector< int > v){ int x; in = guard_stack::inside( & x); use = use_stack( sz - skew - 8192, guard_stack::last.p + guard_stack::G); for ( int i : v) sum += i; boost::this_fiber::yield(); sum += v[0]; }, big);

        f.join(); CHECK( in && use && sum == 33); }
    settle(); CHECK( guard_stack::allocs == guard_stack::frees); CHECK( guard_stack::bad == 0);
    SCENARIO( "nearly the whole area is usable");
    { guard_stack gs{ 65536, 0, 1 }; std::ptrdiff_t room = 0; bf::fiber f( std::allocator_arg, gs, [&]{ int x; room = reinterpret_cast< char * >( & x) - ( guard_stack::last.p + guard_stack::G); }); f.join(); CHECK( room > 65536 - 2048); }
    SCENARIO( "aligned arguments");
    for ( std::size_t skew = 0; skew < 600; skew += 16) { guard_stack gs{ 32768, skew, 2 }; wide< 64 > w; wide< 128 > v; wide< 16 > u; bool ok = false; bf::fiber f( std::allocator_arg, gs, [w,&ok]( wide< 128 > const& v, wide< 16 > const& u){ ok = w.ok() && v.ok() && u.ok(); for ( char c : v.c) ok = ok && c == 7; }, v, u); f.join(); CHECK( ok); }
    CHECK( wide< 64 >::off == 0 && wide< 128 >::off == 0 && wide< 16 >::off == 0);
    settle(); CHECK( guard_stack::allocs == guard_stack::frees); CHECK( guard_stack::bad == 0);
    SCENARIO( "nothing is kept when the fiber cannot be made");
    for ( int k = 0; k < 3; ++k) { bool on = false; thrower t{ & on }; on = true; guard_stack gs{ 16384, 0, 3 }; int c = 0; int before = guard_stack::allocs - guard_stack::frees;
        try { if ( k == 0) { bf::fiber f( std::allocator_arg, gs, t); f.join(); } else if ( k == 1) { bf::fiber f( std::allocator_arg, gs, []( thrower const&){}, t); f.join(); } else { bf::fiber f( bf::launch::dispatch, std::allocator_arg, gs, std::move( t)); f.join(); } } catch ( int) { ++c; }
        CHECK( c == 1); CHECK( guard_stack::allocs - guard_stack::frees == before); }
    settle(); CHECK( guard_stack::allocs == guard_stack::frees); CHECK( guard_stack::bad == 0);
    SCENARIO( "many fibers at once");
    { std::vector< bf::fiber > fs; int n = 0; for ( int i = 0; i < 200; ++i) fs.emplace_back( i % 2 ? bf::launch::post : bf::launch::dispatch, std::allocator_arg, guard_stack{ std::size_t( 16384 + 16 * i), std::size_t( 16 * ( i % 30)), i }, [&]{ for ( int k = 0; k < i % 5; ++k) boost::this_fiber::yield(); ++n; }); for ( auto & f : fs) f.join(); CHECK( n == 200); }
    settle(); CHECK( guard_stack::allocs == guard_stack::frees && guard_stack::allocs > 0); CHECK( guard_stack::bad == 0);
    SCENARIO( "the dispatcher fiber's stack comes from and returns to the given allocator");
    { int a = guard_stack::allocs; std::thread( [&]{ boost::fibers::initialize_thread( bf::algo::algorithm::ptr_t( new bf::algo::round_robin), boost::fibers::make_stack_allocator_wrapper< guard_stack >( guard_stack{ 65536, 32, 9 })); int n = 0; bf::fiber f( [&]{ boost::this_fiber::yield(); ++n; }); f.join(); CHECK( n == 1); CHECK( guard_stack::allocs == a + 1); }).join(); CHECK( guard_stack::allocs == a + 1); CHECK( guard_stack::allocs == guard_stack::frees); CHECK( guard_stack::bad == 0); }
}
