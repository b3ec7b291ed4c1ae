// flags: -Wl,--wrap=_ZN5boost6fibers5mutex6unlockEv
#include "common.hpp"
// asan: a failed obligation is also replayed with -fsanitize=address
#include <cstring>
#include <sys/mman.h>
#include <boost/fiber/cuda/waitfor.hpp>
#include <boost/fiber/hip/waitfor.hpp>
// memory that was freed is filled: a use of it shows
void * operator new( std::size_t n) { void * p = std::malloc( n + 16); if ( ! p) throw std::bad_alloc{}; *static_cast< std::size_t* >( p) = n; return static_cast< char* >( p) + 16; }
void operator delete( void * p) noexcept { if ( ! p) return; char * c = static_cast< char* >( p) - 16; std::memset( p, 0xdb, *reinterpret_cast< std::size_t* >( c)); std::free( c); }
void operator delete( void * p, std::size_t) noexcept { operator delete( p); }
// a callback is slow after it released a mutex
static thread_local bool g_slow = false;
extern "C" void __real__ZN5boost6fibers5mutex6unlockEv( void *);
extern "C" void __wrap__ZN5boost6fibers5mutex6unlockEv( void * m) { __real__ZN5boost6fibers5mutex6unlockEv( m); if ( g_slow) std::this_thread::sleep_for( 1ms); }
// a GPU run-time: what happens to a stream follows from its number.  Low digit: 0 completes later, 1 before AddCallback returns, 2 soon,
// 3 cannot be registered, 4 completes with an error
static std::mutex g_mtx; static std::vector< std::thread > g_threads; static std::atomic< int > g_calls{ 0 };
template< typename S, typename E, typename CB > static E add( S st, CB cb, void * data) {
    int k = static_cast< int >( reinterpret_cast< std::uintptr_t >( st) & 7);
    if ( k == 3) return static_cast< E >( 1);
    std::thread t{ [=]{ if ( k == 0) std::this_thread::sleep_for( 3ms); if ( k == 2) std::this_thread::sleep_for( std::chrono::microseconds( reinterpret_cast< std::uintptr_t >( st) / 64 % 40)); ++g_calls; g_slow = k == 2; cb( st, static_cast< E >( k == 4 ? 999 : 0), data); } };
    if ( k == 1) t.join(); else { std::unique_lock< std::mutex > lk{ g_mtx }; g_threads.push_back( std::move( t)); }
    return static_cast< E >( 0);
}
extern "C" cudaError_t cudaStreamAddCallback( cudaStream_t st, cudaStreamCallback_t cb, void * p, unsigned int) { return add< cudaStream_t, cudaError_t >( st, cb, p); }
extern "C" hipError_t hipStreamAddCallback( hipStream_t st, hipStreamCallback_t cb, void * p, unsigned int) { return add< hipStream_t, hipError_t >( st, cb, p); }
static void settle() { std::vector< std::thread > v; { std::unique_lock< std::mutex > lk{ g_mtx }; v.swap( g_threads); } for ( auto & t : v) t.join(); }
static int want( std::uintptr_t s) { return (s & 7) == 3 ? 1 : (s & 7) == 4 ? 999 : 0; }
extern "C" cudaError_t cudaStreamQuery( cudaStream_t) { return static_cast< cudaError_t >( 600); }
extern "C" cudaError_t cudaStreamSynchronize( cudaStream_t st) { std::this_thread::sleep_for( 5ms); return static_cast< cudaError_t >( want( reinterpret_cast< std::uintptr_t >( st))); }
extern "C" cudaError_t cudaGetLastError() { return static_cast< cudaError_t >( 0); }
extern "C" hipError_t hipStreamQuery( hipStream_t) { return static_cast< hipError_t >( 600); }
extern "C" hipError_t hipStreamSynchronize( hipStream_t st) { std::this_thread::sleep_for( 5ms); return static_cast< hipError_t >( want( reinterpret_cast< std::uintptr_t >( st))); }
extern "C" hipError_t hipGetLastError() { return static_cast< hipError_t >( 0); }
#define GPU( ns, Stream) \
    static Stream ns##_st( std::uintptr_t s) { return reinterpret_cast< Stream >( s); } \
    static void ns##_one( std::uintptr_t s) { auto r = bf::ns::waitfor_all( ns##_st( s)); CHECK( std::get< 0 >( r) == ns##_st( s)); CHECK( static_cast< int >( std::get< 1 >( r)) == want( s)); } \
    static void ns##_many( std::uintptr_t a, std::uintptr_t b, std::uintptr_t c) { \
        auto r = bf::ns::waitfor_all( ns##_st( a), ns##_st( b), ns##_st( c)); std::map< std::uintptr_t, int > m; \
        for ( auto & x : r) { CHECK( m.emplace( reinterpret_cast< std::uintptr_t >( std::get< 0 >( x)), static_cast< int >( std::get< 1 >( x))).second); } \
        std::set< std::uintptr_t > in{ a, b, c }; CHECK( m.size() == in.size()); for ( auto s : in) { CHECK( m.count( s) == 1); CHECK( m[s] == want( s)); } } \
    template< typename R, typename ... A > static void ns##_page( A ... a) { \
        std::size_t page = sysconf( _SC_PAGESIZE); void * mem = mmap( nullptr, page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); \
        int c0 = g_calls; R * r = ::new ( mem) R{ a ... }; while ( g_calls < c0 + int( sizeof ... ( A)) ) {} r->wait(); r->~R(); mprotect( mem, page, PROT_NONE); settle(); munmap( mem, page); } \
    static void ns##_gone( int n) { for ( int i = 0; i < n; ++i) { ns##_page< bf::ns::detail::single_stream_rendezvous >( ns##_st( 64 * i + 2)); ns##_page< bf::ns::detail::many_streams_rendezvous >( ns##_st( 64 * i + 2), ns##_st( 64 * i + 66)); } } \
    static void ns##_all( int n) { \
        SCENARIO( #ns ": one stream"); for ( std::uintptr_t k = 0; k < 5; ++k) ns##_one( 64 + k); settle(); \
        SCENARIO( #ns ": several streams"); for ( std::uintptr_t i = 0; i < 125; ++i) { ns##_many( 64 + i % 5, 128 + i / 5 % 5, 192 + i / 25); settle(); } ns##_many( 64, 64, 128); ns##_many( 65, 65, 65); settle(); \
        SCENARIO( #ns ": other fibers run meanwhile"); { int c = 0; bf::fiber f{ [&]{ while ( c < 1000000 && c >= 0) { ++c; boost::this_fiber::yield(); } } }; int before = c; ns##_one( 64); CHECK( c > before); c = -1; f.join(); settle(); } \
        SCENARIO( #ns ": the rendezvous is gone when wait() has returned"); ns##_gone( n); settle(); }
GPU( cuda, cudaStream_t)
GPU( hip, hipStream_t)
void scenarios() { cuda_all( 150); hip_all( 150); }
void stress() { cuda_all( 20); hip_all( 20); }
