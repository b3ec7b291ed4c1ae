#include "common.hpp"
// asan: a failed obligation is also replayed with -fsanitize=address
#include <cstring>
#include <deque>
#include <sys/mman.h>
#include <boost/fiber/detail/context_spmc_queue.hpp>
using queue = bf::detail::context_spmc_queue;
// Tokens: copies of the bytes of real contexts, each on a page of its own.  A token that was handed out is made
// inaccessible, as the memory of a fiber that was run to its end by the thread that got it would be.
struct tokens {
    std::size_t n, page; char * mem;
    tokens( std::size_t n_, bf::context * proto) : n( n_), page( sysconf( _SC_PAGESIZE) ) {
        mem = static_cast< char* >( mmap( nullptr, n * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        for ( std::size_t i = 0; i < n; ++i) std::memcpy( mem + i * page, static_cast< void* >( proto), sizeof( bf::context));
    }
    ~tokens() { munmap( mem, n * page); }
    bf::context * operator[]( std::size_t i) { return reinterpret_cast< bf::context* >( mem + i * page); }
    std::size_t index( bf::context * c) { std::size_t o = reinterpret_cast< char* >( c) - mem; CHECK( o % page == 0 && o / page < n); return o / page; }
    void gone( bf::context * c) { mprotect( c, page, PROT_NONE); }
};
static bf::context * proto_worker() { static bf::context * c = nullptr; static bf::fiber f; if ( ! c) { static char buf[sizeof( bf::context)]; f = bf::fiber( bf::launch::dispatch, []{ std::memcpy( buf, static_cast< void* >( bf::context::active()), sizeof buf); }); f.join(); c = reinterpret_cast< bf::context* >( buf); } return c; }
static void model() {
    SCENARIO( "operations on a queue nothing was pushed to");
    { queue q; CHECK( q.empty()); CHECK( q.steal() == nullptr); CHECK( q.pop() == nullptr); CHECK( q.empty()); CHECK( q.steal() == nullptr); CHECK( q.pop() == nullptr);
      alarm( 5); bf::context * w = bf::context::active(); q.push( w); CHECK( ! q.empty()); CHECK( q.pop() == w); CHECK( q.empty()); }
    SCENARIO( "queue against a model");
    tokens t( 64, proto_worker()); bf::context * pin = bf::context::active(); unsigned r = 11; auto rnd = [&]{ r = r * 1103515245 + 12345; return (r >> 16) & 0x7fff; };
    for ( int cap = 1; cap < 10; ++cap) for ( int round = 0; round < 60; ++round) {
        queue q( cap); std::deque< bf::context* > d; unsigned bias = 2 + round % 4;
        for ( int k = 0; k < 300; ++k) { switch ( rnd() % (bias + 2)) {
            case 0: { auto e = d.empty() ? nullptr : d.back(); CHECK( q.pop() == e); if ( e) d.pop_back(); break; }
            case 1: { auto e = d.empty() || d.front() == pin ? nullptr : d.front(); CHECK( q.steal() == e); if ( e) d.pop_front(); break; }
            default: if ( bias < 4 || d.size() < 9) { auto c = rnd() % 5 ? t[rnd() % 64] : pin; q.push( c); d.push_back( c); } }
            CHECK( q.empty() == d.empty()); }
        while ( ! d.empty()) { CHECK( q.pop() == d.back()); d.pop_back(); } CHECK( q.pop() == nullptr); CHECK( q.empty()); }
}
static void concurrent( int cap, int thieves, int N, int burst) {
    SCENARIO( "one owner, several thieves");
    tokens t( N, proto_worker()); queue q( cap); std::vector< std::atomic< int > > seen( N); for ( auto & s : seen) s = 0; std::atomic< bool > end{ false };
    auto got = [&]( bf::context * c) { CHECK( seen[t.index( c)].fetch_add( 1) == 0); t.gone( c); };
    std::vector< std::thread > ts; for ( int i = 0; i < thieves; ++i) ts.emplace_back( [&]{ while ( ! end) { bf::context * c = q.steal(); if ( c) got( c); } });
    unsigned r = 3 + cap; int k = 0;
    while ( k < N) { r = r * 1103515245 + 12345; int up = 1 + (r >> 16) % burst, down = (r >> 8) % (burst + 1);
        for ( int i = 0; i < up && k < N; ++i) q.push( t[k++]);
        for ( int i = 0; i < down; ++i) { bf::context * c = q.pop(); if ( ! c) break; got( c); } }
    while ( bf::context * c = q.pop()) got( c);
    end = true; for ( auto & x : ts) x.join(); CHECK( q.empty());
    for ( auto & s : seen) CHECK( s == 1);
}
void scenarios() {
    model();
    for ( int i = 0; i < 4; ++i) { concurrent( 1, 3, 6000, 3); concurrent( 2, 2, 6000, 40); concurrent( 64, 4, 6000, 200); concurrent( 4096, 3, 6000, 2); concurrent( 1, 4, 3000, 3000); }
}
void stress() { for ( int i = 0; i < 8; ++i) { concurrent( 1, 3, 1500, 3); concurrent( 2, 3, 1500, 40); } }
