// what the scenarios for promises, futures and tasks share
#pragma once
#include "common.hpp"
#include <cstring>
#include <string>
struct Track {           // counts its objects; a copy or move can be made to throw
    static std::atomic< int > live; static std::atomic< int > throw_at;
    int v; bool moved{ false }; Track * self;
    static void tick() { if ( 0 < throw_at.load() && 0 == --throw_at) throw std::runtime_error( "track"); }
    explicit Track( int x) : v{ x }, self{ this } { ++live; }
    Track( Track const& o) : v{ o.v }, moved{ o.moved }, self{ this } { tick(); ++live; }
    Track( Track && o) : v{ o.v }, moved{ o.moved }, self{ this } { tick(); o.moved = true; ++live; }
    Track & operator=( Track const& o) { tick(); v = o.v; moved = o.moved; return * this; }
    ~Track() { CHECK( this == self); self = nullptr; --live; }
    bool is( int x) const { return v == x && ! moved && self == this; }
};
std::atomic< int > Track::live{ 0 };
std::atomic< int > Track::throw_at{ 0 };
// an allocator that counts what it hands out
struct Count { static std::atomic< long > bytes; static std::atomic< int > n; static std::atomic< int > fail; };
std::atomic< long > Count::bytes{ 0 }; std::atomic< int > Count::n{ 0 }; std::atomic< int > Count::fail{ 0 };
template< typename T > struct Alloc {
    typedef T value_type;
    Alloc() = default; template< typename U > Alloc( Alloc< U > const&) {}
    T * allocate( std::size_t n) { if ( Count::fail.load() && 0 == --Count::fail) throw std::bad_alloc(); Count::bytes += (long)( n * sizeof( T)); ++Count::n; return static_cast< T * >( ::operator new( n * sizeof( T))); }
    void deallocate( T * p, std::size_t n) { Count::bytes -= (long)( n * sizeof( T)); --Count::n; std::memset( static_cast< void * >( p), 0x5a, n * sizeof( T)); ::operator delete( p); }
    template< typename U > bool operator==( Alloc< U > const&) const { return true; }
    template< typename U > bool operator!=( Alloc< U > const&) const { return false; }
};
#define CLEAN() do { CHECK( Track::live == 0); CHECK( Count::bytes == 0); CHECK( Count::n == 0); } while ( 0)
enum { BROKEN = 1001, RETRIEVED = 1002, SATISFIED = 1003, NOSTATE = 1004 };
template< typename F > int int_of( F && f) { try { f(); } catch ( int i) { return i; } catch ( bf::future_error const& e) { return 1000 + e.code().value(); } catch ( ...) { return -1; } return 0; }
struct Oops { int v; };
