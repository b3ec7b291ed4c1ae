#include "val.hpp"
#include <boost/fiber/future.hpp>
#include <boost/fiber/future/async.hpp>
#include <new>
namespace bf = boost::fibers;
using ms = std::chrono::milliseconds;
using tp = std::chrono::steady_clock::time_point;
// a callable whose special members and call operator are external
template< typename R > struct Fn {
    long id;
    Fn( Fn const&);
    Fn( Fn &&);
    ~Fn();
    R operator()( Val &&);
};
// the public operations of the handles, called the way a user calls them
template< typename H > struct Owner {          // promise, packaged_task
    static void destroy( H * h) { h->~H(); }
    static void move_ctor( void * m, H & o) { ::new ( m) H( std::move( o) ); }
    static void move_assign( H & a, H & b) { a = std::move( b); }
    static void swap_mem( H & a, H & b) { a.swap( b); }
    static void swap_free( H & a, H & b) { swap( a, b); }
};
template< typename R > struct Pr {
    using H = bf::promise< R >;
    static void ctor( void * m) { ::new ( m) H(); }
    static void ctor_alloc( void * m, std::allocator< int > & a) { ::new ( m) H( std::allocator_arg, a); }
    static void get_future( void * m, H & h) { ::new ( m) bf::future< R >( h.get_future() ); }
    static void set_exception( H & h, std::exception_ptr & e) { h.set_exception( e); }
};
struct PrSet {
    static void copy( bf::promise< Val > & h, Val const& v) { h.set_value( v); }
    static void move( bf::promise< Val > & h, Val & v) { h.set_value( std::move( v) ); }
    static void ref( bf::promise< Val & > & h, Val & v) { h.set_value( v); }
    static void none( bf::promise< void > & h) { h.set_value(); }
};
template< typename H > struct Waitable {       // future, shared_future
    static void ctor( void * m) { ::new ( m) H(); }
    static void destroy( H * h) { h->~H(); }
    static void move_ctor( void * m, H & o) { ::new ( m) H( std::move( o) ); }
    static void move_assign( H & a, H & b) { a = std::move( b); }
    static bool valid( H const& h) { return h.valid(); }
    static void get_exception_ptr( void * m, H & h) { ::new ( m) std::exception_ptr( h.get_exception_ptr() ); }
    static void wait( H const& h) { h.wait(); }
    static bf::future_status wait_for( H const& h, ms const& d) { return h.wait_for( d); }
    static bf::future_status wait_until( H const& h, tp const& t) { return h.wait_until( t); }
};
template< typename R > struct Fu {
    static void share( void * m, bf::future< R > & h) { ::new ( m) bf::shared_future< R >( h.share() ); }
};
struct FuGet {
    static void val( void * m, bf::future< Val > & h) { ::new ( m) Val( h.get() ); }
    static Val * ref( bf::future< Val & > & h) { return & h.get(); }
    static void none( bf::future< void > & h) { h.get(); }
};
template< typename R > struct Sh {
    using H = bf::shared_future< R >;
    static void copy_ctor( void * m, H const& o) { ::new ( m) H( o); }
    static void copy_assign( H & a, H const& b) { a = b; }
    static void from_future( void * m, bf::future< R > & o) { ::new ( m) H( std::move( o) ); }
    static void assign_future( H & a, bf::future< R > & b) { a = std::move( b); }
};
struct ShGet {
    static Val const* val( bf::shared_future< Val > const& h) { return & h.get(); }
    static Val * ref( bf::shared_future< Val & > const& h) { return & h.get(); }
    static void none( bf::shared_future< void > const& h) { h.get(); }
};
template< typename R > struct Ta {
    using H = bf::packaged_task< R( Val) >;
    static void ctor_empty( void * m) { ::new ( m) H(); }
    static void ctor_copy( void * m, Fn< R > const& f) { ::new ( m) H( f); }
    static void ctor_move( void * m, Fn< R > & f) { ::new ( m) H( std::move( f) ); }
    static void ctor_alloc( void * m, std::allocator< int > const& a, Fn< R > & f) { ::new ( m) H( std::allocator_arg, a, std::move( f) ); }
    static bool valid( H const& h) { return h.valid(); }
    static void get_future( void * m, H & h) { ::new ( m) bf::future< R >( h.get_future() ); }
    static void invoke( H & h, Val & v) { h( std::move( v) ); }
    static void reset( H & h) { h.reset(); }
    using T = bf::detail::task_object< Fn< R >, std::allocator< int >, R, Val >;
};
template< typename R > struct As {
    static void plain( void * m, Fn< R > & f, Val & v) { ::new ( m) bf::future< R >( bf::async( std::move( f), std::move( v) ) ); }
    static void policy( void * m, bf::launch p, Fn< R > & f, Val & v) { ::new ( m) bf::future< R >( bf::async( p, std::move( f), std::move( v) ) ); }
    static void stack( void * m, bf::launch p, bf::fixedsize_stack & s, Fn< R > & f, Val & v) { ::new ( m) bf::future< R >( bf::async( p, std::allocator_arg, s, std::move( f), std::move( v) ) ); }
    static void alloc( void * m, bf::launch p, bf::fixedsize_stack & s, std::allocator< int > & a, Fn< R > & f, Val & v) { ::new ( m) bf::future< R >( bf::async( p, std::allocator_arg, s, a, std::move( f), std::move( v) ) ); }
};
#define ALL( R) \
    template struct Owner< bf::promise< R > >; template struct Owner< bf::packaged_task< R( Val) > >; template struct Pr< R >; \
    template struct Waitable< bf::future< R > >; template struct Waitable< bf::shared_future< R > >; template struct Fu< R >; template struct Sh< R >; \
    template struct Ta< R >; template struct As< R >; \
    template class bf::detail::task_object< Fn< R >, std::allocator< int >, R, Val >; \
    template class bf::detail::shared_state_object< R, std::allocator< int > >;
ALL( Val)
ALL( Val &)
ALL( void)
void use( bf::promise< Val > & a, bf::promise< Val & > & b, bf::promise< void > & c, bf::future< Val > & d, bf::future< Val & > & e, bf::future< void > & f,
          bf::shared_future< Val > & g, bf::shared_future< Val & > & h, bf::shared_future< void > & i, Val & v, void * m) {
    PrSet::copy( a, v); PrSet::move( a, v); PrSet::ref( b, v); PrSet::none( c); FuGet::val( m, d); FuGet::ref( e); FuGet::none( f); ShGet::val( g); ShGet::ref( h); ShGet::none( i);
}
void tu_state_add_ref( bf::detail::shared_state_base * p) { intrusive_ptr_add_ref( p); }
void tu_state_release( bf::detail::shared_state_base * p) { intrusive_ptr_release( p); }
template< typename S > struct St { static void destroy( S * s) { s->S::~S(); } static void ctor( void * m, std::allocator< int > & a) { ::new ( m) S( a); } };
template struct St< bf::detail::shared_state_object< Val, std::allocator< int > > >;
template struct St< bf::detail::shared_state_object< Val &, std::allocator< int > > >;
template struct St< bf::detail::shared_state_object< void, std::allocator< int > > >;
std::error_condition tu_condition( boost::fibers::future_errc e) { return std::make_error_condition( e); }
std::error_code tu_code( boost::fibers::future_errc e) { return std::make_error_code( e); }
