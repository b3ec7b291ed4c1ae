// instantiations of the fiber life cycle with an opaque callable and an opaque argument
#include <boost/fiber/all.hpp>
#include "val.hpp"
using namespace boost::fibers;
struct Fn {
    long id;
    Fn( Fn const&);
    Fn( Fn &&);
    ~Fn();
    void operator()( Val &&);
};
struct Stk {
    long id;
    boost::context::stack_context allocate();
    void deallocate( boost::context::stack_context &);
};
struct alignas( 64) Fn64 {
    long id;
    Fn64( Fn64 const&);
    Fn64( Fn64 &&);
    ~Fn64();
    void operator()( Val &&);
};
namespace boost { namespace fibers {
template class worker_context< Fn64, Val >;
template boost::intrusive_ptr< context > make_worker_context_with_properties< Stk &, Fn64, Val >( launch, fiber_properties *, Stk &, Fn64 &&, Val);
template class worker_context< Fn, Val >;
template class worker_context< Fn &, Val >;
template boost::intrusive_ptr< context > make_worker_context_with_properties< Stk &, Fn, Val >( launch, fiber_properties *, Stk &, Fn &&, Val);
template boost::intrusive_ptr< context > make_worker_context_with_properties< Stk, Fn, Val >( launch, fiber_properties *, Stk &&, Fn &&, Val);
template boost::intrusive_ptr< context > make_worker_context_with_properties< Stk &, Fn &, Val >( launch, fiber_properties *, Stk &, Fn &, Val);
template boost::intrusive_ptr< context > make_worker_context_with_properties< fixedsize_stack, Fn, Val >( launch, fiber_properties *, fixedsize_stack &&, Fn &&, Val);
template boost::intrusive_ptr< context > make_worker_context< Stk &, Fn, Val >( launch, Stk &, Fn &&, Val);
}}
void tu_add_ref( context * c) { intrusive_ptr_add_ref( c); }
void tu_release( context * c) { intrusive_ptr_release( c); }
// handles
void tu_dtor( fiber * f) { f->~fiber(); }
void tu_default( fiber * f) { new ( f) fiber(); }
void tu_move_ctor( fiber * f, fiber & o) { new ( f) fiber( std::move( o) ); }
void tu_move_assign( fiber & f, fiber & o) { f = std::move( o); }
void tu_swap( fiber & f, fiber & o) { f.swap( o); }
void tu_swap2( fiber & f, fiber & o) { boost::fibers::swap( f, o); }
bool tu_joinable( fiber const& f) { return f.joinable(); }
fiber::id tu_get_id( fiber const& f) { return f.get_id(); }
fiber::id tu_this_id() { return boost::this_fiber::get_id(); }
bool tu_id_eq( fiber::id a, fiber::id b) { return a == b; }
bool tu_id_ne( fiber::id a, fiber::id b) { return a != b; }
bool tu_id_lt( fiber::id a, fiber::id b) { return a < b; }
bool tu_id_gt( fiber::id a, fiber::id b) { return a > b; }
bool tu_id_le( fiber::id a, fiber::id b) { return a <= b; }
bool tu_id_ge( fiber::id a, fiber::id b) { return a >= b; }
bool tu_id_not( fiber::id a) { return ! a; }
bool tu_id_bool( fiber::id a) { return static_cast< bool >( a); }
// launching
void tu_ctor( fiber * f, Fn && fn, Val & v) { new ( f) fiber( std::move( fn), std::move( v) ); }
void tu_ctor_policy( fiber * f, launch p, Fn && fn, Val & v) { new ( f) fiber( p, std::move( fn), std::move( v) ); }
void tu_ctor_alloc( fiber * f, Stk & s, Fn && fn, Val & v) { new ( f) fiber( std::allocator_arg, s, std::move( fn), std::move( v) ); }
void tu_ctor_policy_alloc( fiber * f, launch p, Stk & s, Fn && fn, Val & v) { new ( f) fiber( p, std::allocator_arg, s, std::move( fn), std::move( v) ); }
void tu_ctor_props( fiber * f, fiber_properties * pr, Fn && fn, Val & v) { new ( f) fiber( pr, std::move( fn), std::move( v) ); }
void tu_ctor_policy_props( fiber * f, launch p, fiber_properties * pr, Fn && fn, Val & v) { new ( f) fiber( p, pr, std::move( fn), std::move( v) ); }
void tu_ctor_props_alloc( fiber * f, fiber_properties * pr, Stk & s, Fn && fn, Val & v) { new ( f) fiber( pr, std::allocator_arg, s, std::move( fn), std::move( v) ); }
void tu_ctor_policy_props_alloc( fiber * f, launch p, fiber_properties * pr, Stk & s, Fn && fn, Val & v) { new ( f) fiber( p, pr, std::allocator_arg, s, std::move( fn), std::move( v) ); }
// polymorphic allocator
template class boost::fibers::detail::polymorphic_stack_allocator_impl< Stk >;
void tu_make( boost::intrusive_ptr< context > * r, launch p, fiber_properties * pr, Stk & s, Stk && sr, Fn & f, Fn64 && f64, Val & v) {
    r[0] = make_worker_context_with_properties( p, pr, s, std::move( f64), std::move( v));
    r[1] = make_worker_context_with_properties( p, pr, std::move( sr), std::move( f), std::move( v));
    r[2] = make_worker_context_with_properties( p, pr, s, f, std::move( v));
}
