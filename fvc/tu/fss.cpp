// instantiation of fiber_specific_ptr with an opaque pointee
#include <boost/fiber/all.hpp>
struct Obj { long id; ~Obj(); };
template class boost::fibers::fiber_specific_ptr< Obj >;
using boost::fibers::fiber_specific_ptr;
void tu_fss_ctor( fiber_specific_ptr< Obj > * p) { new ( p) fiber_specific_ptr< Obj >(); }
void tu_fss_ctor_fn( fiber_specific_ptr< Obj > * p, void ( * fn)( Obj *)) { new ( p) fiber_specific_ptr< Obj >( fn); }
void tu_fss_add_ref( boost::fibers::detail::fss_cleanup_function * p) { intrusive_ptr_add_ref( p); }
void tu_fss_release( boost::fibers::detail::fss_cleanup_function * p) { intrusive_ptr_release( p); }
