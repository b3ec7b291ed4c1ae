// stack_allocator_wrapper around an allocator of the user, from its construction to its destruction
#include <boost/fiber/stack_allocator_wrapper.hpp>
namespace bf = boost::fibers; namespace bc = boost::context;
struct Stk2 { long id; explicit Stk2( long); Stk2( Stk2 const&) = delete; ~Stk2(); bc::stack_context allocate(); void deallocate( bc::stack_context &); };
void tu_wrap( long id, bc::stack_context & out) {
    bf::stack_allocator_wrapper w = bf::make_stack_allocator_wrapper< Stk2 >( id);
    bf::stack_allocator_wrapper v = std::move( w);
    out = v.allocate();
    v.deallocate( out);
}
