#include "val.hpp"
#include <boost/fiber/future.hpp>
#include <boost/fiber/future/async.hpp>
namespace bf = boost::fibers;
using ms = std::chrono::milliseconds;
using tp = std::chrono::steady_clock::time_point;
template class bf::detail::shared_state< Val >;
template class bf::detail::shared_state< Val & >;
template class bf::detail::shared_state_object< Val, std::allocator< Val > >;
template class bf::detail::shared_state_object< Val &, std::allocator< int > >;
template class bf::detail::shared_state_object< void, std::allocator< int > >;
template bf::future_status bf::detail::shared_state_base::wait_for( ms const&) const;
template bf::future_status bf::detail::shared_state_base::wait_until( tp const&) const;
template class bf::promise< Val >;
template class bf::promise< Val & >;
template class bf::future< Val >;
template class bf::future< Val & >;
template class bf::shared_future< Val >;
template class bf::shared_future< Val & >;
// the non-template classes: what is only emitted when used
void tu_use( bf::detail::shared_state_base & s, bf::detail::shared_state< void > & v, std::exception_ptr e) { s.owner_destroyed(); s.set_exception( e); s.get_exception_ptr(); s.wait(); v.set_value(); v.get(); }
