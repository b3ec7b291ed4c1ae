#include "val.hpp"
#include <boost/fiber/unbuffered_channel.hpp>
using chan = boost::fibers::unbuffered_channel< Val >;
using tp = std::chrono::steady_clock::time_point;
using ms = std::chrono::milliseconds;
template class boost::fibers::unbuffered_channel< Val >;
template boost::fibers::channel_op_status chan::push_wait_until( Val const&, tp const&);
template boost::fibers::channel_op_status chan::push_wait_until( Val &&, tp const&);
template boost::fibers::channel_op_status chan::pop_wait_until( Val &, tp const&);
template boost::fibers::channel_op_status chan::push_wait_for( Val const&, ms const&);
template boost::fibers::channel_op_status chan::push_wait_for( Val &&, ms const&);
template boost::fibers::channel_op_status chan::pop_wait_for( Val &, ms const&);
template chan::iterator boost::fibers::begin( chan &);
template chan::iterator boost::fibers::end( chan &);
#include <new>
void tu_make( void * p) { ::new ( p) chan{}; }
void tu_destroy( chan & c) { c.~chan(); }
