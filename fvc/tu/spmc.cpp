// the lock-free queue of the work-stealing algorithms, and the algorithms compiled with it
#define BOOST_FIBERS_USE_SPMC_QUEUE
#include "algo/work_stealing.cpp"
#include <new>
using boost::fibers::context;
using boost::fibers::detail::context_spmc_queue;
void tu_push( context_spmc_queue * q, context * c) { q->push( c); }
context * tu_pop( context_spmc_queue * q) { return q->pop(); }
context * tu_steal( context_spmc_queue * q) { return q->steal(); }
bool tu_empty( context_spmc_queue const* q) { return q->empty(); }
void tu_ctor( context_spmc_queue * q, std::size_t n) { ::new ( q) context_spmc_queue( n); }
void tu_dtor( context_spmc_queue * q) { q->~context_spmc_queue(); }
bool tu_ws_has_ready( boost::fibers::algo::work_stealing const* w) { return w->boost::fibers::algo::work_stealing::has_ready_fibers(); }
context * tu_ws_steal( boost::fibers::algo::work_stealing * w) { return w->boost::fibers::algo::work_stealing::steal(); }
