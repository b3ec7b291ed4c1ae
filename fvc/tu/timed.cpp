// instantiates the timed operations of the mutexes and of condition_variable_any for every kind of deadline
#include "boost/fiber/condition_variable.hpp"
#include "boost/fiber/timed_mutex.hpp"
#include "boost/fiber/recursive_timed_mutex.hpp"
namespace bf = boost::fibers;
using tp = std::chrono::steady_clock::time_point;
using stp = std::chrono::system_clock::time_point;
using mtp = std::chrono::time_point< std::chrono::steady_clock, std::chrono::milliseconds >;
using smtp = std::chrono::time_point< std::chrono::system_clock, std::chrono::milliseconds >;
using ns = std::chrono::nanoseconds; using ms = std::chrono::milliseconds;
#define FVC_TIMED(M) template bool M::try_lock_until( tp const&); template bool M::try_lock_until( stp const&); template bool M::try_lock_until( mtp const&); \
    template bool M::try_lock_until( smtp const&); template bool M::try_lock_for( ns const&); template bool M::try_lock_for( ms const&);
FVC_TIMED( bf::timed_mutex)
FVC_TIMED( bf::recursive_timed_mutex)
struct Lock { long x; void lock(); void unlock(); };
#define FVC_CV(T) template bf::cv_status bf::condition_variable_any::wait_until( Lock &, T const&);
FVC_CV( tp) FVC_CV( stp) FVC_CV( mtp) FVC_CV( smtp)
template bf::cv_status bf::condition_variable_any::wait_for( Lock &, ns const&);
template bf::cv_status bf::condition_variable_any::wait_for( Lock &, ms const&);
