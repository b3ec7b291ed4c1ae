#include <boost/fiber/operations.hpp>
#include <boost/fiber/context.hpp>
#include <boost/fiber/scheduler.hpp>
using stp = std::chrono::system_clock::time_point;
using tp = std::chrono::steady_clock::time_point;
using mtp = std::chrono::time_point< std::chrono::steady_clock, std::chrono::milliseconds >;
using smtp = std::chrono::time_point< std::chrono::system_clock, std::chrono::milliseconds >;
namespace boost { namespace this_fiber {
template void sleep_until( tp const&);
template void sleep_until( stp const&);
template void sleep_until( mtp const&);
template void sleep_until( smtp const&);
template void sleep_for( std::chrono::nanoseconds const&);
template void sleep_for( std::chrono::milliseconds const&);
}}
void tu_yield() { boost::this_fiber::yield(); }
bool tu_has_ready() { return boost::fibers::has_ready_fibers(); }
