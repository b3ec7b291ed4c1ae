#include <boost/fiber/condition_variable.hpp>
#include <boost/fiber/mutex.hpp>
// opaque user types: every behaviour the contracts allow must be handled
struct Lock { long x; void lock(); void unlock(); };
struct Pred { void * x; bool operator()(); };
using cva = boost::fibers::condition_variable_any;
using cv = boost::fibers::condition_variable;
using ulk = std::unique_lock< boost::fibers::mutex >;
using tp = std::chrono::steady_clock::time_point;
using stp = std::chrono::system_clock::time_point;
using ms = std::chrono::milliseconds;
using boost::fibers::cv_status;
template void cva::wait( Lock &);
template void cva::wait( Lock &, Pred);
template cv_status cva::wait_until( Lock &, tp const&);
template bool cva::wait_until( Lock &, tp const&, Pred);
template cv_status cva::wait_until( Lock &, stp const&);
template cv_status cva::wait_for( Lock &, ms const&);
template bool cva::wait_for( Lock &, ms const&, Pred);
template void cv::wait( ulk &, Pred);
template cv_status cv::wait_until( ulk &, tp const&);
template bool cv::wait_until( ulk &, tp const&, Pred);
template cv_status cv::wait_for( ulk &, ms const&);
template bool cv::wait_for( ulk &, ms const&, Pred);
void use( cv & c, ulk & l) { c.wait( l); c.notify_one(); c.notify_all(); }
