// instantiation of use_scheduling_algorithm with an opaque algorithm; the counter of an algorithm's references
#include <boost/fiber/all.hpp>
using namespace boost::fibers;
struct Alg : public algo::algorithm {
    explicit Alg( long);
    void awakened( context *) noexcept override;
    context * pick_next() noexcept override;
    bool has_ready_fibers() const noexcept override;
    void suspend_until( std::chrono::steady_clock::time_point const&) noexcept override;
    void notify() noexcept override;
};
void tu_use( long & n) { use_scheduling_algorithm< Alg >( n); }
void tu_algo_add_ref( algo::algorithm * p) { intrusive_ptr_add_ref( p); }
void tu_algo_release( algo::algorithm * p) { intrusive_ptr_release( p); }
