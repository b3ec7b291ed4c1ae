// instantiation of algorithm_with_properties with an opaque properties class and an opaque algorithm
#include <boost/fiber/all.hpp>
using namespace boost::fibers;
struct Props : public fiber_properties {
    long prio;
    explicit Props( context * c);
    ~Props();
    void tu_notify() { notify(); }
};
struct Alg : public algo::algorithm_with_properties< Props > {
    void awakened( context *, Props &) noexcept override;
    context * pick_next() noexcept override;
    bool has_ready_fibers() const noexcept override;
    void suspend_until( std::chrono::steady_clock::time_point const&) noexcept override;
    void notify() noexcept override;
};
template struct boost::fibers::algo::algorithm_with_properties< Props >;
Alg * tu_alg() { return new Alg; }
void tu_notify( Props * p) { p->tu_notify(); }
Props & tu_this_props() { return boost::this_fiber::properties< Props >(); }
Props & tu_fiber_props( fiber & f) { return f.properties< Props >(); }
void tu_base( fiber_properties * p, context * c) { new ( p) fiber_properties( c); }
void tu_delete( context * c) { c->~context(); }
