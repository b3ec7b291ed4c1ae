#include <new>
#include <boost/fiber/detail/spinlock.hpp>
#include <boost/fiber/detail/spinlock_ttas_futex.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp>
#include <boost/fiber/detail/spinlock_rtm.hpp>
namespace fd = boost::fibers::detail;
#define USE(T) \
    void T ## _make( fd::T * p) { new ( p) fd::T; } \
    void T ## _lock( fd::T & l) { l.lock(); } \
    bool T ## _try_lock( fd::T & l) { return l.try_lock(); } \
    void T ## _unlock( fd::T & l) { l.unlock(); }
USE( spinlock_ttas)
USE( spinlock_ttas_adaptive)
USE( spinlock_ttas_futex)
USE( spinlock_ttas_adaptive_futex)
using rtm_ttas = fd::spinlock_rtm< fd::spinlock_ttas >;
using rtm_ttas_adaptive = fd::spinlock_rtm< fd::spinlock_ttas_adaptive >;
using rtm_ttas_futex = fd::spinlock_rtm< fd::spinlock_ttas_futex >;
using rtm_ttas_adaptive_futex = fd::spinlock_rtm< fd::spinlock_ttas_adaptive_futex >;
namespace boost { namespace fibers { namespace detail { using ::rtm_ttas; using ::rtm_ttas_adaptive; using ::rtm_ttas_futex; using ::rtm_ttas_adaptive_futex; }}}
USE( rtm_ttas)
USE( rtm_ttas_adaptive)
USE( rtm_ttas_futex)
USE( rtm_ttas_adaptive_futex)
