// the CUDA and HIP rendezvous, against declarations of the GPU run-times (tu/stubs)
#include <new>
#include <boost/fiber/cuda/waitfor.hpp>
#include <boost/fiber/hip/waitfor.hpp>
#define GPU( ns, Stream, Error) \
    using tu_##ns##_one = boost::fibers::ns::detail::single_stream_rendezvous; using tu_##ns##_many = boost::fibers::ns::detail::many_streams_rendezvous; \
    void tu_##ns##_ctor1( void * p, Stream st) { ::new ( p) tu_##ns##_one( st); } \
    void tu_##ns##_cb1( Stream st, Error e, void * p) { boost::fibers::ns::detail::trampoline< tu_##ns##_one >( st, e, p); } \
    std::tuple< Stream, Error > tu_##ns##_wait1( tu_##ns##_one * p) { return p->wait(); } \
    void tu_##ns##_ctorn( void * p, std::initializer_list< Stream > l) { ::new ( p) tu_##ns##_many( l); } \
    void tu_##ns##_cbn( Stream st, Error e, void * p) { boost::fibers::ns::detail::trampoline< tu_##ns##_many >( st, e, p); } \
    std::vector< std::tuple< Stream, Error > > tu_##ns##_waitn( tu_##ns##_many * p) { return p->wait(); } \
    std::tuple< Stream, Error > tu_##ns##_all1( Stream a) { return boost::fibers::ns::waitfor_all( a); } \
    std::vector< std::tuple< Stream, Error > > tu_##ns##_all3( Stream a, Stream b, Stream c) { return boost::fibers::ns::waitfor_all( a, b, c); }
GPU( cuda, cudaStream_t, cudaError_t)
GPU( hip, hipStream_t, hipError_t)
