// instantiates the constructors of the mutex classes
#include <new>
#include "boost/fiber/mutex.hpp"
#include "boost/fiber/timed_mutex.hpp"
#include "boost/fiber/recursive_mutex.hpp"
#include "boost/fiber/recursive_timed_mutex.hpp"
namespace bf = boost::fibers;
void fvc_new( void * p, int i) {
    switch ( i) {
    case 0: ::new ( p) bf::mutex{}; break;
    case 1: ::new ( p) bf::timed_mutex{}; break;
    case 2: ::new ( p) bf::recursive_mutex{}; break;
    case 3: ::new ( p) bf::recursive_timed_mutex{}; break;
    }
}
void fvc_errors( void * p, int i, std::error_code ec, char const* what) {
    switch ( i) {
    case 0: ::new ( p) bf::fiber_error{ ec }; break;
    case 1: ::new ( p) bf::fiber_error{ ec, what }; break;
    case 2: ::new ( p) bf::lock_error{ ec }; break;
    case 3: ::new ( p) bf::lock_error{ ec, what }; break;
    case 4: ::new ( p) bf::future_error{ ec }; break;
    }
}
