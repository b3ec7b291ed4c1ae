#include "val.hpp"
#include <boost/fiber/buffered_channel.hpp>
#include <boost/fiber/unbuffered_channel.hpp>
template class boost::fibers::buffered_channel< Val >;
template class boost::fibers::unbuffered_channel< Val >;
using bchan = boost::fibers::buffered_channel< Val >;
using uchan = boost::fibers::unbuffered_channel< Val >;
void tu_use( Val &);
// the range-based for loop of a user, stopping early, and a copied iterator
void tu_iterate_b( bchan & c) { for ( auto & v : c) tu_use( v); }
void tu_iterate_u( uchan & c) { for ( auto & v : c) tu_use( v); }
void tu_stop_b( bchan & c) { for ( auto & v : c) { tu_use( v); break; } }
void tu_stop_u( uchan & c) { for ( auto & v : c) { tu_use( v); break; } }
void tu_copy_b( bchan::iterator & i) { bchan::iterator j( i); if ( j != bchan::iterator() ) tu_use( * j); }
void tu_move_b( bchan::iterator & i) { bchan::iterator j( std::move( i) ); if ( j != bchan::iterator() ) tu_use( * j); }
void tu_assign_b( bchan::iterator & i, bchan::iterator & j) { j = i; if ( j != bchan::iterator() ) tu_use( * j); }
void tu_moveassign_b( bchan::iterator & i, bchan::iterator & j) { j = std::move( i); if ( j != bchan::iterator() ) tu_use( * j); }
void tu_self_b( bchan::iterator & i) { bchan::iterator & j = i; i = j; }
void tu_destroy_b( bchan::iterator & i) { i.~iterator(); }
void tu_copy_u( uchan::iterator & i) { uchan::iterator j( i); if ( j != uchan::iterator() ) tu_use( * j); }
void tu_move_u( uchan::iterator & i) { uchan::iterator j( std::move( i) ); if ( j != uchan::iterator() ) tu_use( * j); }
void tu_assign_u( uchan::iterator & i, uchan::iterator & j) { j = i; if ( j != uchan::iterator() ) tu_use( * j); }
void tu_moveassign_u( uchan::iterator & i, uchan::iterator & j) { j = std::move( i); if ( j != uchan::iterator() ) tu_use( * j); }
void tu_self_u( uchan::iterator & i) { uchan::iterator & j = i; i = j; }
void tu_destroy_u( uchan::iterator & i) { i.~iterator(); }
bool tu_eq_b( bchan::iterator & i, bchan::iterator & j) { return i == j; }
bool tu_eq_u( uchan::iterator & i, uchan::iterator & j) { return i == j; }
bool tu_ne_b( bchan::iterator & i, bchan::iterator & j) { return i != j; }
bool tu_ne_u( uchan::iterator & i, uchan::iterator & j) { return i != j; }
