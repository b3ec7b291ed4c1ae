#include "common.hpp"
void scenarios() {
    SCENARIO( "zero parties");
    CHECK( code_of( []{ bf::barrier b( 0); }) == (int)std::errc::invalid_argument);
    SCENARIO( "one party"); { bf::barrier b( 1); CHECK( b.wait()); CHECK( b.wait()); }
    SCENARIO( "fibers of one thread, several cycles");
    for ( int n : { 2, 3, 5}) { bf::barrier b( n); int arrived = 0, released = 0, trues = 0; std::vector< bf::fiber > fs;
      for ( int i = 0; i < n; ++i) fs.emplace_back( [&]{ for ( int k = 0; k < 20; ++k) { ++arrived; bool r = b.wait(); CHECK( arrived >= ( k + 1) * n); ++released; if ( r) ++trues; } });
      for ( auto & f : fs) f.join(); CHECK( arrived == 20 * n); CHECK( trues == 20); }
    SCENARIO( "too few arrivals do not release");
    { bf::barrier b( 3); int out = 0; bf::fiber x( bf::launch::dispatch, [&]{ b.wait(); ++out; }), y( bf::launch::dispatch, [&]{ b.wait(); ++out; });
      for ( int i = 0; i < 10; ++i) boost::this_fiber::yield(); CHECK( out == 0); CHECK( b.wait()); x.join(); y.join(); CHECK( out == 2);
      bf::fiber z( bf::launch::dispatch, [&]{ b.wait(); ++out; }), w( bf::launch::dispatch, [&]{ b.wait(); ++out; });
      for ( int i = 0; i < 10; ++i) boost::this_fiber::yield(); CHECK( out == 2); b.wait(); z.join(); w.join(); }
    SCENARIO( "threads");
    { const int n = 4, K = 400; bf::barrier b( n); std::atomic< int > a{ 0}, tr{ 0}; std::atomic< bool > bad{ false}; std::vector< std::thread > ts;
      for ( int i = 0; i < n; ++i) ts.emplace_back( [&]{ for ( int k = 0; k < K; ++k) { ++a; if ( b.wait()) ++tr; if ( a < ( k + 1) * n || a > ( k + 2) * n) bad = true; } });
      for ( auto & t : ts) t.join(); CHECK( ! bad); CHECK( tr == K); }
}
