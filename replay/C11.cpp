#include "fut.hpp"
#include <random>
#include <memory>
// Every handle of one result type against a model of which handle refers to which state; the allocator counts the
// states that exist, so a state released too early, too late, twice or with the wrong allocator shows at once.
static Track * pool[4];
struct Fn0 { static int live; static int calls; bool moved{ false };
    Fn0() { ++live; } Fn0( Fn0 const& o) : moved{ o.moved } { ++live; } Fn0( Fn0 && o) : moved{ o.moved } { o.moved = true; ++live; } ~Fn0() { --live; }
    void step( int x) { ++calls; CHECK( ! moved); if ( x < 0) throw x; } };
int Fn0::live = 0; int Fn0::calls = 0;
template< typename R > struct K;
template<> struct K< Track > {
    struct Fn : Fn0 { Track operator()( int x) { step( x); return Track( x); } };
    static void set( bf::promise< Track > & p, int x) { if ( x & 1) p.set_value( Track( x)); else { Track t( x); p.set_value( t); CHECK( t.is( x)); } }
    template< typename F > static int get( F & f) { Track const& t = f.get(); CHECK( t.self == & t); CHECK( ! t.moved); return t.v; }
    static int get( bf::future< Track > & f) { Track t( f.get()); CHECK( ! t.moved); return t.v; }
};
template<> struct K< Track & > {
    struct Fn : Fn0 { Track & operator()( int x) { step( x); return * pool[x & 3]; } };
    static void set( bf::promise< Track & > & p, int x) { p.set_value( * pool[x & 3]); }
    template< typename F > static int get( F & f) { Track & t = f.get(); CHECK( & t == pool[t.v & 3]); return t.v; }
};
template<> struct K< void > {
    struct Fn : Fn0 { void operator()( int x) { step( x); } };
    static void set( bf::promise< void > & p, int) { p.set_value(); }
    template< typename F > static int get( F & f) { f.get(); return 0; }
};
static int norm( Track *, int x) { return x; }
static int norm( int *, int x) { return x & 3; }           // reference
static int norm( void *, int) { return 0; }
template< typename R > struct Tag { typedef R * type; }; template< typename R > struct Tag< R & > { typedef int * type; };
struct State { bool set{ false }; int val{ 0 }; int code{ 0 }; bool task{ false }; bool gone{ false }; };      // code: 0 value, else what get() throws
typedef std::shared_ptr< State > SP;
template< typename R > struct Hist {
    typedef bf::promise< R > P; typedef bf::packaged_task< R( int) > T; typedef bf::future< R > F; typedef bf::shared_future< R > S;
    typedef typename K< R >::Fn Fn;
    enum { N = 3 };
    std::unique_ptr< P > p[N]; std::unique_ptr< T > t[N]; std::unique_ptr< F > f[N]; std::unique_ptr< S > s[N];
    SP mp[N], mt[N], mf[N], ms[N]; bool op[N], ot[N];
    std::mt19937 g; std::vector< std::weak_ptr< State > > states; int calls{ 0 };
    explicit Hist( unsigned seed) : g( seed) { Fn0::calls = 0; for ( int i = 0; i < N; ++i) { p[i].reset( new P( std::allocator_arg, Alloc< int >{})); mp[i] = fresh( false); op[i] = ot[i] = false; t[i].reset( new T); f[i].reset( new F); s[i].reset( new S); } }
    int r( int n) { return (int)( g() % (unsigned) n); }
    SP fresh( bool task) { SP x = std::make_shared< State >(); x->task = task; states.push_back( x); return x; }
    static void abandon( SP & m, bool & o) { if ( m && o && ! m->set) { m->set = true; m->code = BROKEN; } m.reset(); o = false; }
    void sync() {
        int n = 0, k = 0, v = 0; std::vector< std::weak_ptr< State > > keep; for ( auto & w : states) if ( SP x = w.lock()) { ++n; k += x->task; v += std::is_same< R, Track >::value && x->set && x->code == 0; keep.push_back( w); }
        states.swap( keep);
        CHECK( Count::n == n); CHECK( Fn0::live == k); CHECK( Track::live == v + 4); CHECK( Fn0::calls == calls);
        for ( int i = 0; i < N; ++i) { CHECK( t[i]->valid() == !! mt[i]); CHECK( f[i]->valid() == !! mf[i]); CHECK( s[i]->valid() == !! ms[i]); }
    }
    int expect( SP const& m) { return ! m ? NOSTATE : m->code; }
    template< typename H > void waits( H & h, SP const& m) {
        auto st = ! m ? bf::future_status::ready : m->set ? bf::future_status::ready : bf::future_status::timeout; int e = m ? 0 : NOSTATE;
        CHECK( int_of( [&]{ CHECK( h.wait_for( std::chrono::nanoseconds( 1)) == st); }) == e);
        CHECK( int_of( [&]{ CHECK( h.wait_until( Clock::now() - 1s) == st); }) == e);
        if ( m && ! m->set) return;
        CHECK( int_of( [&]{ h.wait(); }) == e);
        std::exception_ptr x; CHECK( int_of( [&]{ x = h.get_exception_ptr(); }) == e);
        if ( m) { CHECK( !! x == ( m->code != 0)); if ( x) CHECK( int_of( [&]{ std::rethrow_exception( x); }) == m->code); }
    }
    template< typename H > void got( H & h, SP const& m) { int v = -7; int e = int_of( [&]{ v = K< R >::get( h); }); CHECK( e == expect( m)); if ( m && ! m->code) CHECK( v == norm( typename Tag< R >::type{}, m->val)); }
    // the operations both kinds of owner have
    template< typename H > void owner( std::unique_ptr< H > * h, SP * m, bool * o, int op_, bool task) {
        int i = r( N), j = r( N);
        switch ( op_) {
        case 0: { SP w = m[i]; bool b = o[i]; m[i].reset(); o[i] = false; abandon( m[j], o[j]); if ( i == j) { m[i] = w; o[i] = b; if ( w && b && w->code == BROKEN) {} } else { m[j] = w; o[j] = b; }
                  if ( i == j) { H & a = * h[i]; H & c = * h[j]; a = std::move( c); } else * h[j] = std::move( * h[i]); break; }
        case 1: { std::swap( m[i], m[j]); std::swap( o[i], o[j]); if ( r( 2)) h[i]->swap( * h[j]); else { using std::swap; swap( * h[i], * h[j]); } break; }
        case 2: { std::unique_ptr< H > n( new H( std::move( * h[i]))); std::swap( n, h[i]); break; }       // the source, now empty, is destroyed
        case 3: { h[i].reset( new H( std::move( * h[i]))); break; }
        case 4: { SP w = m[i]; bool b = o[i]; H x( std::move( * h[i])); m[i].reset(); o[i] = false; if ( r( 2)) { * h[i] = std::move( x); m[i] = w; o[i] = b; } else { abandon( w, b); } break; }
        case 5: { int e = o[i] ? RETRIEVED : ! m[i] ? NOSTATE : 0; int k = r( N);
                  if ( r( 2)) { CHECK( int_of( [&]{ * f[k] = h[i]->get_future(); }) == e); if ( ! e) { mf[k] = m[i]; o[i] = true; } }
                  else { CHECK( int_of( [&]{ * s[k] = h[i]->get_future(); }) == e); if ( ! e) { ms[k] = m[i]; o[i] = true; } } break; }
        } (void)task;
    }
    void step() {
        int i = r( N), j = r( N), x = r( 100);
        switch ( r( 18)) {
        case 0: case 1: owner( p, mp, op, r( 6), false); break;
        case 2: case 3: owner( t, mt, ot, r( 6), true); break;
        case 4: { abandon( mp[i], op[i]); p[i].reset( r( 2) ? new P( std::allocator_arg, Alloc< char >{}) : nullptr); if ( ! p[i]) { p[i].reset( new P( std::allocator_arg, Alloc< int >{})); } mp[i] = fresh( false); break; }
        case 5: { abandon( mt[i], ot[i]); if ( r( 3) == 0) { * t[i] = T{}; } else { Fn q; * t[i] = r( 2) ? T( std::allocator_arg, Alloc< int >{}, q) : T( std::allocator_arg, Alloc< int >{}, std::move( q)); mt[i] = fresh( true); } break; }
        case 6: { int e = ! mp[i] ? NOSTATE : mp[i]->set ? SATISFIED : 0; CHECK( int_of( [&]{ K< R >::set( * p[i], x); }) == e); if ( ! e) { mp[i]->set = true; mp[i]->val = x; } break; }
        case 7: { int e = ! mp[i] ? NOSTATE : mp[i]->set ? SATISFIED : 0; CHECK( int_of( [&]{ p[i]->set_exception( std::make_exception_ptr( -x - 1)); }) == e); if ( ! e) { mp[i]->set = true; mp[i]->code = -x - 1; } break; }
        case 8: { bool bad = r( 3) == 0; int e = ! mt[i] ? NOSTATE : mt[i]->set ? SATISFIED : 0; CHECK( int_of( [&]{ ( * t[i])( bad ? -x - 1 : x); }) == e); if ( mt[i]) ++calls; if ( ! e) { mt[i]->set = true; if ( bad) mt[i]->code = -x - 1; else mt[i]->val = x; } break; }
        case 9: { if ( ! mt[i]) { CHECK( int_of( [&]{ t[i]->reset(); }) == NOSTATE); break; }
                  if ( r( 4) == 0) { Count::fail = 1; bool bad = false; try { t[i]->reset(); } catch ( std::bad_alloc const&) { bad = true; } Count::fail = 0; CHECK( bad); break; }
                  t[i]->reset(); abandon( mt[i], ot[i]); mt[i] = fresh( true); break; }
        case 10: { SP w = mf[i]; mf[i].reset(); mf[j] = w; if ( i == j) { F & a = * f[i]; F & b = * f[j]; a = std::move( b); } else * f[j] = std::move( * f[i]); break; }
        case 11: { f[i].reset( new F( std::move( * f[i]))); break; }
        case 12: { if ( mf[i] && ! mf[i]->set) { waits( * f[i], mf[i]); break; } waits( * f[i], mf[i]); got( * f[i], mf[i]); mf[i].reset(); CHECK( ! f[i]->valid()); break; }
        case 13: { SP w = mf[i]; mf[i].reset(); switch ( r( 3)) {
                   case 0: if ( w) { * s[j] = f[i]->share(); ms[j] = w; } else CHECK( int_of( [&]{ * s[j] = f[i]->share(); }) == NOSTATE); break;
                   case 1: * s[j] = std::move( * f[i]); ms[j] = w; break;
                   case 2: s[j].reset( new S( std::move( * f[i]))); ms[j] = w; break; }
                   break; }
        case 14: { if ( ms[i] && ! ms[i]->set) { waits( * s[i], ms[i]); break; } waits( * s[i], ms[i]); for ( int k = 0; k < 2; ++k) got( * s[i], ms[i]); break; }
        case 15: { * s[j] = * s[i]; ms[j] = ms[i]; break; }
        case 16: { if ( r( 2)) { s[j].reset( new S( * s[i])); ms[j] = ms[i]; } else { SP w = ms[i]; ms[i].reset(); ms[j] = w; if ( i == j) { S & a = * s[i]; S & b = * s[j]; a = std::move( b); } else * s[j] = std::move( * s[i]); } break; }
        case 17: { if ( r( 2)) { f[i].reset( new F); mf[i].reset(); } else { s[i].reset( new S); ms[i].reset(); } break; }
        }
        sync();
    }
    ~Hist() { for ( int i = 0; i < N; ++i) { abandon( mp[i], op[i]); p[i].reset(); abandon( mt[i], ot[i]); t[i].reset(); }
        for ( int i = 0; i < N; ++i) { if ( ! mf[i] || mf[i]->set) got( * f[i], mf[i]); else CHECK( f[i]->wait_for( 0s) == bf::future_status::timeout); mf[i].reset(); if ( ! ms[i] || ms[i]->set) got( * s[i], ms[i]); ms[i].reset(); s[i].reset(); f[i].reset(); }
        CHECK( Count::n == 0); CHECK( Count::bytes == 0); CHECK( Fn0::live == 0); CHECK( Track::live == 4); }
};
template< typename R > void histories( int n, int len, unsigned seed) { for ( int i = 0; i < n; ++i) { Hist< R > h( seed + i); for ( int k = 0; k < len; ++k) h.step(); } }
struct BadAlloc : std::runtime_error { BadAlloc() : std::runtime_error( "x") {} };
void construction() {
    SCENARIO( "construction fails");
    for ( int k = 0; k < 3; ++k) { Count::fail = 1; bool bad = false; try { if ( k == 0) bf::promise< Track > p( std::allocator_arg, Alloc< int >{}); else if ( k == 1) bf::promise< void > p( std::allocator_arg, Alloc< int >{}); else bf::packaged_task< void() > t( std::allocator_arg, Alloc< int >{}, []{}); } catch ( std::bad_alloc const&) { bad = true; } Count::fail = 0; CHECK( bad); CLEAN(); }
    { Track t( 1); auto fn = [t]() {}; Track::throw_at = 1; bool bad = false; try { bf::packaged_task< void() > p( std::allocator_arg, Alloc< int >{}, fn); } catch ( std::runtime_error const&) { bad = true; } Track::throw_at = 0; CHECK( bad); CHECK( Count::n == 0); }
    CLEAN();
}
// the last handles go on different threads
template< typename R > void release_race( int rounds) {
    for ( int i = 0; i < rounds; ++i) {
        auto * p = new bf::promise< R >( std::allocator_arg, Alloc< int >{}); bf::shared_future< R > a( p->get_future().share()), b( a); std::atomic< int > ready{ 0 };
        std::thread t1( [&ready,p,i]{ ++ready; while ( ready < 3) ; if ( i & 1) p->set_value( Track( i)); delete p; });
        std::thread t2( [&ready,i]( bf::shared_future< R > f){ ++ready; while ( ready < 3) ; int e = int_of( [&]{ CHECK( f.get().v == i); }); CHECK( e == ( ( i & 1) ? 0 : BROKEN)); f = bf::shared_future< R >{}; }, std::move( b));
        { bf::shared_future< R > c( std::move( a)); ++ready; while ( ready < 3) ; int e = int_of( [&]{ CHECK( c.get().v == i); }); CHECK( e == ( ( i & 1) ? 0 : BROKEN)); }
        t1.join(); t2.join(); CLEAN();
    }
}
void blocked_waiter() {
    SCENARIO( "a waiter blocked when the promise is abandoned gets broken_promise");
    for ( int k = 0; k < 6; ++k) {
        bf::promise< Track > p( std::allocator_arg, Alloc< int >{}); bf::packaged_task< Track() > t( std::allocator_arg, Alloc< int >{}, []{ return Track( 1); });
        auto f = k < 3 ? p.get_future() : t.get_future(); int e = -5; bf::fiber w( bf::launch::dispatch, [&]{ e = int_of( [&]{ f.get(); }); });
        switch ( k) { case 0: p = bf::promise< Track >{}; break; case 1: { bf::promise< Track > q( std::move( p)); break; } case 2: { bf::promise< Track > q; q.swap( p); break; }
                      case 3: t = bf::packaged_task< Track() >{}; break; case 4: { bf::packaged_task< Track() > q( std::move( t)); break; } case 5: t.reset(); break; }
        w.join(); CHECK( e == BROKEN); CHECK( ! f.valid());
    }
    CLEAN();
}
void scenarios() {
    construction(); blocked_waiter();
    SCENARIO( "histories of handles");
    for ( int i = 0; i < 4; ++i) pool[i] = new Track( i);
    histories< Track >( 400, 120, 1); histories< Track & >( 400, 120, 10001); histories< void >( 400, 120, 20001);
    for ( int i = 0; i < 4; ++i) delete pool[i];
    SCENARIO( "the last handle goes on any thread"); release_race< Track >( 600);
}
void stress() { SCENARIO( "the last handle goes on any thread"); release_race< Track >( 150); }
