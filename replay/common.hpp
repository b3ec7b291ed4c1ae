// native scenarios run against the current /repo: the bounded stand-in for code the verifier cannot
// reach and the replay of a failed obligation.  Exit 0: all scenarios as specified; exit 1 + "FAIL: ...".
#pragma once
#include <boost/fiber/all.hpp>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
namespace bf = boost::fibers;
using namespace std::chrono_literals;
using Clock = std::chrono::steady_clock;
static const char * volatile g_scenario = "start";
static int g_fail = 0;
static void on_alarm( int) { char b[300]; int n = snprintf( b, sizeof b, "FAIL: scenario '%s' hangs\n", g_scenario); (void)!write( 1, b, n); _exit( 1); }
static void on_crash( int s) { char b[300]; int n = snprintf( b, sizeof b, "FAIL: scenario '%s' crashes (signal %d)\n", g_scenario, s); (void)!write( 1, b, n); _exit( 1); }
#define CHECK(c) do { if ( ! (c)) { printf( "FAIL: scenario '%s': %s (line %d)\n", g_scenario, #c, __LINE__); fflush( stdout); g_fail = 1; } } while ( 0)
#define SCENARIO(n) do { g_scenario = n; alarm( 45); } while ( 0)
template< typename F > int code_of( F && f) {
    try { f(); } catch ( bf::future_error const& e) { return 1000 + e.code().value(); } catch ( bf::fiber_error const& e) { return e.code().value(); } catch ( ...) { return -1; }
    return 0;
}
// runs f in a child process; true iff it ended by abort/terminate
template< typename F > bool terminates( F && f) {
    fflush( stdout);
    pid_t p = fork();
    if ( 0 == p) { signal( SIGABRT, SIG_DFL); (void)!freopen( "/dev/null", "w", stderr); f(); _exit( 0); }
    int st = 0; waitpid( p, & st, 0);
    return WIFSIGNALED( st) && WTERMSIG( st) == SIGABRT;
}
void scenarios();
void stress();     // checks that do not depend on timing: run with random delays at every function entry and exit
int main() {
    setvbuf( stdout, nullptr, _IOLBF, 0);
    signal( SIGALRM, on_alarm); signal( SIGSEGV, on_crash); signal( SIGABRT, on_crash); signal( SIGBUS, on_crash); signal( SIGFPE, on_crash); signal( SIGILL, on_crash);
#ifdef FVC_STRESS
    try { stress(); }
#else
    try { scenarios(); }
#endif
    catch ( std::exception const& e) { printf( "FAIL: scenario '%s': unexpected exception %s\n", g_scenario, e.what()); g_fail = 1; }
    fflush( stdout); fflush( stderr);
    _exit( g_fail);
}
