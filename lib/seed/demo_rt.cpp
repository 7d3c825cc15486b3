// Plain stand-ins for the harness API: a failed check prints its message and makes the demonstration fail.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
static bool failed = false;
extern "C" {
uint64_t sym_range( char const *, uint64_t lo, uint64_t ) { return lo; }
uint64_t sym_bits( char const *, uint32_t ) { return 0; }
uint64_t sym_oneof( char const *, uint64_t const * v, uint32_t ) { return v[0]; }
uint64_t sym_fork( uint64_t v ) { return v; }
void sym_assume( bool ) {}
void sym_check( bool c, char const * m ) { if ( !c && !failed ) { failed = true; std::printf( "FAIL: %s\n", m ); } }
void sym_check_kf( bool c, bool, char const *, char const * m ) { sym_check( c, m ); }
void sym_obs( uint64_t ) {}
void sym_reach( char const * ) {}
uint32_t sym_scenario() { return 0; }
uint32_t sym_tier() { return 0; }
}
int main() { sym_main(); return failed ? 1 : 0; }
