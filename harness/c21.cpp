// C21: signals call exactly the connected slots
#include "common.hpp"
#include <optional>
using namespace hc;
namespace {
using Fn = std::function< void( uint32_t ) >; using Sig = Signal< Fn >; using Con = SignalConnection< Sig >;
struct Slot { std::unique_ptr< Con > con; bool on{}; int sig{}; uint32_t calls{}; int fn{ -1 }; };
// any sequence of connections, disconnections, moves and destructions, then an emission after each step
void sequence( uint32_t steps, uint32_t n ) {
	std::unique_ptr< Sig > sig[2]; sig[0] = std::make_unique< Sig >(); sig[1] = std::make_unique< Sig >(); std::vector< Slot > s( n ); uint32_t got = 0; std::vector< uint32_t > calls( steps + 1 );
	auto emit = [&]( uint32_t v ) {
		for ( int g = 0; g < 2; ++g ) if ( sig[g] ) {
			for ( auto & c : calls ) c = 0; ( *sig[g] )( v ); std::vector< uint32_t > want( calls.size() ); bool some = false;
			for ( auto & q : s ) if ( q.on && q.sig == g ) { want[size_t( q.fn )] = 1; some = true; }
			sym_check( want == calls, "an emission misses a connected slot, or calls another one, or calls one twice" ); if ( some ) { sym_check( got == v, "an emission passes another value" ); sym_reach( "called" ); }
		}
		for ( auto & q : s ) if ( q.con ) sym_check( q.con->isValid() == q.on, "a connection's validity is not its state" );
	};
	for ( uint32_t t = 0; t < steps; ++t ) {
		std::string p = "s" + std::to_string( t ); uint32_t op = pickIdx( p + "op", 7 ), i = pickIdx( p + "slot", n );
		if ( op == 0 || op == 1 ) { auto & g = sig[op]; if ( g ) { auto c = g->connect( [&calls, t, &got]( uint32_t v ) { ++calls[t]; got = v; } ); if ( s[i].con ) *s[i].con = std::move( c ); else s[i].con = std::make_unique< Con >( std::move( c ) ); s[i].on = true; s[i].sig = int( op ); s[i].fn = int( t ); sym_check( s[i].con->isValid() && !c.isValid(), "a new connection is not live, or the one it was moved from is" ); emit( 100u + t ); } }
		if ( op == 2 && s[i].con ) { s[i].con->disconnect(); s[i].on = false; sym_check( !s[i].con->isValid(), "a connection is live after it is disconnected" ); }
		if ( op == 3 ) { s[i].con.reset(); s[i].on = false; }
		if ( op == 4 && s[i].con ) { auto moved = std::make_unique< Con >( std::move( *s[i].con ) ); sym_check( !s[i].con->isValid() && moved->isValid() == s[i].on, "moving a connection loses or duplicates it" ); s[i].con = std::move( moved ); }
		if ( op == 5 && sig[i & 1] ) { sig[i & 1].reset(); for ( auto & q : s ) if ( q.on && q.sig == int( i & 1 ) ) { q.on = false; sym_check( q.con && !q.con->isValid(), "a connection outlives its signal" ); } }
		// one live connection is assigned over another: what was there is disconnected
		if ( op == 6 ) { uint32_t j = ( i + 1 ) % n; if ( s[i].con && s[j].con ) { if ( s[i].on && s[j].on ) sym_reach( "assigned over" ); *s[i].con = std::move( *s[j].con ); s[i].on = s[j].on; s[i].sig = s[j].sig; s[i].fn = s[j].fn; s[j].on = false; } }
		emit( 7u + t );
	}
	if ( flag( "order" ) ) { sig[0].reset(); sig[1].reset(); s.clear(); } else { s.clear(); sig[0].reset(); sig[1].reset(); } sym_reach( "sequence" );
}
// slots that connect or disconnect slots while they are called
void reentrant( uint32_t n ) {
	Sig sig; std::vector< Slot > s( n + 1 ); std::vector< uint32_t > mask( n ); bool add = flag( "adds" ); uint32_t adder = pickIdx( "adder", n );
	for ( uint32_t i = 0; i < n; ++i ) mask[i] = uint32_t( sym_range( ( "mask" + std::to_string( i ) ).c_str(), 0, ( 1u << n ) - 1 ) );
	std::vector< bool > on( n, true ); std::vector< uint32_t > order;
	for ( uint32_t i = 0; i < n; ++i ) { s[i].con = std::make_unique< Con >( sig.connect( [&, i]( uint32_t ) { ++s[i].calls; order.push_back( i ); sym_check( on[i], "a disconnected slot is called" ); for ( uint32_t j = 0; j < n; ++j ) if ( ( mask[i] >> j ) & 1 ) { s[j].con->disconnect(); on[j] = false; sym_reach( "disconnects" ); } if ( add && adder == i && !s[n].con ) { s[n].con = std::make_unique< Con >( sig.connect( [&]( uint32_t ) { ++s[n].calls; } ) ); sym_reach( "connects" ); } sym_check( order.back() == i, "a slot's closure does not survive its call" ); } ) ); }
	sig( 1u );
	// every slot is called once unless an earlier one disconnected it
	for ( uint32_t i = 0; i < n; ++i ) { bool cut = false; for ( auto o : order ) { if ( o == i ) break; if ( ( mask[o] >> i ) & 1 ) cut = true; } sym_check( s[i].calls == ( cut ? 0u : 1u ), "a slot is missed, or called twice, when slots change during an emission" ); }
	for ( auto & q : s ) q.calls = 0; for ( auto & m : mask ) m = 0; bool had = bool( s[n].con ); add = false; sig( 2u );
	for ( uint32_t i = 0; i < n; ++i ) sym_check( s[i].calls == ( on[i] ? 1u : 0u ), "the slots called after a reentrant emission are not the connected ones" ); sym_check( s[n].calls == ( had ? 1u : 0u ), "a slot connected during an emission is not called afterwards" );
	sym_reach( "reentrant" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: sequence( 4, 2 ); break; case 1: reentrant( 3 ); break; case 2: sequence( 3, 3 ); break; case 3: sequence( 5, 2 ); break; case 4: reentrant( 4 ); break; case 5: sequence( 4, 3 ); break; } }
