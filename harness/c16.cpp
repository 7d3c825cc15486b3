// C16: GPU timing uses private queries and reports the real duration
#include "common.hpp"
#include "RenderGraph/FramePassTimer.hpp"
using namespace hc;
namespace {
struct Period { float f; uint64_t num, den; }; Period const PERIODS[]{ { 1.0f, 1, 1 }, { 2.0f, 2, 1 }, { 0.5f, 1, 2 }, { 40.0f, 40, 1 }, { 0.25f, 1, 4 } };
// the symbolic ticks of one block, and what its timer has to report for them
struct Ticks { uint64_t begin, diff; void set( uint32_t b, uint32_t e ) const { auto & q = fk::w().queryResults; if ( q.size() <= std::max( b, e ) ) q.resize( std::max( b, e ) + 1 ); q[b] = begin; q[e] = begin + diff; } };
Ticks ticks( std::string const & n, uint32_t bits ) { Ticks t; t.begin = n == "a" ? 0xFFFFFFFF00ull : 5; t.diff = sym_bits( ( n + "d" ).c_str(), bits ); return t; }
void duration( FramePassTimer & t, uint64_t diff, Period const & p ) { uint64_t got = uint64_t( t.getGpuTime().count() ), want = diff * p.num / p.den, tol = ( want >> 20 ) + 1; sym_check( got + tol >= want && got <= want + tol, "the reported GPU time is not the ticks times the timestamp period" ); }
struct Block { uint32_t begin, end; };
// the timestamps closest around a marker, checked against every other block of the recording
Block around( size_t from, uint32_t id ) { auto & c = fk::w().cmds; size_t m = from; while ( m < c.size() && !( c[m].kind == fk::CMark && c[m].mark == int( id ) ) ) ++m; Block b{ ~0u, ~0u }; for ( size_t i = m; i-- > from; ) if ( c[i].kind == fk::CTimestamp ) { b.begin = c[i].n[0]; break; } for ( size_t i = m; i < c.size(); ++i ) if ( c[i].kind == fk::CTimestamp ) { b.end = c[i].n[0]; break; } return b; }
void graph( uint32_t n, uint32_t frames ) {
	uint32_t which = forkIdx( "period", 5 ); fk::CtxDesc cd; cd.period = PERIODS[which].f; auto ctx = fk::context( cd ); ResourceHandler handler; Log log; std::vector< RunnablePass * > pass( n ); std::vector< uint64_t > on( n, 1 );
	FrameGraph g{ handler, "g" }; FramePass const * prev = nullptr; for ( uint32_t i = 0; i < n; ++i ) { PassOpt o; o.enabled = [&on, i]() { return on[i] != 0; }; auto c = marker( int( i ), log, o ); auto & p = g.createPass( "p" + std::to_string( i ), [c, &pass, i]( FramePass const & f, GraphContext & x, RunnableGraph & r ) { auto z = c( f, x, r ); pass[i] = z.get(); return z; } ); if ( prev ) p.addDependency( *prev ); prev = &p; }
	fk::w().on |= fk::QUERY; auto run = g.compile( *ctx ); std::vector< std::vector< uint32_t > > owner( n + 1 );
	for ( uint32_t f = 0; f < frames; ++f ) {
		for ( uint32_t i = 0; i < n; ++i ) on[i] = flag( "f" + std::to_string( f ) + "on" + std::to_string( i ) ); size_t from = fk::w().cmds.size(); run->run( VkQueue{} ); auto & c = fk::w().cmds;
		std::vector< Block > b; for ( uint32_t i = 0; i < n; ++i ) b.push_back( on[i] ? around( from, i ) : Block{ ~0u, ~0u } );
		Block all{ ~0u, ~0u }; for ( size_t i = from; i < c.size(); ++i ) if ( c[i].kind == fk::CTimestamp ) { if ( all.begin == ~0u ) all.begin = c[i].n[0]; all.end = c[i].n[0]; }
		b.push_back( all ); uint32_t pool = 0; std::set< uint32_t > used;
		for ( uint32_t i = 0; i <= n; ++i ) if ( b[i].begin != ~0u ) { sym_check( b[i].end != ~0u && b[i].begin != b[i].end, "a timed block does not have two queries" ); for ( auto q : { b[i].begin, b[i].end } ) { sym_check( used.insert( q ).second, "two timed blocks share a query" ); owner[i].push_back( q ); for ( uint32_t j = 0; j <= n; ++j ) if ( j != i ) for ( auto o : owner[j] ) sym_check( o != q, "a timed block uses another one's query" );
			int resets = 0, writes = 0; for ( size_t k = from; k < c.size(); ++k ) { if ( c[k].kind == fk::CResetQuery && q >= c[k].n[0] && q < c[k].n[0] + c[k].n[1] ) { ++resets; sym_check( writes == 0, "a query is reset after it is written" ); } if ( c[k].kind == fk::CTimestamp && c[k].n[0] == q ) { ++writes; sym_check( resets == 1, "a query is written without being reset" ); } if ( c[k].kind == fk::CTimestamp || c[k].kind == fk::CResetQuery ) { if ( !pool ) pool = uint32_t( c[k].src ); sym_check( pool == uint32_t( c[k].src ), "a recording uses another query pool" ); } } sym_check( resets == 1 && writes == 1, "a query is not reset once and written once per recording" ); sym_check( q < fk::at( c.back().kind == fk::CTimestamp ? c.back().src : pool ).queryCount, "a query does not exist in its pool" ); } }
		std::vector< Ticks > t; fk::w().queryResults.clear(); bool read = f + 1 == frames || flag( "read" + std::to_string( f ) ); for ( uint32_t i = 0; i <= n; ++i ) { t.push_back( Ticks{ 1000 + i * 17, 100 + i * 1000 } ); if ( b[i].begin != ~0u ) t[i].set( b[i].begin, b[i].end ); }
		if ( read ) { for ( uint32_t i = 0; i < n; ++i ) { pass[i]->getTimer().retrieveGpuTime(); if ( on[i] ) { duration( pass[i]->getTimer(), t[i].diff, PERIODS[which] ); sym_reach( "pass-time" ); } } run->getTimer().retrieveGpuTime(); duration( run->getTimer(), t[n].diff, PERIODS[which] ); uint32_t reads = fk::w().queryReads; run->getTimer().retrieveGpuTime(); sym_check( fk::w().queryReads == reads, "results are read again though nothing was run" ); }
	}
	sym_reach( "graph" );
}
// standalone timers on two devices, any ticks
void values( uint32_t bits ) {
	uint32_t w0 = forkIdx( "period0", 5 ), w1 = pickIdx( "period1", 2 ); fk::CtxDesc d0, d1; d0.period = PERIODS[w0].f; d1.period = PERIODS[w1].f; auto c0 = fk::context( d0 ); auto k0 = std::make_unique< FramePassTimer >( *c0, "t0", TimerScope::eUpdate ); fk::w().on |= fk::QUERY;
	auto frame = [&]( GraphContext &, FramePassTimer & t, Period const & p, std::string const & n ) { auto cb = fk::mk< VkCommandBuffer >( fk::add( fk::TCmd ) ); fk::at( cb ).recording = true; size_t from = fk::w().cmds.size(); t.retrieveGpuTime(); sym_check( t.getGpuTime().count() == 0, "a duration is reported for a block that was not run" ); t.beginPass( cb ); fk::mark( cb, 1 ); t.endPass( cb ); t.retrieveGpuTime(); t.notifyPassRender(); Block b = around( from, 1 ); Ticks k = ticks( n, bits ); sym_check( b.begin != ~0u && b.end != ~0u, "a timed block does not have two queries" ); k.set( b.begin, b.end ); t.retrieveGpuTime(); duration( t, k.diff, p ); };
	frame( *c0, *k0, PERIODS[w0], "a" ); auto keep = fk::w().queryResults; auto c1 = fk::context( d1 ); FramePassTimer k1{ *c1, "t1", TimerScope::eUpdate }; fk::w().on |= fk::QUERY; frame( *c1, k1, PERIODS[w1], "b" ); sym_reach( "values" );
}
// timers sharing one pool never share a query
void shared( uint32_t n ) {
	auto ctx = fk::context(); uint32_t base = pickIdx( "base", 3 ) * 4; auto pool = createQueryPool( *ctx, "pool", base + 4 * n ); std::vector< std::unique_ptr< FramePassTimer > > t; fk::w().on |= fk::QUERY; std::vector< std::set< uint32_t > > q( n ); auto cb = fk::mk< VkCommandBuffer >( fk::add( fk::TCmd ) ); fk::at( cb ).recording = true;
	for ( uint32_t i = 0; i < n; ++i ) t.push_back( std::make_unique< FramePassTimer >( *ctx, "t", TimerScope::ePass, pool, base ) );
	for ( uint32_t k = 0; k < 4; ++k ) { uint32_t i = pickIdx( "timer" + std::to_string( k ), n ); size_t from = fk::w().cmds.size(); t[i]->beginPass( cb ); fk::mark( cb, 1 ); t[i]->endPass( cb ); Block b = around( from, 1 ); for ( auto x : { b.begin, b.end } ) { sym_check( x < fk::at( pool ).queryCount, "a query does not exist in its pool" ); q[i].insert( x ); for ( uint32_t j = 0; j < n; ++j ) if ( j != i ) sym_check( q[j].count( x ) == 0, "a timed block uses another one's query" ); } }
	t.clear(); ctx->vkDestroyQueryPool( ctx->device, pool, nullptr ); sym_reach( "shared" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: graph( 2, 2 ); break; case 1: values( 12 ); break; case 2: shared( 2 ); break; case 3: graph( 3, 2 ); break; case 4: graph( 2, 3 ); break; case 5: values( 20 ); break; case 6: shared( 3 ); break; } }
