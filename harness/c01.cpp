// C01: every declared pass runs once, after everything it depends on
#include "common.hpp"
using namespace hc;
namespace {
void order( uint32_t N, bool groups, bool dagOnly ) {
	auto ctx = fk::context(); ResourceHandler handler; Log log; bool d[6][6]{};
	{
		FrameGraph g{ handler, "g" }; FramePassGroup * grp[3]{ &g.getDefaultGroup(), nullptr, nullptr }; if ( groups ) { grp[1] = &g.createPassGroup( "A" ); grp[2] = &grp[1]->createPassGroup( "B" ); }
		std::vector< FramePass * > p;
		for ( uint32_t i = 0; i < N; ++i ) { uint32_t k = groups ? pickIdx( "grp" + std::to_string( i ), 3 ) : 0; p.push_back( &grp[k]->createPass( "p" + std::to_string( i ), marker( int( i ), log ) ) ); }
		for ( uint32_t i = 0; i < N; ++i ) for ( uint32_t j = 0; j < N; ++j ) if ( i != j ) { if ( dagOnly && ( groups ? j > i : false ) ) continue; d[i][j] = flag( "d" + std::to_string( i ) + std::to_string( j ) ); if ( d[i][j] ) p[i]->addDependency( *p[j] ); if ( dagOnly && d[i][j] && d[j][i] ) sym_assume( false ); }
		bool reach[6][6]; for ( uint32_t i = 0; i < N; ++i ) for ( uint32_t j = 0; j < N; ++j ) reach[i][j] = d[i][j];
		for ( uint32_t k = 0; k < N; ++k ) for ( uint32_t i = 0; i < N; ++i ) for ( uint32_t j = 0; j < N; ++j ) reach[i][j] = reach[i][j] || ( reach[i][k] && reach[k][j] );
		bool cyclic = false, root = false; for ( uint32_t i = 0; i < N; ++i ) { if ( reach[i][i] ) cyclic = true; bool any = false; for ( uint32_t j = 0; j < N; ++j ) any = any || d[i][j]; if ( !any ) root = true; }
		if ( dagOnly ) sym_assume( !cyclic );
		bool thrown = false;
		try {
			auto run = g.compile( *ctx ); run->record();
			sym_check( log.size() == N, "a declared pass is missing from the recording or recorded twice" ); std::vector< uint32_t > pos( N, 99 ); for ( uint32_t i = 0; i < log.size(); ++i ) pos[log[i]] = i;
			for ( uint32_t i = 0; i < N; ++i ) sym_check( pos[i] != 99, "a declared pass is missing from the recording" );
			if ( !cyclic ) for ( uint32_t i = 0; i < N; ++i ) for ( uint32_t j = 0; j < N; ++j ) if ( reach[i][j] ) sym_check( pos[j] < pos[i], "a pass is recorded before a pass it depends on" );
			run->record(); sym_check( log.size() == 2 * N, "second recording differs" ); for ( uint32_t i = 0; i < N; ++i ) sym_check( log[i] == log[N + i], "second recording differs" );
			for ( auto x : log ) sym_obs( x );
		} catch ( crg::Exception const & ) { thrown = true; }
		if ( !cyclic ) { sym_check( !thrown, "an acyclic graph is refused" ); sym_reach( "acyclic" ); } else if ( root ) { sym_check( thrown, "a dependency cycle beside independent passes compiles" ); sym_reach( "cyclic" ); }
	}
}
void names( uint32_t N ) {
	auto ctx = fk::context(); ResourceHandler handler; Log log; FrameGraph g{ handler, "g" }; FramePassGroup * grp[2]{ &g.getDefaultGroup(), &g.createPassGroup( "A" ) }; bool used[2][2]{}; uint32_t made = 0;
	for ( uint32_t i = 0; i < N; ++i ) { uint32_t k = pickIdx( "grp" + std::to_string( i ), 2 ), n = pickIdx( "nam" + std::to_string( i ), 2 ); bool t = fk::throws( [&] { grp[k]->createPass( n ? "x" : "y", marker( int( i ), log ) ); } ); sym_check( t == used[k][n], "duplicate pass names are not told apart" ); if ( t ) sym_reach( "duplicate" ); else ++made; used[k][n] = true; }
	auto run = g.compile( *ctx ); run->record(); sym_check( log.size() == made, "a pass refused at creation is recorded, or an accepted one is not" );
}
}
extern "C" void sym_main() {
	switch ( sym_scenario() ) {
	case 0: order( 3, false, false ); break;
	case 1: order( 4, false, false ); break;
	case 2: order( 3, true, true ); break;
	case 3: names( 4 ); break;
	case 4: { auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" }; g.createPassGroup( "A" ); sym_check( fk::throws( [&] { g.compile( *ctx ); } ), "an empty graph compiles" ); break; }
	case 5: order( 5, false, true ); break;
	case 6: order( 4, true, true ); break;
	}
}
