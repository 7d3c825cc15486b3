// C18: every Vulkan object created is destroyed exactly once, after its last use
#include "life.hpp"
using namespace life;
namespace {
// any operations on one graph of two passes, the second using what the first writes
void history( Kind a, Kind b, uint32_t steps, bool inout )
{
	Rig r; auto & g = r.graph(); auto pr = Programs( forkIdx( "programs", 3 ) );
	ImageViewIdArray x{ r.image( a == Mips ? 3 : 1 ), r.image( a == Mips ? 3 : 1 ) }, y{ r.image(), r.image() };
	auto & p = r.add( g, a, pr, {}, x, inout ); auto & q = r.add( g, b, pr, x, y, inout );
	p.enabled = !forkIdx( "off", 2 ); p.index = forkIdx( "index", 2 );
	auto & run = r.compile( 0 );
	for ( uint32_t t = 0; t < steps; ++t ) {
		std::string n = "s" + std::to_string( t ); uint32_t op = forkIdx( n, 6 );
		if ( op == 0 ) r.submit( run, { &p, &q } );
		if ( op == 1 ) run.record();
		if ( op == 2 || op == 3 ) { auto & c = op == 2 ? p : q; if ( c.reset ) r.reset( c, n, 7 + t ); }
		if ( op == 4 ) { p.index = 1 - p.index; q.index = 1 - q.index; }
		if ( op == 5 ) { p.enabled = !p.enabled; } }
	r.end( 0 ); sym_reach( "end" );
}
// two graphs using an image of their own and one they share, run, recorded again and destroyed in any order
void graphs( Kind a, Kind b, uint32_t steps )
{
	Rig r; auto pr = Programs( forkIdx( "programs", 3 ) ); ImageViewIdArray x{ r.image(), r.image() }, y{ r.image(), r.image() }; bool share = forkIdx( "share", 2 ) != 0;
	auto & p = r.add( r.graph(), a, pr, {}, x ); auto & q = r.add( r.graph(), b, pr, share ? x : ImageViewIdArray{ r.image(), r.image() }, y );
	PassCtl * ps[2]{ &p, &q }; r.compile( 0 ); r.compile( 1 ); bool gone[2]{}; bool lost = false;
	for ( uint32_t t = 0; t < steps; ++t ) {
		std::string n = "s" + std::to_string( t ); uint32_t g = forkIdx( n + "g", 2 ), op = forkIdx( n, 4 ); auto & c = *ps[g]; auto & run = r.runs[g];
		if ( gone[g] ) continue;
		if ( op == 0 ) r.submit( *run, { &c } );
		if ( op == 1 ) { if ( c.reset ) r.reset( c, n, 7 + t ); }
		if ( op == 2 ) c.index = 1 - c.index;
		if ( op == 3 ) { run.reset(); gone[g] = true; uint32_t o = 1 - g;
			// what the other graph was given is still there
			if ( !gone[o] ) for ( auto & d : fk::w().objs ) if ( d.alive ) { for ( auto u : d.fbViews ) if ( !fk::at( u ).alive ) lost = true; if ( d.type == fk::TDsSet ) for ( auto u : d.uses ) if ( !fk::at( u ).alive ) lost = true; }
			sym_check_kf( !lost, share, "KF-001", "a view used by a graph is destroyed with another graph, that created it first" ); if ( lost ) return; } }
	r.end( forkIdx( "order", 2 ) ); sym_reach( "graphs" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: history( Compute, Quad, 2, false ); break;
	case 1: history( Quad, Mesh, 2, false ); break;
	case 2: history( Mips, Compute, 2, false ); break;
	case 3: history( Render, Plain, 2, true ); break;
	case 4: history( Quad, Quad, 3, true ); break;
	case 5: graphs( Compute, Quad, 3 ); break;
	case 6: graphs( Mesh, Compute, 3 ); break;
	case 7: history( Compute, Quad, 3, true ); break;
	case 8: history( Quad, Mesh, 3, true ); break;
	case 9: history( Mips, Mesh, 3, false ); break;
	case 10: history( Render, Compute, 3, false ); break;
	case 11: graphs( Quad, Mesh, 4 ); break;
	case 12: history( Mesh, Quad, 4, false ); break; } }
