// C26: what a pass replaces outlives the submissions using it, and new recordings use the new objects
#include "life.hpp"
using namespace life;
namespace {
// the pipelines last made for each pass and index are the ones commands bind
void history( Kind a, Kind b, uint32_t steps, bool inout, uint32_t count )
{
	Rig r; fk::w().on = fk::LIFETIME | fk::STATE | fk::INFLIGHT; auto pr = Programs( forkIdx( "programs", 3 ) );
	struct G { PassCtl * p, * q; RunnableGraph * run; uint32_t version[2]; }; std::vector< G > gs;
	for ( uint32_t k = 0; k < count; ++k ) { auto & g = r.graph(); ImageViewIdArray x{ r.image( a == Mips ? 3 : 1 ), r.image( a == Mips ? 3 : 1 ) }, y{ r.image(), r.image() }; gs.push_back( { &r.add( g, a, pr, {}, x, inout ), &r.add( g, b, pr, x, y, inout ), nullptr, {} } ); gs.back().run = &r.compile( k ); }
	for ( uint32_t t = 0; t < steps; ++t ) {
		std::string n = "s" + std::to_string( t ); auto & g = gs[count > 1 ? forkIdx( n + "g", count ) : 0]; uint32_t op = t == 0 ? 0 : forkIdx( n, 8 );
		if ( op == 0 ) r.submit( *g.run, { g.p, g.q } );
		if ( op == 1 ) g.run->record();
		if ( op == 2 || op == 3 ) { auto & c = op == 2 ? *g.p : *g.q; if ( c.reset ) r.reset( c, n, 7 + t ); }
		if ( op == 4 ) { g.p->index = 1 - g.p->index; g.q->index = 1 - g.q->index; }
		if ( op == 6 || op == 7 ) { ( op == 6 ? g.p : g.q )->pass->reRecordCurrent(); }
		if ( op == 5 ) g.p->enabled = !g.p->enabled; }
	// a user destroys a graph once its work is done
	for ( auto & g : gs ) g.run->getFence().wait( 0xFFFFFFFFFFFFFFFFull );
	r.end( 0 ); sym_reach( "end" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: history( Compute, Quad, 4, false, 1 ); break;
	case 1: history( Quad, Mesh, 4, false, 1 ); break;
	case 2: history( Mips, Compute, 3, false, 1 ); break;
	case 3: history( Render, Quad, 3, true, 1 ); break;
	case 4: history( Compute, Quad, 3, false, 2 ); break;
	case 5: history( Mesh, Mesh, 4, true, 1 ); break;
	case 6: history( Render, Compute, 4, true, 1 ); break;
	case 7: history( Quad, Mesh, 4, true, 2 ); break;
	case 8: history( Quad, Compute, 5, true, 1 ); break; } }
