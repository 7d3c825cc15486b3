// C27: a DOT export shows every pass and every transition exactly once, in the right direction, and changes nothing
#include "common.hpp"
#include <RenderGraph/DotExport.hpp>
#include <RenderGraph/FramePassGroup.hpp>
using namespace hc;
namespace {
using Edge = std::tuple< std::string, std::string, std::string >;
struct Doc { std::map< std::string, uint32_t > passes, boxes; std::map< std::string, std::string > ids; std::map< Edge, uint32_t > edges; uint32_t graphs{}, opened{}, closed{}, clusters{}; bool ok{ true }; };
std::string unquote( std::string const & l, size_t & at ) { auto b = l.find( '"', at ); if ( b == std::string::npos ) return {}; auto e = l.find( '"', b + 1 ); if ( e == std::string::npos ) return {}; at = e + 1; return l.substr( b + 1, e - b - 1 ); }
void parse( std::string const & text, Doc & d )
{
	std::istringstream s( text ); std::string l; uint32_t depth = 0;
	while ( std::getline( s, l ) ) {
		auto b = l.find_first_not_of( ' ' ); if ( b == std::string::npos ) continue; l = l.substr( b );
		if ( l.rfind( "digraph", 0 ) == 0 ) { ++d.graphs; if ( depth ) d.ok = false; ++depth; ++d.opened; continue; }
		if ( !depth ) { d.ok = false; continue; }
		if ( l.rfind( "subgraph", 0 ) == 0 ) { ++d.clusters; ++depth; ++d.opened; continue; }
		if ( l == "}" ) { --depth; ++d.closed; continue; }
		if ( l[0] != '"' ) continue;
		size_t at = 0; auto a = unquote( l, at );
		if ( l.compare( at, 4, " -> " ) == 0 ) { auto c = unquote( l, at ); auto lab = unquote( l, at ); ++d.edges[{ a, c, lab }]; continue; }
		if ( l.find( "shape=ellipse" ) != std::string::npos ) { ++d.passes[a]; auto p = l.find( "id=" ); if ( p != std::string::npos ) d.ids[a] = unquote( l, p ); } else if ( l.find( "shape=box" ) != std::string::npos ) ++d.boxes[a]; else d.ok = false; }
	if ( depth ) d.ok = false;
}
// the documents a user gets: the whole one, or one per group
Doc docs( crg::dot::DisplayResult & r, bool split ) { Doc d; if ( split ) { for ( auto & [n, s] : r ) parse( s.str(), d ); } else { auto it = r.find( std::string{} ); sym_check( it != r.end(), "no whole document is given" ); parse( it->second.str(), d ); } return d; }
struct Want { std::map< Edge, uint32_t > edges, outside; std::set< std::string > passes, all; };
void compare( Doc const & d, Want const & w, bool split, crg::dot::Config const & cfg, std::map< std::string, uint32_t > const & ids )
{
	sym_check( d.ok && d.opened == d.closed && ( split || d.graphs == 1 ), "the document is no well formed graph" );
	if ( split || !cfg.withGroups ) sym_check( !d.clusters, "groups are shown that were not asked for" );
	for ( auto & p : w.passes ) { auto it = d.passes.find( p ); sym_check( it != d.passes.end() && it->second == 1, "a pass is not shown exactly once" ); if ( cfg.withIds ) { auto i = d.ids.find( p ); sym_check( i != d.ids.end() && i->second == std::to_string( ids.at( p ) ), "a pass has another identifier" ); } }
	for ( auto & [p, n] : d.passes ) sym_check( ( ( w.all.count( p ) && n == 1 ) || p == "ExternalSource" || p == "ExternalDestination" ) && ( p != "ExternalSource" || n == 1 ), "something else is shown as a pass" );
	for ( auto & [e, n] : w.edges ) { auto it = d.edges.find( e ); sym_check( it != d.edges.end() && it->second == n, "a transition between passes is not shown exactly once, from its source to its destination" ); }
	for ( auto & [e, n] : w.outside ) { auto it = d.edges.find( e ); sym_check( it != d.edges.end() ? it->second == n : split, "a transition from or to the outside is not shown exactly once" ); }
	for ( auto & [e, n] : d.edges ) sym_check( w.edges.count( e ) || w.outside.count( e ), "something else is shown as a transition" );
	for ( auto & [e, n] : d.edges ) for ( auto & x : { std::get< 0 >( e ), std::get< 1 >( e ) } ) sym_check( d.passes.count( x ) || d.boxes.count( x ) || x == "ExternalDestination" || x == "ExternalSource", "an edge is between nodes that are not shown" );
}
// passes in any of a few nested groups, each reading the outputs of any of the previous ones
void graph( uint32_t n, uint32_t places, bool buffers, bool sameNames, bool volumes = false )
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" }; Log log;
	auto & a = g.createPassGroup( "a" ); auto & b = a.createPassGroup( sameNames ? "a" : "b" ); auto & c = g.createPassGroup( "c" ); auto & d = c.createPassGroup( sameNames ? "a" : "d" ); FramePassGroup * at[]{ nullptr, &a, &b, &c, &d };
	std::vector< FramePass * > ps; std::vector< ImageViewId > vs; std::vector< VkBuffer > bs; Want wp, wt; std::map< std::string, uint32_t > ids; std::vector< std::tuple< uint32_t, uint32_t, std::string > > must;
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = std::to_string( i ); uint32_t where = forkIdx( "group" + s, places ); std::string name = "p" + s;
		auto & p = at[where] ? at[where]->createPass( name, marker( int( i ), log ) ) : g.createPass( name, marker( int( i ), log ) ); ps.push_back( &p ); ids[p.getGroupName()] = p.id; wp.all.insert( p.getGroupName() );
		for ( uint32_t j = 0; j < i; ++j ) { uint32_t r = forkIdx( "reads" + std::to_string( j ) + s, buffers ? 3 : 2 ); if ( r ) p.addDependency( *ps[j] ); if ( r == 1 ) { p.addSampledView( vs[j], j ); must.emplace_back( j, i, vs[j].data->name ); } if ( r == 2 ) { p.addInputStorageBuffer( Buffer{ bs[j], "b" + std::to_string( j ) }, 10 + j, 0, 16 ); must.emplace_back( j, i, "b" + std::to_string( j ) ); } }
		auto im = h.createImageId( imgData( ( "i" + s ).c_str(), VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 8, 8, 1 }, 1, 2 ) ); vs.push_back( h.createViewId( viewData( ( "v" + s ).c_str(), im, VK_IMAGE_VIEW_TYPE_2D_ARRAY, rng( 1, 0, 1, 0, volumes && forkIdx( "layers" + s, 2 ) ? 2 : 1 ) ) ) ); bs.push_back( fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ) );
		p.addOutputColourView( vs.back() ); if ( buffers ) p.addOutputStorageBuffer( Buffer{ bs.back(), "b" + s }, 20, 0, 16 ); }
	auto run = g.compile( *ctx ); run->record(); size_t cmds = fk::w().cmds.size(), objs = fk::w().objs.size();
	auto expect = [&]( auto const & ts, auto data ) { for ( auto & t : ts ) {
		auto o = t.outputAttach.pass, i = t.inputAttach.pass; std::string from = o ? o->getGroupName() : "ExternalSource", to = i ? i->getGroupName() : "ExternalDestination", l = data( t.data ), box = t.outputAttach.name + "\\ntransition to\\n" + t.inputAttach.name;
		auto & w = o && i ? wt.edges : wt.outside; ++w[{ from, box, l }]; ++w[{ box, to, l }]; for ( auto p : { o, i } ) if ( p ) wt.passes.insert( p->getGroupName() );
		if ( o && i ) { box = "Transition to\\n" + t.inputAttach.name; ++wp.edges[{ from, box, l }]; ++wp.edges[{ box, to, l }]; wp.passes.insert( from ); wp.passes.insert( to ); } } }; wt.all = wp.all;
	auto & ts = run->getTransitions(); expect( ts.viewTransitions, []( ImageViewId const & v ) { return v.data->name; } ); expect( ts.bufferTransitions, []( Buffer const & x ) { return x.name; } );
	for ( auto & [j, i, l] : must ) { bool found = false; for ( auto & [e, k] : wp.edges ) found = found || ( std::get< 0 >( e ) == ps[j]->getGroupName() && std::get< 2 >( e ) == l ); sym_check( found, "a pass reading what another writes makes no transition" ); }
	uint32_t bits = forkIdx( "config", 16 ); crg::dot::Config cfg{ ( bits & 1 ) != 0, ( bits & 2 ) != 0, ( bits & 4 ) != 0, ( bits & 8 ) != 0 };
	for ( uint32_t k = 0; k < 2; ++k ) {
		auto r = k ? crg::dot::displayTransitions( *run, cfg ) : crg::dot::displayPasses( *run, cfg ); auto & w = k ? wt : wp;
		compare( docs( r, cfg.splitGroups ), w, cfg.splitGroups, cfg, ids );
		std::stringstream s1, s2; for ( auto * s : { &s1, &s2 } ) { if ( k ) crg::dot::displayTransitions( *s, *run, cfg ); else crg::dot::displayPasses( *s, *run, cfg ); } sym_check( s1.str() == s2.str(), "exporting again gives another document" );
		Doc d; parse( s1.str(), d ); compare( d, w, cfg.splitGroups, cfg, ids ); sym_reach( k ? "transitions" : "passes" ); }
	sym_check( fk::w().cmds.size() == cmds && fk::w().objs.size() == objs, "an export records or creates something" );
	log.clear(); run->record(); sym_check( log.size() == n, "an exported graph does not record its passes any more" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: graph( 3, 3, false, false ); break;
	case 1: graph( 2, 5, true, false ); break;
	case 2: graph( 2, 5, false, true ); break;
	case 3: graph( 3, 1, true, false ); break;
	case 4: graph( 2, 2, true, false, true ); break;
	case 5: graph( 3, 5, true, false ); break;
	case 6: graph( 4, 3, false, false ); break;
	case 7: graph( 3, 5, false, true ); break; } }
