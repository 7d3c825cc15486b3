// C02: hazards between passes become transitions and graph edges
#include "common.hpp"
using namespace hc;
namespace {
// one declared use: pass, direction, image (or buffer) and range
struct Use { int pass; bool in, out; int img; uint32_t l0, l1, m0, m1; };
bool over( Use const & a, Use const & b ) { return a.img == b.img && ( ( a.l0 < b.l1 ) & ( b.l0 < a.l1 ) & ( a.m0 < b.m1 ) & ( b.m0 < a.m1 ) ); }
struct Passes
{
	ResourceHandler h; Log log; FrameGraph g{ h, "g" }; std::vector< FramePass * > p; bool d[4][4]{}, reach[4][4]{}; uint32_t n; std::vector< Use > uses;
	Passes( uint32_t count, bool chain ) : n( count )
	{
		for ( uint32_t i = 0; i < n; ++i ) p.push_back( &g.createPass( "p" + std::to_string( i ), marker( int( i ), log ) ) );
		for ( uint32_t i = 0; i < n; ++i ) for ( uint32_t j = 0; j < i; ++j ) { d[i][j] = chain ? j + 1 == i : forkIdx( "d" + std::to_string( i ) + std::to_string( j ), 2 ) != 0; if ( d[i][j] ) p[i]->addDependency( *p[j] ); reach[i][j] = d[i][j]; }
		for ( uint32_t k = 0; k < n; ++k ) for ( uint32_t i = 0; i < n; ++i ) for ( uint32_t j = 0; j < n; ++j ) reach[i][j] = reach[i][j] || ( reach[i][k] && reach[k][j] );
	}
	int of( FramePass const * q ) const { for ( uint32_t i = 0; i < n; ++i ) if ( p[i] == q ) return int( i ); return -1; }
	// reader r depends on writer w through passes that use nothing of it
	bool clear( int r, int w, Use const & a ) const
	{
		if ( d[r][w] ) return true;
		for ( int k = 0; k < int( n ); ++k ) if ( d[r][k] && reach[k][w] ) { bool free = true; for ( auto & u : uses ) free = free && ( u.pass != k || u.img != a.img ); if ( free && clear( k, w, a ) ) return true; }
		return false;
	}
};
struct Edge { int w, r; };
// every pass hangs from the root; every edge follows a dependency and some transition
std::vector< Edge > edges( RunnableGraph const & run, Passes const & ps )
{
	std::vector< Edge > e; std::vector< bool > seen( ps.n, false ); std::vector< GraphNode const * > todo{ run.getGraph() };
	auto root = run.getGraph(); sym_check( isRootNode( *root ), "the compiled graph has no root" );
	while ( !todo.empty() ) {
		auto x = todo.back(); todo.pop_back(); auto from = getFramePass( *x );
		for ( auto y : x->getNext() ) { int t = ps.of( getFramePass( *y ) ); sym_check( t >= 0, "a node of the graph is no declared pass" ); if ( from ) { bool dup = false; for ( auto & k : e ) dup = dup || ( k.w == ps.of( from ) && k.r == t ); if ( !dup ) e.push_back( { ps.of( from ), t } ); sym_check( ps.reach[t][ps.of( from )], "an edge goes to a pass that does not depend on its origin" ); }
			if ( !seen[size_t( t )] ) { seen[size_t( t )] = true; todo.push_back( y ); } } }
	for ( uint32_t i = 0; i < ps.n; ++i ) sym_check( seen[i], "a pass cannot be reached from the root" );
	return e;
}
bool has( std::vector< Edge > const & e, int w, int r ) { for ( auto & x : e ) if ( x.w == w && x.r == r ) return true; return false; }
// declare one use of a view
void declare( FramePass & p, ImageViewId v, uint32_t kind, uint32_t binding, Use & u )
{
	switch ( kind ) {
	case 0: p.addOutputStorageView( v, binding ); u.out = true; break;
	case 1: p.addSampledView( v, binding ); u.in = true; break;
	case 2: p.addInOutStorageView( v, binding ); u.in = u.out = true; break;
	case 3: p.addTransferOutputView( v ); u.out = true; break;
	case 4: p.addTransferInputView( v ); u.in = true; break;
	case 5: p.addOutputColourView( v ); u.out = true; break;
	case 6: p.addInOutColourView( v ); u.in = u.out = true; break;
	case 7: p.addInputColourView( v ); u.in = true; break;
	default: p.addTransferInOutView( v ); u.in = u.out = true; break; }
}
void images( uint32_t n, uint32_t imgs, uint32_t layers, uint32_t mips, bool volume, bool chain, bool merged, std::vector< uint32_t > const & kinds )
{
	auto ctx = fk::context(); Passes ps{ n, chain }; std::vector< ImageId > ids;
	for ( uint32_t i = 0; i < imgs; ++i ) ids.push_back( ps.h.createImageId( imgData( i ? "b" : "a", volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, volume ? layers : 1u }, mips, volume ? 1 : layers, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_STORAGE_BIT ) ) );
	std::vector< ImageViewId > views;
	for ( uint32_t i = 0; i < n; ++i ) {
		std::string s = "u" + std::to_string( i ); uint32_t im = imgs > 1 ? forkIdx( s + "img", imgs ) : 0; uint32_t parts = merged && i + 1 == n ? 2 : 1; ImageViewIdArray src; Use u[2]; uint32_t kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )];
		for ( uint32_t k = 0; k < parts; ++k ) {
			auto r = symRange( s + char( 'a' + k ), layers, mips ); u[k] = Use{ int( i ), false, false, int( im ), r.baseArrayLayer, r.baseArrayLayer + r.layerCount, r.baseMipLevel, r.baseMipLevel + r.levelCount };
			bool slice = volume && forkIdx( s + "slice", 2 ); // one or more slices of a volume, or all of a level
			if ( volume ) { sym_assume( r.levelCount == 1 ); uint32_t depth = std::max( 1u, layers >> r.baseMipLevel ); if ( slice ) sym_assume( u[k].l1 <= depth ); else { sym_assume( r.baseArrayLayer == 0 && r.layerCount == 1 ); u[k].l1 = depth; } }
			src.push_back( ps.h.createViewId( viewData( s.c_str(), ids[im], volume && !slice ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) ) ); }
		auto v = parts == 1 ? src[0] : ps.p[i]->mergeViews( src );
		for ( uint32_t k = 0; k < parts; ++k ) { if ( k == 0 ) declare( *ps.p[i], v, kind, 0, u[0] ); else { u[1].in = u[0].in; u[1].out = u[0].out; } ps.uses.push_back( u[k] ); views.push_back( src[k] ); } }
	auto run = ps.g.compile( *ctx ); auto e = edges( *run, ps ); auto & ts = run->getTransitions().viewTransitions;
	sym_check( run->getTransitions().bufferTransitions.empty(), "images make buffer transitions" );
	auto use = [&]( Attachment const & a ) { for ( size_t k = 0; k < ps.uses.size(); ++k ) if ( ps.p[size_t( ps.uses[k].pass )] == a.pass && views[k].id == a.view().id ) return int( k ); return -1; };
	std::vector< std::pair< int, int > > made;
	for ( auto & t : ts ) if ( t.outputAttach.pass && t.inputAttach.pass ) {
		int w = use( t.outputAttach ), r = use( t.inputAttach ); sym_check( w >= 0 && r >= 0, "a transition concerns views its passes do not use" );
		auto & a = ps.uses[size_t( w )]; auto & b = ps.uses[size_t( r )];
		sym_check( t.outputAttach.isOutput() && t.inputAttach.isInput() && a.out && b.in, "a transition does not go from a writer to a reader" );
		sym_check( over( a, b ), "a transition is made between disjoint ranges, or different images" );
		sym_check( ps.reach[b.pass][a.pass], "a transition is made for a pass that does not depend on the other" );
		sym_check( t.data.id == views[size_t( w )].id || t.data.id == views[size_t( r )].id, "a transition is about another view than its attachments'" );
		made.push_back( { w, r } ); sym_reach( "transition" ); }
	for ( size_t w = 0; w < ps.uses.size(); ++w ) for ( size_t r = 0; r < ps.uses.size(); ++r ) { auto & a = ps.uses[w]; auto & b = ps.uses[r];
		if ( a.pass == b.pass || !a.out || !b.in || !ps.clear( b.pass, a.pass, a ) ) continue;
		// what the graph builder promises: the reader's range is the writer's, or one single level of it
		bool same = a.l0 == b.l0 && a.l1 == b.l1 && a.m0 == b.m0 && a.m1 == b.m1, single = b.m1 - b.m0 == 1u && a.m0 <= b.m0 && b.m1 <= a.m1;
		if ( over( a, b ) && !same && !single ) continue;
		bool found = false; for ( auto & m : made ) found = found || ( ps.uses[size_t( m.first )].pass == a.pass && ps.uses[size_t( m.second )].pass == b.pass && views[size_t( m.first )].id == views[w].id && views[size_t( m.second )].id == views[r].id );
		if ( over( a, b ) ) { sym_check( found, "a pass reading what another one wrote has no transition from it" ); sym_check( has( e, a.pass, b.pass ), "a pass reading what another one wrote has no edge from it" ); sym_reach( "hazard" ); }
		else sym_reach( "disjoint" ); }
	for ( auto & x : e ) { bool why = false; for ( auto & m : made ) why = why || ( ps.uses[size_t( m.first )].pass == x.w && ps.uses[size_t( m.second )].pass == x.r ); sym_check( why, "an edge stands for no transition" ); }
}
void buffers( uint32_t n, bool chain )
{
	auto ctx = fk::context(); Passes ps{ n, chain }; VkBuffer raw[2]{ fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ), fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ) };
	for ( uint32_t i = 0; i < n; ++i ) {
		std::string s = "u" + std::to_string( i ); uint32_t im = forkIdx( s + "buf", 2 ); Use u{ int( i ), false, false, int( im ), 0, 1, 0, 1 }; Buffer b{ raw[im], im ? "b" : "a" }; auto & p = *ps.p[i];
		switch ( forkIdx( s + "kind", 7 ) ) {
		case 0: p.addOutputStorageBuffer( b, 0, 0, 64 ); u.out = true; break;
		case 1: p.addInputStorageBuffer( b, 0, 0, 64 ); u.in = true; break;
		case 2: p.addInOutStorageBuffer( b, 0, 0, 64 ); u.in = u.out = true; break;
		case 3: p.addUniformBuffer( b, 0, 0, 64 ); u.in = true; break;
		case 4: p.addTransferOutputBuffer( b, 0, 64 ); u.out = true; break;
		case 5: p.addTransferInputBuffer( b, 0, 64 ); u.in = true; break;
		default: p.addTransferInOutBuffer( b, 0, 64 ); u.in = u.out = true; break; }
		ps.uses.push_back( u ); }
	auto run = ps.g.compile( *ctx ); auto e = edges( *run, ps ); auto & ts = run->getTransitions().bufferTransitions; sym_check( run->getTransitions().viewTransitions.empty(), "buffers make image transitions" );
	std::vector< Edge > made;
	for ( auto & t : ts ) if ( t.outputAttach.pass && t.inputAttach.pass ) { int w = ps.of( t.outputAttach.pass ), r = ps.of( t.inputAttach.pass ); auto & a = ps.uses[size_t( w )]; auto & b = ps.uses[size_t( r )]; sym_check( a.out && b.in && t.outputAttach.isOutput() && t.inputAttach.isInput(), "a transition does not go from a writer to a reader" ); sym_check( a.img == b.img && t.data.buffer() == raw[a.img], "a transition is made between different buffers" ); sym_check( ps.reach[r][w], "a transition is made for a pass that does not depend on the other" ); made.push_back( { w, r } ); sym_reach( "buffer-transition" ); }
	for ( auto & a : ps.uses ) for ( auto & b : ps.uses ) if ( a.pass != b.pass && a.out && b.in && a.img == b.img && ps.clear( b.pass, a.pass, a ) ) { sym_check( has( made, a.pass, b.pass ), "a pass reading what another one wrote has no transition from it" ); sym_check( has( e, a.pass, b.pass ), "a pass reading what another one wrote has no edge from it" ); sym_reach( "buffer-hazard" ); }
	for ( auto & x : e ) sym_check( has( made, x.w, x.r ), "an edge stands for no transition" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: images( 2, 2, 3, 1, false, false, false, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } ); break;
	case 1: images( 3, 1, 3, 1, false, false, false, { 0, 1, 2 } ); break;
	case 2: images( 2, 1, 3, 1, false, true, true, { 0, 1, 2 } ); break;
	case 3: images( 2, 1, 4, 2, true, true, false, { 0, 1, 2 } ); break;
	case 4: buffers( 3, false ); break;
	case 5: images( 2, 1, 4, 3, false, true, false, { 0, 1 } ); break;
	case 6: images( 2, 2, 4, 3, false, false, false, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } ); break; case 7: images( 3, 1, 4, 1, false, false, false, { 0, 1, 2 } ); break; case 8: images( 4, 1, 2, 1, false, true, false, { 0, 1, 2 } ); break; case 9: images( 2, 1, 2, 2, false, true, true, { 0, 1, 2 } ); break; case 10: buffers( 4, true ); break; } }
