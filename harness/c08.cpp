// C08: disabled passes execute nothing but keep layouts coherent
#include "flow.hpp"
using namespace flow;
namespace {
struct Pending { uint32_t pass, view; };
struct Spec { uint32_t kind, view, on, action; };
// model of the implicit actions: those registered on a view run, in order, before the next use of the view, if their pass is disabled
struct Model
{
	std::vector< Spec > const & ps; std::vector< Pending > pending; std::vector< uint32_t > log;
	void use( uint32_t v )
	{
		for ( size_t k = 0; k < pending.size(); ) {
			if ( pending[k].view != v ) { ++k; continue; }
			auto p = pending[k].pass; pending.erase( pending.begin() + k );
			if ( !ps[p].on ) { if ( ps[p].action == 2 ) use( 1 - ps[p].view ); log.push_back( 100 + p ); }
			k = 0; }
	}
	std::vector< uint32_t > run() { for ( uint32_t i = 0; i < ps.size(); ++i ) { if ( ps[i].on ) { use( ps[i].view ); log.push_back( i ); } if ( ps[i].action ) pending.push_back( { i, ps[i].view } ); } return log; }
};
bool disabledPass( uint32_t on ) { return on == 0; }
// views: 0 is the first layer (or image), 1 the second one
void chain( uint32_t n, std::vector< uint32_t > const & kinds, uint32_t actions, bool twoImages, bool output, uint32_t recordings, bool whole )
{
	Flow f; FrameGraph g{ f.h, "g" }; Image * imgs[2]; imgs[0] = &f.image( "a", twoImages ? 1 : 2, 1 ); imgs[1] = twoImages ? &f.image( "b", 1, 1 ) : imgs[0];
	VkImageSubresourceRange const R[2]{ rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, whole ? 2 : 1 ), rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, twoImages ? 0 : 1, 1 ) };
	ImageViewId views[2]; for ( uint32_t k = 0; k < 2; ++k ) views[k] = f.h.createViewId( viewData( k ? "v1" : "v0", imgs[k]->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, R[k] ) );
	std::vector< Spec > ps( n ); FramePass * prev{};
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = "p" + std::to_string( i ); auto & p = ps[i]; p.kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; p.view = forkIdx( s + "view", 2 ); p.action = i + 1 < n ? forkIdx( s + "action", actions ) : 0; p.on = 1;
		ru::Config cfg; auto img = imgs[p.view]; auto r = R[p.view]; auto v = views[p.view], o = views[1 - p.view]; auto nested = p.action == 2;
		if ( p.action ) cfg.implicitAction( v, [&f, i, img, r, v, o, nested]( RecordContext & rc, VkCommandBuffer cb, uint32_t idx ) {
			if ( nested ) rc.runImplicitTransition( cb, idx, o );
			rc.memoryBarrier( cb, v, makeLayoutState( VK_IMAGE_LAYOUT_GENERAL ) ); fk::mark( cb, int( 100 + i ) ); f.scan(); f.log.push_back( 100 + i );
			img->each( r, [&]( uint32_t l, uint32_t m, uint32_t k ) { sym_check( img->layout( l, m ) == VK_IMAGE_LAYOUT_GENERAL, "an implicit action finds its view in another layout" ); img->holds[k] = img->wants[k] = int( 100 + i ); } ); } );
		// the last two passes are enabled through their callback, a pass without one is always recorded
		auto always = i == 0 && forkIdx( "always", 2 );
		if ( always ) p.on = 2;
		auto & fp = g.createPass( s, f.creator( i, { { img, p.kind, r } }, always ? std::function< bool() >{} : [&ps, i]() { return ps[i].on != 0; }, cfg ) );
		declare( fp, p.kind, v, 0 ); if ( prev ) fp.addDependency( *prev ); prev = &fp; }
	VkImageLayout out = VK_IMAGE_LAYOUT_UNDEFINED; uint32_t outView = 0;
	if ( output ) { outView = forkIdx( "outview", 2 ); out = VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; g.addOutput( views[outView], makeLayoutState( out ) ); }
	auto run = g.compile( *f.ctx );
	for ( uint32_t t = 0; t < recordings; ++t ) {
		uint32_t enabled = 0, targets = 0, clears = 0;
		for ( uint32_t i = 0; i < n; ++i ) { if ( ps[i].on != 2 ) ps[i].on = forkIdx( "on" + std::to_string( i ) + std::to_string( t ), 2 ); enabled += ps[i].on != 0; if ( ps[i].on ) { targets += target( ps[i].kind ); clears += ps[i].kind == ClearStorage; } else sym_reach( "disabled" ); }
		f.expected = Model{ ps, {}, {} }.run(); for ( auto e : f.expected ) if ( e >= 100 ) sym_reach( "implicit" );
		auto first = fk::w().cmds.size(); f.run( *run, g );
		// nothing of a disabled pass is recorded
		uint32_t begins = 0, cleared = 0, marks = 0; uint32_t current = n; std::vector< uint64_t > rps;
		for ( size_t c = first; c < fk::w().cmds.size(); ++c ) { auto & x = fk::w().cmds[c]; begins += x.kind == fk::CBeginRP; cleared += x.kind == fk::CClearColour; marks += x.kind == fk::CMark;
			if ( x.kind == fk::CBeginRP ) rps.push_back( x.src );
			if ( !enabled && !output ) sym_check( x.kind != fk::CBarrier && x.kind != fk::CFill, "commands are recorded although every pass is disabled" ); }
		sym_check( begins == targets, "render passes are not exactly those of the enabled passes" ); sym_check( cleared == clears, "clears are not exactly those of the enabled passes" ); sym_check( marks == f.expected.size() || marks >= enabled, "missing commands of an enabled pass" ); ( void )current;
		// where a render pass leaves its target: what the next enabled pass using the view needs, or the registered output
		uint32_t at = 0;
		for ( uint32_t i = 0; i < n; ++i ) if ( ps[i].on && target( ps[i].kind ) ) {
			auto fin = fk::at( rps[at++] ).atts[0].finalLayout; uint32_t next = i + 1; while ( next < n && !( ps[next].on && ps[next].view == ps[i].view ) ) ++next;
			bool other = whole && !twoImages; if ( other ) for ( uint32_t k = i + 1; k < n; ++k ) if ( ps[k].on && ps[k].view != ps[i].view ) next = n + 1; // a partly overlapping use
			if ( next < n ) { sym_check( fin == needed( ps[next].kind ), "a target is not left in the layout its next enabled user needs" ); sym_reach( "next" ); }
			else if ( next == n && out && outView == ps[i].view && !other ) { sym_check( fin == out, "a target used no more is not left in its output layout" ); sym_reach( "output" ); } }
		for ( uint32_t k = 0; k < 2; ++k ) if ( out && outView == k ) f.outputs( *imgs[k], R[k], out ); }
}
// passes using one image, or one of two according to the index of the recording
void pingpong( uint32_t n, std::vector< uint32_t > const & kinds, uint32_t recordings )
{
	struct PSpec { uint32_t kind, views, on; }; // views: 0 and 1 the one image, 2 both, 3 both exchanged
	Flow f; FrameGraph g{ f.h, "g" }; Image * imgs[2]{ &f.image( "a", 1, 1 ), &f.image( "b", 1, 1 ) }; auto const R = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 );
	ImageViewId views[2]; for ( uint32_t k = 0; k < 2; ++k ) views[k] = f.h.createViewId( viewData( k ? "v1" : "v0", imgs[k]->id, VK_IMAGE_VIEW_TYPE_2D, R ) );
	uint32_t index = 0; f.index = [&index]() { return index; }; std::vector< PSpec > ps( n ); FramePass * prev{};
	auto used = [&]( PSpec const & p, uint32_t i ) { return p.views < 2 ? p.views : ( p.views + i ) % 2; };
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = "p" + std::to_string( i ); auto & p = ps[i]; p.kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; p.views = forkIdx( s + "views", 4 ); p.on = 1;
		auto & fp = g.createPass( s, f.creator( i, { Flow::Use{ imgs[used( p, 0 )], p.kind, R, false, imgs[used( p, 1 )] } }, [&ps, i]() { return ps[i].on != 0; }, ru::Config{ 2u } ) );
		ImageViewIdArray vs{ views[used( p, 0 )] }; if ( p.views > 1 ) vs.push_back( views[used( p, 1 )] );
		if ( p.kind == Sampled ) fp.addSampledView( vs, 0 ); else if ( p.kind == OutStorage ) fp.addOutputStorageView( vs, 0 ); else if ( p.kind == TransIn ) fp.addTransferInputView( vs ); else if ( p.kind == OutColour ) fp.addOutputColourView( vs ); else fp.addInOutColourView( vs );
		if ( prev ) fp.addDependency( *prev ); prev = &fp; }
	auto run = g.compile( *f.ctx );
	for ( uint32_t t = 0; t < recordings; ++t ) {
		index = forkIdx( "index" + std::to_string( t ), 2 ); uint32_t targets = 0;
		for ( uint32_t i = 0; i < n; ++i ) { ps[i].on = forkIdx( "on" + std::to_string( i ) + std::to_string( t ), 2 ); if ( ps[i].on ) { f.expected.push_back( i ); targets += target( ps[i].kind ); } else sym_reach( "disabled" ); }
		auto first = fk::w().cmds.size(); f.run( *run, g ); std::vector< uint64_t > rps; for ( size_t c = first; c < fk::w().cmds.size(); ++c ) if ( fk::w().cmds[c].kind == fk::CBeginRP ) rps.push_back( fk::w().cmds[c].src );
		sym_check( rps.size() == targets, "render passes are not exactly those of the enabled passes" ); uint32_t at = 0;
		for ( uint32_t i = 0; i < n; ++i ) if ( ps[i].on && target( ps[i].kind ) ) {
			auto u = used( ps[i], index ); uint32_t next = i + 1; while ( next < n && !( ps[next].on && ( ps[next].views > 1 || ps[next].views == u ) ) ) ++next; auto fin = fk::at( rps[at++] ).atts[0].finalLayout;
			// what another index of the next pass needs is not judged
			if ( next < n && used( ps[next], index ) == u ) { sym_check( fin == needed( ps[next].kind ), "a target is not left in the layout its next enabled user needs" ); sym_reach( "next-index" ); } } }
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: chain( 3, { OutStorage, Sampled, OutColour }, 2, false, false, 1, false ); break;
	case 1: chain( 3, { OutStorage, InOutColour }, 3, true, true, 1, false ); break;
	case 2: chain( 2, { ClearStorage, OutStorage, Sampled, TransOut, InOutColour, OutColour, InOutStorage }, 2, false, true, 1, true ); break;
	case 3: chain( 2, { OutStorage, OutColour, Sampled }, 2, true, true, 2, false ); break;
	case 4: chain( 4, { OutStorage, InOutColour }, 2, true, false, 1, false ); break;
	case 5: chain( 3, { OutStorage, OutColour, Sampled }, 2, true, true, 2, false ); break;
	case 6: chain( 3, { ClearStorage, OutStorage, Sampled, TransOut, OutColour }, 3, false, true, 1, true ); break;
	case 7: pingpong( 3, { OutColour, Sampled, OutStorage }, 1 ); break;
	case 8: pingpong( 2, { OutColour, Sampled, InOutColour }, 2 ); break;
	case 9: pingpong( 3, { OutColour, Sampled, OutStorage, TransIn, InOutColour }, 1 ); break; } }
