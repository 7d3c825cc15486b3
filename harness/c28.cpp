// C28: the commands of a graph order every access of an image after the conflicting ones before it
#include "flow.hpp"
#include "sync.hpp"
using namespace flow; using namespace sync;
namespace {
struct Sync
{
	std::map< std::pair< Image *, uint32_t >, Sub > subs; Flow & f; std::map< uint64_t, uint64_t > fbs; uint64_t rp{}, fb{};
	explicit Sync( Flow & x ) : f{ x } { f.onCmd = [this]( fk::Cmd const & c ) { cmd( c ); }; f.onUse = [this]( std::vector< Flow::Use > const & u ) { for ( auto & x : u ) used( x ); }; }
	void chains( Scope const & s ) { for ( auto & [k, x] : subs ) sync::chains( x, s ); }
	template< typename F > void range( uint64_t vk, VkImageSubresourceRange const & r, F fn ) { if ( auto i = f.of( vk ) ) fk::forRange( vk, r, [&]( uint32_t l, uint32_t m ) { fn( subs[{ i, l * i->M + m }] ); } ); }
	void cmd( fk::Cmd const & c )
	{
		if ( c.kind == fk::CBarrier ) { for ( auto & b : c.imgs ) { Scope s{ c.srcStage, c.dstStage, b.srcAccessMask, b.dstAccessMask }; range( fk::raw( b.image ), b.subresourceRange, [&]( Sub & x ) { depends( x, s, b.oldLayout != b.newLayout, "an image changes layout while it may still be accessed" ); } ); } chains( { c.srcStage, c.dstStage, 0, 0 } ); }
		if ( c.kind == fk::CClearColour || c.kind == fk::CClearDepth ) for ( auto & r : c.ranges ) range( c.dst, r, [&]( Sub & x ) { access( x, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, "an image is cleared while it may still be accessed" ); } );
		if ( c.kind == fk::CBeginRP ) { rp = c.src; fb = c.dst; edge( true ); load(); }
		if ( c.kind == fk::CEndRP ) edge( false );
	}
	// the dependencies between a render pass and what is around it
	void edge( bool begin )
	{
		auto & o = fk::at( rp ); auto & b = fk::at( fb ); std::vector< Scope > ds;
		for ( auto & d : o.deps ) if ( begin ? d.srcSubpass == VK_SUBPASS_EXTERNAL : d.dstSubpass == VK_SUBPASS_EXTERNAL ) ds.push_back( { d.srcStageMask, d.dstStageMask, d.srcAccessMask, d.dstAccessMask } );
		if ( ds.empty() ) ds.push_back( begin ? Scope{ VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, All, 0, ~A( 0 ) } : Scope{ All, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, ~A( 0 ), 0 } );
		// all of them together make one dependency
		for ( size_t k = 0; k < o.atts.size() && k < b.fbViews.size(); ++k ) { auto & v = fk::at( b.fbViews[k] ); auto & a = o.atts[k]; VkImageLayout in = a.initialLayout; for ( auto & r : o.colRefs ) if ( r.attachment == k ) in = r.layout; if ( o.hasDepth && o.depthRef.attachment == k ) in = o.depthRef.layout; bool change = begin ? a.initialLayout != in : in != a.finalLayout;
			range( fk::raw( v.view.image ), v.view.subresourceRange, [&]( Sub & x ) { Scope s{}; for ( auto & d : ds ) { s.src |= d.src; s.srcA |= d.srcA; s.dst |= d.dst; s.dstA |= d.dstA; } depends( x, s, change, "a render pass changes the layout of an image that may still be accessed" ); } ); }
		for ( auto & d : ds ) chains( d );
	}
	void load()
	{
		auto & o = fk::at( rp ); auto & b = fk::at( fb );
		for ( size_t k = 0; k < o.atts.size() && k < b.fbViews.size(); ++k ) { auto & v = fk::at( b.fbViews[k] ); auto & a = o.atts[k]; bool ds = o.hasDepth && o.depthRef.attachment == k; bool ld = a.loadOp == VK_ATTACHMENT_LOAD_OP_LOAD;
			range( fk::raw( v.view.image ), v.view.subresourceRange, [&]( Sub & x ) { access( x, ds ? VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT : VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, ds ? ( ld ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT : VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT ) : ld ? VK_ACCESS_COLOR_ATTACHMENT_READ_BIT : VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, "the attachment of a render pass is loaded or cleared while it may still be accessed" ); } ); }
	}
	void used( Flow::Use const & u )
	{
		S st{}; A ac{}; S sh = u.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
		switch ( u.kind ) {
		case Sampled: case SampledDs: case InStorage: st = sh; ac = VK_ACCESS_SHADER_READ_BIT; break;
		case OutStorage: case ClearStorage: st = sh; ac = VK_ACCESS_SHADER_WRITE_BIT; break;
		case InOutStorage: st = sh; ac = VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT; break;
		case TransIn: st = VK_PIPELINE_STAGE_TRANSFER_BIT; ac = VK_ACCESS_TRANSFER_READ_BIT; break; case TransOut: case TransInOut: st = VK_PIPELINE_STAGE_TRANSFER_BIT; ac = VK_ACCESS_TRANSFER_WRITE_BIT; break;
		// what a subpass does with its attachments is ordered by the pipeline; it was checked against the others when they were loaded
		default: if ( target( u.kind ) ) u.img->each( u.r, [&]( uint32_t, uint32_t, uint32_t k ) { auto & x = subs[{ u.img, k }]; bool ds = !isColourFormat( u.img->fmt ); S s = ds ? VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT : VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT; if ( writes( u.kind ) ) { x.reads.clear(); x.any = true; x.avail = false; x.stage = x.chain = s; x.access = ds ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT; x.visible.clear(); } else x.reads.push_back( s ); } ); return; }
		u.img->each( u.r, [&]( uint32_t, uint32_t, uint32_t k ) { access( subs[{ u.img, k }], st, ac, "a pass accesses an image that may still be accessed, or does not see what was written there" ); } );
	}
};
std::vector< uint32_t > const Colour{ Sampled, OutStorage, InOutStorage, TransIn, TransOut, OutColour, InOutColour, InColour, InStorage, ClearStorage }, Basic{ Sampled, OutStorage, InOutColour, TransOut }, Depth{ SampledDs, OutDs, InOutDs, InDs, TransOut, TransIn };
void chain( uint32_t n, uint32_t L, uint32_t M, std::vector< uint32_t > const & kinds, uint32_t recordings, bool toggles, bool whole, VkFormat fmt = VK_FORMAT_R8G8B8A8_UNORM )
{
	Flow f; auto sync = std::make_unique< Sync >( f ); FrameGraph g{ f.h, "g" }; auto & img = f.image( "i", L, M, fmt ); bool on[4]; FramePass * prev{};
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = "p" + std::to_string( i ); uint32_t kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; auto r = whole ? rng( getAspectMask( fmt ), 0, M, 0, L ) : symRange( s, L, M, getAspectMask( fmt ) ); if ( target( kind ) ) sym_assume( r.levelCount == 1 );
		auto v = f.h.createViewId( viewData( s.c_str(), img.id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) );
		auto & p = g.createPass( s, f.creator( i, { { &img, kind, r } }, [&on, i]() { return on[i]; } ) ); declare( p, kind, v, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; on[i] = true; }
	auto run = g.compile( *f.ctx );
	for ( uint32_t k = 0; k < recordings; ++k ) {
		// a recording waits for the end of the previous submission
		sync->subs.clear();
		for ( uint32_t i = 0; i < n; ++i ) { on[i] = !toggles || forkIdx( "on" + std::to_string( i ) + std::to_string( k ), 2 ); if ( on[i] ) f.expected.push_back( i ); }
		f.run( *run, g ); }
	sym_obs( fk::w().cmds.size() );
}
// passes using one of two images each, in shaders of either kind, after outside writes
void two( uint32_t n, std::vector< uint32_t > const & kinds, bool toggles, bool compute, bool outside )
{
	Flow f; auto sync = std::make_unique< Sync >( f ); FrameGraph g{ f.h, "g" }; Image * img[2]{ &f.image( "a", 1, 1 ), &f.image( "b", 1, 1 ) }; bool on[4]; FramePass * prev{}; auto r = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 );
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = "p" + std::to_string( i ); uint32_t kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )], which = forkIdx( s + "img", 2 ); bool cp = compute && !target( kind ) && forkIdx( s + "compute", 2 );
		auto v = f.h.createViewId( viewData( s.c_str(), img[which]->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) );
		auto & p = g.createPass( s, f.creator( i, { { img[which], kind, r, cp } }, [&on, i]() { return on[i]; } ) ); declare( p, kind, v, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; on[i] = true; }
	LayoutState given{ VK_IMAGE_LAYOUT_GENERAL, { VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } }; if ( outside ) for ( auto i : img ) g.addInput( i->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r, given );
	auto run = g.compile( *f.ctx );
	if ( outside ) for ( auto i : img ) { i->outside( r, given.layout, 1 ); auto & x = sync->subs[{ i, 0 }]; x.any = true; x.stage = x.chain = given.state.pipelineStage; x.access = given.state.access; }
	for ( uint32_t i = 0; i < n; ++i ) { on[i] = !toggles || forkIdx( "on" + std::to_string( i ), 2 ); if ( on[i] ) f.expected.push_back( i ); }
	f.run( *run, g ); sym_reach( "two" );
}
// graphs submitted one after the other, each starting from what the ones it depends on leave
void graphs( uint32_t n, uint32_t each, std::vector< uint32_t > const & kinds )
{
	Flow f; auto sync = std::make_unique< Sync >( f ); auto & img = f.image( "i", 1, 1 ); auto r = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 ); std::vector< std::unique_ptr< FrameGraph > > gs; std::vector< RunnableGraphPtr > runs; auto v = f.h.createViewId( viewData( "v", img.id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) );
	for ( uint32_t k = 0; k < n; ++k ) { gs.push_back( std::make_unique< FrameGraph >( f.h, "g" + std::to_string( k ) ) ); auto & g = *gs.back(); if ( k ) g.addDependency( *gs[k - 1] ); FramePass * prev{};
		for ( uint32_t i = 0; i < each; ++i ) { uint32_t id = k * each + i; auto s = "p" + std::to_string( id ); uint32_t kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; bool cp = !target( kind ) && forkIdx( s + "compute", 2 ); auto & p = g.createPass( s, f.creator( id, { { &img, kind, r, cp } }, []() { return true; } ) ); declare( p, kind, v, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; }
		runs.push_back( g.compile( *f.ctx ) ); }
	for ( uint32_t k = 0; k < n; ++k ) { for ( uint32_t i = 0; i < each; ++i ) f.expected.push_back( k * each + i ); f.run( *runs[k], *gs[k] ); }
	sym_reach( "graphs" ); runs.clear(); gs.clear();
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: chain( 3, 1, 1, Colour, 1, false, true ); break;
	case 1: chain( 2, 2, 1, Colour, 1, false, false ); break;
	case 2: chain( 3, 1, 1, Depth, 1, true, true, VK_FORMAT_D24_UNORM_S8_UINT ); break;
	case 3: chain( 3, 2, 1, Basic, 1, true, false ); break;
	case 4: chain( 2, 1, 1, Colour, 2, true, true ); break;
	case 5: two( 3, { Sampled, OutStorage, InOutColour, TransOut, TransIn }, true, false, false ); break;
	case 6: two( 2, Colour, false, true, true ); break;
	case 7: graphs( 2, 1, Colour ); break;
	case 8: chain( 4, 1, 1, Colour, 1, false, true ); break;
	case 9: chain( 3, 2, 1, Colour, 1, false, false ); break;
	case 10: chain( 4, 2, 1, Basic, 1, true, false ); break;
	case 11: two( 4, { Sampled, OutStorage, InOutColour, TransOut }, true, true, false ); break;
	case 12: two( 3, Colour, false, true, true ); break;
	case 13: graphs( 3, 1, Colour ); break;
	case 14: graphs( 2, 2, { Sampled, OutStorage, InOutColour, TransOut, OutColour, ClearStorage } ); break; } }
