// C07: render pass layouts and load operations agree with the tracked state
#include "flow.hpp"
#include <algorithm>
#include <cstring>
using namespace flow;
namespace {
struct Target { Image * img; uint32_t kind; VkImageSubresourceRange r; ImageViewId v; bool depth, input; VkAttachmentLoadOp load, sload; VkAttachmentStoreOp store, sstore; VkClearValue clear{}; VkPipelineColorBlendAttachmentState blend{}; std::vector< VkImageLayout > entry; };
bool same( void const * a, void const * b, size_t n ) { return std::memcmp( a, b, n ) == 0; }
VkClearValue symClear( std::string const & s ) { VkClearValue c{}; for ( uint32_t k = 0; k < 4; ++k ) c.color.uint32[k] = uint32_t( sym_bits( ( s + "clear" + std::to_string( k ) ).c_str(), 32 ) ); return c; }
VkPipelineColorBlendAttachmentState symBlend( std::string const & s ) { VkPipelineColorBlendAttachmentState b = DefaultBlendState; b.blendEnable = uint32_t( sym_range( ( s + "blend" ).c_str(), 0, 1 ) ); b.colorWriteMask = uint32_t( sym_range( ( s + "mask" ).c_str(), 0, 15 ) ); b.srcColorBlendFactor = VkBlendFactor( sym_range( ( s + "factor" ).c_str(), 0, 14 ) ); return b; }
struct Probe : RenderPass { using RenderPass::RenderPass; auto const & blends()const { return doGetBlendAttachs(); } };
struct Options { uint32_t colours; uint32_t depth; bool rawOps; std::vector< uint32_t > before, after; uint32_t recordings; bool output; uint32_t L; bool sym{ true }; };
void judgePass( Flow & f, std::vector< Target > const & ts, Probe * pass )
{
	auto & cmds = fk::w().cmds; size_t c = cmds.size(); while ( c && cmds[c - 1].kind != fk::CBeginRP ) --c; sym_check( c > 0 && fk::w().openRP, "a render pass records outside of its render pass" ); if ( !c ) return;
	auto & x = cmds[c - 1]; auto & rp = fk::at( x.src ); auto & fb = fk::at( x.dst );
	sym_check( rp.atts.size() == ts.size() && fb.fbViews.size() == ts.size() && x.clears.size() == ts.size(), "a render pass has not one attachment per target" ); if ( rp.atts.size() != ts.size() || x.clears.size() != ts.size() ) return;
	size_t colour = 0; bool depth = false; auto & blends = pass->blends();
	for ( size_t k = 0; k < ts.size(); ++k ) { auto & t = ts[k]; auto & a = rp.atts[k]; auto fmt = t.img->fmt;
		sym_check( a.format == fmt && a.samples == t.img->id.data->info.samples, "the format or samples of a target changed" );
		sym_check( a.storeOp == t.store && ( !isStencilFormat( fmt ) || a.stencilStoreOp == t.sstore ), "a declared store operation is not preserved" );
		sym_check( same( &x.clears[k], &t.clear, sizeof( VkClearValue ) ), "a declared clear value is not preserved" );
		sym_check( fb.fbViews[k] && fk::at( fk::at( fb.fbViews[k] ).view.image ).alive && same( &fk::at( fb.fbViews[k] ).view.subresourceRange, &t.r, sizeof( t.r ) ) && fk::raw( fk::at( fb.fbViews[k] ).view.image ) == t.img->vk, "a target is not the declared view" );
		auto initial = a.initialLayout; bool known = t.input; for ( auto l : t.entry ) known = known && l != VK_IMAGE_LAYOUT_UNDEFINED;
		if ( known ) { for ( auto l : t.entry ) sym_check( initial == l, "a target does not enter in its tracked layout" ); sym_check( a.loadOp == t.load && ( !isStencilFormat( fmt ) || a.stencilLoadOp == t.sload ), "a declared load operation is not preserved" ); sym_reach( "loaded" ); }
		if ( !t.input ) sym_check( initial == VK_IMAGE_LAYOUT_UNDEFINED, "a target which is only written has an initial layout" );
		if ( initial == VK_IMAGE_LAYOUT_UNDEFINED ) { sym_check( a.loadOp != VK_ATTACHMENT_LOAD_OP_LOAD && ( !isStencilFormat( fmt ) || a.stencilLoadOp != VK_ATTACHMENT_LOAD_OP_LOAD ), "contents loaded from an undefined layout" );
			if ( t.load == VK_ATTACHMENT_LOAD_OP_CLEAR ) sym_check( a.loadOp == t.load, "a target is not cleared as declared" ); if ( isStencilFormat( fmt ) && t.sload != VK_ATTACHMENT_LOAD_OP_LOAD ) sym_check( a.stencilLoadOp == t.sload, "a declared stencil load operation is not preserved" ); sym_reach( "undefined" ); }
		sym_check( a.finalLayout != VK_IMAGE_LAYOUT_UNDEFINED && a.finalLayout != VK_IMAGE_LAYOUT_PREINITIALIZED, "a target leaves in no layout" );
		if ( t.depth ) { depth = true; sym_check( rp.hasDepth && rp.depthRef.attachment == k && rp.depthRef.layout == needed( t.kind ), "the depth target is not used in the layout of its use" ); }
		else { sym_check( colour < rp.colRefs.size() && rp.colRefs[colour].attachment == k && rp.colRefs[colour].layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, "a colour target is not used in its order and layout" );
			sym_check( colour < blends.size() && same( &blends[colour], &t.blend, sizeof( t.blend ) ), "a declared blend state is not preserved" ); ++colour; } }
	sym_check( rp.colRefs.size() == colour && rp.hasDepth == depth && blends.size() == colour, "a subpass has other targets than the declared ones" );
	uint32_t stage = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT * ( colour > 0 ) | ( VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) * depth, acc = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT * ( colour > 0 ) | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT * depth; bool in = false, out = false;
	for ( auto & d : rp.deps ) { in |= d.srcSubpass == VK_SUBPASS_EXTERNAL && d.dstSubpass == 0 && ( d.dstStageMask & stage ) == stage && ( d.dstAccessMask & acc ) == acc; out |= d.dstSubpass == VK_SUBPASS_EXTERNAL && d.srcSubpass == 0 && ( d.srcStageMask & stage ) == stage && ( d.srcAccessMask & acc ) == acc; }
	sym_check( in && out, "the dependencies of a render pass do not cover its targets" ); ( void )f;
}
void render( Options o )
{
	Flow f; FrameGraph g{ f.h, "g" }; std::vector< Target > ts; bool on[3]{ true, true, true }; uint32_t n = o.colours + ( o.depth ? 1u : 0u ); uint32_t where = o.depth ? forkIdx( "depthwhere", o.colours ? 2 : 1 ) : 0; Probe * pass{};
	for ( uint32_t k = 0; k < n; ++k ) {
		auto s = "t" + std::to_string( k ); Target t; t.depth = o.depth && k == ( where ? n - 1 : 0 ); static VkFormat const D[]{ VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT_S8_UINT };
		auto samples = VkSampleCountFlagBits( sym_range( ( s + "samples" ).c_str(), 1, 4 ) ); if ( !o.sym ) samples = VK_SAMPLE_COUNT_1_BIT;
		t.img = &f.image( s.c_str(), o.L, 1, t.depth ? D[o.depth - 1] : k ? VK_FORMAT_R16G16B16A16_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM, 1, samples ); static uint32_t const C[]{ OutColour, InOutColour, InColour }, Z[]{ OutDs, InOutDs, InDs };
		auto kind = forkIdx( s + "kind", 3 ); t.kind = t.depth ? Z[kind] : C[kind]; t.input = reads( t.kind ); t.r = symRange( s, o.L, 1, getAspectMask( t.img->fmt ) ); t.v = f.h.createViewId( viewData( s.c_str(), t.img->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, t.r ) ); ts.push_back( t ); }
	ImageViewId subject = ts[0].v; auto * subjectImage = ts[0].img; auto subjectRange = ts[0].r;
	auto neighbour = [&]( uint32_t id, std::vector< uint32_t > const & kinds ) -> FramePass * {
		if ( kinds.empty() ) return nullptr; auto s = "p" + std::to_string( id ); auto kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; auto r = o.L > 1 ? symRange( s, o.L, 1, getAspectMask( subjectImage->fmt ) ) : subjectRange; auto v = f.h.createViewId( viewData( s.c_str(), subjectImage->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) );
		auto & p = g.createPass( s, f.creator( id, { { subjectImage, kind, r } }, [&on, id]() { return on[id]; } ) ); declare( p, kind, v, 0 ); return &p; };
	auto before = neighbour( 0, o.before );
	auto & p = g.createPass( "p1", [&]( FramePass const & fp, GraphContext & c, RunnableGraph & rg ) -> RunnablePassPtr {
		for ( auto & i : f.imgs ) if ( !i->vk ) i->vk = fk::raw( rg.createImage( i->id ) );
		ru::Config cfg; cfg.prePassAction( [&]( RecordContext &, VkCommandBuffer, uint32_t ) { for ( auto & t : ts ) { t.entry.clear(); t.img->each( t.r, [&]( uint32_t l, uint32_t m, uint32_t ) { t.entry.push_back( t.img->layout( l, m ) ); } ); } } );
		cfg.postPassAction( [&]( RecordContext & rc, VkCommandBuffer, uint32_t ) { auto & rp = fk::at( pass->getRenderPass( 0 ) ); for ( size_t k = 0; k < ts.size() && k < rp.atts.size(); ++k ) sym_check( rc.getLayoutState( ts[k].v ).layout == rp.atts[k].finalLayout, "a target is not tracked in the layout its render pass leaves it in" ); } );
		auto rec = RunnablePass::RecordCallback( [&]( RecordContext &, VkCommandBuffer cb, uint32_t ) { fk::mark( cb, 1 ); judgePass( f, ts, pass ); f.scan(); f.log.push_back( 1 ); if ( !o.rawOps ) { std::vector< Flow::Use > uses; for ( auto & t : ts ) uses.push_back( { t.img, t.kind, t.r } ); f.log.pop_back(); f.visit( 1, uses ); } else for ( auto & t : ts ) t.img->each( t.r, [&]( uint32_t, uint32_t, uint32_t i ) { t.img->holds[i] = t.img->wants[i] = 0; } ); sym_reach( "pass" ); } );
		auto r = std::make_unique< Probe >( fp, c, rg, RenderPass::Callbacks{ RunnablePass::InitialiseCallback( []( uint32_t ) {} ), rec, RenderPass::GetSubpassContentsCallback( []() { return VK_SUBPASS_CONTENTS_INLINE; } ), RunnablePass::GetPassIndexCallback( []() { return 0u; } ), RunnablePass::IsEnabledCallback( [&on]() { return on[1]; } ) }, VkExtent2D{ 1, 1 }, cfg ); pass = r.get(); return r; } );
	for ( size_t k = 0; k < ts.size(); ++k ) { auto & t = ts[k]; auto s = "t" + std::to_string( k ); if ( o.sym && !( t.input && !writes( t.kind ) ) ) { if ( !t.input ) t.clear = symClear( s ); if ( !t.depth ) t.blend = symBlend( s ); } else t.blend = DefaultBlendState;
		if ( !o.sym || ( t.input && !writes( t.kind ) ) ) t.blend = DefaultBlendState;
		switch ( t.kind ) { case OutColour: t.blend = DefaultBlendState; p.addOutputColourView( t.v, t.clear ); break; case InOutColour: p.addInOutColourView( t.v, t.blend ); break; case InColour: p.addInputColourView( t.v ); break; case OutDs: p.addOutputDepthStencilView( t.v, t.clear ); break; case InOutDs: p.addInOutDepthStencilView( t.v ); break; default: p.addInputDepthStencilView( t.v ); }
		auto & a = ( t.depth ? p.images.front() : p.images.back() ).imageAttach; // depth targets come first
		if ( o.rawOps ) { auto op = [&]( char const * w, uint32_t n2 ) { return uint32_t( sym_range( ( s + w ).c_str(), 0, n2 ) ); }; a.loadOp = VkAttachmentLoadOp( op( "load", 2 ) ); a.stencilLoadOp = VkAttachmentLoadOp( op( "sload", 2 ) ); a.storeOp = VkAttachmentStoreOp( op( "store", 1 ) ); a.stencilStoreOp = VkAttachmentStoreOp( op( "sstore", 1 ) ); }
		t.load = a.loadOp; t.sload = a.stencilLoadOp; t.store = a.storeOp; t.sstore = a.stencilStoreOp; }
	std::stable_partition( ts.begin(), ts.end(), []( Target const & t ) { return t.depth; } );
	if ( before ) p.addDependency( *before ); if ( auto after = neighbour( 2, o.after ) ) after->addDependency( p );
	if ( o.output && forkIdx( "output", 2 ) ) g.addOutput( subject, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) );
	auto in = o.output ? forkIdx( "input", 2 ) : 0; if ( in ) g.addInput( subject, makeLayoutState( VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ) );
	auto run = g.compile( *f.ctx );
	for ( uint32_t t = 0; t < o.recordings; ++t ) {
		if ( in ) subjectImage->outside( subjectRange, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, 1 );
		for ( uint32_t i = 0; i < 3; ++i ) { bool there = i == 1 || ( i == 0 && !o.before.empty() ) || ( i == 2 && !o.after.empty() ); on[i] = there && ( i == 1 || forkIdx( "on" + std::to_string( i ) + std::to_string( t ), 2 ) ); if ( on[i] ) f.expected.push_back( i ); }
		f.run( *run, g ); if ( t ) sym_reach( "again" ); }
}
std::vector< uint32_t > const NoPass{}, Few{ OutStorage, Sampled, TransOut }, More{ OutStorage, Sampled, TransOut, TransIn, OutColour, InOutColour };
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: render( { 1, 0, true, More, More, 2, false, 1 } ); break;
	case 1: render( { 2, 1, false, { OutStorage }, { Sampled }, 1, true, 1 } ); break;
	case 2: render( { 0, 1, true, { SampledDs, OutDs, TransIn, InDs }, { SampledDs, InOutDs, InDs }, 2, false, 1 } ); break;
	case 3: render( { 1, 0, false, Few, { Sampled, TransIn }, 1, true, 2 } ); break;
	case 4: render( { 3, 0, true, { TransOut }, NoPass, 1, true, 1 } ); break;
	case 5: render( { 1, 2, true, { OutStorage, InOutColour }, { Sampled }, 2, true, 1 } ); break;
	case 6: render( { 1, 0, false, More, More, 3, true, 1 } ); break; case 7: render( { 1, 0, false, More, Few, 2, true, 2 } ); break; case 8: render( { 3, 2, false, { OutStorage, TransOut }, { Sampled }, 1, true, 1 } ); break; } }
