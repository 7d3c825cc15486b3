// C14: mipmap generation fills every level of every layer from the previous one
#include "common.hpp"
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
using namespace hc;
namespace {
void mips( uint32_t maxLayers, uint32_t maxMips, bool volume )
{
	auto ctx = fk::context();
	fk::w().on |= fk::LAYOUT;
	ResourceHandler h; Log log; FrameGraph g{ h, "g" };
	bool depth = !volume && forkIdx( "format", 2 );
	auto fmt = depth ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM;
	auto aspect = getAspectMask( fmt );
	uint32_t levels = 1 + forkIdx( "levels", maxMips ), layers = volume ? 1 : maxLayers;
	VkExtent3D e{ uint32_t( sym_range( "width", 1, 0x7fffffff ) ), uint32_t( sym_range( "height", 1, 0x7fffffff ) ), volume ? uint32_t( sym_range( "depth", 1, 3 ) ) : 1u };
	auto img = h.createImageId( imgData( "img", volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, fmt, e, levels, layers, VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT ) );
	auto vt = volume ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
	// the pass is given any layers of the base level, or of all the levels
	auto r = symRange( "r", layers, 1, aspect );
	bool whole = forkIdx( "whole", 2 ); if ( whole ) r.levelCount = levels;
	auto view = h.createViewId( viewData( "view", img, vt, r ) );
	auto all = r; all.levelCount = levels;
	auto sampled = h.createViewId( viewData( "sampled", img, vt, all ) );
	// what the levels hold before: written by a transfer, as a target, or received in some layout
	uint32_t entry = forkIdx( "entry", 3 ), next = forkIdx( "next", 4 );
	auto want = forkIdx( "output", 2 ) ? symLayout( "layout", { VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } ) : VK_IMAGE_LAYOUT_UNDEFINED;
	std::map< std::pair< uint32_t, uint32_t >, VkImageLayout > left; VkImage vk{};
	ru::Config cfg; cfg.postPassActions.push_back( [&]( RecordContext &, VkCommandBuffer, uint32_t ) { for ( uint32_t a = 0; a < layers; ++a ) for ( uint32_t m = 0; m < levels; ++m ) left[{ a, m }] = fk::layoutOf( fk::raw( vk ), a, m ); } );
	auto & p = g.createPass( "mips", [&]( FramePass const & fp, GraphContext & c, RunnableGraph & rg ) -> RunnablePassPtr { return std::make_unique< GenerateMipmaps >( fp, c, rg, want, cfg ); } );
	p.addTransferInOutView( view );
	if ( entry < 2 ) {
		auto & w = g.createPass( "writer", marker( 0, log ) );
		if ( entry == 0 ) w.addTransferOutputView( view ); else w.addOutputStorageView( view, 0 );
		p.addDependency( w ); }
	else
		g.addInput( view, makeLayoutState( VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ) );
	auto announced = want;
	if ( next == 0 ) { auto & f = g.createPass( "next", marker( 1, log ) ); f.addDependency( p ); f.addSampledView( sampled, 0 ); if ( !announced ) announced = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; }
	else if ( next == 1 ) { g.addOutput( view, makeLayoutState( VK_IMAGE_LAYOUT_GENERAL ) ); if ( !announced ) announced = VK_IMAGE_LAYOUT_GENERAL; }
	else if ( next == 2 ) { auto & f = g.createPass( "next", marker( 1, log ) ); f.addDependency( p ); f.addInputStorageView( view, 0 ); if ( !announced ) announced = VK_IMAGE_LAYOUT_GENERAL; }
	auto run = g.compile( *ctx );
	vk = run->createImage( img );
	if ( entry == 2 ) fk::forRange( fk::raw( vk ), r, [&]( uint32_t a, uint32_t m ) { fk::setLayout( fk::raw( vk ), a, m, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); } );
	run->record();
	std::vector< uint32_t > done( layers, 0 );
	auto dim = [&]( uint32_t v, uint32_t m ) { return int32_t( v >> m ? v >> m : 1u ); };
	auto box = [&]( VkOffset3D const * o, uint32_t m ) { return ( o[0].x == 0 ) & ( o[0].y == 0 ) & ( o[0].z == 0 ) & ( o[1].x == dim( e.width, m ) ) & ( o[1].y == dim( e.height, m ) ) & ( o[1].z == dim( e.depth, m ) ); };
	for ( auto & x : fk::w().cmds )
		if ( x.kind == fk::CBlit )
			for ( auto & b : x.blits ) {
				sym_check( x.src == fk::raw( vk ) && x.dst == fk::raw( vk ), "a level is not generated from, or into, the attached image" );
				auto & s = b.srcSubresource; auto & d = b.dstSubresource;
				sym_check( ( s.aspectMask == aspect ) & ( d.aspectMask == aspect ), "a level is generated for another aspect" );
				sym_check( ( s.layerCount == d.layerCount ) & ( s.baseArrayLayer == d.baseArrayLayer ), "a level is generated from another layer" );
				sym_check( ( d.mipLevel > 0 ) & ( s.mipLevel + 1 == d.mipLevel ) & ( d.mipLevel < levels ), "a level is not generated from the previous one" );
				for ( uint32_t a = d.baseArrayLayer; a < d.baseArrayLayer + d.layerCount; ++a ) { sym_check( a >= r.baseArrayLayer && a < r.baseArrayLayer + r.layerCount, "a level is generated for a layer that is not attached" ); sym_check( done[a] + 1 == d.mipLevel, "a level is generated twice, or before the one it is made from" ); done[a] = d.mipLevel; }
				sym_check( box( b.srcOffsets, s.mipLevel ) & box( b.dstOffsets, d.mipLevel ), "a level is not made from, or into, its whole extent" );
				sym_reach( "blit" ); }
	bool uniform = true; VkImageLayout first = left[{ r.baseArrayLayer, 0 }];
	for ( uint32_t a = r.baseArrayLayer; a < r.baseArrayLayer + r.layerCount; ++a ) {
		sym_check( done[a] + 1 == levels, "a level of an attached layer is not generated" );
		for ( uint32_t m = 0; m < levels; ++m ) { uniform = uniform && left[{ a, m }] == first; if ( announced ) sym_check( left[{ a, m }] == announced, "a level is not left in the announced output layout" ); } }
	sym_check( uniform && first != VK_IMAGE_LAYOUT_UNDEFINED, "the levels are not left in one usable layout" );
	sym_reach( levels == 1 ? "single" : volume ? "volume" : "levels" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: mips( 2, 3, false ); break; case 1: mips( 1, 3, true ); break; case 2: mips( 3, 4, false ); break; case 3: mips( 1, 5, true ); break; } }
