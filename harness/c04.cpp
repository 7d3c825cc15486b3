// C04: every image barrier starts from the real layout and reaches the wanted one
#include "common.hpp"
using namespace hc;
namespace {
struct Cell { bool set{}; LayoutState s{}; };
std::vector< VkImageLayout > const Lays{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL };
// sequences of barriers on one image (array or volume), from any initial layout
void run( uint32_t L, uint32_t M, uint32_t ops, bool volume, VkFormat fmt, bool separateDs, uint32_t how, bool free ) {
	fk::CtxDesc cd; cd.separateDs = separateDs; auto ctx = fk::context( cd ); ResourceHandler handler;
	auto img = handler.createImageId( imgData( "i", volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, fmt, { 8, 8, volume ? 4u : 1u }, M, volume ? 1 : L ) );
	auto other = handler.createImageId( imgData( "o", VK_IMAGE_TYPE_2D, fmt, { 8, 8, 1 }, M, L ) );
	{
		ContextResourcesCache res{ handler, *ctx }; RecordContext rc{ res }; auto vk = fk::raw( res.createImage( img ) ); auto vkOther = fk::raw( res.createImage( other ) ); VkCommandBuffer cb = fk::mk< VkCommandBuffer >( fk::add( fk::TCmd ) ); fk::at( cb ).recording = true;
		fk::w().on = fk::LIFETIME | fk::LAYOUT | fk::STATE;
		auto start = symLayout( "start", Lays ); uint32_t PL = volume ? 1 : L; for ( uint32_t l = 0; l < PL; ++l ) for ( uint32_t m = 0; m < M; ++m ) fk::setLayout( vk, l, m, start );
		VkImageAspectFlags aspect = getAspectMask( fmt ); bool ds = isDepthStencilFormat( fmt );
		std::vector< Cell > cells( PL * M );
		for ( uint32_t k = 0; k < ops; ++k ) {
			auto p = "b" + std::to_string( k ); VkImageSubresourceRange r = symRange( p, PL, M ); r.aspectMask = ds && flag( p + "asp" ) ? VkImageAspectFlags( flag( p + "sten" ) ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT ) : aspect;
			LayoutState want; want.layout = symLayout( ( p + "lay" ).c_str(), { VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL } );
			if ( free ) { want.state.access = uint32_t( sym_bits( ( p + "acc" ).c_str(), 32 ) ); want.state.pipelineStage = uint32_t( sym_bits( ( p + "stg" ).c_str(), 32 ) ); } else want.state = { getAccessMask( want.layout ), getStageMask( want.layout ) };
			bool force = flag( p + "force" ), discard = flag( p + "disc" ); VkImageLayout init = discard ? VK_IMAGE_LAYOUT_UNDEFINED : start; auto vt = volume ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
			auto inside = [&]( uint32_t l, uint32_t m ) { return l >= r.baseArrayLayer && l < r.baseArrayLayer + r.layerCount && m >= r.baseMipLevel && m < r.baseMipLevel + r.levelCount; };
			std::vector< VkImageLayout > before( PL * M ); for ( uint32_t l = 0; l < PL; ++l ) for ( uint32_t m = 0; m < M; ++m ) before[l * M + m] = fk::layoutOf( vk, l, m );
			size_t from = fk::w().cmds.size();
			switch ( how ) {
			case 0: if ( discard ) rc.memoryBarrier( cb, img, vt, r, want, force ); else rc.memoryBarrier( cb, img, vt, r, init, want, force ); break;
			case 1: if ( discard ) rc.memoryBarrier( cb, img, r, want, force ); else rc.memoryBarrier( cb, img, r, init, want, force ); break;
			default: { auto v = handler.createViewId( viewData( "v", img, vt, r ) ); if ( discard ) rc.memoryBarrier( cb, v, want, force ); else rc.memoryBarrier( cb, v, init, want, force ); } break;
			}
			// what the tracker believed of each subresource
			std::vector< uint32_t > hits( PL * M, 0 ); auto expected = aspect; // both aspects of an image change layout together
			for ( size_t c = from; c < fk::w().cmds.size(); ++c ) { auto & x = fk::w().cmds[c]; sym_check( x.kind == fk::CBarrier && x.imgs.size() == 1 && x.bufs.empty() && x.mems.empty(), "an image barrier request records something else" ); auto & b = x.imgs[0];
				sym_check( fk::raw( b.image ) == vk, "a barrier names another image" ); sym_check( b.newLayout == want.layout, "a barrier does not reach the requested layout" ); sym_check( b.dstAccessMask == want.state.access && x.dstStage == want.state.pipelineStage, "a barrier's destination is not the requested access and stage" ); sym_check( b.subresourceRange.aspectMask == expected, "a barrier's aspect is not the request's" );
				fk::forRange( vk, b.subresourceRange, [&]( uint32_t l, uint32_t m ) { sym_check( l < PL && m < M && inside( l, m ), "a barrier covers subresources outside the requested range" ); if ( l < PL && m < M ) { auto & cell = cells[l * M + m]; ++hits[l * M + m];
					sym_check( b.oldLayout == ( cell.set ? cell.s.layout : init ), "a barrier's old layout is not the one its subresource is in" );
					if ( cell.set ) sym_check( ( b.srcAccessMask & cell.s.state.access ) == cell.s.state.access && ( x.srcStage & cell.s.state.pipelineStage ) == cell.s.state.pipelineStage, "a barrier's source does not cover the tracked access and stage" ); } } ); }
			bool any = false; uint32_t stillAcc = 0, stillStg = 0; bool same = true;
			for ( uint32_t l = 0; l < PL; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( inside( l, m ) ) { auto & cell = cells[l * M + m]; auto cur = cell.set ? cell.s.layout : init; auto n = hits[l * M + m]; sym_check( n <= 1, "a subresource is transitioned twice by one request" );
				if ( want.layout != VK_IMAGE_LAYOUT_UNDEFINED ) { if ( force || cur != want.layout ) sym_check( n == 1, "a needed barrier is missing" ); if ( L == 1 && M == 1 && cell.set && !( cell.s == want ) ) sym_check( n == 1, "a needed barrier is missing" ); if ( n ) { cell = { true, want }; any = true; } }
				else sym_check( n == 0, "a barrier is emitted toward the undefined layout" );
				if ( want.layout != VK_IMAGE_LAYOUT_UNDEFINED ) sym_check( fk::layoutOf( vk, l, m ) == want.layout || ( n == 0 && before[l * M + m] == want.layout ), "the subresource does not end in the requested layout" );
				if ( cell.set ) { same = same && cell.s.layout == want.layout; stillAcc |= cell.s.state.access; stillStg |= cell.s.state.pipelineStage; } }
			auto got = rc.getLayoutState( img, vt, r );
			if ( any ) { sym_reach( "barrier" ); if ( same ) sym_check( got.layout == want.layout && got.state.access == stillAcc && got.state.pipelineStage == stillStg, "the state reported after a barrier is not the requested one" ); }
			else sym_reach( "no-barrier" );
			for ( uint32_t l = 0; l < PL; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( !inside( l, m ) ) { sym_check( fk::layoutOf( vk, l, m ) == before[l * M + m], "a barrier moves subresources outside the requested range" ); auto g = rc.getLayoutState( img, volume ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY, rng( aspect, m, 1, l, 1 ) ); auto & cell = cells[l * M + m]; sym_check( cell.set ? g == cell.s : g.layout == VK_IMAGE_LAYOUT_UNDEFINED, "a barrier changes the tracked state of other subresources" ); }
		}
		auto g = rc.getLayoutState( other, VK_IMAGE_VIEW_TYPE_2D_ARRAY, rng( aspect, 0, M, 0, L ) ); sym_check( g.layout == VK_IMAGE_LAYOUT_UNDEFINED && fk::layoutOf( vkOther, 0, 0 ) == VK_IMAGE_LAYOUT_UNDEFINED, "a barrier changes another image" );
		sym_obs( fk::w().cmds.size() );
	}
}
}
extern "C" void sym_main() {
	auto const C = VK_FORMAT_R8G8B8A8_UNORM, D = VK_FORMAT_D32_SFLOAT, DS = VK_FORMAT_D24_UNORM_S8_UINT;
	switch ( sym_scenario() ) {
	case 0: run( 2, 2, 2, false, C, true, 0, false ); break;
	case 1: run( 1, 1, 3, false, C, true, 0, true ); break;
	case 2: run( 1, 2, 2, true, C, true, 0, false ); break;
	case 3: run( 2, 1, 2, false, DS, false, 0, false ); break;
	case 4: run( 2, 1, 2, false, DS, true, 1, false ); break;
	case 5: run( 1, 2, 2, false, D, true, 2, false ); break;
	case 6: run( 1, 2, 2, true, C, true, 1, true ); break;
	case 7: run( 2, 2, 3, false, C, true, 0, false ); break;
	case 8: run( 3, 3, 2, false, C, true, 2, true ); break;
	case 9: run( 1, 3, 3, true, C, true, 2, true ); break;
	}
}
