// C03: tracked image states behave like a per-subresource map
#include "common.hpp"
using namespace hc;
namespace {
struct Cell { bool set{}; LayoutState s{}; };
std::vector< VkImageLayout > const Lays{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL };
std::string nm( char const * a, uint32_t i ) { return std::string( a ) + std::to_string( i ); }
// what a range query must give, from the per-subresource map
void judge( LayoutState const & got, std::vector< Cell const * > const & cells, char const * what ) {
	bool any = false, allSame = true, sameLayout = true, oneOf = false; LayoutState first{}; uint32_t acc = 0, stg = 0;
	for ( auto c : cells ) { bool isSet = c->set; if ( isSet ) { if ( !any ) { first = c->s; any = true; } else { allSame = allSame && c->s == first; sameLayout = sameLayout && c->s.layout == first.layout; } oneOf = oneOf || c->s.layout == got.layout; acc |= c->s.state.access; stg |= c->s.state.pipelineStage; } }
	if ( !any ) { sym_check( got.layout == VK_IMAGE_LAYOUT_UNDEFINED, "a range never updated is not reported as undefined" ); sym_reach( "never-set" ); return; }
	sym_check( oneOf, what );
	if ( sameLayout ) sym_check( got.layout == first.layout && got.state.access == acc, what );
	if ( sameLayout ) sym_check( got.state.pipelineStage == stg, "stages of a range whose subresources share the layout are lost" );
	if ( allSame ) { sym_check( got == first, what ); sym_reach( "uniform" ); }
	sym_obs( got.layout );
}
// two images, arrays and mips
template< typename SetF, typename GetF > void plain( uint32_t L, uint32_t M, uint32_t ops, ImageId const ( &img )[2], SetF set, GetF get ) {
	std::vector< Cell > cells[2]; cells[0].resize( L * M ); cells[1].resize( L * M );
	for ( uint32_t k = 0; k < ops; ++k ) {
		auto p = nm( "u", k ); bool second = k + 1 < ops ? false : sym_range( ( p + "img" ).c_str(), 0, 1 ); auto r = symRange( p, L, M ); auto s = symState( p, Lays ); uint32_t i = second ? 1 : 0;
		set( img[i], VK_IMAGE_VIEW_TYPE_2D_ARRAY, r, s );
		for ( uint32_t l = 0; l < L; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( l >= r.baseArrayLayer && l < r.baseArrayLayer + r.layerCount && m >= r.baseMipLevel && m < r.baseMipLevel + r.levelCount ) cells[i][l * M + m] = { true, s };
	}
	auto r = symRange( "q", L, M ); uint32_t i = sym_range( "qimg", 0, 1 ) ? 1 : 0; auto got = get( img[i], VK_IMAGE_VIEW_TYPE_2D_ARRAY, r );
	std::vector< Cell const * > in; for ( uint32_t l = 0; l < L; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( l >= r.baseArrayLayer && l < r.baseArrayLayer + r.layerCount && m >= r.baseMipLevel && m < r.baseMipLevel + r.levelCount ) in.push_back( &cells[i][l * M + m] );
	judge( got, in, "state of a range is not the one last stored for its subresources" );
}
// one volume, ranges expressed as 3D (whole depth of the levels) or as 2D-array slices
void volume( ImageId img, uint32_t D, uint32_t M, uint32_t ops ) {
	LayerLayoutStatesHandler h; std::vector< Cell > cells( D * M );
	auto slices = [&]( uint32_t m ) { uint32_t d = D >> m; return d ? d : 1u; };
	auto pick = [&]( std::string const & p, VkImageViewType & t, VkImageSubresourceRange & r ) {
		bool is3d = sym_range( ( p + "3d" ).c_str(), 0, 1 ); r = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 );
		if ( is3d ) { t = VK_IMAGE_VIEW_TYPE_3D; subRange( p + "m", M, r.baseMipLevel, r.levelCount ); }
		else { t = VK_IMAGE_VIEW_TYPE_2D_ARRAY; r.baseMipLevel = uint32_t( sym_range( ( p + "mb" ).c_str(), 0, M - 1 ) ); subRange( p + "s", D, r.baseArrayLayer, r.layerCount ); for ( uint32_t m = 0; m < M; ++m ) if ( r.baseMipLevel == m ) sym_assume( r.baseArrayLayer + r.layerCount <= slices( m ) ); }
		return is3d; };
	auto inside = [&]( bool is3d, VkImageSubresourceRange const & r, uint32_t s, uint32_t m ) { if ( m < r.baseMipLevel || m >= r.baseMipLevel + r.levelCount ) return false; return is3d ? s < slices( m ) : ( s >= r.baseArrayLayer && s < r.baseArrayLayer + r.layerCount ); };
	for ( uint32_t k = 0; k < ops; ++k ) { VkImageViewType t; VkImageSubresourceRange r; bool d3 = pick( nm( "u", k ), t, r ); auto s = symState( nm( "u", k ), Lays ); h.setLayoutState( img, t, r, s ); for ( uint32_t l = 0; l < D; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( inside( d3, r, l, m ) ) cells[l * M + m] = { true, s }; }
	VkImageViewType t; VkImageSubresourceRange r; bool d3 = pick( "q", t, r ); auto got = h.getLayoutState( img, t, r );
	std::vector< Cell const * > in; for ( uint32_t l = 0; l < D; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( inside( d3, r, l, m ) ) in.push_back( &cells[l * M + m] );
	judge( got, in, "state of a volume range is not the one last stored for its subresources" ); sym_reach( "volume" );
}
void merge( ImageId const ( &img )[2], uint32_t L, uint32_t M ) {
	LayerLayoutStatesHandler h[2], m; std::vector< Cell > c[2][2]; for ( auto & x : c ) for ( auto & y : x ) y.resize( L * M );
	for ( uint32_t k = 0; k < 2; ++k ) { auto p = nm( "g", k ); uint32_t i = k == 0 ? 0u : ( sym_range( ( p + "img" ).c_str(), 0, 1 ) ? 1u : 0u ); auto r = symRange( p, L, M ); auto s = symState( p, Lays ); h[k].setLayoutState( img[i], VK_IMAGE_VIEW_TYPE_2D_ARRAY, r, s ); for ( uint32_t l = 0; l < L; ++l ) for ( uint32_t n = 0; n < M; ++n ) if ( l >= r.baseArrayLayer && l < r.baseArrayLayer + r.layerCount && n >= r.baseMipLevel && n < r.baseMipLevel + r.levelCount ) c[k][i][l * M + n] = { true, s }; }
	m.addStates( h[0] ); m.addStates( h[1] );
	for ( uint32_t i = 0; i < 2; ++i ) for ( uint32_t l = 0; l < L; ++l ) for ( uint32_t n = 0; n < M; ++n ) {
		auto got = m.getLayoutState( img[i], VK_IMAGE_VIEW_TYPE_2D_ARRAY, rng( VK_IMAGE_ASPECT_COLOR_BIT, n, 1, l, 1 ) ); auto & a = c[0][i][l * M + n]; auto & b = c[1][i][l * M + n];
		if ( a.set ) sym_check( got == a.s, "merging lost the state of the first graph" ); else if ( b.set ) { sym_check( got == b.s, "merging lost the state of a subresource only the second graph knows" ); sym_reach( "second-only" ); } else sym_check( got.layout == VK_IMAGE_LAYOUT_UNDEFINED, "merging invented a state" ); }
}
}
extern "C" void sym_main() {
	ResourceHandler handler; auto fmt = VK_FORMAT_R8G8B8A8_UNORM;
	ImageId const a2[2]{ handler.createImageId( imgData( "a", VK_IMAGE_TYPE_2D, fmt, { 16, 16, 1 }, 4, 4 ) ), handler.createImageId( imgData( "b", VK_IMAGE_TYPE_2D, fmt, { 16, 16, 1 }, 4, 4 ) ) };
	LayerLayoutStatesHandler h;
	auto hs = [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r, LayoutState s ) { h.setLayoutState( i, t, r, s ); }; auto hg = [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r ) { return h.getLayoutState( i, t, r ); };
	switch ( sym_scenario() ) {
	case 0: plain( 2, 2, 2, a2, hs, hg ); break;
	case 1: plain( 4, 1, 2, a2, hs, hg ); break;
	case 2: plain( 1, 4, 2, a2, hs, hg ); break;
	case 3: volume( handler.createImageId( imgData( "v", VK_IMAGE_TYPE_3D, fmt, { 8, 8, 4 }, 2, 1 ) ), 4, 2, 2 ); break;
	case 4: volume( handler.createImageId( imgData( "v", VK_IMAGE_TYPE_3D, fmt, { 8, 8, 2 }, 4, 1 ) ), 2, 4, 2 ); break;
	case 5: merge( a2, 2, 2 ); break;
	case 6: { RecordContext rc{ handler }; plain( 2, 2, 2, a2, [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r, LayoutState s ) { rc.setLayoutState( handler.createViewId( viewData( "x", i, t, r ) ), s ); }, [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r ) { return rc.getLayoutState( i, t, r ); } ); break; }
	case 7: { FrameGraph g{ handler, "g" }; plain( 2, 2, 2, a2, [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r, LayoutState s ) { g.addInput( i, t, r, s ); }, [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r ) { return g.getInputLayoutState( i, t, r ); } ); break; }
	case 8: { FrameGraph g{ handler, "g" }; plain( 2, 2, 2, a2, [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r, LayoutState s ) { g.addOutput( i, t, r, s ); }, [&]( ImageId i, VkImageViewType t, VkImageSubresourceRange r ) { return g.getOutputLayoutState( i, t, r ); } ); break; }
	case 9: plain( 3, 1, 3, a2, hs, hg ); break;
	case 10: plain( 3, 2, 2, a2, hs, hg ); break;
	case 11: plain( 3, 3, 2, a2, hs, hg ); break;
	case 12: plain( 2, 2, 3, a2, hs, hg ); break;
	}
}
