// C12: view comparison and extents are consistent for every range
#include "common.hpp"
using namespace hc;
namespace {
void flat() {
	ResourceHandler h; ImageId img[2]; for ( int i = 0; i < 2; ++i ) img[i] = h.createImageId( imgData( i ? "b" : "a", VK_IMAGE_TYPE_2D, VK_FORMAT_D24_UNORM_S8_UINT, { 64, 64, 1 }, 8, 8 ) );
	auto make = [&]( std::string const & p, ImageViewData & v, uint32_t & which ) {
		which = pickIdx( p + "img", 2 ); uint64_t types[]{ VK_IMAGE_VIEW_TYPE_2D, VK_IMAGE_VIEW_TYPE_2D_ARRAY, VK_IMAGE_VIEW_TYPE_CUBE, VK_IMAGE_VIEW_TYPE_CUBE_ARRAY, VK_IMAGE_VIEW_TYPE_1D };
		VkImageSubresourceRange r; r.aspectMask = uint32_t( sym_range( ( p + "asp" ).c_str(), 1, 15 ) ); r.baseArrayLayer = uint32_t( sym_bits( ( p + "bl" ).c_str(), 32 ) ); r.layerCount = uint32_t( sym_bits( ( p + "lc" ).c_str(), 32 ) ); r.baseMipLevel = uint32_t( sym_bits( ( p + "bm" ).c_str(), 32 ) ); r.levelCount = uint32_t( sym_bits( ( p + "mc" ).c_str(), 32 ) );
		v = ImageViewData{ p, img[which], uint32_t( sym_range( ( p + "flags" ).c_str(), 0, 3 ) ), VkImageViewType( sym_oneof( ( p + "type" ).c_str(), types, 5 ) ), VkFormat( sym_range( ( p + "fmt" ).c_str(), 0, 200 ) ), r }; };
	ImageViewData a, b; uint32_t ia, ib; make( "a", a, ia ); make( "b", b, ib );
	auto & x = a.info.subresourceRange; auto & y = b.info.subresourceRange;
	bool same = ia == ib && a.info.flags == b.info.flags && a.info.format == b.info.format && ( x.aspectMask & y.aspectMask ) != 0 && x.baseArrayLayer == y.baseArrayLayer && x.layerCount == y.layerCount && x.baseMipLevel == y.baseMipLevel && x.levelCount == y.levelCount;
	bool m = match( a, b ); sym_check( m == same, "views match although they name different subresources, or the reverse" ); sym_check( match( b, a ) == m, "view comparison is not symmetric" ); sym_check( match( a, a ), "a view does not match itself" ); sym_reach( m ? "match" : "differ" ); sym_obs( m );
}
// a volume: whole levels as 3D, slices of one level as 2D array
void volume( uint32_t D, uint32_t M ) {
	ResourceHandler h; auto img = h.createImageId( imgData( "v", VK_IMAGE_TYPE_3D, VK_FORMAT_R8G8B8A8_UNORM, { 64, 64, D }, M, 1 ) ); auto slices = [&]( uint32_t m ) { return ( D >> m ) ? ( D >> m ) : 1u; };
	auto make = [&]( std::string const & p, ImageViewData & v, bool & is3d ) {
		is3d = flag( p + "3d" ); VkImageSubresourceRange r = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 ); r.baseMipLevel = pickIdx( p + "m", M );
		if ( is3d ) { r.levelCount = uint32_t( sym_range( ( p + "mc" ).c_str(), 1, M ) ); sym_assume( r.baseMipLevel + r.levelCount <= M ); } else { subRange( p + "s", D, r.baseArrayLayer, r.layerCount ); sym_assume( r.baseArrayLayer + r.layerCount <= slices( r.baseMipLevel ) ); }
		v = viewData( p.c_str(), img, is3d ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ); };
	ImageViewData a, b; bool a3, b3; make( "a", a, a3 ); make( "b", b, b3 );
	auto covers = [&]( ImageViewData const & v, bool is3d, uint32_t s, uint32_t m ) { auto & r = v.info.subresourceRange; if ( m < r.baseMipLevel || m >= r.baseMipLevel + r.levelCount ) return false; return is3d || ( s >= r.baseArrayLayer && s < r.baseArrayLayer + r.layerCount ); };
	bool same = true; for ( uint32_t m = 0; m < M; ++m ) for ( uint32_t s = 0; s < slices( m ); ++s ) same = same & ( covers( a, a3, s, m ) == covers( b, b3, s, m ) );
	bool m = match( a, b ); sym_check( m == same, "2D-array and 3D expressions of a volume disagree" ); sym_check( match( b, a ) == m && match( a, a ) && match( b, b ), "volume view comparison is not symmetric or reflexive" ); if ( m && a3 != b3 ) sym_reach( "volume-match" ); sym_obs( m );
	if ( a3 ) { auto v = getVirtualRange( img, VK_IMAGE_VIEW_TYPE_3D, a.info.subresourceRange ); sym_check( v.baseArrayLayer == 0 && v.layerCount == slices( a.info.subresourceRange.baseMipLevel ) && v.baseMipLevel == a.info.subresourceRange.baseMipLevel && v.levelCount == a.info.subresourceRange.levelCount, "virtual range of a volume is not its slices" ); }
	else { auto v = getVirtualRange( img, VK_IMAGE_VIEW_TYPE_2D_ARRAY, a.info.subresourceRange ); sym_check( v.baseArrayLayer == a.info.subresourceRange.baseArrayLayer && v.layerCount == a.info.subresourceRange.layerCount, "virtual range of slices is changed" ); }
}
void extents() {
	ResourceHandler h; VkExtent3D e; e.width = uint32_t( sym_bits( "w", 32 ) ); e.height = uint32_t( sym_bits( "h", 32 ) ); e.depth = uint32_t( sym_bits( "d", 32 ) ); sym_assume( e.width && e.height && e.depth );
	uint32_t mips = uint32_t( sym_range( "mips", 1, 32 ) ), layers = uint32_t( sym_bits( "layers", 32 ) ); auto img = h.createImageId( imgData( "v", VK_IMAGE_TYPE_3D, VK_FORMAT_R8G8B8A8_UNORM, e, mips, layers ) );
	uint32_t m = uint32_t( sym_range( "m", 0, 31 ) ), mc = uint32_t( sym_range( "mc", 1, 32 ) ), lc = uint32_t( sym_bits( "lc", 32 ) ); sym_assume( m + mc <= mips ); auto v = h.createViewId( viewData( "x", img, VK_IMAGE_VIEW_TYPE_3D, rng( 1, m, mc, 0, lc ) ) );
	auto one = []( uint64_t x, uint32_t s ) { uint64_t r = x >> s; return r ? r : 1; };
	auto g = getMipExtent( v ); sym_check( g.width == one( e.width, m ) && g.height == one( e.height, m ) && g.depth == one( e.depth, m ), "the extent of a view is not that of its base level, at least one texel" );
	auto f = getExtent( v ); auto f2 = getExtent( img ); sym_check( f.width == e.width && f.height == e.height && f.depth == e.depth && f2.width == e.width && f2.height == e.height && f2.depth == e.depth, "the extent of an image is not the one it was made with" );
	sym_check( getMipLevels( v ) == mc && getMipLevels( img ) == mips && getArrayLayers( v ) == lc && getArrayLayers( img ) == layers && getFormat( v ) == VK_FORMAT_R8G8B8A8_UNORM && getFormat( img ) == VK_FORMAT_R8G8B8A8_UNORM && getImageType( v ) == VK_IMAGE_TYPE_3D && getImageType( img ) == VK_IMAGE_TYPE_3D, "counts of a view or image are wrong" ); sym_reach( "extent" ); sym_obs( g.width );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: flat(); break; case 1: volume( 4, 3 ); break; case 2: extents(); break; case 3: volume( 1, 2 ); break; case 4: volume( 8, 4 ); break; } }
