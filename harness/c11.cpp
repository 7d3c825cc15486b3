// C11: a merged view spans exactly its sources
#include "common.hpp"
using namespace hc;
namespace {
// a source view: any range of the image, with a view type able to hold it
struct Src { ImageViewId id; uint32_t l0, l1, m0, m1; };
Src source( ResourceHandler & h, ImageId img, std::string const & n, VkImageType type, bool cube, uint32_t layers, uint32_t mips, VkFormat fmt, uint32_t comp )
{
	auto r = symRange( n, layers, mips );
	VkImageViewType vt{};
	if ( type == VK_IMAGE_TYPE_3D ) { vt = VK_IMAGE_VIEW_TYPE_3D; r.baseArrayLayer = 0; r.layerCount = 1; }
	else if ( type == VK_IMAGE_TYPE_1D ) { vt = forkIdx( n + "t", 2 ) ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D; if ( vt == VK_IMAGE_VIEW_TYPE_1D ) sym_assume( r.layerCount == 1 ); }
	else switch ( forkIdx( n + "t", cube ? 4 : 2 ) ) {
	case 0: vt = VK_IMAGE_VIEW_TYPE_2D; sym_assume( r.layerCount == 1 ); break;
	case 1: vt = VK_IMAGE_VIEW_TYPE_2D_ARRAY; break;
	case 2: vt = VK_IMAGE_VIEW_TYPE_CUBE; sym_assume( r.layerCount == 6 ); break;
	default: vt = VK_IMAGE_VIEW_TYPE_CUBE_ARRAY; sym_assume( ( r.layerCount == 6 ) | ( r.layerCount == 12 ) ); break; }
	auto d = viewData( n.c_str(), img, vt, r );
	d.info.format = fmt;
	d.info.components.r = VkComponentSwizzle( comp );
	return { h.createViewId( d ), r.baseArrayLayer, r.baseArrayLayer + r.layerCount, r.baseMipLevel, r.baseMipLevel + r.levelCount };
}
bool holds( VkImageViewType t, VkImageType type, bool cube, uint32_t base, uint32_t count )
{
	switch ( t ) {
	case VK_IMAGE_VIEW_TYPE_1D: return ( type == VK_IMAGE_TYPE_1D ) & ( count == 1 );
	case VK_IMAGE_VIEW_TYPE_1D_ARRAY: return type == VK_IMAGE_TYPE_1D;
	case VK_IMAGE_VIEW_TYPE_2D: return ( type == VK_IMAGE_TYPE_2D ) & ( count == 1 );
	case VK_IMAGE_VIEW_TYPE_2D_ARRAY: return type == VK_IMAGE_TYPE_2D;
	case VK_IMAGE_VIEW_TYPE_CUBE: return ( type == VK_IMAGE_TYPE_2D ) & cube & ( count == 6 );
	case VK_IMAGE_VIEW_TYPE_CUBE_ARRAY: return ( type == VK_IMAGE_TYPE_2D ) & cube & ( count % 6 == 0 );
	case VK_IMAGE_VIEW_TYPE_3D: return type == VK_IMAGE_TYPE_3D;
	default: return false; }
}
bool same( ImageViewIdArray const & a, ImageViewIdArray const & b ) { if ( a.size() != b.size() ) return false; for ( size_t i = 0; i < a.size(); ++i ) if ( a[i].id != b[i].id ) return false; return true; }
// what merging these views must give
void check( ImageViewId m, std::vector< Src > const & s, VkImageType type, bool cube, bool mergeMips, bool mergeLayers, ImageId img )
{
	auto & d = *m.data; auto & first = *s[0].id.data; auto & r = d.info.subresourceRange;
	sym_check( d.image.id == img.id && d.image.data == img.data, "a merged view is on another image" );
	sym_check( ( d.info.format == first.info.format ) & ( d.info.components.r == first.info.components.r ) & ( d.info.flags == first.info.flags ) & ( r.aspectMask == first.info.subresourceRange.aspectMask ), "a merged view has another format, mapping or aspect" );
	uint32_t l0 = s[0].l0, l1 = s[0].l1, m0 = s[0].m0, m1 = s[0].m1;
	for ( auto & x : s ) { l0 = x.l0 < l0 ? x.l0 : l0; l1 = x.l1 > l1 ? x.l1 : l1; m0 = x.m0 < m0 ? x.m0 : m0; m1 = x.m1 > m1 ? x.m1 : m1; }
	if ( !mergeMips && s.size() > 1 ) m1 = m0 + 1;
	if ( !mergeLayers && s.size() > 1 ) l1 = l0 + 1;
	sym_check( ( r.baseArrayLayer == l0 ) & ( r.layerCount == l1 - l0 ), "a merged view does not start and end with the layers of its sources" );
	sym_check( ( r.baseMipLevel == m0 ) & ( r.levelCount == m1 - m0 ), "a merged view does not start and end with the levels of its sources" );
	sym_check( holds( d.info.viewType, type, cube, r.baseArrayLayer, r.layerCount ), "a merged view has a type unable to hold its layers" );
	for ( uint32_t i = 0; i < s.size(); ++i ) sym_check( resolveView( m, i ).id == s[i].id.id, "a source of a merged view is not reachable by its index" );
}
void merge( uint32_t count, VkImageType type, bool cube, uint32_t layers, uint32_t mips, bool flags )
{
	ResourceHandler h; Log log; FrameGraph g{ h, "g" };
	auto fmt = VkFormat( sym_bits( "format", 32 ) ); auto comp = uint32_t( sym_range( "comp", 0, 6 ) );
	auto id = imgData( "img", type, fmt, { 64, type == VK_IMAGE_TYPE_1D ? 1u : 64u, type == VK_IMAGE_TYPE_3D ? 4u : 1u }, mips, layers, VK_IMAGE_USAGE_SAMPLED_BIT );
	if ( cube ) id.info.flags = VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT;
	auto img = h.createImageId( id );
	auto & p = g.createPass( "p", marker( 0, log ) );
	std::vector< Src > s; ImageViewIdArray ids;
	for ( uint32_t i = 0; i < count; ++i ) { s.push_back( source( h, img, "s" + std::to_string( i ), type, cube, layers, mips, fmt, comp ) ); ids.push_back( s.back().id ); }
	bool mm = !flags || forkIdx( "mips", 2 ), ml = !flags || forkIdx( "layers", 2 );
	auto m = p.mergeViews( ids, mm, ml );
	check( m, s, type, cube, mm, ml, img );
	sym_check( p.mergeViews( ids, mm, ml ).id == m.id, "the same merge gives another view" );
	auto & q = g.createPass( "q", marker( 1, log ) );
	sym_check( q.mergeViews( ids, mm, ml ).id == m.id, "the same merge by another pass gives another view" );
	sym_reach( m.data->info.viewType == VK_IMAGE_VIEW_TYPE_CUBE || m.data->info.viewType == VK_IMAGE_VIEW_TYPE_CUBE_ARRAY ? "cube" : "merged" );
}
// the same range reached by merging two sets of views, and by a view made directly, in any order
void twice( uint32_t layers )
{
	ResourceHandler h; Log log; FrameGraph g{ h, "g" };
	auto img = h.createImageId( imgData( "img", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 64, 64, 1 }, 1, layers, VK_IMAGE_USAGE_SAMPLED_BIT ) );
	auto & p = g.createPass( "p", marker( 0, log ) );
	std::vector< Src > a, b; ImageViewIdArray ia, ib;
	auto one = [&]( std::string n ) { auto r = symRange( n, layers, 1 ); return Src{ h.createViewId( viewData( n.c_str(), img, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) ), r.baseArrayLayer, r.baseArrayLayer + r.layerCount, 0, 1 }; };
	for ( int i = 0; i < 2; ++i ) { a.push_back( one( "a" + std::to_string( i ) ) ); ia.push_back( a.back().id ); b.push_back( one( "b" + std::to_string( i ) ) ); ib.push_back( b.back().id ); }
	bool before = forkIdx( "before", 2 ); auto r = symRange( "d", layers, 1 ); auto direct = viewData( "direct", img, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ); ImageViewId d{};
	if ( before ) d = h.createViewId( direct );
	auto ma = p.mergeViews( ia ), mb = p.mergeViews( ib );
	if ( !before ) d = h.createViewId( direct );
	check( ma, a, VK_IMAGE_TYPE_2D, false, true, true, img ); check( mb, b, VK_IMAGE_TYPE_2D, false, true, true, img );
	sym_check( ( ma.id == mb.id ) == same( ia, ib ), "merges of different views give the same one, or the same merge gives two" );
	for ( uint32_t i = 0; i < 2; ++i ) sym_check( resolveView( d, i ).id == d.id, "a view made directly stands for the sources of a merged one" );
	sym_reach( "twice" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: merge( 2, VK_IMAGE_TYPE_2D, true, 18, 3, true ); break; case 1: merge( 2, VK_IMAGE_TYPE_2D, false, 4, 4, true ); break; case 2: merge( 1, VK_IMAGE_TYPE_2D, true, 12, 2, true ); break; case 3: merge( 3, VK_IMAGE_TYPE_1D, false, 8, 4, false ); break;
	case 4: merge( 2, VK_IMAGE_TYPE_3D, false, 1, 4, true ); break; case 5: twice( 3 ); break; case 6: merge( 3, VK_IMAGE_TYPE_2D, true, 18, 3, false ); break; case 7: twice( 8 ); break; } }
