// C06: a pass always executes with its attachments in the declared layouts (and its inputs' contents)
#include "flow.hpp"
using namespace flow;
namespace {
std::vector< uint32_t > const Colour{ Sampled, OutStorage, InOutStorage, TransIn, TransOut, OutColour, InOutColour, InColour, InStorage, ClearStorage, Implicit }, Basic{ Sampled, OutStorage, InOutColour, TransOut }, Depth{ SampledDs, OutDs, InOutDs, InDs, TransOut, TransIn };
// n passes in a chain, each using one view of the image (or two, of two images), recorded several times
void chain( uint32_t n, uint32_t L, uint32_t M, std::vector< uint32_t > const & kinds, uint32_t recordings, bool inputs, bool toggles, VkFormat fmt = VK_FORMAT_R8G8B8A8_UNORM, bool firstWrites = false )
{
	Flow f; FrameGraph g{ f.h, "g" }; auto & img = f.image( "i", L, M, fmt ); bool on[4]; FramePass * prev{}; std::vector< Flow::Use > uses;
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = "p" + std::to_string( i ); uint32_t kind = i == 0 && firstWrites ? kinds[1] : kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; auto r = i == 0 && firstWrites ? rng( getAspectMask( fmt ), 0, M, 0, L ) : symRange( s, L, M, getAspectMask( fmt ) ); if ( target( kind ) ) sym_assume( r.levelCount == 1 );
		auto v = f.h.createViewId( viewData( s.c_str(), img.id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) ); uses.push_back( { &img, kind, r } );
		auto & p = g.createPass( s, f.creator( i, { uses.back() }, [&on, i]() { return on[i]; } ) ); declare( p, kind, v, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; on[i] = true; }
	auto in = inputs ? forkIdx( "input", 3 ) : 0u; VkImageSubresourceRange inR = rng( getAspectMask( fmt ), 0, M, 0, in == 2 ? 1 : L ); VkImageLayout inL = VK_IMAGE_LAYOUT_GENERAL;
	if ( in ) g.addInput( img.id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, inR, makeLayoutState( inL ) );
	auto run = g.compile( *f.ctx );
	for ( uint32_t k = 0; k < recordings; ++k ) {
		if ( in ) img.outside( inR, inL, 1 );
		for ( uint32_t i = 0; i < n; ++i ) { on[i] = !toggles || forkIdx( "on" + std::to_string( i ) + std::to_string( k ), 2 ); if ( on[i] ) f.expected.push_back( i ); else sym_reach( "disabled" ); }
		f.run( *run, g ); }
	sym_obs( fk::w().cmds.size() );
}
// passes using two images at once, and views merged from two others
void pairs( uint32_t n, uint32_t L, uint32_t recordings, bool merged )
{
	Flow f; FrameGraph g{ f.h, "g" }; Image * img[2]{ &f.image( "a", L, 1 ), &f.image( "b", L, 1 ) }; bool on[4]; FramePass * prev{};
	for ( uint32_t i = 0; i < n; ++i ) {
		auto s = "p" + std::to_string( i ); uint32_t first = merged ? 0 : forkIdx( s + "first", 2 ); static uint32_t const A[]{ Sampled, InColour, TransIn }, B[]{ OutStorage, OutColour, InOutColour, InOutStorage };
		std::vector< Flow::Use > uses; std::vector< ImageViewIdArray > src; uint32_t ka = A[forkIdx( s + "reads", merged ? 2 : 3 )], kb = B[forkIdx( s + "writes", 4 )];
		auto ra = symRange( s + "r", L, 1 ); uses.push_back( { img[first], ka, ra } ); src.push_back( { f.h.createViewId( viewData( "r", img[first]->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, ra ) ) } );
		if ( merged ) { auto rb = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 ); rb.baseArrayLayer = uint32_t( sym_range( ( s + "next" ).c_str(), 0, L - 1 ) ); sym_assume( rb.baseArrayLayer == ra.baseArrayLayer + ra.layerCount ); uses.push_back( { img[0], ka, rb } ); src[0].push_back( f.h.createViewId( viewData( "n", img[0]->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, rb ) ) ); }
		uint32_t other = merged ? ( i == 0 ? 0 : 1 ) : 1 - first; bool both = !( merged && i == 0 );
		auto rw = both ? symRange( s + "w", L, 1 ) : rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 );
		if ( merged && i == 0 ) { uses.clear(); src.clear(); rw = symRange( s + "w", L, 1 ); }
		uses.push_back( { img[other], kb, rw } ); auto w = f.h.createViewId( viewData( "w", img[other]->id, VK_IMAGE_VIEW_TYPE_2D_ARRAY, rw ) );
		auto & p = g.createPass( s, f.creator( i, uses, [&on, i]() { return on[i]; } ) );
		for ( auto & v : src ) declare( p, ka, v.size() == 1 ? v[0] : p.mergeViews( v ), 0 ); declare( p, kb, w, 1 ); if ( prev ) p.addDependency( *prev ); prev = &p; on[i] = true; }
	auto run = g.compile( *f.ctx );
	for ( uint32_t k = 0; k < recordings; ++k ) { for ( uint32_t i = 0; i < n; ++i ) { on[i] = k == 0 || forkIdx( "on" + std::to_string( i ) + std::to_string( k ), 2 ); if ( on[i] ) f.expected.push_back( i ); } f.run( *run, g ); }
	sym_reach( merged ? "merged" : "pair" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: chain( 2, 2, 2, Colour, 1, false, false ); break;
	case 1: chain( 3, 2, 1, Basic, 1, false, true ); break;
	case 2: chain( 2, 2, 1, Basic, 2, true, true ); break;
	case 3: chain( 2, 2, 1, Depth, 1, true, false, VK_FORMAT_D24_UNORM_S8_UINT ); break;
	case 4: pairs( 2, 2, 1, false ); break;
	case 5: pairs( 2, 3, 1, true ); break;
	case 11: pairs( 2, 2, 2, false ); break; case 6: chain( 3, 2, 1, Colour, 1, false, false ); break; case 7: chain( 3, 2, 1, Basic, 2, true, true ); break; case 8: chain( 2, 3, 2, Basic, 3, true, true ); break; case 9: chain( 3, 2, 1, Depth, 1, true, false, VK_FORMAT_D24_UNORM_S8_UINT ); break; case 10: chain( 4, 2, 1, { Sampled, OutStorage, InOutColour }, 1, false, true ); break; } }
