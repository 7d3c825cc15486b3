// C09: input and output layouts cross graph boundaries correctly
#include "flow.hpp"
using namespace flow;
namespace {
VkImageLayout const Lays[]{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL };
VkImageLayout pickLayout( std::string const & n, uint32_t base, uint32_t count ) { return Lays[base + forkIdx( n, count )]; }
std::vector< uint32_t > const Basic{ Sampled, OutStorage, InOutColour }, More{ Sampled, OutStorage, InOutColour, TransOut, OutColour, InOutStorage }, Depth{ SampledDs, InOutDs, OutDs, TransIn };
VkImageSubresourceRange pickRange( Image & i, std::string const & n ) { return symRange( n, i.L, i.M, getAspectMask( i.fmt ) ); }
void passes( Flow & f, FrameGraph & g, Image & img, uint32_t first, uint32_t n, std::vector< uint32_t > const & kinds, bool * on, bool wholes = false )
{
	FramePass * prev{};
	for ( uint32_t i = first; i < first + n; ++i ) {
		auto s = "p" + std::to_string( i ); auto kind = kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )]; auto r = wholes ? rng( getAspectMask( img.fmt ), 0, img.M, 0, img.L ) : pickRange( img, s ); if ( target( kind ) ) sym_assume( r.levelCount == 1 );
		auto v = f.h.createViewId( viewData( s.c_str(), img.id, img.vt, r ) );
		auto & p = g.createPass( s, f.creator( i, { { &img, kind, r } }, [on, i]() { return on[i]; } ) ); declare( p, kind, v, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; on[i] = true; }
}
void toggle( Flow & f, uint32_t first, uint32_t n, bool * on, std::string const & t ) { for ( uint32_t i = first; i < first + n; ++i ) { on[i] = forkIdx( "on" + std::to_string( i ) + t, 2 ); if ( on[i] ) f.expected.push_back( i ); } }
// one graph with registered inputs and outputs
void single( uint32_t n, uint32_t L, uint32_t M, std::vector< uint32_t > const & kinds, uint32_t inputs, uint32_t outs, uint32_t recordings, VkFormat fmt = VK_FORMAT_R8G8B8A8_UNORM, uint32_t depth = 1, bool wholes = false )
{
	Flow f; FrameGraph g{ f.h, "g" }; auto & img = f.image( "i", L, M, fmt, depth ); bool on[4]; struct Reg { VkImageSubresourceRange r; VkImageLayout l; }; std::vector< Reg > in, out;
	passes( f, g, img, 0, n, kinds, on, wholes );
	auto reg = [&]( std::string const & s, uint32_t base, std::vector< Reg > & to, bool view, auto byImage, auto byView ) { Reg x{ pickRange( img, s ), pickLayout( s + "layout", base, 2 ) }; to.push_back( x );
		if ( view ) byView( f.h.createViewId( viewData( s.c_str(), img.id, img.vt, x.r ) ), makeLayoutState( x.l ) ); else byImage( x.r, makeLayoutState( x.l ) ); };
	for ( uint32_t k = 0; k < inputs; ++k ) reg( "in" + std::to_string( k ), 0, in, k & 1, [&]( auto & r, LayoutState s ) { g.addInput( img.id, img.vt, r, s ); }, [&]( ImageViewId v, LayoutState s ) { g.addInput( v, s ); } );
	for ( uint32_t k = 0; k < outs; ++k ) reg( "out" + std::to_string( k ), 1, out, !( k & 1 ), [&]( auto & r, LayoutState s ) { g.addOutput( img.id, img.vt, r, s ); }, [&]( ImageViewId v, LayoutState s ) { g.addOutput( v, s ); } );
	// what is registered is given back
	for ( size_t k = 0; k < in.size(); ++k ) img.each( in[k].r, [&]( uint32_t l, uint32_t m, uint32_t ) { auto want = in[k].l; for ( size_t o = k + 1; o < in.size(); ++o ) img.each( in[o].r, [&]( uint32_t a, uint32_t b, uint32_t ) { if ( ( a == l ) & ( b == m ) ) want = in[o].l; } );
		sym_check( g.getInputLayoutState( img.id, img.vt, rng( getAspectMask( fmt ), m, 1, l, 1 ) ).layout == want, "a registered input layout is not given back" ); } );
	auto run = g.compile( *f.ctx );
	for ( uint32_t t = 0; t < recordings; ++t ) {
		for ( auto & x : in ) { img.outside( x.r, x.l, 1 ); sym_reach( "input" ); }
		toggle( f, 0, n, on, std::to_string( t ) ); f.run( *run, g );
		for ( size_t k = 0; k < out.size(); ++k ) img.each( out[k].r, [&]( uint32_t l, uint32_t m, uint32_t ) { auto want = out[k].l; for ( size_t o = k + 1; o < out.size(); ++o ) img.each( out[o].r, [&]( uint32_t a, uint32_t b, uint32_t ) { if ( ( a == l ) & ( b == m ) ) want = out[o].l; } );
			auto is = img.layout( l, m ); if ( is != VK_IMAGE_LAYOUT_UNDEFINED ) { sym_check( is == want, "a view is not left in its registered output layout" ); sym_reach( "output" ); } } ); }
}
// graphs depending on each other, recorded in that order; shape 0: g1 - g2 - g3 chain, 1: g3 depends on both, 2: g3 depends on both, the other way round
void several( uint32_t graphs, uint32_t shape, uint32_t perGraph, uint32_t L, std::vector< uint32_t > const & kinds, bool outs )
{
	Flow f; auto & img = f.image( "i", L, 1 ); bool on[8]; std::vector< std::unique_ptr< FrameGraph > > gs; std::vector< RunnableGraphPtr > rs; VkImageLayout out{}; VkImageSubresourceRange outR{};
	for ( uint32_t k = 0; k < graphs; ++k ) { gs.push_back( std::make_unique< FrameGraph >( f.h, "g" + std::to_string( k ) ) ); auto & g = *gs.back(); passes( f, g, img, k * perGraph, perGraph, kinds, on );
		if ( k == 1 || ( k == 2 && shape == 0 ) ) g.addDependency( *gs[k - 1] ); if ( k == 2 && shape == 1 ) { g.addDependency( *gs[0] ); g.addDependency( *gs[1] ); } if ( k == 2 && shape == 2 ) { g.addDependency( *gs[1] ); g.addDependency( *gs[0] ); }
		if ( outs && k == 0 ) { outR = pickRange( img, "out" ); out = pickLayout( "outlayout", 1, 2 ); g.addOutput( img.id, img.vt, outR, makeLayoutState( out ) ); } }
	for ( auto & g : gs ) rs.push_back( g->compile( *f.ctx ) );
	for ( uint32_t k = 0; k < graphs; ++k ) { toggle( f, k * perGraph, perGraph, on, "" ); f.run( *rs[k], *gs[k] ); if ( k == 0 && outs ) f.outputs( img, outR, out ); if ( k ) sym_reach( "next-graph" ); }
}
// two graphs ping-ponging an image: each one declares what the other leaves as its input
void exchange( std::vector< uint32_t > const & kinds, uint32_t rounds )
{
	Flow f; auto & img = f.image( "i", 1, 1 ); bool on[4]; FrameGraph a{ f.h, "a" }, b{ f.h, "b" }; auto whole = rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 );
	passes( f, a, img, 0, 1, kinds, on ); passes( f, b, img, 1, 1, kinds, on ); auto la = pickLayout( "la", 0, 3 ), lb = pickLayout( "lb", 0, 3 );
	a.addInput( img.id, img.vt, whole, makeLayoutState( lb ) ); a.addOutput( img.id, img.vt, whole, makeLayoutState( la ) ); b.addInput( img.id, img.vt, whole, makeLayoutState( la ) ); b.addOutput( img.id, img.vt, whole, makeLayoutState( lb ) );
	auto ra = a.compile( *f.ctx ), rb = b.compile( *f.ctx ); img.outside( whole, lb, 1 );
	for ( uint32_t t = 0; t < rounds; ++t ) { toggle( f, 0, 1, on, std::to_string( t ) ); f.run( *ra, a ); f.outputs( img, whole, la ); toggle( f, 1, 1, on, std::to_string( t ) ); f.run( *rb, b ); f.outputs( img, whole, lb ); }
	sym_reach( "exchange" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: single( 1, 2, 2, { Sampled, OutStorage, InOutColour, TransOut }, 1, 1, 1 ); break;
	case 1: single( 2, 2, 1, Basic, 1, 1, 1 ); break;
	case 2: single( 1, 2, 1, Basic, 1, 1, 2 ); break;
	case 3: single( 1, 3, 1, { Sampled, OutColour }, 2, 2, 1, VK_FORMAT_R8G8B8A8_UNORM, 1, true ); break;
	case 4: single( 1, 2, 1, Depth, 1, 1, 1, VK_FORMAT_D24_UNORM_S8_UINT ); break;
	case 5: several( 2, 0, 1, 2, More, true ); break;
	case 6: several( 3, 0, 1, 2, Basic, false ); break;
	case 7: several( 3, 1, 1, 1, Basic, false ); break;
	case 8: several( 3, 2, 1, 1, Basic, false ); break;
	case 9: exchange( { Sampled, OutStorage, InOutColour, TransOut }, 2 ); break;
	case 10: single( 1, 1, 2, { Sampled, OutStorage, TransOut }, 1, 1, 1, VK_FORMAT_R8G8B8A8_UNORM, 2 ); break;
	case 11: single( 2, 2, 1, More, 1, 1, 2 ); break; case 12: single( 2, 2, 2, Basic, 1, 1, 1 ); break; case 13: single( 1, 2, 2, More, 2, 2, 1 ); break; case 14: several( 3, 1, 1, 2, Basic, true ); break; case 15: several( 2, 0, 2, 2, Basic, true ); break; } }
