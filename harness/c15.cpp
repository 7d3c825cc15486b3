// C15: copies and blits move exactly the attached ranges
#include "common.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
using namespace hc;
namespace {
using R = VkImageSubresourceRange;
uint32_t const Layers = 3, Mips = 2;
// an image with a view on any of its sub-ranges
struct Img {
	ImageId img; ImageViewId view; R r{};
	Img( ResourceHandler & h, std::string const & n, VkFormat f, uint32_t layers = Layers, uint32_t mips = Mips, VkImageType t = VK_IMAGE_TYPE_2D )
	{
		img = h.createImageId( imgData( n.c_str(), t, f, { 16, 8, t == VK_IMAGE_TYPE_3D ? 4u : 1u }, mips, layers, VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT ) );
		r = symRange( n, layers, mips, getAspectMask( f ) );
		view = h.createViewId( viewData( ( n + "v" ).c_str(), img, t == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) );
	}
};
VkFormat symFormat( char const * n ) { return forkIdx( n, 2 ) ? VK_FORMAT_D24_UNORM_S8_UINT : VK_FORMAT_R8G8B8A8_UNORM; }
bool same( VkImageSubresourceLayers const & l, R const & r ) { return ( l.aspectMask == r.aspectMask ) & ( l.mipLevel == r.baseMipLevel ) & ( l.baseArrayLayer == r.baseArrayLayer ) & ( l.layerCount == r.layerCount ); }
bool same( VkOffset3D const & a, VkOffset3D const & b ) { return ( a.x == b.x ) & ( a.y == b.y ) & ( a.z == b.z ); }
bool same( VkExtent3D const & a, VkExtent3D const & b ) { return ( a.width == b.width ) & ( a.height == b.height ) & ( a.depth == b.depth ); }
VkOffset3D symOffset( std::string const & n ) { return { int32_t( sym_range( ( n + "x" ).c_str(), 0, 1 << 30 ) ), int32_t( sym_range( ( n + "y" ).c_str(), 0, 1 << 30 ) ), int32_t( sym_range( ( n + "z" ).c_str(), 0, 1 << 30 ) ) }; }
VkExtent3D symExtent( std::string const & n ) { return { uint32_t( sym_range( ( n + "w" ).c_str(), 0, 1 << 30 ) ), uint32_t( sym_range( ( n + "h" ).c_str(), 0, 1 << 30 ) ), uint32_t( sym_range( ( n + "d" ).c_str(), 0, 1 << 30 ) ) }; }
VkOffset3D sum( VkOffset3D const & o, VkExtent3D const & e ) { return { o.x + int32_t( e.width ), o.y + int32_t( e.height ), o.z + int32_t( e.depth ) }; }
fk::Cmd const * only( fk::CmdKind k ) { fk::Cmd const * res{}; for ( auto & x : fk::w().cmds ) if ( x.kind == k ) { sym_check( !res, "a copy is issued twice" ); res = &x; } sym_check( res, "a copy is not issued" ); return res; }
void state( R const & r, ImageId i, VkImage v, VkImageLayout l, char const * msg ) { fk::forRange( fk::raw( v ), r, [&]( uint32_t a, uint32_t m ) { sym_check( fk::layoutOf( fk::raw( v ), a, m ) == l, msg ); } ); ( void )i; }
void passes( uint32_t kind )
{
	auto ctx = fk::context();
	fk::w().on |= fk::LAYOUT;
	ResourceHandler h; Log log; FrameGraph g{ h, "g" };
	auto fmt = symFormat( "format" );
	uint32_t idx = forkIdx( "index", 2 );
	// attachments hold two views or buffers: the pass index chooses
	Img s0{ h, "s0", fmt, 1, 1 }, d0{ h, "d0", fmt, 1, 1 }, s1{ h, "s1", fmt }, d1{ h, "d1", fmt };
	auto & s = idx ? s1 : s0; auto & d = idx ? d1 : d0;
	auto o = symOffset( "o" ); auto e = symExtent( "e" ); auto o2 = symOffset( "p" ); auto e2 = symExtent( "f" );
	auto filter = VkFilter( sym_range( "filter", 0, 1 ) );
	auto fin = forkIdx( "final", 2 ) ? VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_UNDEFINED;
	ru::Config cfg{ 2 };
	VkBuffer b0 = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ), b1 = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) );
	auto boff = sym_bits( "boff", 62 ), bsize = sym_bits( "bsize", 62 );
	auto getIdx = [idx]() { return idx; };
	bool toBuf = kind == 3, fromBuf = kind == 2;
	if ( !toBuf && !fromBuf )
		sym_assume( s.r.layerCount == d.r.layerCount );
	PassOpt wo; wo.cfg = cfg; wo.index = getIdx; wo.stage = VK_PIPELINE_STAGE_TRANSFER_BIT;
	auto & wr = g.createPass( "writer", marker( 0, log, wo ) );
	if ( !fromBuf ) wr.addTransferOutputView( ImageViewIdArray{ s0.view, s1.view } );
	auto & p = g.createPass( "copy", [&]( FramePass const & fp, GraphContext & c, RunnableGraph & rg ) -> RunnablePassPtr {
		auto ic = RunnablePass::GetPassIndexCallback( getIdx );
		switch ( kind ) {
		case 0: return std::make_unique< ImageCopy >( fp, c, rg, e, fin, cfg, ic );
		case 1: return std::make_unique< ImageBlit >( fp, c, rg, o, e, o2, e2, filter, cfg, ic );
		case 2: return std::make_unique< BufferToImageCopy >( fp, c, rg, o, e, cfg, ic );
		default: return std::make_unique< ImageToBufferCopy >( fp, c, rg, o, e, cfg, ic ); } } );
	p.addDependency( wr );
	VkBufferArray bufs{ b0, b1 };
	if ( fromBuf ) p.addTransferInputBuffer( Buffer{ bufs, "b" }, boff, bsize ); else p.addTransferInputView( ImageViewIdArray{ s0.view, s1.view } );
	if ( toBuf ) p.addTransferOutputBuffer( Buffer{ bufs, "b" }, boff, bsize ); else p.addTransferOutputView( ImageViewIdArray{ d0.view, d1.view } );
	auto run = g.compile( *ctx );
	run->record();
	auto si = run->createImage( s.img ), di = run->createImage( d.img );
	auto buf = idx ? b1 : b0;
	if ( kind == 0 ) {
		auto x = only( fk::CCopyImg );
		sym_check( x->src == fk::raw( si ) && x->dst == fk::raw( di ), "an image copy does not go from the attached source to the attached destination" );
		sym_check( x->copies.size() == 1, "a copy moves several regions" ); auto & k = x->copies[0];
		sym_check( same( k.srcSubresource, s.r ) & same( k.dstSubresource, d.r ), "an image copy does not move the attached layers" );
		sym_check( same( k.srcOffset, {} ) & same( k.dstOffset, {} ) & same( k.extent, e ), "an image copy does not move the requested extent" );
		state( d.r, d.img, di, fin ? fin : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, "an image copy leaves its destination in another layout" ); }
	else if ( kind == 1 ) {
		auto x = only( fk::CBlit );
		sym_check( x->src == fk::raw( si ) && x->dst == fk::raw( di ), "a blit does not go from the attached source to the attached destination" );
		sym_check( x->blits.size() == 1 && x->filter == filter, "a blit moves several regions, or with another filter" ); auto & k = x->blits[0];
		sym_check( same( k.srcSubresource, s.r ) & same( k.dstSubresource, d.r ), "a blit does not move the attached layers" );
		sym_check( same( k.srcOffsets[0], o ) & same( k.srcOffsets[1], sum( o, e ) ) & same( k.dstOffsets[0], o2 ) & same( k.dstOffsets[1], sum( o2, e2 ) ), "a blit does not move the requested area" ); }
	else {
		auto x = only( fromBuf ? fk::CCopyBufImg : fk::CCopyImgBuf );
		auto & im = fromBuf ? d : s;
		sym_check( fromBuf ? x->src == fk::raw( buf ) && x->dst == fk::raw( di ) : x->src == fk::raw( si ) && x->dst == fk::raw( buf ), "a buffer/image copy is not between the attached resources" );
		sym_check( x->bicopies.size() == 1, "a copy moves several regions" ); auto & k = x->bicopies[0];
		sym_check( same( k.imageSubresource, im.r ), "a buffer/image copy does not move the attached layers" );
		sym_check( same( k.imageOffset, o ) & same( k.imageExtent, e ), "a buffer/image copy does not move the requested area" );
		sym_check( ( k.bufferOffset == boff ) & ( k.bufferRowLength == 0 ) & ( k.bufferImageHeight == 0 ), "a buffer/image copy does not use the attached range of the buffer" ); }
	sym_reach( kind == 0 ? "copy" : kind == 1 ? "blit" : fromBuf ? "to-image" : "to-buffer" );
}
// several pairs in one copy pass, one of them volumes
void pairs()
{
	auto ctx = fk::context();
	fk::w().on |= fk::LAYOUT;
	ResourceHandler h; Log log; FrameGraph g{ h, "g" };
	auto fmt = VK_FORMAT_R8G8B8A8_UNORM;
	std::vector< Img > im; for ( auto n : { "a", "b" } ) im.emplace_back( h, n, fmt, 2, 1 ); for ( auto n : { "c", "d" } ) im.emplace_back( h, n, fmt, 1, 2, VK_IMAGE_TYPE_3D );
	for ( uint32_t i = 0; i < 4; i += 2 ) sym_assume( im[i].r.layerCount == im[i + 1].r.layerCount );
	auto e = symExtent( "e" );
	auto fin = forkIdx( "final", 2 ) ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_UNDEFINED;
	auto & wr = g.createPass( "writer", marker( 0, log ) ); wr.addTransferOutputView( im[0].view ); wr.addTransferOutputView( im[2].view );
	auto & p = g.createPass( "copy", [&]( FramePass const & fp, GraphContext & c, RunnableGraph & rg ) -> RunnablePassPtr { return std::make_unique< ImageCopy >( fp, c, rg, e, fin ); } );
	p.addDependency( wr );
	for ( uint32_t i = 0; i < 4; i += 2 ) { p.addTransferInputView( im[i].view ); p.addTransferOutputView( im[i + 1].view ); }
	auto run = g.compile( *ctx );
	run->record();
	uint32_t n = 0;
	for ( auto & x : fk::w().cmds ) if ( x.kind == fk::CCopyImg ) {
		sym_check( n < 2, "a pair is copied twice" ); auto & s = im[2 * n]; auto & d = im[2 * n + 1]; ++n;
		auto di = run->createImage( d.img );
		sym_check( x.src == fk::raw( run->createImage( s.img ) ) && x.dst == fk::raw( di ), "an image copy does not go from the attached source to the attached destination" );
		sym_check( x.copies.size() == 1 && same( x.copies[0].srcSubresource, s.r ) && same( x.copies[0].dstSubresource, d.r ), "an image copy does not move the attached layers" );
		sym_check( same( x.copies[0].extent, e ), "an image copy does not move the requested extent" );
		state( d.r, d.img, di, fin ? fin : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, "an image copy leaves its destination in another layout" ); }
	sym_check( n == 2, "a pair is not copied" );
	sym_reach( "pairs" );
}
void buffers()
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" };
	VkBuffer b[4]; for ( auto & x : b ) x = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) );
	uint32_t idx = forkIdx( "index", 2 );
	auto so = sym_range( "soff", 0, 1ull << 61 ), ss = sym_range( "ssize", 1, 1ull << 61 ), d0 = sym_range( "doff", 0, 1ull << 61 ), ds = sym_range( "dsize", 1, 1ull << 61 ), co = sym_range( "copyOff", 0, 1ull << 61 ), cr = sym_range( "copyRange", 0, 1ull << 61 );
	ru::Config cfg{ 2 };
	auto & p = g.createPass( "copy", [&]( FramePass const & fp, GraphContext & c, RunnableGraph & rg ) -> RunnablePassPtr { return std::make_unique< BufferCopy >( fp, c, rg, co, cr, cfg, RunnablePass::GetPassIndexCallback( [idx]() { return idx; } ) ); } );
	p.addTransferInputBuffer( Buffer{ VkBufferArray{ b[0], b[1] }, "s" }, so, ss );
	p.addTransferOutputBuffer( Buffer{ VkBufferArray{ b[2], b[3] }, "d" }, d0, ds );
	auto run = g.compile( *ctx );
	run->record();
	auto x = only( fk::CCopyBuf );
	sym_check( x->src == fk::raw( b[idx] ) && x->dst == fk::raw( b[2 + idx] ), "a buffer copy does not go from the attached source to the attached destination" );
	sym_check( x->bcopies.size() == 1, "a copy moves several regions" ); auto & k = x->bcopies[0];
	sym_check( ( k.srcOffset == so + co ) & ( k.dstOffset == d0 + co ) & ( k.size == cr ), "a buffer copy does not move the requested part of the attached ranges" );
	// data moved inside both attached ranges when the request fits in them
	if ( co + cr <= ss && co + cr <= ds ) { sym_check( ( k.srcOffset >= so ) & ( k.srcOffset + k.size <= so + ss ) & ( k.dstOffset >= d0 ) & ( k.dstOffset + k.size <= d0 + ds ), "a buffer copy leaves the attached ranges" ); sym_reach( "inside" ); }
	sym_reach( "buffers" );
}
// implicit actions, run by the pass reading the view
void implicits( uint32_t kind )
{
	auto ctx = fk::context();
	fk::w().on |= fk::LAYOUT;
	ResourceHandler h; ContextResourcesCache res{ h, *ctx }; RecordContext rc{ res };
	auto fmt = symFormat( "format" );
	Img s{ h, "s", fmt }, d{ h, "d", fmt };
	auto o = symOffset( "o" ), o2 = symOffset( "p" ); auto e = symExtent( "e" ), e2 = symExtent( "f" );
	auto fin = forkIdx( "final", 2 ) ? VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_UNDEFINED;
	auto filter = VkFilter( sym_range( "filter", 0, 1 ) );
	auto cb = fk::mk< VkCommandBuffer >( fk::add( fk::TCmd ) ); fk::at( cb ).recording = true;
	auto si = res.createImage( s.img ), di = res.createImage( d.img );
	VkClearValue cv{}; for ( uint32_t i = 0; i < 4; ++i ) cv.color.uint32[i] = uint32_t( sym_bits( ( "clear" + std::to_string( i ) ).c_str(), 32 ) );
	if ( kind < 2 ) sym_assume( s.r.layerCount == d.r.layerCount );
	auto act = kind == 0 ? RecordContext::copyImage( s.view, d.view, { e.width, e.height }, fin ) : kind == 1 ? RecordContext::blitImage( s.view, d.view, { o.x, o.y }, { e.width, e.height }, { o2.x, o2.y }, { e2.width, e2.height }, filter, fin ) : RecordContext::clearAttachment( d.view, cv, fin );
	act( rc, cb, 0 );
	e.depth = e2.depth = 1; o.z = o2.z = 0;
	if ( kind == 0 ) {
		auto x = only( fk::CCopyImg ); sym_check( x->src == fk::raw( si ) && x->dst == fk::raw( di ) && x->copies.size() == 1, "an implicit copy is not between the given views" ); auto & k = x->copies[0];
		sym_check( same( k.srcSubresource, s.r ) & same( k.dstSubresource, d.r ), "an implicit copy does not move the layers of its views" );
		sym_check( same( k.srcOffset, {} ) & same( k.dstOffset, {} ) & same( k.extent, e ), "an implicit copy does not move the requested extent" ); }
	else if ( kind == 1 ) {
		auto x = only( fk::CBlit ); sym_check( x->src == fk::raw( si ) && x->dst == fk::raw( di ) && x->blits.size() == 1 && x->filter == filter, "an implicit blit is not between the given views" ); auto & k = x->blits[0];
		sym_check( same( k.srcSubresource, s.r ) & same( k.dstSubresource, d.r ), "an implicit blit does not move the layers of its views" );
		sym_check( same( k.srcOffsets[0], o ) & same( k.srcOffsets[1], sum( o, e ) ) & same( k.dstOffsets[0], o2 ) & same( k.dstOffsets[1], sum( o2, e2 ) ), "an implicit blit does not move the requested area" ); }
	else {
		bool colour = fmt == VK_FORMAT_R8G8B8A8_UNORM; auto x = only( colour ? fk::CClearColour : fk::CClearDepth ); sym_check( x->dst == fk::raw( di ) && x->ranges.size() == 1, "an implicit clear does not clear the given view" ); auto & q = x->ranges[0];
		sym_check( ( q.aspectMask == d.r.aspectMask ) & ( q.baseMipLevel == d.r.baseMipLevel ) & ( q.levelCount == d.r.levelCount ) & ( q.baseArrayLayer == d.r.baseArrayLayer ) & ( q.layerCount == d.r.layerCount ), "an implicit clear does not clear the range of its view" );
		bool ok = true; if ( colour ) for ( uint32_t i = 0; i < 4; ++i ) ok &= x->col.uint32[i] == cv.color.uint32[i]; else ok = ( x->dsv.stencil == cv.depthStencil.stencil ) & ( memcmp( &x->dsv.depth, &cv.depthStencil.depth, 4 ) == 0 ); sym_check( ok, "an implicit clear writes another value" ); }
	state( d.r, d.img, di, fin ? fin : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, "an implicit action leaves its destination in another layout" );
	for ( uint32_t l = 0; l < Layers; ++l ) for ( uint32_t m = 0; m < Mips; ++m ) if ( l < d.r.baseArrayLayer || l >= d.r.baseArrayLayer + d.r.layerCount || m < d.r.baseMipLevel || m >= d.r.baseMipLevel + d.r.levelCount ) sym_check( fk::layoutOf( fk::raw( di ), l, m ) == VK_IMAGE_LAYOUT_UNDEFINED, "an implicit action touches levels or layers outside its view" );
	sym_reach( kind == 0 ? "icopy" : kind == 1 ? "iblit" : "iclear" );
}
}
extern "C" void sym_main() { auto s = sym_scenario(); if ( s < 4 ) passes( s ); else if ( s == 4 ) pairs(); else if ( s == 5 ) buffers(); else implicits( s - 6 ); }
