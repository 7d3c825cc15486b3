// C25: the pass index selects the resources of that index, everywhere
#include "common.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
using namespace hc;
namespace {
using Program = VkPipelineShaderStageCreateInfoArray;
enum Kind : uint32_t { Compute, Quad, Mesh, Render, Plain, CopyImg, Blit, CopyBuf, BufToImg, ImgToBuf, Mips };
// what is declared for one use: the same resource for all indices, or one per index
struct Res { uint32_t n{}; ImageViewIdArray views; VkBufferArray bufs; uint32_t binding{ ~0u }; VkDeviceSize off{}; VkImageLayout lay{};
	ImageViewId view( uint32_t i ) const { return views[n == 1 ? 0 : i]; } VkBuffer buf( uint32_t i ) const { return bufs[n == 1 ? 0 : i]; } };
struct Pass { Kind kind{}; uint32_t N{}; uint32_t index{}; bool enabled{ true }; std::vector< Res > images, buffers; std::vector< uint32_t > targets; int src{ -1 }, dst{ -1 }, bsrc{ -1 }, bdst{ -1 }, vb{ -1 }, ib{ -1 }, ind{ -1 }; bool perIndex{}, creator{}; uint32_t inits{}, records{}; uint32_t pre{ ~0u }, post{ ~0u }; std::vector< Attachment > atts; uint32_t sized{}; };
struct Rig
{
	std::unique_ptr< GraphContext > ctx{ fk::context() }; ResourceHandler h; FrameGraph g{ h, "g" }; RunnableGraphPtr run; uint32_t names{}; bool simple{}; std::vector< std::unique_ptr< Pass > > passes;
	Rig() { fk::w().on = fk::LIFETIME | fk::STATE | fk::LAYOUT; }
	static uint32_t side( uint32_t i ) { uint32_t const s[]{ 16, 32, 8, 64 }; return s[i]; }
	// images with two layers of which the view is one, so that another view of the image would be noticed too
	ImageViewIdArray views( uint32_t n, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM, uint32_t mips = 1, bool sized = false ) { ImageViewIdArray r; for ( uint32_t k = 0; k < n; ++k ) { auto s = "i" + std::to_string( names++ ); uint32_t e = sized ? side( k ) : 16; auto i = h.createImageId( imgData( s.c_str(), VK_IMAGE_TYPE_2D, f, { e, e, 1 }, mips, 2 ) ); r.push_back( h.createViewId( viewData( s.c_str(), i, VK_IMAGE_VIEW_TYPE_2D, rng( getAspectMask( f ), 0, 1, k % 2, 1 ) ) ) ); } return r; }
	VkBufferArray buffers( uint32_t n ) { VkBufferArray r; for ( uint32_t k = 0; k < n; ++k ) r.push_back( fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ) ); return r; }
	static Program program( uint32_t id, uint32_t n ) { Program p; for ( uint32_t k = 0; k < n; ++k ) { VkPipelineShaderStageCreateInfo s{}; s.sType = VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO; s.flags = id; p.push_back( s ); } return p; }
	template< typename C > void programs( C & c, Pass & p, uint32_t n ) { if ( p.creator ) c.programCreator( ProgramCreator{ p.N, [n]( uint32_t i ) { return program( i, n ); } } ); else if ( p.perIndex ) { std::vector< Program > v; for ( uint32_t i = 0; i < p.N; ++i ) v.push_back( program( i, n ) ); c.programs( v ); } else c.program( program( 0, n ) ); }
	uint32_t count( std::string const & n, uint32_t N ) { if ( simple ) return N; return forkIdx( n, 2 ) ? N : 1; }
	// a pass of kind with each resource shared or per index; from, if any, is what it reads first
	Pass & add( Kind kind, uint32_t N, Res const * from = nullptr, bool clears = false )
	{
		passes.push_back( std::make_unique< Pass >() ); auto & p = *passes.back(); auto pn = "p" + std::to_string( passes.size() ); p.kind = kind; p.N = N; auto ctl = &p;
		bool piped = kind == Compute || kind == Quad || kind == Mesh; if ( piped ) { uint32_t k = simple ? 1 : forkIdx( pn + "programs", 3 ); p.perIndex = k == 1; p.creator = k == 2; }
		ru::Config cfg{ N }; auto att = [ctl]( uint32_t * which ) { return [ctl, which]( RecordContext & c, VkCommandBuffer cb, uint32_t i ) { if ( *which != ~0u ) RecordContext::clearAttachment( ctl->atts[*which] )( c, cb, i ); }; };
		if ( clears ) { cfg.prePassAction( att( &p.pre ) ); cfg.postPassAction( att( &p.post ) ); }
		auto idx = RunnablePass::GetPassIndexCallback( [ctl]() { return ctl->index; } ); auto en = RunnablePass::IsEnabledCallback( [ctl]() { return ctl->enabled; } );
		auto rec = [ctl, this]( RecordContext &, VkCommandBuffer cb, uint32_t i ) { fk::mark( cb, 1 ); ++ctl->records; sym_check( i == ctl->index, "a pass is recorded with another index than the one it reports" );
			for ( auto & r : ctl->images ) if ( r.lay ) { auto v = r.view( i ); fk::forRange( fk::raw( run->createImage( v.data->image ) ), v.data->info.subresourceRange, [&]( uint32_t a, uint32_t m ) { sym_check( fk::layoutOf( fk::raw( run->createImage( v.data->image ) ), a, m ) == r.lay, "the image of the index is not in its layout when the pass records" ); } ); } };
		auto init = RunnablePass::InitialiseCallback( [ctl]( uint32_t i ) { sym_check( i == ctl->index && ( ctl->kind == Render || !( ctl->inits & ( 1u << i ) ) ), "another index is initialised, or the same twice" ); ctl->inits |= 1u << i; } );
		bool ind = ( kind == Compute || kind == Quad || kind == Mesh ) && ( simple || forkIdx( pn + "indirect", 2 ) );
		auto ownBuf = [&]( std::string const & n ) { p.buffers.push_back( {} ); auto & r = p.buffers.back(); r.n = count( pn + n, N ); r.bufs = buffers( r.n ); return int( p.buffers.size() ) - 1; };
		Buffer vb{ VkBuffer{}, "v" }, ib{ VkBuffer{}, "i" }, db{ VkBuffer{}, "d" }; if ( kind == Mesh ) { p.vb = ownBuf( "vertex" ); p.ib = ownBuf( "indices" ); vb = Buffer{ p.buffers[p.vb].bufs, "v" }; ib = Buffer{ p.buffers[p.ib].bufs, "i" }; } if ( ind ) { p.ind = ownBuf( "args" ); db = Buffer{ p.buffers[p.ind].bufs, "d" }; }
		auto & fp = g.createPass( pn, [=, this]( FramePass const & f, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr {
			switch ( kind ) {
			case Compute: { cp::Config c; programs( c, *ctl, 1 ); c.getPassIndex( idx ).isEnabled( en ).initialise( init ).recordInto( RunnablePass::RecordCallback( rec ) ); if ( ind ) c.indirectBuffer( IndirectBuffer{ db, 12, 0 } ); return std::make_unique< ComputePass >( f, x, r, cfg, std::move( c ) ); }
			case Quad: { rq::Config c; programs( c, *ctl, 2 ); c.passIndex( &ctl->index ).isEnabled( en ).recordInto( RunnablePass::RecordCallback( rec ) ); if ( ind ) c.indirectBuffer( IndirectBuffer{ db, 12, 0 } ); return std::make_unique< RenderQuad >( f, x, r, cfg, std::move( c ) ); }
			case Mesh: { rm::Config c; programs( c, *ctl, 2 ); c.getPassIndex( idx ).isEnabled( en ).recordInto( RunnablePass::RecordCallback( rec ) ).vertexBuffer( VertexBuffer{ vb, {}, {}, {} } ).indexBuffer( IndexBuffer{ ib } ); if ( ind ) c.indirectBuffer( IndirectBuffer{ db, 12, 0 } ); return std::make_unique< RenderMesh >( f, x, r, cfg, std::move( c ) ); }
			case Render: return std::make_unique< RenderPass >( f, x, r, RenderPass::Callbacks{ init, RunnablePass::RecordCallback( rec ), RenderPass::GetSubpassContentsCallback( []() { return VK_SUBPASS_CONTENTS_INLINE; } ), idx, en }, VkExtent2D{}, cfg );
			case Plain: return std::make_unique< RunnablePass >( f, x, r, RunnablePass::Callbacks{ init, RunnablePass::GetPipelineStateCallback( []() { return pstate(); } ), RunnablePass::RecordCallback( rec ), idx, en, RunnablePass::IsComputePassCallback( []() { return false; } ) }, cfg );
			case CopyImg: return std::make_unique< ImageCopy >( f, x, r, VkExtent3D{ 4, 4, 1 }, VK_IMAGE_LAYOUT_UNDEFINED, cfg, idx, en );
			case Blit: return std::make_unique< ImageBlit >( f, x, r, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, VK_FILTER_NEAREST, cfg, idx, en );
			case CopyBuf: return std::make_unique< BufferCopy >( f, x, r, 0, 16, cfg, idx, en );
			case BufToImg: return std::make_unique< BufferToImageCopy >( f, x, r, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, cfg, idx, en );
			case ImgToBuf: return std::make_unique< ImageToBufferCopy >( f, x, r, VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, cfg, idx, en );
			default: return std::make_unique< GenerateMipmaps >( f, x, r, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, cfg, idx, en ); } } );
		auto image = [&]( std::string const & n, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM, uint32_t mips = 1, uint32_t forced = 0, bool sized = false ) -> Res & { p.images.push_back( {} ); auto & r = p.images.back(); r.n = forced ? forced : count( pn + n, N ); r.views = views( r.n, f, mips, sized ); return r; };
		auto read = [&]( std::string const & n ) -> Res & { if ( from ) { p.images.push_back( *from ); p.images.back().binding = ~0u; p.images.back().lay = {}; return p.images.back(); } return image( n ); };
		auto buffer = [&]( std::string const & n ) -> Res & { return p.buffers[size_t( ownBuf( n ) )]; };
		// transitions of mesh and indirect buffers are the user's
		switch ( kind ) {
		case Compute: {
			{ auto & r = read( "sampled" ); r.binding = 0; r.lay = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; fp.addSampledView( r.views, 0 ); }
			{ auto & r = image( "storage" ); r.binding = 1; r.lay = VK_IMAGE_LAYOUT_GENERAL; auto k = forkIdx( pn + "storageKind", 2 ); if ( k == 0 ) fp.addOutputStorageView( r.views, 1 ); else fp.addClearableOutputStorageView( r.views, 1 ); }
			{ auto & r = buffer( "uniform" ); r.binding = 2; r.off = 64; fp.addUniformBuffer( Buffer{ r.bufs, "u" }, 2, 64, 16 ); }
			{ auto & r = buffer( "ssbo" ); r.binding = 3; r.off = 32; auto k = forkIdx( pn + "ssboKind", 2 ); if ( k == 0 ) fp.addInOutStorageBuffer( Buffer{ r.bufs, "s" }, 3, 32, 16 ); else fp.addClearableOutputStorageBuffer( Buffer{ r.bufs, "s" }, 3, 32, 16 ); } break; }
		case Quad: case Mesh: case Render: {
			if ( kind != Render || from ) { auto & r = read( "sampled" ); r.binding = 0; r.lay = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; fp.addSampledView( r.views, 0 ); }
			uint32_t shape = simple ? 0 : forkIdx( pn + "targets", 4 ); bool sized = shape == 3; uint32_t nc = shape == 1 ? 1 : N, nd = shape == 2 ? 1 : N; p.sized = sized;
			if ( shape != 2 ) { auto & r = image( "depth", VK_FORMAT_D32_SFLOAT, 1, nd, sized ); p.targets.push_back( uint32_t( p.images.size() ) - 1 ); fp.addOutputDepthView( r.views ); for ( auto & a : fp.images ) if ( a.isDepthAttach() ) p.atts.push_back( a ); }
			{ auto & r = image( "colour", VK_FORMAT_R8G8B8A8_UNORM, 1, nc, sized ); p.targets.push_back( uint32_t( p.images.size() ) - 1 ); if ( shape == 0 ) fp.addOutputColourView( r.views ); else fp.addInOutColourView( r.views ); } break; }
		case Plain: { { auto & r = read( "sampled" ); r.lay = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; fp.addSampledView( r.views, 0 ); } { auto & r = image( "storage" ); r.lay = VK_IMAGE_LAYOUT_GENERAL; fp.addInOutStorageView( r.views, 1 ); } break; }
		case CopyImg: case Blit: { p.src = int( p.images.size() ); fp.addTransferInputView( read( "src" ).views ); p.dst = int( p.images.size() ); fp.addTransferOutputView( image( "dst" ).views ); break; }
		case CopyBuf: { p.bsrc = ownBuf( "src" ); fp.addTransferInputBuffer( Buffer{ p.buffers[p.bsrc].bufs, "s" }, 0, 16 ); p.bdst = ownBuf( "dst" ); fp.addTransferOutputBuffer( Buffer{ p.buffers[p.bdst].bufs, "d" }, 0, 16 ); break; }
		case BufToImg: { p.bsrc = ownBuf( "src" ); fp.addTransferInputBuffer( Buffer{ p.buffers[p.bsrc].bufs, "s" }, 0, 64 ); p.dst = int( p.images.size() ); fp.addTransferOutputView( image( "dst" ).views ); break; }
		case ImgToBuf: { p.src = int( p.images.size() ); fp.addTransferInputView( read( "src" ).views ); p.bdst = ownBuf( "dst" ); fp.addTransferOutputBuffer( Buffer{ p.buffers[p.bdst].bufs, "d" }, 0, 64 ); break; }
		default: { p.src = p.dst = int( p.images.size() ); fp.addTransferInOutView( image( "mips", VK_FORMAT_R8G8B8A8_UNORM, 3 ).views ); break; } }
		return p;
	}
	uint64_t img( ImageViewId v ) { return fk::raw( run->createImage( v.data->image ) ); }
	uint64_t viewOf( ImageViewId v ) { return fk::raw( run->createImageView( v ) ); }
	// the commands of one recording, the passes one after the other
	void check( std::vector< fk::Cmd const * > const & cmds )
	{
		std::set< uint64_t > images, buffers, views; for ( auto & p : passes ) if ( p->enabled ) { for ( auto & r : p->images ) { images.insert( img( r.view( p->index ) ) ); views.insert( viewOf( r.view( p->index ) ) ); } for ( auto & r : p->buffers ) buffers.insert( fk::raw( r.buf( p->index ) ) ); }
		size_t at = 0; auto next = [&]( auto pred ) -> fk::Cmd const * { while ( at < cmds.size() ) { auto c = cmds[at++]; if ( pred( *c ) ) return c; } return nullptr; };
		for ( auto c : cmds ) {
			for ( auto & b : c->imgs ) sym_check( images.count( fk::raw( b.image ) ), "a barrier is for the image of another index" );
			for ( auto & b : c->bufs ) sym_check( buffers.count( fk::raw( b.buffer ) ), "a barrier is for the buffer of another index" );
			if ( c->kind == fk::CClearColour || c->kind == fk::CClearDepth ) { sym_check( images.count( c->dst ), "the image of another index is cleared" ); }
			if ( c->kind == fk::CFill ) sym_check( buffers.count( c->dst ), "the buffer of another index is cleared" ); }
		for ( auto & pp : passes ) if ( pp->enabled ) {
			auto & p = *pp; uint32_t i = p.index; auto is = [&]( fk::CmdKind k ) { return [k]( fk::Cmd const & c ) { return c.kind == k; }; };
			bool gfx = p.kind == Quad || p.kind == Mesh || p.kind == Render;
			if ( gfx ) { auto b = next( is( fk::CBeginRP ) ); sym_check( b, "no render pass is begun" ); auto & fb = fk::at( b->dst ); sym_check( fb.fbViews.size() == p.targets.size(), "the framebuffer has other targets" ); for ( size_t k = 0; k < p.targets.size(); ++k ) sym_check( fk::raw( fb.fbViews[k] ) == viewOf( p.images[p.targets[k]].view( i ) ), "the framebuffer has the target of another index" );
				uint32_t e = p.sized ? side( i ) : 16; sym_check( b->area.extent.width == e && b->area.extent.height == e && fb.fb.width == e && fb.fb.height == e, "the render area or framebuffer has the size of another index" ); }
			if ( p.kind == Compute || p.kind == Quad || p.kind == Mesh ) {
				auto bp = next( is( fk::CBindPipe ) ); sym_check( bp, "no pipeline is bound" ); auto & o = fk::at( bp->src ); sym_check( !o.stages.empty() && o.stages[0].flags == ( p.perIndex || p.creator ? i : 0 ), "the pipeline of another index is bound" );
				auto bs = next( is( fk::CBindSets ) ); sym_check( bs && bs->hs.size() == 1, "no descriptor set is bound" ); uint32_t seen = 0, want = 0; for ( auto & r : p.images ) want += r.binding != ~0u; for ( auto & r : p.buffers ) want += r.binding != ~0u;
				for ( auto & w : fk::w().writes ) if ( w.set == bs->hs[0] ) { ++seen;
					for ( auto & r : p.images ) if ( r.binding == w.binding ) sym_check( w.imgs.size() == 1 && fk::raw( w.imgs[0].imageView ) == viewOf( r.view( i ) ), "the descriptor set has the view of another index" );
					for ( auto & r : p.buffers ) if ( r.binding == w.binding ) sym_check( w.bufs.size() == 1 && w.bufs[0].buffer == r.buf( i ) && w.bufs[0].offset == r.off, "the descriptor set has the buffer of another index" ); }
				sym_check( seen == want, "a descriptor set is not written once per binding" );
				if ( p.vb >= 0 ) { auto c = next( is( fk::CBindVB ) ); sym_check( c && c->hs.size() == 1 && c->hs[0] == fk::raw( p.buffers[p.vb].buf( i ) ), "the vertex buffer of another index is bound" ); c = next( is( fk::CBindIB ) ); sym_check( c && c->src == fk::raw( p.buffers[p.ib].buf( i ) ), "the index buffer of another index is bound" ); }
				auto d = next( []( fk::Cmd const & c ) { return c.kind >= fk::CDispatch && c.kind <= fk::CDrawInd; } ); sym_check( d, "nothing is drawn or dispatched" ); if ( p.ind >= 0 ) sym_check( d->src == fk::raw( p.buffers[p.ind].buf( i ) ), "the arguments of another index are used" ); }
			if ( p.kind >= CopyImg ) {
				fk::CmdKind const kinds[]{ fk::CCopyImg, fk::CBlit, fk::CCopyBuf, fk::CCopyBufImg, fk::CCopyImgBuf, fk::CBlit }; auto kind = kinds[p.kind - CopyImg]; auto c = next( is( kind ) ); sym_check( c, "nothing is copied" );
				uint64_t src = p.bsrc >= 0 ? fk::raw( p.buffers[p.bsrc].buf( i ) ) : img( p.images[p.src].view( i ) ), dst = p.bdst >= 0 ? fk::raw( p.buffers[p.bdst].buf( i ) ) : img( p.images[p.dst].view( i ) );
				sym_check( c->src == src && c->dst == dst, "a copy is between the resources of another index" );
				auto layer = [&]( VkImageSubresourceLayers const & l, int r ) { auto v = p.images[size_t( r )].view( i ); sym_check( l.baseArrayLayer == v.data->info.subresourceRange.baseArrayLayer, "a copy is between the layers of another index" ); };
				for ( auto & k : c->copies ) { layer( k.srcSubresource, p.src ); layer( k.dstSubresource, p.dst ); } for ( auto & k : c->blits ) { layer( k.srcSubresource, p.src ); layer( k.dstSubresource, p.dst ); } for ( auto & k : c->bicopies ) layer( k.imageSubresource, p.src >= 0 ? p.src : p.dst );
				if ( p.kind == Mips ) next( is( kind ) ); }
			if ( p.pre != ~0u ) { uint32_t n = 0; for ( auto c : cmds ) if ( c->kind == fk::CClearDepth && c->dst == img( p.images[p.targets[0]].view( i ) ) ) { ++n; sym_check( c->ranges.size() == 1 && c->ranges[0].baseArrayLayer == p.images[p.targets[0]].view( i ).data->info.subresourceRange.baseArrayLayer, "another layer is cleared" ); } sym_check( n == 2, "the actions of a pass do not clear the target of its index" ); sym_reach( "actions" ); } }
	}
	void runs( uint32_t steps )
	{
		run = g.compile( *ctx );
		for ( uint32_t t = 0; t < steps; ++t ) {
			uint32_t k = 0; for ( auto & p : passes ) { auto n = "s" + std::to_string( t ) + "p" + std::to_string( k++ ); p->index = forkIdx( n, p->N ); p->records = 0; }
			size_t from = fk::w().cmds.size(); run->run( fk::mk< VkQueue >( 0xABC0 ) ); auto cb = fk::w().submits.back().cbs[0]; std::vector< fk::Cmd const * > cmds; for ( size_t c = from; c < fk::w().cmds.size(); ++c ) if ( fk::w().cmds[c].cb == cb ) cmds.push_back( &fk::w().cmds[c] );
			check( cmds ); sym_reach( "run" ); }
	}
};
void one( Kind k, uint32_t N, uint32_t steps, bool clears = false ) { Rig r; auto & p = r.add( k, N, nullptr, clears ); if ( clears && !p.atts.empty() ) p.pre = p.post = 0; r.runs( steps ); sym_reach( "one" ); }
// the second pass reads what the first writes, each with an index of its own
void two( Kind a, Kind b, uint32_t N, uint32_t steps, bool simple = true ) { Rig r; r.simple = simple; auto & p = r.add( a, N ); Res out = p.images.back(); r.simple = true; r.add( b, N, &out ); r.runs( steps ); sym_reach( "two" ); }
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: one( Compute, 2, 2 ); break;
	case 1: one( Quad, 3, 2, true ); break;
	case 2: one( Mesh, 2, 2 ); break;
	case 3: one( Render, 3, 3, true ); break;
	case 4: { Kind const ks[]{ Plain, CopyImg, Blit, CopyBuf, BufToImg, ImgToBuf, Mips }; uint32_t k = forkIdx( "kind", 7 ); one( ks[k], 3, 2 ); break; }
	case 5: two( Render, Plain, 2, 2, false ); break;
	case 6: two( Quad, Compute, 2, 2, false ); break;
	case 7: two( Blit, Quad, 2, 2, false ); break;
	case 8: one( Compute, 3, 3 ); break;
	case 9: one( Quad, 4, 3, true ); break;
	case 10: one( Mesh, 3, 3 ); break;
	case 11: two( Compute, Mesh, 3, 2, false ); break;
	case 12: two( Mesh, Blit, 3, 3, false ); break;
	case 13: two( Quad, Quad, 3, 3 ); break; } }
