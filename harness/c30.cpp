// C30: what a pass declares to be cleared is, entirely and only that, when its commands start
#include "common.hpp"
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
using namespace hc;
namespace {
VkFormat const Colour = VK_FORMAT_R8G8B8A8_UNORM;
uint32_t const Writes = VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
// what one pass does with the probed byte or subresource
struct Use { bool any{}, clear{}; AccessState how{}; };
// what the probed byte or subresource holds: Before anything, Zero, or what a pass wrote
enum : int { Before = -2, Zero = -1 };
struct Probe
{
	int holds{ Before }, wants{ Before }; bool cleared{}, waited{ true }; uint32_t visAcc{}, visStg{}; AccessState last{}; bool hasLast{}, checkLast{ true };
	void barrier( uint32_t srcStage, uint32_t dstStage, uint32_t srcAcc, uint32_t dstAcc )
	{
		if ( cleared && ( srcStage & VK_PIPELINE_STAGE_TRANSFER_BIT ) && ( srcAcc & VK_ACCESS_TRANSFER_WRITE_BIT ) ) { visAcc |= dstAcc; visStg |= dstStage; }
		if ( hasLast && ( srcStage & last.pipelineStage ) == last.pipelineStage && ( srcAcc & last.access & Writes ) == ( last.access & Writes ) && ( dstStage & VK_PIPELINE_STAGE_TRANSFER_BIT ) && ( dstAcc & VK_ACCESS_TRANSFER_WRITE_BIT ) ) waited = true;
	}
	void clear() { if ( checkLast ) sym_check( waited, "a clear does not wait for the passes before it" ); sym_check( holds != Zero || !cleared, "an attachment is cleared twice" ); holds = Zero; cleared = true; visAcc = visStg = 0; sym_reach( "cleared" ); }
	void pass( int k, Use const & u )
	{
		if ( u.any ) {
			if ( u.clear ) { wants = Zero; sym_check( holds == Zero && cleared, "a pass starts though what it asked to be cleared is not" ); sym_check( ( u.how.access & ~visAcc ) == 0 && ( u.how.pipelineStage & ~visStg ) == 0, "a pass does not wait for the clear of its attachment" ); }
			sym_check( holds == wants, "what a pass uses has been cleared though nothing asks for it" );
			if ( u.how.access & Writes ) { holds = wants = k; }
			cleared = false; hasLast = true; last = u.how; waited = false; sym_reach( u.clear ? "clearable" : "kept" ); }
		else sym_check( holds == wants, "what no pass asked to be cleared has been" );
	}
	void end() { sym_check( holds == wants, "what no pass asked to be cleared has been" ); }
};
bool in( VkImageSubresourceRange const & r, uint32_t l, uint32_t m ) { return ( l >= r.baseArrayLayer ) & ( l < r.baseArrayLayer + r.layerCount ) & ( m >= r.baseMipLevel ) & ( m < r.baseMipLevel + r.levelCount ); }
struct Rig
{
	std::unique_ptr< GraphContext > ctx; std::unique_ptr< ResourceHandler > h; std::unique_ptr< FrameGraph > g; RunnableGraphPtr run; Log log; uint32_t index{}; FramePass * prev{}; std::vector< std::unique_ptr< bool > > on, comp;
	explicit Rig( bool separate = true ) { fk::w().on = fk::LIFETIME | fk::STATE | fk::LAYOUT; fk::CtxDesc d; d.separateDs = separate; ctx = fk::context( d ); h = std::make_unique< ResourceHandler >(); g = std::make_unique< FrameGraph >( *h, "g" ); }
	~Rig() { run.reset(); g.reset(); h.reset(); ctx.reset(); }
	// a pass of either kind, enabled or not, after the one before
	FramePass & pass( uint32_t k, uint32_t indices = 1 ) { auto n = std::to_string( k ); on.push_back( std::make_unique< bool >( flag( "en" + n ) ) ); comp.push_back( std::make_unique< bool >( flag( "comp" + n ) ) ); PassOpt o; o.compute = *comp.back(); auto p = on.back().get(); o.enabled = [p]() { return *p; }; o.index = [this]() { return index; }; o.cfg.maxPassCount = indices; o.cfg.resettable = indices > 1; auto & f = g->createPass( "p" + n, marker( int( k ), log, o ) ); if ( prev ) f.addDependency( *prev ); prev = &f; return f; }
	VkPipelineStageFlags shader( uint32_t k ) { return *comp[k] ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT; }
	// a use of an image
	Use image( FramePass & p, uint32_t k, uint32_t how, ImageViewIdArray v, uint32_t binding = 0 )
	{
		Use u; u.any = how != 0; u.how.pipelineStage = shader( k ); uint32_t const R = VK_ACCESS_SHADER_READ_BIT, W = VK_ACCESS_SHADER_WRITE_BIT;
		switch ( how ) {
		case 0: break; case 1: p.addClearableOutputStorageView( v, binding ); u.clear = true; u.how.access = W; break; case 2: p.addOutputStorageView( v, binding ); u.how.access = W; break; case 3: p.addInOutStorageView( v, binding ); u.how.access = R | W; break;
		case 4: p.addSampledView( v, binding ); u.how.access = R; break; default: p.addTransferOutputView( v ); u.how = { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }; break; }
		return u;
	}
	Use buffer( FramePass & p, uint32_t k, uint32_t how, Buffer b, VkDeviceSize off, VkDeviceSize size, uint32_t binding = 0 )
	{
		Use u; u.any = how != 0; u.how.pipelineStage = shader( k ); uint32_t const R = VK_ACCESS_SHADER_READ_BIT, W = VK_ACCESS_SHADER_WRITE_BIT; auto v = fk::mk< VkBufferView >( 0x77 );
		switch ( how ) {
		case 0: break; case 1: p.addClearableOutputStorageBuffer( b, binding, off, size ); u.clear = true; u.how.access = W; break; case 2: p.addOutputStorageBuffer( b, binding, off, size ); u.how.access = W; break; case 3: p.addInOutStorageBuffer( b, binding, off, size ); u.how.access = R | W; break;
		case 4: p.addInputStorageBuffer( b, binding, off, size ); u.how.access = R; break; case 5: p.addTransferOutputBuffer( b, off, size ); u.how = { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }; break; default: p.addClearableOutputStorageBufferView( b, v, binding, off, size ); u.clear = true; u.how.access = W; break; }
		return u;
	}
	void compile() { run = g->compile( *ctx ); fk::w().cmds.clear(); run->record(); }
	void count( uint32_t n ) { uint32_t m = 0; for ( auto & e : on ) m += *e ? 1 : 0; sym_check( n == m, "a pass is not recorded though enabled, or the reverse" ); }
};
void zero( fk::Cmd const & x ) { if ( x.kind == fk::CClearColour ) sym_check( ( x.col.uint32[0] | x.col.uint32[1] | x.col.uint32[2] | x.col.uint32[3] ) == 0, "a clear to something else than zero" ); if ( x.kind == fk::CClearDepth ) sym_check( x.dsv.depth == 0.0f && x.dsv.stencil == 0, "a clear to something else than zero" ); if ( x.kind == fk::CFill ) sym_check( x.n[0] == 0, "a clear to something else than zero" ); }
// passes over any ranges of one image
void images( uint32_t n, uint32_t layers, uint32_t mips, VkFormat fmt, bool volume = false )
{
	Rig r( fmt != VK_FORMAT_D24_UNORM_S8_UINT || forkIdx( "separate", 2 ) ); auto aspect = getAspectMask( fmt ); auto img = r.h->createImageId( imgData( "i", volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, fmt, { 8, 8, volume ? 4u : 1u }, mips, layers, VK_IMAGE_USAGE_STORAGE_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT ) ); auto other = r.h->createImageId( imgData( "o", VK_IMAGE_TYPE_2D, Colour, { 8, 8, 1 }, 1, 1 ) );
	std::vector< Use > uses; std::vector< VkImageSubresourceRange > at; auto vt = volume ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
	for ( uint32_t k = 0; k < n; ++k ) { auto s = "p" + std::to_string( k ); auto & p = r.pass( k ); auto how = forkIdx( s, 6 ); auto g = symRange( s, layers, mips, aspect ); at.push_back( g ); auto v = r.h->createViewId( viewData( s.c_str(), img, vt, g ) ); uses.push_back( r.image( p, k, how, { v } ) ); p.addSampledView( r.h->createViewId( viewData( "ov", other, VK_IMAGE_VIEW_TYPE_2D, rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 ) ) ), 1 ); }
	r.compile(); auto vk = fk::raw( r.run->createImage( img ) );
	for ( uint32_t l = 0; l < layers; ++l ) for ( uint32_t m = 0; m < mips; ++m ) { Probe q; uint32_t marks = 0;
		for ( auto & x : fk::w().cmds ) switch ( x.kind ) {
			case fk::CBarrier: for ( auto & b : x.imgs ) if ( fk::raw( b.image ) == vk && in( b.subresourceRange, l, m ) ) q.barrier( x.srcStage, x.dstStage, b.srcAccessMask, b.dstAccessMask ); break;
			case fk::CClearColour: case fk::CClearDepth: zero( x ); sym_check( x.dst == vk, "another image is cleared" ); sym_check( ( x.kind == fk::CClearColour ) == isColourFormat( fmt ), "an image is cleared as another kind" ); for ( auto & g : x.ranges ) { sym_check( g.aspectMask == aspect, "a clear of other aspects than the attachment's" ); if ( in( g, l, m ) ) q.clear(); } break;
			case fk::CFill: sym_check( false, "a buffer is cleared, none is used" ); break;
			case fk::CMark: { auto k = uint32_t( x.mark ); ++marks; auto u = uses[k]; u.any = u.any && in( at[k], l, m ); q.pass( x.mark, u ); break; }
			default: break; }
		q.end(); r.count( marks ); }
}
// passes over a buffer: all over one range, or each over its own
void buffers( uint32_t n, bool same )
{
	Rig r; auto vk = fk::add( fk::TBuffer ); auto vo = fk::add( fk::TBuffer ); fk::at( vk ).buf.size = fk::at( vo ).buf.size = 256; std::vector< Use > uses; std::vector< std::pair< uint64_t, uint64_t > > at; uint64_t off{}, size{};
	for ( uint32_t k = 0; k < n; ++k ) { auto s = "p" + std::to_string( k ); auto & p = r.pass( k ); auto how = forkIdx( s, 7 ); if ( !same || k == 0 ) { bool whole = forkIdx( s + "whole", 2 ); off = 4 * sym_range( ( s + "off" ).c_str(), 0, 63 ); size = whole ? VK_WHOLE_SIZE : 4 * sym_range( ( s + "size" ).c_str(), 1, 64 ); sym_assume( whole || off + size <= 256 ); }
		at.push_back( { off, size } ); uses.push_back( r.buffer( p, k, how, Buffer{ fk::mk< VkBuffer >( vk ), "b" }, off, size ) ); p.addInputStorageBuffer( Buffer{ fk::mk< VkBuffer >( vo ), "o" }, 1, 0, 16 ); }
	r.compile(); auto byte = sym_range( "byte", 0, 255 ); Probe q; uint32_t marks = 0; auto in = [&]( uint64_t o, uint64_t s ) { return ( byte >= o ) & ( ( s == VK_WHOLE_SIZE ) | ( byte - o < s ) ); };
	for ( auto & x : fk::w().cmds ) switch ( x.kind ) {
		case fk::CBarrier: for ( auto & b : x.bufs ) if ( fk::raw( b.buffer ) == vk && in( b.offset, b.size ) ) q.barrier( x.srcStage, x.dstStage, b.srcAccessMask, b.dstAccessMask ); break;
		case fk::CFill: zero( x ); sym_check( x.dst == vk, "another buffer is cleared" ); if ( in( x.q[0], x.q[1] ) ) q.clear(); break;
		case fk::CClearColour: case fk::CClearDepth: sym_check( false, "an image is cleared, none is used" ); break;
		case fk::CMark: { auto k = uint32_t( x.mark ); ++marks; auto u = uses[k]; u.any = u.any && in( at[k].first, at[k].second ); q.pass( x.mark, u ); break; }
		default: break; }
	q.end(); r.count( marks );
}
// the attachments of the index recorded are cleared, the others not; each time the pass is recorded
void indices( uint32_t n, uint32_t times )
{
	Rig r; auto & p = r.pass( 0, n ); ImageViewIdArray views; VkBufferArray bufs; std::vector< VkImageSubresourceRange > at; std::vector< ImageId > imgs; auto ih = forkIdx( "image", 3 ), bh = forkIdx( "buffer", 3 ); bool one = forkIdx( "one", 2 );
	for ( uint32_t k = 0; k < n; ++k ) { auto s = "i" + std::to_string( k ); imgs.push_back( r.h->createImageId( imgData( s.c_str(), VK_IMAGE_TYPE_2D, Colour, { 8, 8, 1 }, 2, 2 ) ) ); auto g = symRange( s, 2, 2 ); at.push_back( g ); views.push_back( r.h->createViewId( viewData( s.c_str(), imgs.back(), VK_IMAGE_VIEW_TYPE_2D_ARRAY, g ) ) ); auto b = fk::add( fk::TBuffer ); fk::at( b ).buf.size = 256; bufs.push_back( fk::mk< VkBuffer >( b ) ); }
	if ( one ) { views.resize( 1 ); bufs.resize( 1 ); }
	r.image( p, 0, ih, views ); r.buffer( p, 0, bh, Buffer{ bufs, "b" }, 16, 64, 1 ); r.run = r.g->compile( *r.ctx );
	for ( uint32_t t = 0; t < times; ++t ) {
		r.index = forkIdx( "idx" + std::to_string( t ), n ); *r.on[0] = forkIdx( "on" + std::to_string( t ), 2 ); fk::w().cmds.clear(); r.run->record(); uint32_t want = one ? 0 : r.index, clears = 0, fills = 0; bool marked = false;
		auto vk = fk::raw( r.run->createImage( imgs[want] ) );
		for ( auto & x : fk::w().cmds ) { if ( x.kind == fk::CMark ) marked = true; if ( x.kind == fk::CClearColour || x.kind == fk::CClearDepth ) { zero( x ); ++clears; auto & g = at[want]; sym_check( x.dst == vk && x.ranges.size() == 1 && x.ranges[0].baseArrayLayer == g.baseArrayLayer && x.ranges[0].layerCount == g.layerCount && x.ranges[0].baseMipLevel == g.baseMipLevel && x.ranges[0].levelCount == g.levelCount, "not the view of the recorded index is cleared" ); sym_check( !marked, "a clear comes after the commands of its pass" ); }
			if ( x.kind == fk::CFill ) { zero( x ); ++fills; sym_check( x.dst == fk::raw( bufs[want] ) && x.q[0] == 16 && x.q[1] == 64, "not the buffer of the recorded index is cleared" ); sym_check( !marked, "a clear comes after the commands of its pass" ); } }
		sym_check( clears == ( *r.on[0] && ih == 1 ? 1u : 0u ) && fills == ( *r.on[0] && bh == 1 ? 1u : 0u ), "a recording does not clear each clearable attachment once" ); sym_check( marked == *r.on[0], "a pass is not recorded though enabled, or the reverse" ); sym_reach( "index" ); }
}
// the targets of render passes start from the values given with them
void targets( uint32_t kinds, uint32_t colours, uint32_t times )
{
	Rig r( forkIdx( "separate", 2 ) ); uint32_t kind = kinds == 3 ? forkIdx( "kind", 3 ) : kinds; struct Target { ImageId img; VkClearValue v{}; bool output{}, stencil{}, depth{}, colour{}; }; std::vector< Target > ts; VkExtent2D e{ 8, 8 };
	auto program = []() { std::vector< VkPipelineShaderStageCreateInfo > p( 2 ); for ( auto & s : p ) s.sType = VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO; return p; };
	uint32_t marks = 0; auto mine = [&marks]() { return RunnablePass::RecordCallback( [&marks]( RecordContext &, VkCommandBuffer cb, uint32_t ) { ++marks; fk::mark( cb, 1 ); } ); };
	auto & p = r.g->createPass( "p", [=]( FramePass const & fp, GraphContext & x, RunnableGraph & rg ) -> RunnablePassPtr {
		if ( kind == 0 ) { rq::Config c; c.program( program() ); c.renderSize( e ).recordInto( mine() ); return std::make_unique< RenderQuad >( fp, x, rg, ru::Config{}, std::move( c ) ); }
		if ( kind == 1 ) { rm::Config c; c.program( program() ); c.renderSize( e ).recordInto( mine() ); return std::make_unique< RenderMesh >( fp, x, rg, ru::Config{}, std::move( c ) ); }
		return std::make_unique< RenderPass >( fp, x, rg, RenderPass::Callbacks{ RunnablePass::InitialiseCallback( []( uint32_t ) {} ), mine() }, e, ru::Config{} ); } );
	auto value = []( std::string const & n ) { VkClearValue v{}; for ( uint32_t c = 0; c < 4; ++c ) v.color.uint32[c] = uint32_t( sym_bits( ( n + char( 'r' + c ) ).c_str(), 32 ) ); return v; };
	auto view = [&]( Target & t, VkFormat f, std::string const & n ) { t.img = r.h->createImageId( imgData( n.c_str(), VK_IMAGE_TYPE_2D, f, { 8, 8, 1 }, 1, 1, VK_IMAGE_USAGE_TRANSFER_DST_BIT ) ); return r.h->createViewId( viewData( n.c_str(), t.img, VK_IMAGE_VIEW_TYPE_2D, rng( getAspectMask( f ), 0, 1, 0, 1 ) ) ); };
	uint32_t where = forkIdx( "depthAt", colours + 2 ); // after how many colours, if at all
	for ( uint32_t c = 0; c <= colours; ++c ) {
		if ( c == where ) { Target t; auto kindD = forkIdx( "depth", 3 ); VkFormat const fs[]{ VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_S8_UINT }; auto f = fs[kindD]; auto v = view( t, f, "d" ); t.v = value( "d" ); auto how = forkIdx( "dhow", 3 ); t.output = how == 0; t.depth = kindD < 2; t.stencil = kindD > 0;
			if ( kindD == 0 ) { if ( how == 0 ) p.addOutputDepthView( v, t.v ); else if ( how == 1 ) p.addInOutDepthView( v ); else p.addInputDepthView( v ); }
			else if ( kindD == 1 ) { if ( how == 0 ) p.addOutputDepthStencilView( v, t.v ); else if ( how == 1 ) p.addInOutDepthStencilView( v ); else p.addInputDepthStencilView( v ); }
			else { if ( how == 0 ) p.addOutputStencilView( v, t.v ); else if ( how == 1 ) p.addInOutStencilView( v ); else p.addInputStencilView( v ); }
			ts.push_back( t ); }
		if ( c < colours ) { Target t; auto n = "c" + std::to_string( c ); auto v = view( t, Colour, n ); auto how = forkIdx( n, 3 ); t.v = value( n ); t.output = how == 0; t.colour = true; if ( how == 0 ) p.addOutputColourView( v, t.v ); else if ( how == 1 ) p.addInOutColourView( v ); else p.addInputColourView( v ); ts.push_back( t ); } }
	r.run = r.g->compile( *r.ctx );
	for ( uint32_t t = 0; t < times; ++t ) {
		fk::w().cmds.clear(); marks = 0; r.run->record(); uint32_t begins = 0;
		for ( auto & x : fk::w().cmds ) if ( x.kind == fk::CBeginRP ) { ++begins; auto & rp = fk::at( x.src ); auto & fb = fk::at( x.dst ); sym_check( rp.atts.size() == ts.size() && fb.fbViews.size() == ts.size(), "not the targets of the pass are rendered to" );
			for ( size_t k = 0; k < rp.atts.size() && k < fb.fbViews.size(); ++k ) { Target const * d = nullptr; auto vi = fk::raw( fk::at( fb.fbViews[k] ).view.image ); for ( auto & y : ts ) if ( fk::raw( r.run->createImage( y.img ) ) == vi ) d = &y; sym_check( d != nullptr, "not the targets of the pass are rendered to" ); if ( !d ) continue;
				bool main = rp.atts[k].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR, sten = rp.atts[k].stencilLoadOp == VK_ATTACHMENT_LOAD_OP_CLEAR;
				if ( d->output ) { if ( d->colour || d->depth ) sym_check( main, "a target that is only written does not start cleared" ); if ( d->stencil ) sym_check( sten, "the stencil of a target that is only written does not start cleared" ); }
				if ( d->output && ( main || sten ) ) { sym_check( k < x.clears.size(), "a cleared target has no value" ); if ( k < x.clears.size() ) { auto & c = x.clears[k].color.uint32; auto & w = d->v.color.uint32; sym_check( ( c[0] == w[0] ) & ( d->colour ? ( c[1] == w[1] ) & ( c[2] == w[2] ) & ( c[3] == w[3] ) : !d->stencil | ( c[1] == w[1] ) ), "a target starts from another value than the one given with it" ); sym_reach( "target" ); } } } }
		sym_check( begins == 1 && marks > 0, "a pass is not rendered once" ); }
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: images( 2, 2, 2, Colour ); break;
	case 1: images( 2, 2, 1, VK_FORMAT_D24_UNORM_S8_UINT ); break;
	case 2: images( 2, 1, 2, VK_FORMAT_D32_SFLOAT ); break;
	case 3: buffers( 3, true ); break;
	case 4: buffers( 2, false ); break;
	case 5: indices( 2, 2 ); break;
	case 6: targets( 3, 2, 1 ); break;
	case 7: images( 2, 1, 2, Colour, true ); break;
	case 8: images( 3, 2, 2, Colour ); break;
	case 9: images( 3, 2, 1, VK_FORMAT_D24_UNORM_S8_UINT ); break;
	case 10: buffers( 4, true ); break;
	case 11: buffers( 3, false ); break;
	case 12: indices( 3, 3 ); break;
	case 13: targets( 3, 3, 2 ); break; } }
