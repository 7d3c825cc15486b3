// C29: what the library asks of Vulkan is what Vulkan allows, whatever the graph
#include "valid.hpp"
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
using namespace hc;
namespace {
using Program = VkPipelineShaderStageCreateInfoArray;
VkFormat const Colour = VK_FORMAT_R8G8B8A8_UNORM;
uint32_t const Side = 16;
enum Gfx : uint32_t { Quad, Mesh, Render };
struct MeshOpt { bool vertices{}, indices{}, indirect{}; VkIndexType type{ VK_INDEX_TYPE_UINT32 }; VkDeviceSize off{}; uint32_t stride{}; bool ds{}; };
struct Rig
{
	valid::Judge judge; std::unique_ptr< GraphContext > ctx; std::unique_ptr< ResourceHandler > h; std::unique_ptr< FrameGraph > g; RunnableGraphPtr run; uint32_t names{}; uint32_t index{}; std::vector< std::unique_ptr< bool > > on; Log log; bool toggled{};
	static fk::CtxDesc desc( bool separate ) { fk::CtxDesc d; d.separateDs = separate; return d; }
	explicit Rig( bool separate = true ) : ctx{ ( fk::w().on = fk::LIFETIME | fk::STATE | fk::LAYOUT | fk::VALID | fk::INFLIGHT | fk::FENCE, fk::context( desc( separate ) ) ) }, h{ std::make_unique< ResourceHandler >() }, g{ std::make_unique< FrameGraph >( *h, "g" ) } {}
	~Rig() { if ( run ) run->getFence().wait( 0xFFFFFFFFFFFFFFFFull ); run.reset(); g.reset(); h.reset(); ctx.reset(); }
	std::string name( char const * p ) { return p + std::to_string( names++ ); }
	ImageId image( VkFormat f, uint32_t layers = 1, uint32_t mips = 1, VkExtent3D e = { Side, Side, 1 }, VkSampleCountFlagBits s = VK_SAMPLE_COUNT_1_BIT ) { VkImageUsageFlags u = VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | ( valid::colourFmt( f ) ? VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT | VK_IMAGE_USAGE_STORAGE_BIT : VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT ); return h->createImageId( ImageData{ name( "i" ), 0u, e.depth > 1 ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, f, e, u, mips, layers, s } ); }
	ImageViewId view( ImageId i, VkImageSubresourceRange r ) { return h->createViewId( viewData( name( "v" ).c_str(), i, i.data->info.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY, r ) ); }
	ImageViewId whole( ImageId i ) { return view( i, rng( getAspectMask( i.data->info.format ), 0, i.data->info.mipLevels, 0, i.data->info.arrayLayers ) ); }
	// any sub-range, of one level if asked
	ImageViewId some( std::string const & n, ImageId i, bool oneLevel = false, bool oneLayer = false ) { auto r = symRange( n, i.data->info.arrayLayers, i.data->info.mipLevels, getAspectMask( i.data->info.format ) ); if ( oneLevel ) sym_assume( r.levelCount == 1 ); if ( oneLayer ) sym_assume( r.layerCount == 1 ); r.levelCount = oneLevel ? 1 : r.levelCount; return view( i, r ); }
	// of any of its aspects
	ImageViewId aspect( std::string const & n, ImageViewId v, bool both = true ) { auto r = v.data->info.subresourceRange; if ( r.aspectMask != ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) ) return v; auto k = forkIdx( n + "aspect", both ? 3 : 2 ); if ( k == 2 ) return v; r.aspectMask = k ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT; return view( v.data->image, r ); }
	VkBuffer buffer( VkBufferUsageFlags u, VkDeviceSize size = 1024 ) { auto b = fk::add( fk::TBuffer ); fk::at( b ).buf.size = size; fk::at( b ).buf.usage = u; return fk::mk< VkBuffer >( b ); }
	static Program program( uint32_t stages ) { Program p; for ( uint32_t k = 0; k < stages; ++k ) { VkPipelineShaderStageCreateInfo s{}; s.sType = VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO; p.push_back( s ); } return p; }
	RunnablePass::IsEnabledCallback enabled() { on.push_back( std::make_unique< bool >( true ) ); auto p = on.back().get(); return RunnablePass::IsEnabledCallback( [p]() { return *p; } ); }
	RunnablePass::GetPassIndexCallback idx() { return RunnablePass::GetPassIndexCallback( [this]() { return index; } ); }
	template< typename C > void depthState( C & c ) { VkPipelineDepthStencilStateCreateInfo d{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO }; d.depthTestEnable = VK_TRUE; d.depthWriteEnable = VK_TRUE; d.depthCompareOp = VK_COMPARE_OP_LESS; c.depthStencilState( d ); }
	FramePass & gfx( uint32_t kind, MeshOpt o = {}, ru::Config cfg = {}, uint32_t side = Side, std::function< void( RecordContext &, VkCommandBuffer, uint32_t ) > rec = {} )
	{
		auto en = enabled(); // the viewport is the size given; without one a render pass takes the size of its targets
		VkExtent2D e{ side, side };
		auto ind = [this, o]() { return IndirectBuffer{ Buffer{ buffer( VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT ), "ind" }, o.stride, uint32_t( o.off ) }; };
		auto mine = [rec]() { return RunnablePass::RecordCallback( [rec]( RecordContext & rc, VkCommandBuffer cb, uint32_t i ) { fk::mark( cb, 1 ); if ( rec ) rec( rc, cb, i ); } ); };
		return g->createPass( name( "p" ), [=, this]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr {
			if ( kind == Quad ) { rq::Config c; c.program( program( 2 ) ); c.isEnabled( en ).passIndex( &index ).renderSize( e ).recordInto( mine() ); if ( o.vertices ) c.texcoordConfig( Texcoord{} ); if ( o.indirect ) c.indirectBuffer( ind() ); if ( o.ds ) depthState( c ); return std::make_unique< RenderQuad >( fp, x, r, cfg, std::move( c ) ); }
			if ( kind == Mesh ) { rm::Config c; c.program( program( 2 ) ); c.isEnabled( en ).getPassIndex( idx() ).renderSize( e ).recordInto( mine() ); if ( o.indirect ) c.indirectBuffer( ind() ); if ( o.ds ) depthState( c ); if ( o.indices ) { auto t = o.type; c.indexBuffer( IndexBuffer{ Buffer{ buffer( VK_BUFFER_USAGE_INDEX_BUFFER_BIT ), "ib" } } ).getIndexType( GetIndexTypeCallback{ [t]() -> VkIndexType { return t; } } ); }
				if ( o.vertices ) c.vertexBuffer( VertexBuffer{ Buffer{ buffer( VK_BUFFER_USAGE_VERTEX_BUFFER_BIT ), "vb" }, {}, { { 0, 0, VK_FORMAT_R32G32_SFLOAT, 0 } }, { { 0, 8, VK_VERTEX_INPUT_RATE_VERTEX } } } ); return std::make_unique< RenderMesh >( fp, x, r, cfg, std::move( c ) ); }
			return std::make_unique< RenderPass >( fp, x, r, RenderPass::Callbacks{ RunnablePass::InitialiseCallback( []( uint32_t ) {} ), mine(), RenderPass::GetSubpassContentsCallback( []() { return VK_SUBPASS_CONTENTS_INLINE; } ), idx(), en }, e, cfg ); } );
	}
	FramePass & compute( bool indirect = false, VkDeviceSize off = 0, VkPushConstantRange const * push = nullptr, std::function< void( RecordContext &, VkCommandBuffer, uint32_t ) > rec = {}, ru::Config cfg = {} )
	{
		auto en = enabled(); std::vector< VkPushConstantRange > pc; if ( push ) pc.push_back( *push );
		return g->createPass( name( "p" ), [=, this]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr { cp::Config c; c.program( program( 1 ) ); c.isEnabled( en ).getPassIndex( idx() ).recordInto( RunnablePass::RecordCallback( [rec]( RecordContext & rc, VkCommandBuffer cb, uint32_t i ) { fk::mark( cb, 1 ); if ( rec ) rec( rc, cb, i ); } ) ); if ( indirect ) c.indirectBuffer( IndirectBuffer{ Buffer{ buffer( VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT ), "ind" }, 0, uint32_t( off ) } ); for ( auto & p : pc ) c.pushConstants( p ); return std::make_unique< ComputePass >( fp, x, r, cfg, std::move( c ) ); } );
	}
	template< typename T, typename... A > FramePass & copy( A... a ) { auto en = enabled(); return g->createPass( name( "p" ), [=, this]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr { return std::make_unique< T >( fp, x, r, a..., ru::Config{}, idx(), en ); } ); }
	// runs, with any passes enabled each time
	void go( uint32_t times, bool toggle = false, bool submit = true )
	{
		run = g->compile( *ctx );
		for ( uint32_t t = 0; t < times; ++t ) {
			if ( toggle ) { uint32_t k = 0; for ( auto & e : on ) { *e = forkIdx( "on" + std::to_string( t ) + "_" + std::to_string( k++ ), 2 ); toggled = toggled || !*e; } }
			if ( submit ) { auto n = fk::w().submits.size(); auto waits = run->run( fk::mk< VkQueue >( 0xABC0 ) ); sym_check( fk::w().submits.size() > n, "a run submits nothing" ); } else run->record();
			sym_reach( "run" ); }
		if ( judge.draws ) sym_reach( "drawn" ); if ( toggled ) sym_reach( "toggled" );
	}
};
VkClearValue red() { VkClearValue v{}; v.color = { { 1.0f, 0.0f, 0.0f, 1.0f } }; return v; }
VkFormat depthFormat( uint32_t k ) { VkFormat const f[]{ VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_S8_UINT, VK_FORMAT_D16_UNORM, VK_FORMAT_D32_SFLOAT_S8_UINT }; return f[k]; }
// any targets
void targets( uint32_t kinds, uint32_t times, bool ranges, bool msaa )
{
	Rig r( forkIdx( "separate", 2 ) ); uint32_t kind = kinds == 3 ? forkIdx( "kind", 3 ) : kinds; uint32_t colours = forkIdx( "colours", 3 ), depth = forkIdx( "depth", ranges ? 4 : 6 ); sym_assume( colours + depth > 0 ); auto s = msaa && forkIdx( "msaa", 2 ) ? VK_SAMPLE_COUNT_4_BIT : VK_SAMPLE_COUNT_1_BIT;
	// all targets have the same layers and size
	uint32_t layers = ranges ? 3 : 1, mips = ranges ? 3 : 1; VkImageSubresourceRange at{ 0, 0, 1, 0, 1 }; if ( ranges ) { at = symRange( "r", layers, 1 ); at.baseMipLevel = forkIdx( "level", 3 ); }
	auto target = [&]( VkFormat f ) { at.aspectMask = getAspectMask( f ); return r.view( r.image( f, layers, mips, { Side, Side, 1 }, s ), at ); };
	MeshOpt o; o.ds = depth && forkIdx( "ownDs", 2 ); auto & p = r.gfx( kind, o, {}, kind == Render && forkIdx( "unsized", 2 ) ? 0 : Side >> at.baseMipLevel );
	for ( uint32_t c = 0; c < colours; ++c ) { auto v = target( c ? VK_FORMAT_R16G16B16A16_SFLOAT : Colour ); auto how = forkIdx( "c" + std::to_string( c ), 3 ); if ( how == 0 ) p.addOutputColourView( v ); else if ( how == 1 ) p.addInOutColourView( v ); else p.addOutputColourView( v, red() ); }
	if ( depth ) { auto f = depthFormat( depth - 1 ); auto v = r.aspect( "t", target( f ) ); auto how = forkIdx( "d", 3 ); bool d = v.data->info.subresourceRange.aspectMask & VK_IMAGE_ASPECT_DEPTH_BIT, st = v.data->info.subresourceRange.aspectMask & VK_IMAGE_ASPECT_STENCIL_BIT;
		if ( d && st ) { if ( how == 0 ) p.addOutputDepthStencilView( v ); else if ( how == 1 ) p.addInOutDepthStencilView( v ); else { p.addInputDepthStencilView( v ); } }
		else if ( d ) { if ( how == 0 ) p.addOutputDepthView( v ); else if ( how == 1 ) p.addInOutDepthView( v ); else p.addInputDepthView( v ); }
		else { if ( how == 0 ) p.addOutputStencilView( v ); else if ( how == 1 ) p.addInOutStencilView( v ); else p.addInputStencilView( v ); } }
	r.go( times ); sym_reach( "targets" );
}
// any shader resources
void resources( uint32_t images, uint32_t buffers )
{
	Rig r( forkIdx( "separate", 2 ) ); bool gfx = forkIdx( "gfx", 2 ); bool indirect = forkIdx( "indirect", 2 ); auto off = VkDeviceSize( 4 * sym_range( "off", 0, 8 ) ); MeshOpt o; o.indirect = indirect; o.off = off; auto & p = gfx ? r.gfx( forkIdx( "kind", 2 ), o ) : r.compute( indirect, off ); uint32_t b = 0;
	if ( gfx ) p.addOutputColourView( r.whole( r.image( Colour ) ) );
	for ( uint32_t k = 0; k < images; ++k ) { auto n = "i" + std::to_string( k ); bool vol = forkIdx( n + "vol", 2 ); auto how = forkIdx( n + "how", 6 ); auto img = r.image( how == 5 ? VK_FORMAT_D24_UNORM_S8_UINT : Colour, vol ? 1 : 3, 2, { Side, Side, vol && how != 5 ? 4u : 1u } ); auto v = r.aspect( n, r.some( n, img, how != 0 && how != 5 ), false );
		if ( how == 0 || how == 5 ) p.addSampledView( v, b++ ); else if ( how == 1 ) p.addInputStorageView( v, b++ ); else if ( how == 2 ) p.addOutputStorageView( v, b++ ); else if ( how == 3 ) p.addInOutStorageView( v, b++ ); else p.addClearableOutputStorageView( v, b++ ); }
	for ( uint32_t k = 0; k < buffers; ++k ) { auto n = "b" + std::to_string( k ); auto how = forkIdx( n + "how", 5 ); auto bo = VkDeviceSize( 16 * sym_range( ( n + "off" ).c_str(), 0, 8 ) ), bs = VkDeviceSize( 4 * sym_range( ( n + "size" ).c_str(), 1, 64 ) ); Buffer buf{ r.buffer( how ? VK_BUFFER_USAGE_STORAGE_BUFFER_BIT | VK_BUFFER_USAGE_TRANSFER_DST_BIT : VkBufferUsageFlags( VK_BUFFER_USAGE_UNIFORM_BUFFER_BIT ) ), n };
		if ( how == 0 ) p.addUniformBuffer( buf, b++, bo, bs ); else if ( how == 1 ) p.addInputStorageBuffer( buf, b++, bo, bs ); else if ( how == 2 ) p.addOutputStorageBuffer( buf, b++, bo, bs ); else if ( how == 3 ) p.addInOutStorageBuffer( buf, b++, bo, bs ); else p.addClearableOutputStorageBuffer( buf, b++, bo, bs ); }
	r.go( 2, false, forkIdx( "submit", 2 ) ); sym_reach( "resources" );
}
VkFormat transferFormat( std::string const & n ) { auto k = forkIdx( n, 3 ); return k == 0 ? Colour : k == 1 ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_D24_UNORM_S8_UINT; }
// transfers between any views
void transfers()
{
	Rig r( forkIdx( "separate", 2 ) ); auto k = forkIdx( "kind", 6 ); VkExtent3D e{ 4, 4, 1 };
	if ( k < 2 ) { auto f = transferFormat( "fmt" ); bool vol = f == Colour && forkIdx( "vol", 2 ); if ( vol ) e.depth = 2; uint32_t layers = vol ? 1 : 2; VkExtent3D s{ Side, Side, vol ? 8u : 1u }; auto a = r.some( "a", r.image( f, layers, 2, s ), true ), b = r.some( "b", r.image( f, layers, 2, s ), true ); sym_assume( a.data->info.subresourceRange.layerCount == b.data->info.subresourceRange.layerCount ); if ( k == 0 && f == VK_FORMAT_D24_UNORM_S8_UINT ) { a = r.aspect( "ab", a ); auto br = b.data->info.subresourceRange; br.aspectMask = a.data->info.subresourceRange.aspectMask; b = r.view( b.data->image, br ); }
		auto & p = k == 0 ? r.copy< ImageCopy >( e, forkIdx( "final", 2 ) ? VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_UNDEFINED ) : r.copy< ImageBlit >( VkOffset3D{ 1, 2, 0 }, e, VkOffset3D{ 3, 0, 0 }, e, VK_FILTER_NEAREST ); p.addTransferInputView( a ); p.addTransferOutputView( b ); }
	else if ( k == 2 ) { auto so = VkDeviceSize( sym_range( "so", 0, 64 ) ), size = VkDeviceSize( sym_range( "size", 1, 128 ) ); auto & p = r.copy< BufferCopy >( so, size ); p.addTransferInputBuffer( Buffer{ r.buffer( VK_BUFFER_USAGE_TRANSFER_SRC_BIT ), "s" }, 0, 256 ); p.addTransferOutputBuffer( Buffer{ r.buffer( VK_BUFFER_USAGE_TRANSFER_DST_BIT ), "d" }, 0, 256 ); }
	else if ( k < 5 ) { auto f = transferFormat( "fmt" ); auto v = r.aspect( "v", r.some( "v", r.image( f, 3, 2 ), true ), false ); VkOffset3D o{ int32_t( sym_range( "x", 0, 4 ) ), 2, 0 };
		auto & p = k == 3 ? r.copy< BufferToImageCopy >( o, e ) : r.copy< ImageToBufferCopy >( o, e ); Buffer b{ r.buffer( k == 3 ? VK_BUFFER_USAGE_TRANSFER_SRC_BIT : VK_BUFFER_USAGE_TRANSFER_DST_BIT ), "b" };
		if ( k == 3 ) { p.addTransferInputBuffer( b, 0, 1024 ); p.addTransferOutputView( v ); } else { p.addTransferInputView( v ); p.addTransferOutputBuffer( b, 0, 1024 ); } }
	else { auto s = forkIdx( "shape", 4 ); VkExtent3D const es[]{ { 16, 16, 1 }, { 16, 2, 1 }, { 1, 8, 1 }, { 8, 4, 8 } }; VkImageLayout const ls[]{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL }; auto l = forkIdx( "after", 3 ); uint32_t layers = s == 3 ? 1 : 3; auto img = r.image( Colour, layers, s == 0 ? 5 : 4, es[s] ); auto range = symRange( "v", layers, 1 ); range.levelCount = img.data->info.mipLevels; auto & p = r.copy< GenerateMipmaps >( ls[l] ); p.addTransferInOutView( r.view( img, range ) ); }
	r.go( 2, false, forkIdx( "submit", 2 ) ); sym_reach( "transfers" );
}
// meshes with or without vertices, indices, indirect arguments; the size of the targets given or not
void meshes()
{
	Rig r; MeshOpt o; auto kind = forkIdx( "kind", 2 ); o.vertices = forkIdx( "vertices", 2 ); o.indices = kind == Mesh && forkIdx( "indices", 2 ); o.indirect = forkIdx( "indirect", 2 ); o.type = o.indices && forkIdx( "short", 2 ) ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32; o.off = 4 * sym_range( "off", 0, 8 ); o.stride = uint32_t( sym_range( "stride", 0, 64 ) );
	auto & p = r.gfx( kind, o ); p.addOutputColourView( r.whole( r.image( Colour ) ) ); p.addSampledView( r.some( "s", r.image( Colour, 2, 2 ) ), 0 ); r.go( 2, true ); sym_reach( "meshes" );
}
// passes of several kinds, one after the other, on any parts of one image
void chain( uint32_t n, uint32_t layers, uint32_t mips, uint32_t times, bool depthImage )
{
	Rig r( !depthImage || forkIdx( "separate", 2 ) ); VkFormat f = depthImage ? VK_FORMAT_D24_UNORM_S8_UINT : Colour; auto img = r.image( f, layers, mips ); auto other = r.image( f, 1, 1 );
	for ( uint32_t k = 0; k < n; ++k ) {
		auto s = "p" + std::to_string( k ); auto how = forkIdx( s, depthImage ? 6 : 8 ); auto v = r.some( s, img, true ); auto & i = v.data->info.subresourceRange; auto side = Side >> ( mips > 1 && how && how < 6 && how != 3 && how != 4 ? sym_fork( i.baseMipLevel ) : 0 );
		switch ( how ) {
		case 0: { auto & p = r.gfx( Quad ); p.addSampledView( r.aspect( s, v, false ), 0 ); p.addOutputColourView( r.whole( r.image( Colour ) ) ); break; }
		case 1: { auto & p = r.gfx( k % 2 ? Mesh : Render, {}, {}, side ); if ( depthImage ) { auto w = r.aspect( s, v ); auto m = w.data->info.subresourceRange.aspectMask; if ( m == VK_IMAGE_ASPECT_DEPTH_BIT ) p.addOutputDepthView( w ); else if ( m == VK_IMAGE_ASPECT_STENCIL_BIT ) p.addOutputStencilView( w ); else p.addOutputDepthStencilView( w ); } else p.addOutputColourView( v ); break; }
		case 2: { auto & p = r.gfx( k % 2 ? Quad : Mesh, {}, {}, side ); if ( depthImage ) p.addInOutDepthStencilView( v ); else p.addInOutColourView( v ); break; }
		case 3: { sym_assume( i.layerCount == 1 ); auto & p = r.copy< ImageCopy >( VkExtent3D{ 4, 4, 1 }, VK_IMAGE_LAYOUT_UNDEFINED ); p.addTransferInputView( v ); p.addTransferOutputView( r.whole( other ) ); break; }
		case 4: { sym_assume( i.layerCount == 1 ); auto & p = r.copy< ImageBlit >( VkOffset3D{}, VkExtent3D{ 4, 4, 1 }, VkOffset3D{}, VkExtent3D{ 8, 8, 1 }, VK_FILTER_NEAREST ); p.addTransferInputView( r.whole( other ) ); p.addTransferOutputView( v ); break; }
		case 5: { if ( depthImage ) { auto & p = r.gfx( Mesh, {}, {}, side ); auto w = r.aspect( s, v ); auto m = w.data->info.subresourceRange.aspectMask; if ( m == VK_IMAGE_ASPECT_DEPTH_BIT ) p.addInputDepthView( w ); else if ( m == VK_IMAGE_ASPECT_STENCIL_BIT ) p.addInputStencilView( w ); else p.addInputDepthStencilView( w ); } else { auto & p = r.gfx( Render, {}, {}, side ); p.addInputColourView( v ); } break; }
		case 6: { auto & p = r.compute(); p.addInOutStorageView( v, 0 ); break; }
		default: { auto & p = r.compute(); p.addClearableOutputStorageView( v, 0 ); break; } } }
	r.go( times, times > 1 ); sym_reach( "chain" );
}
// what users do with the context within a pass, or around it
void actions()
{
	Rig r( forkIdx( "separate", 2 ) ); bool depth = forkIdx( "depth", 2 ); auto f = depth ? VK_FORMAT_D24_UNORM_S8_UINT : Colour; auto img = r.image( f, 3, 2 ); auto a = r.some( "a", img, true ), b = r.some( "b", r.image( f, 3, 2 ), true ); sym_assume( a.data->info.subresourceRange.layerCount == b.data->info.subresourceRange.layerCount );
	auto what = forkIdx( "what", 6 ); auto fin = what < 3 && forkIdx( "final", 2 ) ? VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_UNDEFINED; bool force = what >= 3 && forkIdx( "force", 2 );
	VkClearValue cv{}; if ( depth ) cv.depthStencil = { 1.0f, 0u }; else cv.color = { { 1.0f, 0.0f, 0.0f, 1.0f } };
	RecordContext::ImplicitAction act;
	switch ( what ) {
	case 0: act = RecordContext::copyImage( b, a, VkExtent2D{ 4, 4 }, fin ); break;
	case 1: act = RecordContext::blitImage( b, a, VkOffset2D{ 0, 0 }, VkExtent2D{ 4, 4 }, VkOffset2D{ 1, 1 }, VkExtent2D{ 4, 4 }, VK_FILTER_NEAREST, fin ); break;
	case 2: act = RecordContext::clearAttachment( a, cv, fin ); break;
	case 3: act = [=]( RecordContext & rc, VkCommandBuffer cb, uint32_t ) { rc.memoryBarrier( cb, a, makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ), force ); }; break;
	case 4: act = [=]( RecordContext & rc, VkCommandBuffer cb, uint32_t ) { rc.memoryBarrier( cb, a, VK_IMAGE_LAYOUT_UNDEFINED, makeLayoutState( VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ), force ); }; break;
	default: { auto buf = r.buffer( VK_BUFFER_USAGE_STORAGE_BUFFER_BIT ); auto off = VkDeviceSize( 4 * sym_range( "boff", 0, 8 ) ); act = [=]( RecordContext & rc, VkCommandBuffer cb, uint32_t ) { rc.memoryBarrier( cb, buf, BufferSubresourceRange{ off, 64 }, AccessState{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT }, force ); rc.memoryBarrier( cb, buf, BufferSubresourceRange{ off, 64 }, AccessState{ VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT }, force ); }; break; } }
	auto when = forkIdx( "when", 3 ); ru::Config cfg; if ( when == 0 ) cfg.prePassAction( act ); else if ( when == 1 ) cfg.postPassAction( act ); else cfg.implicitAction( a, act );
	auto & p = r.gfx( Quad, {}, cfg ); p.addOutputColourView( r.whole( r.image( Colour ) ) );
	// reads what the action left
	auto & q = r.gfx( Mesh ); q.addSampledView( r.aspect( "q", a, false ), 0 ); q.addOutputColourView( r.whole( r.image( Colour ) ) ); q.addDependency( p );
	r.go( 2 ); sym_reach( "actions" );
}
// passes over one target, one sampled image and one buffer per index
void indices( uint32_t n, uint32_t times )
{
	Rig r; auto kind = forkIdx( "kind", 4 ); ru::Config cfg; cfg.maxPassCount = n; cfg.resettable = true; MeshOpt o; bool depth = kind < 3 && forkIdx( "depth", 2 ); o.ds = depth && forkIdx( "ownDs", 2 ); o.vertices = kind < 2 && forkIdx( "vertices", 2 ); auto & p = kind < 3 ? r.gfx( kind, o, cfg ) : r.compute( false, 0, nullptr, {}, cfg );
	ImageViewIdArray targets, depths, sampled; VkBufferArray bufs;
	for ( uint32_t k = 0; k < n; ++k ) { auto s = std::to_string( k ); auto range = symRange( "t" + s, 3, 1 ); targets.push_back( r.view( r.image( Colour, 3, 2 ), range ) ); range.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT; if ( depth ) depths.push_back( r.view( r.image( VK_FORMAT_D32_SFLOAT, 3, 2 ), range ) ); sampled.push_back( r.some( "s" + s, r.image( Colour, 2, 2 ) ) ); bufs.push_back( r.buffer( VK_BUFFER_USAGE_UNIFORM_BUFFER_BIT ) ); }
	p.addSampledView( sampled, 0 ); p.addUniformBuffer( Buffer{ bufs, "u" }, 1, 16, 32 ); if ( kind == 3 ) p.addInOutStorageView( targets, 2 ); else { if ( forkIdx( "inout", 2 ) ) p.addInOutColourView( targets ); else p.addOutputColourView( targets ); if ( depth ) p.addInOutDepthView( depths ); }
	r.run = r.g->compile( *r.ctx ); for ( uint32_t t = 0; t < times; ++t ) { r.index = forkIdx( "i" + std::to_string( t ), n ); r.run->run( fk::mk< VkQueue >( 0xABC0 ) ); } if ( r.judge.draws ) sym_reach( "indices" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: targets( 3, 2, false, true ); break;
	case 1: targets( Quad, 1, true, false ); break;
	case 2: resources( 1, 1 ); break;
	case 3: transfers(); break;
	case 4: meshes(); break;
	case 5: chain( 2, 2, 2, 1, false ); break;
	case 6: chain( 2, 2, 1, 1, true ); break;
	case 7: actions(); break;
	case 8: indices( 2, 2 ); break;
	case 9: targets( Mesh, 2, true, true ); break;
	case 10: targets( Render, 2, true, true ); break;
	case 11: resources( 2, 1 ); break;
	case 12: resources( 0, 2 ); break;
	case 13: chain( 3, 2, 2, 1, false ); break;
	case 14: chain( 2, 2, 2, 2, false ); break;
	case 15: chain( 3, 2, 1, 1, true ); break;
	case 16: indices( 3, 3 ); break; } }
