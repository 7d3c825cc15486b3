// What Vulkan itself demands of the structures and command streams the library produces (the rules of the specification
// the library can break, whatever the graph): judged as the objects are made, the commands recorded.
#pragma once
#include "common.hpp"
namespace valid {
using namespace hc;
using fk::Obj; using fk::at; using fk::raw;
inline bool depthFmt( VkFormat f ) { return f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D32_SFLOAT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT; }
inline bool stencilFmt( VkFormat f ) { return f == VK_FORMAT_S8_UINT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT; }
inline VkImageAspectFlags aspects( VkFormat f ) { VkImageAspectFlags r = ( depthFmt( f ) ? VK_IMAGE_ASPECT_DEPTH_BIT : 0u ) | ( stencilFmt( f ) ? VK_IMAGE_ASPECT_STENCIL_BIT : 0u ); return r ? r : VkImageAspectFlags( VK_IMAGE_ASPECT_COLOR_BIT ); }
inline bool colourFmt( VkFormat f ) { return aspects( f ) == VK_IMAGE_ASPECT_COLOR_BIT; }
inline bool dsLayout( VkImageLayout l ) { return l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL || l == VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL; }
// what an image must have been made for to be in a layout
inline VkImageUsageFlags usageFor( VkImageLayout l )
{
	if ( l == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL ) return VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT;
	if ( l == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ) return VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_INPUT_ATTACHMENT_BIT;
	if ( l == VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) return VK_IMAGE_USAGE_TRANSFER_SRC_BIT; if ( l == VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) return VK_IMAGE_USAGE_TRANSFER_DST_BIT;
	if ( l == VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL ) return VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT | VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_INPUT_ATTACHMENT_BIT;
	if ( dsLayout( l ) ) return VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT; return ~0u;
}
inline bool layoutFor( VkImageLayout l, VkFormat f ) {
	bool d = ( l == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL ) | ( l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL ), s = ( l == VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL ) | ( l == VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL );
	// the layouts of one aspect are not for images that have the other one
	if ( ( d && stencilFmt( f ) ) || ( s && depthFmt( f ) ) ) return false;
	return ( !dsLayout( l ) || !colourFmt( f ) ) && ( l != VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL || colourFmt( f ) ); }
uint32_t const Shaders = VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
uint32_t const Graphics = VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT | VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT | VK_PIPELINE_STAGE_VERTEX_INPUT_BIT | Shaders | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT;
inline uint32_t accessOf( uint32_t s )
{
	if ( s & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT ) return 0x1FFFF & ~uint32_t( VK_ACCESS_HOST_READ_BIT | VK_ACCESS_HOST_WRITE_BIT );
	if ( s & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) s |= Graphics;
	uint32_t r = VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT;
	if ( s & VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT ) r |= VK_ACCESS_INDIRECT_COMMAND_READ_BIT;
	if ( s & VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ) r |= VK_ACCESS_INDEX_READ_BIT | VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT;
	if ( s & ( Shaders | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) ) r |= VK_ACCESS_UNIFORM_READ_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT;
	if ( s & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) r |= VK_ACCESS_INPUT_ATTACHMENT_READ_BIT;
	if ( s & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) r |= VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
	if ( s & ( VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) ) r |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
	if ( s & VK_PIPELINE_STAGE_TRANSFER_BIT ) r |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
	if ( s & VK_PIPELINE_STAGE_HOST_BIT ) r |= VK_ACCESS_HOST_READ_BIT | VK_ACCESS_HOST_WRITE_BIT;
	return r;
}
inline bool inside( Obj const & img, VkImageSubresourceRange const & r )
{
	auto one = []( uint32_t b, uint32_t c, uint32_t n ) { return ( b < n ) & ( ( c == ~0u ) | ( ( c != 0 ) & ( c <= n ) & ( b + c <= n ) ) ); };
	return one( r.baseMipLevel, r.levelCount, img.img.mipLevels ) & one( r.baseArrayLayer, r.layerCount, img.img.arrayLayers );
}
inline void rangeOk( uint64_t image, VkImageSubresourceRange const & r, bool whole ) {
	auto & i = at( image ); auto a = aspects( i.img.format );
	sym_check( inside( i, r ), "a range lies outside of its image" );
	sym_check( ( r.aspectMask != 0 ) & ( ( r.aspectMask & ~a ) == 0 ), "a range has aspects its image does not" );
	// both aspects change layout together
	if ( whole ) sym_check( r.aspectMask == a, "a barrier leaves out an aspect of the image" ); }
struct State { uint64_t pipe[2]{}, sets[2]{}, setsLayout[2]{}, vb{}, ib{}; std::vector< fk::Cmd > pushes; uint64_t rp{}; };
struct Judge
{
	State st; uint32_t draws{};
	Judge() { auto & w = fk::w(); w.on |= fk::VALID; w.onMade = [this]( uint64_t h ) { made( at( h ) ); }; w.onCmd = [this]( fk::Cmd const & c ) { cmd( c ); }; w.onEnd = [this]( VkCommandBuffer ) { st = State{}; }; }
	~Judge() { fk::w().onMade = {}; fk::w().onCmd = {}; fk::w().onEnd = {}; }
	// ---- objects
	void made( Obj & o )
	{
		switch ( o.type ) {
		case fk::TImage: sym_check( ( o.img.mipLevels > 0 ) & ( o.img.arrayLayers > 0 ) & ( o.img.extent.width > 0 ) & ( o.img.extent.height > 0 ) & ( o.img.extent.depth > 0 ) & ( o.img.samples != 0 ) & ( o.img.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED ), "an image is made without levels, layers, size or samples, or in a layout" ); break;
		case fk::TView: { auto & i = at( o.parent ); auto & r = o.view.subresourceRange; rangeOk( o.parent, r, false );
			bool one = ( o.view.viewType == VK_IMAGE_VIEW_TYPE_1D ) | ( o.view.viewType == VK_IMAGE_VIEW_TYPE_2D ) | ( o.view.viewType == VK_IMAGE_VIEW_TYPE_3D ); sym_check( !one | ( r.layerCount == 1 ), "a view that is no array has several layers" );
			sym_check( o.view.viewType != VK_IMAGE_VIEW_TYPE_CUBE || r.layerCount == 6, "a cube view has no six layers" );
			sym_check( ( i.img.imageType == VK_IMAGE_TYPE_3D ) == ( o.view.viewType == VK_IMAGE_VIEW_TYPE_3D ), "a view has another dimension than its image" );
			sym_check( o.view.format == i.img.format, "a view has another format than its image" ); break; }
		case fk::TRenderPass: pass( o ); break;
		case fk::TFramebuffer: { auto & rp = at( o.fb.renderPass ); sym_check( rp.atts.size() == o.fbViews.size(), "a framebuffer has not one view per attachment" );
			sym_check( ( o.fb.width > 0 ) & ( o.fb.height > 0 ) & ( o.fb.layers > 0 ), "a framebuffer without size or layers" );
			for ( size_t k = 0; k < o.fbViews.size() && k < rp.atts.size(); ++k ) { auto & v = at( o.fbViews[k] ); auto & i = at( v.parent ); auto & r = v.view.subresourceRange; auto m = r.baseMipLevel; auto dim = [m]( uint32_t n ) { return ( n >> m ) ? n >> m : 1u; };
				sym_check( ( v.view.format == rp.atts[k].format ) & ( i.img.samples == rp.atts[k].samples ), "a framebuffer view has another format or sample count than its attachment" );
				sym_check( r.levelCount == 1, "a framebuffer view has several levels" ); sym_check( o.fb.layers <= r.layerCount, "a framebuffer has more layers than its views" );
				sym_check( ( o.fb.width <= dim( i.img.extent.width ) ) & ( o.fb.height <= dim( i.img.extent.height ) ), "a framebuffer is larger than its views" );
				sym_check( ( i.img.usage & ( colourFmt( i.img.format ) ? VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT : VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT ) ) != 0, "a framebuffer view is no attachment" );
				sym_check( r.aspectMask == aspects( i.img.format ) || !colourFmt( i.img.format ), "a framebuffer view of a colour image has another aspect" ); } break; }
		case fk::TDsLayout: { std::set< uint32_t > s; for ( auto & b : o.bindings ) { sym_check( s.insert( b.binding ).second, "a binding is declared twice" ); sym_check( b.descriptorCount > 0 && b.stageFlags != 0, "a binding without descriptors or stages" ); } break; }
		case fk::TDsPool: sym_check( o.maxSets > 0, "a pool without sets" ); for ( auto & s : o.poolSizes ) sym_check( s.descriptorCount > 0, "a pool size of nothing" ); break;
		case fk::TPipeLayout: { uint32_t all = 0; for ( auto & p : o.push ) { sym_check( ( p.stageFlags != 0 ) & ( ( p.stageFlags & all ) == 0 ), "a stage in two push constant ranges, or in none" ); all |= p.stageFlags; sym_check( ( p.size > 0 ) & ( p.size % 4 == 0 ) & ( p.offset % 4 == 0 ), "a push constant range that is empty or not aligned" ); } break; }
		case fk::TGfxPipe: { if ( o.compute ) break; auto & rp = at( o.pipeRenderPass ); sym_check( o.subpass < rp.subpasses, "a pipeline for a subpass that is not" );
			sym_check( rp.colRefs.empty() || o.hasColourBlend, "a pipeline without blend state for colour attachments" ); sym_check( !o.hasColourBlend || o.blends.size() == rp.colRefs.size(), "a pipeline has not one blend state per colour attachment" );
			sym_check( !rp.hasDepth || o.hasDepthState, "a pipeline without depth state for a depth attachment" ); sym_check( o.vps.size() == 1 && o.scissors.size() == 1, "a pipeline without one viewport and scissor" );
			for ( auto & v : o.vps ) sym_check( v.width > 0.0f && v.minDepth >= 0.0f && v.maxDepth <= 1.0f, "a viewport is empty or outside of depth" ); for ( auto & s : o.scissors ) sym_check( ( s.offset.x >= 0 ) & ( s.offset.y >= 0 ), "a scissor starts before the origin" );
			for ( auto & a : rp.atts ) sym_check( o.ms.rasterizationSamples == a.samples, "a pipeline has another sample count than the attachments" );
			sym_check( o.rs.lineWidth == 1.0f, "a line width that is not one" );
			for ( auto & a : o.vAttrs ) { bool f = false; for ( auto & b : o.vBinds ) f = f || b.binding == a.binding; sym_check( f, "a vertex attribute without its binding" ); } break; }
		default: break; }
	}
	void pass( Obj & o )
	{
		sym_check( o.subpasses == 1, "a render pass has not one subpass" ); std::set< uint32_t > seen;
		auto ref = [&]( VkAttachmentReference const & r, bool colour ) { sym_check( r.attachment < o.atts.size() && seen.insert( r.attachment ).second, "an attachment reference is outside of the render pass, or double" ); if ( r.attachment >= o.atts.size() ) return; auto f = o.atts[r.attachment].format; sym_check( colourFmt( f ) == colour, "a colour attachment is used as depth, or the reverse" ); sym_check( ( r.layout == VK_IMAGE_LAYOUT_GENERAL ) | ( colour ? r.layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL : dsLayout( r.layout ) && layoutFor( r.layout, f ) ), "an attachment is referred to in a layout that is not for it" ); };
		for ( auto & r : o.colRefs ) ref( r, true ); if ( o.hasDepth ) ref( o.depthRef, false ); sym_check( seen.size() == o.atts.size(), "an attachment is not used by the subpass" );
		for ( auto & a : o.atts ) {
			sym_check( ( a.finalLayout != VK_IMAGE_LAYOUT_UNDEFINED ) & ( a.finalLayout != VK_IMAGE_LAYOUT_PREINITIALIZED ), "an attachment ends in no layout" );
			sym_check( layoutFor( a.initialLayout, a.format ) & layoutFor( a.finalLayout, a.format ), "an attachment begins or ends in a layout that is not for its format" );
			bool main = colourFmt( a.format ) || depthFmt( a.format ); sym_check( !main || a.loadOp != VK_ATTACHMENT_LOAD_OP_LOAD || a.initialLayout != VK_IMAGE_LAYOUT_UNDEFINED, "an attachment is loaded from the undefined layout" );
			sym_check( !stencilFmt( a.format ) || a.stencilLoadOp != VK_ATTACHMENT_LOAD_OP_LOAD || a.initialLayout != VK_IMAGE_LAYOUT_UNDEFINED, "the stencil of an attachment is loaded from the undefined layout" );
			sym_check( a.samples == o.atts[0].samples, "attachments of several sample counts" ); }
		for ( auto & d : o.deps ) {
			sym_check( ( d.srcStageMask != 0 ) & ( d.dstStageMask != 0 ), "a subpass dependency without stages" ); sym_check( ( ( d.srcAccessMask & ~accessOf( d.srcStageMask ) ) | ( d.dstAccessMask & ~accessOf( d.dstStageMask ) ) ) == 0, "a subpass dependency has accesses its stages do not make" );
			sym_check( ( d.srcSubpass == VK_SUBPASS_EXTERNAL ) != ( d.dstSubpass == VK_SUBPASS_EXTERNAL ), "a subpass dependency is not with the outside" );
			sym_check( ( ( d.srcSubpass == VK_SUBPASS_EXTERNAL ? d.dstStageMask : d.srcStageMask ) & ~Graphics ) == 0, "a subpass dependency has stages a subpass has not" ); }
	}
	// ---- commands
	void out( char const * m ) { sym_check( !st.rp, m ); }
	// a subresource of a transfer
	void sub( uint64_t image, VkImageSubresourceLayers const & l, VkOffset3D o, VkExtent3D e )
	{
		auto & i = at( image ); rangeOk( image, fk::toRange( l ), false ); auto m = l.mipLevel; auto dim = [m]( uint32_t n ) { return ( n >> m ) ? n >> m : 1u; };
		sym_check( ( o.x >= 0 ) & ( o.y >= 0 ) & ( o.z >= 0 ) & ( uint32_t( o.x ) + e.width <= dim( i.img.extent.width ) ) & ( uint32_t( o.y ) + e.height <= dim( i.img.extent.height ) ) & ( uint32_t( o.z ) + e.depth <= dim( i.img.extent.depth ) ), "a transfer goes outside of a level" );
		sym_check( ( e.width > 0 ) & ( e.height > 0 ) & ( e.depth > 0 ), "a transfer of nothing" );
	}
	void use( uint64_t image, VkImageUsageFlags u ) { sym_check( ( at( image ).img.usage & u ) != 0, "an image is used for what it was not made for" ); }
	void bufUse( uint64_t b, VkBufferUsageFlags u, uint64_t off, uint64_t size ) { auto & o = at( b ); sym_check( ( off < o.buf.size ) & ( ( size == VK_WHOLE_SIZE ) | ( ( size > 0 ) & ( off + size <= o.buf.size ) ) ), "a buffer is used outside of its size" ); sym_check( ( o.buf.usage & u ) != 0, "a buffer is used for what it was not made for" ); }
	static bool transferLayout( VkImageLayout l, VkImageLayout want ) { return l == want || l == VK_IMAGE_LAYOUT_GENERAL; }
	static bool overlap( VkImageSubresourceLayers const & a, VkImageSubresourceLayers const & b ) { return ( a.mipLevel == b.mipLevel ) & ( a.baseArrayLayer < b.baseArrayLayer + b.layerCount ) & ( b.baseArrayLayer < a.baseArrayLayer + a.layerCount ); }
	bool compatible( Obj const & a, Obj const & b ) { bool r = a.atts.size() == b.atts.size() && a.colRefs.size() == b.colRefs.size() && a.hasDepth == b.hasDepth; for ( size_t k = 0; r && k < a.atts.size(); ++k ) r = a.atts[k].format == b.atts[k].format && a.atts[k].samples == b.atts[k].samples; for ( size_t k = 0; r && k < a.colRefs.size(); ++k ) r = a.colRefs[k].attachment == b.colRefs[k].attachment; return r && ( !a.hasDepth || a.depthRef.attachment == b.depthRef.attachment ); }
	void cmd( fk::Cmd const & c )
	{
		auto ind = [&]( uint64_t size ) { sym_check( c.q[0] % 4 == 0, "indirect arguments that are not aligned" ); bufUse( c.src, VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT, c.q[0], size ); };
		switch ( c.kind ) {
		case fk::CBarrier: out( "a barrier inside of a render pass" ); sym_check( ( c.srcStage != 0 ) & ( c.dstStage != 0 ), "a barrier without stages" ); sym_check( !c.imgs.empty() || !c.bufs.empty() || !c.mems.empty(), "a barrier of nothing" );
			{ uint32_t s = accessOf( c.srcStage ), d = accessOf( c.dstStage );
			for ( auto & b : c.imgs ) { sym_check( ( ( b.srcAccessMask & ~s ) | ( b.dstAccessMask & ~d ) ) == 0, "an image barrier has accesses its stages do not make" ); sym_check( b.srcQueueFamilyIndex == b.dstQueueFamilyIndex, "an image changes queues" ); auto & i = at( b.image ); rangeOk( raw( b.image ), b.subresourceRange, true );
				sym_check( ( layoutFor( b.oldLayout, i.img.format ) & layoutFor( b.newLayout, i.img.format ) ), "an image barrier to or from a layout that is not for the format" ); sym_check( ( i.img.usage & usageFor( b.newLayout ) ) != 0 && ( i.img.usage & usageFor( b.oldLayout ) ) != 0, "an image barrier to or from a layout the image was not made for" ); }
			for ( auto & b : c.bufs ) { sym_check( ( ( b.srcAccessMask & ~s ) | ( b.dstAccessMask & ~d ) ) == 0, "a buffer barrier has accesses its stages do not make" ); sym_check( b.srcQueueFamilyIndex == b.dstQueueFamilyIndex, "a buffer changes queues" ); bufUse( raw( b.buffer ), ~0u, b.offset, b.size ); } } break;
		case fk::CClearColour: out( "a clear inside of a render pass" ); use( c.dst, VK_IMAGE_USAGE_TRANSFER_DST_BIT ); sym_check( transferLayout( c.dstLayout, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ), "a clear in another layout" ); sym_check( !c.ranges.empty(), "a clear of nothing" ); for ( auto & r : c.ranges ) { rangeOk( c.dst, r, false ); sym_check( r.aspectMask == VK_IMAGE_ASPECT_COLOR_BIT, "a colour clear of another aspect" ); } break;
		case fk::CClearDepth: out( "a clear inside of a render pass" ); use( c.dst, VK_IMAGE_USAGE_TRANSFER_DST_BIT ); sym_check( transferLayout( c.dstLayout, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ), "a clear in another layout" ); sym_check( !c.ranges.empty(), "a clear of nothing" ); for ( auto & r : c.ranges ) { rangeOk( c.dst, r, false ); sym_check( !colourFmt( at( c.dst ).img.format ), "a depth clear of colours" ); } break;
		case fk::CCopyImg: out( "a copy inside of a render pass" ); use( c.src, VK_IMAGE_USAGE_TRANSFER_SRC_BIT ); use( c.dst, VK_IMAGE_USAGE_TRANSFER_DST_BIT ); sym_check( transferLayout( c.srcLayout, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) && transferLayout( c.dstLayout, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ), "a copy in other layouts" );
			for ( auto & r : c.copies ) { sub( c.src, r.srcSubresource, r.srcOffset, r.extent ); sub( c.dst, r.dstSubresource, r.dstOffset, r.extent ); sym_check( ( r.srcSubresource.aspectMask == r.dstSubresource.aspectMask ) & ( r.srcSubresource.layerCount == r.dstSubresource.layerCount ), "a copy between different aspects or layer counts" ); sym_check( c.src != c.dst || !overlap( r.srcSubresource, r.dstSubresource ), "a copy onto itself" ); } sym_check( !c.copies.empty(), "a copy of nothing" ); break;
		case fk::CBlit: out( "a blit inside of a render pass" ); use( c.src, VK_IMAGE_USAGE_TRANSFER_SRC_BIT ); use( c.dst, VK_IMAGE_USAGE_TRANSFER_DST_BIT ); sym_check( transferLayout( c.srcLayout, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) && transferLayout( c.dstLayout, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ), "a blit in other layouts" );
			for ( auto & r : c.blits ) { auto ext = []( VkOffset3D const * o ) { return VkExtent3D{ uint32_t( o[1].x - o[0].x ), uint32_t( o[1].y - o[0].y ), uint32_t( o[1].z - o[0].z ) }; }; sub( c.src, r.srcSubresource, r.srcOffsets[0], ext( r.srcOffsets ) ); sub( c.dst, r.dstSubresource, r.dstOffsets[0], ext( r.dstOffsets ) ); sym_check( ( r.srcSubresource.aspectMask == r.dstSubresource.aspectMask ) & ( r.srcSubresource.layerCount == r.dstSubresource.layerCount ), "a blit between different aspects or layer counts" ); sym_check( c.src != c.dst || !overlap( r.srcSubresource, r.dstSubresource ), "a blit onto itself" ); } sym_check( !c.blits.empty(), "a blit of nothing" );
			sym_check( colourFmt( at( c.src ).img.format ) || ( at( c.src ).img.format == at( c.dst ).img.format && c.filter == VK_FILTER_NEAREST ), "a filtered or converting blit of depth" ); sym_check( at( c.src ).img.samples == VK_SAMPLE_COUNT_1_BIT && at( c.dst ).img.samples == VK_SAMPLE_COUNT_1_BIT, "a blit of several samples" ); break;
		case fk::CCopyBuf: out( "a copy inside of a render pass" ); sym_check( !c.bcopies.empty(), "a copy of nothing" ); for ( auto & r : c.bcopies ) { bufUse( c.src, VK_BUFFER_USAGE_TRANSFER_SRC_BIT, r.srcOffset, r.size ); bufUse( c.dst, VK_BUFFER_USAGE_TRANSFER_DST_BIT, r.dstOffset, r.size ); } break;
		case fk::CCopyBufImg: case fk::CCopyImgBuf: { bool to = c.kind == fk::CCopyBufImg; auto img = to ? c.dst : c.src, buf = to ? c.src : c.dst; out( "a copy inside of a render pass" ); use( img, to ? VK_IMAGE_USAGE_TRANSFER_DST_BIT : VK_IMAGE_USAGE_TRANSFER_SRC_BIT ); sym_check( transferLayout( to ? c.dstLayout : c.srcLayout, to ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ), "a copy in another layout" ); sym_check( !c.bicopies.empty(), "a copy of nothing" );
			for ( auto & r : c.bicopies ) { sub( img, r.imageSubresource, r.imageOffset, r.imageExtent ); auto a = r.imageSubresource.aspectMask; sym_check( ( a & ( a - 1 ) ) == 0, "a buffer copy of two aspects" ); sym_check( r.bufferRowLength == 0 || r.bufferRowLength >= r.imageExtent.width, "a row length below the width" ); sym_check( r.bufferImageHeight == 0 || r.bufferImageHeight >= r.imageExtent.height, "an image height below the height" ); bufUse( buf, to ? VK_BUFFER_USAGE_TRANSFER_SRC_BIT : VK_BUFFER_USAGE_TRANSFER_DST_BIT, r.bufferOffset, VK_WHOLE_SIZE ); } break; }
		case fk::CFill: out( "a fill inside of a render pass" ); sym_check( ( c.q[0] % 4 == 0 ) & ( ( c.q[1] == VK_WHOLE_SIZE ) | ( c.q[1] % 4 == 0 ) ), "a fill that is not aligned" ); bufUse( c.dst, VK_BUFFER_USAGE_TRANSFER_DST_BIT, c.q[0], c.q[1] ); break;
		case fk::CDispatch: out( "a dispatch inside of a render pass" ); ready( true ); break;
		case fk::CDispatchInd: out( "a dispatch inside of a render pass" ); ready( true ); ind( 12 ); break;
		case fk::CDraw: ready( false ); break;
		case fk::CDrawInd: ready( false ); ind( 16 ); sym_check( c.n[0] <= 1 || c.n[1] % 4 == 0, "an indirect stride that is not aligned" ); break;
		case fk::CDrawIdx: ready( false ); sym_check( st.ib != 0, "an indexed draw without indices" ); break;
		case fk::CDrawIdxInd: ready( false ); ind( 20 ); sym_check( st.ib != 0, "an indexed draw without indices" ); break;
		case fk::CBeginRP: { out( "a render pass inside of a render pass" ); st.rp = c.src; auto & rp = at( c.src ); auto & fb = at( c.dst ); sym_check( compatible( rp, at( fb.fb.renderPass ) ), "a framebuffer is not for the render pass" );
			for ( size_t k = 0; k < rp.atts.size(); ++k ) if ( rp.atts[k].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR || ( stencilFmt( rp.atts[k].format ) && rp.atts[k].stencilLoadOp == VK_ATTACHMENT_LOAD_OP_CLEAR ) ) sym_check( k < c.clears.size(), "a cleared attachment has no clear value" );
			sym_check( ( c.area.offset.x >= 0 ) & ( c.area.offset.y >= 0 ) & ( uint32_t( c.area.offset.x ) + c.area.extent.width <= fb.fb.width ) & ( uint32_t( c.area.offset.y ) + c.area.extent.height <= fb.fb.height ) & ( c.area.extent.width > 0 ) & ( c.area.extent.height > 0 ), "a render area is empty or outside of the framebuffer" ); break; }
		case fk::CEndRP: sym_check( st.rp != 0, "a render pass ended but none is open" ); st.rp = 0; break;
		case fk::CBindPipe: sym_check( at( c.src ).compute == ( c.bp == VK_PIPELINE_BIND_POINT_COMPUTE ), "a pipeline bound to the other point" ); st.pipe[bp( c )] = c.src; break;
		case fk::CBindSets: { auto & l = at( c.src ); sym_check( c.n[0] == 0 && c.hs.size() == l.layoutSets.size() && c.dyn.empty(), "not the sets of the layout are bound" ); for ( size_t k = 0; k < c.hs.size() && k < l.layoutSets.size(); ++k ) sym_check( at( c.hs[k] ).setLayout == l.layoutSets[k], "a set of another layout is bound" ); st.setsLayout[bp( c )] = c.src; st.sets[bp( c )] = c.hs.empty() ? 0 : c.hs[0]; break; }
		case fk::CBindVB: st.vb = c.hs.empty() ? 0 : c.hs[0]; bufUse( st.vb, VK_BUFFER_USAGE_VERTEX_BUFFER_BIT, c.q[0], VK_WHOLE_SIZE ); break;
		case fk::CBindIB: st.ib = c.src; bufUse( st.ib, VK_BUFFER_USAGE_INDEX_BUFFER_BIT, c.q[0], VK_WHOLE_SIZE ); sym_check( c.n[0] == VK_INDEX_TYPE_UINT16 || c.n[0] == VK_INDEX_TYPE_UINT32, "indices of no type" ); sym_check( c.q[0] % ( c.n[0] == VK_INDEX_TYPE_UINT16 ? 2 : 4 ) == 0, "indices that are not aligned" ); break;
		case fk::CPush: { auto & l = at( c.src ); sym_check( ( c.n[1] % 4 == 0 ) & ( c.n[2] % 4 == 0 ) & ( c.n[2] > 0 ) & ( c.n[0] != 0 ), "push constants of nothing, or not aligned" ); bool in = false; for ( auto & r : l.push ) { bool touch = ( c.n[1] < r.offset + r.size ) & ( r.offset < c.n[1] + c.n[2] ); in = in || ( ( ( c.n[0] & ~r.stageFlags ) == 0 ) & ( c.n[1] >= r.offset ) & ( c.n[1] + c.n[2] <= r.offset + r.size ) ); sym_check( !touch || ( r.stageFlags & ~c.n[0] ) == 0, "push constants without all the stages of their range" ); } sym_check( in, "push constants outside of the ranges" ); break; }
		case fk::CResetQuery: out( "queries reset inside of a render pass" ); break;
		default: break; }
	}
	static int bp( fk::Cmd const & c ) { return c.bp == VK_PIPELINE_BIND_POINT_COMPUTE ? 1 : 0; }
	// a dispatch or a draw has all it needs
	void ready( bool compute )
	{
		++draws; int b = compute ? 1 : 0; sym_check( st.pipe[b] != 0, "a dispatch or a draw without a pipeline" ); auto & p = at( st.pipe[b] ); auto & l = at( p.pipeLayout );
		sym_check( l.layoutSets.empty() || ( st.sets[b] && at( st.setsLayout[b] ).layoutSets == l.layoutSets ), "a dispatch or a draw without the sets of its pipeline" );
		if ( !l.layoutSets.empty() ) for ( auto & x : at( l.layoutSets[0] ).bindings ) for ( uint32_t e = 0; e < x.descriptorCount; ++e ) { fk::DsWrite const * f = nullptr; for ( auto & w : fk::w().writes ) if ( w.set == st.sets[b] && w.binding == x.binding && e >= w.element && e < w.element + ( w.imgs.size() + w.bufs.size() + w.texels.size() ) ) f = &w;
			sym_check( f != nullptr, "a descriptor is used that was never written" ); if ( !f ) continue; sym_check( f->type == x.descriptorType, "a descriptor is written as another type" );
			if ( !f->imgs.empty() ) { auto & i = f->imgs[e - f->element]; auto & v = at( i.imageView ); bool sampled = x.descriptorType == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER; sym_check( !sampled || raw( i.sampler ), "a sampled image without its sampler" ); sym_check( ( v.view.subresourceRange.aspectMask & ( v.view.subresourceRange.aspectMask - 1 ) ) == 0, "a descriptor has both aspects of an image" ); use( v.parent, sampled ? VK_IMAGE_USAGE_SAMPLED_BIT : VK_IMAGE_USAGE_STORAGE_BIT ); fk::forRange( v.parent, v.view.subresourceRange, [&]( uint32_t a, uint32_t m ) { sym_check( fk::layoutOf( v.parent, a, m ) == i.imageLayout, "a descriptor has another layout than its image is in" ); } ); }
			if ( !f->bufs.empty() ) { auto & u = f->bufs[e - f->element]; bufUse( raw( u.buffer ), x.descriptorType == VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER ? VK_BUFFER_USAGE_UNIFORM_BUFFER_BIT : VK_BUFFER_USAGE_STORAGE_BUFFER_BIT, u.offset, u.range ); } }
		// what is written to other bindings
		if ( !l.layoutSets.empty() ) for ( auto & w : fk::w().writes ) if ( w.set == st.sets[b] ) { bool f = false; for ( auto & x : at( l.layoutSets[0] ).bindings ) f = f || ( x.binding == w.binding && w.element + w.imgs.size() + w.bufs.size() <= x.descriptorCount ); sym_check( f, "a descriptor is written that the layout has not" ); }
		if ( compute ) return;
		sym_check( st.rp != 0, "a draw outside of a render pass" ); if ( st.rp ) sym_check( compatible( at( st.rp ), at( p.pipeRenderPass ) ), "a pipeline made for another kind of render pass" ); sym_check( p.vBinds.empty() || st.vb, "a draw without its vertices" );
	}
};
}
