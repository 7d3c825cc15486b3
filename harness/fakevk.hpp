// Stand-in Vulkan device: records every call, tracks object lifetimes, command streams, submissions and image layouts.
#pragma once
#include "symx.h"
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/AttachmentTransition.hpp>
#include <RenderGraph/Exception.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/GraphNode.hpp>
#include <RenderGraph/GraphVisitor.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/LayerLayoutStatesHandler.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/FramePassTimer.hpp>
#include <RenderGraph/Signal.hpp>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace fk {
enum Type { TNone, TGfxPipe, TPipeLayout, TDsLayout, TDsPool, TDsSet, TBuffer, TMemory, TRenderPass, TFramebuffer, TImage, TView, TSampler, TCmdPool, TCmd, TSem, TQueryPool, TEvent, TFence };
enum Check { LIFETIME = 1, LAYOUT = 2, FENCE = 4, STATE = 8, QUERY = 16, INFLIGHT = 32, VALID = 64 };
struct Obj {
	Type type{ TNone }; bool alive{ true }; uint64_t parent{}; uint64_t mem{};
	VkImageCreateInfo img{}; VkImageViewCreateInfo view{}; VkSamplerCreateInfo samp{}; VkBufferCreateInfo buf{}; VkDeviceSize size{}; uint32_t memType{};
	std::vector< VkAttachmentDescription > atts; std::vector< VkAttachmentReference > colRefs, inRefs, resRefs; bool hasDepth{}; VkAttachmentReference depthRef{}; std::vector< VkSubpassDependency > deps; uint32_t subpasses{};
	std::vector< VkImageView > fbViews; VkFramebufferCreateInfo fb{};
	std::vector< VkDescriptorSetLayoutBinding > bindings; std::vector< VkDescriptorPoolSize > poolSizes; uint32_t maxSets{}; uint32_t setsAllocated{}; uint64_t setLayout{};
	std::vector< uint64_t > layoutSets; std::vector< VkPushConstantRange > push; bool compute{}; uint64_t pipeLayout{}; uint64_t pipeRenderPass{};
	uint32_t queryCount{}; bool recording{}; bool ended{}; uint32_t cbBegins{}; bool signaled{}; bool pending{}; uint32_t waits{}; uint32_t resets{}; bool mapped{};
	uint32_t usePending{}; std::set< uint64_t > uses; VkFlags flags{}; size_t firstCmd{}; int labels{}; uint32_t submits{};
	std::vector< uint32_t > qstate; // 0 unknown 1 reset 2 written
	// pipeline state copies
	bool hasColourBlend{}; std::vector< VkPipelineColorBlendAttachmentState > blends; std::vector< VkPipelineShaderStageCreateInfo > stages; bool hasDepthState{}; VkPipelineDepthStencilStateCreateInfo ds{}; std::vector< VkViewport > vps; std::vector< VkRect2D > scissors; VkPipelineInputAssemblyStateCreateInfo ia{}; VkPipelineRasterizationStateCreateInfo rs{}; VkPipelineMultisampleStateCreateInfo ms{}; std::vector< VkVertexInputAttributeDescription > vAttrs; std::vector< VkVertexInputBindingDescription > vBinds; uint32_t subpass{};
};
enum CmdKind { CBarrier, CClearColour, CClearDepth, CDispatch, CDispatchInd, CDraw, CDrawIdx, CDrawIdxInd, CDrawInd, CBeginRP, CEndRP, CBindPipe, CBindSets, CBindVB, CBindIB, CPush, CResetQuery, CTimestamp, CBlit, CCopyBuf, CCopyBufImg, CCopyImg, CCopyImgBuf, CExec, CFill, CMark, CEvent };
struct Cmd {
	CmdKind kind{}; VkCommandBuffer cb{}; uint32_t srcStage{}, dstStage{}, depFlags{};
	std::vector< VkImageMemoryBarrier > imgs; std::vector< VkBufferMemoryBarrier > bufs; std::vector< VkMemoryBarrier > mems;
	uint64_t src{}, dst{}; VkImageLayout srcLayout{}, dstLayout{}; std::vector< VkImageBlit > blits; std::vector< VkImageCopy > copies; std::vector< VkBufferCopy > bcopies; std::vector< VkBufferImageCopy > bicopies; VkFilter filter{};
	std::vector< VkImageSubresourceRange > ranges; VkClearColorValue col{}; VkClearDepthStencilValue dsv{}; uint32_t n[5]{}; uint64_t q[4]{}; std::vector< uint64_t > hs; std::vector< VkClearValue > clears; VkRect2D area{}; std::vector< uint32_t > dyn; int mark{}; VkPipelineBindPoint bp{}; std::vector< uint8_t > data;
};
struct Submit { VkQueue queue; std::vector< VkSemaphore > waits; std::vector< VkPipelineStageFlags > stages; std::vector< VkCommandBuffer > cbs; std::vector< VkSemaphore > signals; VkFence fence; };
struct DsWrite { uint64_t set; uint32_t binding, element; VkDescriptorType type; std::vector< VkDescriptorImageInfo > imgs; std::vector< VkDescriptorBufferInfo > bufs; std::vector< VkBufferView > texels; };
enum FailKind : uint32_t { FCreate = 1, FAlloc = 2, FBind = 4, FMap = 8, FSubmit = 16, FBegin = 32, FWait = 64, FLost = 128 };
struct World {
	uint32_t on{ 0 }; std::vector< Obj > objs; std::vector< Cmd > cmds; std::vector< Submit > submits; std::vector< DsWrite > writes;
	bool failing{}; uint32_t failKinds{ ~0u }; uint64_t failAt{ ~0ull }; uint32_t fallible{}; bool failed{}; VkResult failCode{ VK_ERROR_OUT_OF_DEVICE_MEMORY };
	std::map< std::pair< uint64_t, uint64_t >, VkImageLayout > layouts; // (image, layer<<32|mip)
	std::vector< uint8_t > mapped; uint64_t openRP{}, openFB{}; std::vector< uint64_t > queryResults; VkResult queryResult{ VK_SUCCESS }; uint32_t queryReads{}; VkDeviceSize reqSize{ 1024 }; uint32_t reqBits{ 0xFFFFFFFFu };
	std::function< void() > onWait; std::function< void( VkCommandBuffer ) > onEnd; std::function< void( uint64_t ) > onMade; std::function< void( Cmd const & ) > onCmd; uint64_t bound[4]{};
	uint32_t created[32]{}, destroyed[32]{};
};
inline World & w() { static World x; return x; }
inline void chk( uint32_t cat, bool c, char const * m ) { if ( w().on & cat ) sym_check( c, m ); }
#define FK_ST( I, T ) ::fk::chk( ::fk::VALID, ( I )->sType == VK_STRUCTURE_TYPE_##T && ( I )->pNext == nullptr, "a structure does not have its type" )
inline void done( Cmd const & c ) { if ( w().onCmd ) w().onCmd( c ); }
inline void made( uint64_t h ) { if ( w().onMade ) w().onMade( h ); }
template< typename H > inline uint64_t raw( H h ) { return ( uint64_t )h; }
template< typename H > inline H mk( uint64_t v ) { return ( H )v; }
static uint64_t const Base = 0x100000, Step = 0x40;
inline bool valid( uint64_t h ) { return h >= Base && ( h - Base ) % Step == 0 && ( h - Base ) / Step < w().objs.size(); }
inline Obj & at( uint64_t h ) { static Obj bad; if ( !valid( h ) ) { bad = Obj{}; bad.alive = false; return bad; } return w().objs[( h - Base ) / Step]; }
template< typename H > inline Obj & at( H h ) { return at( raw( h ) ); }
inline uint64_t add( Type t ) { w().objs.emplace_back(); w().objs.back().type = t; ++w().created[t]; return Base + ( w().objs.size() - 1 ) * Step; }
template< typename H > inline void use( H h, Type t, char const * m ) { Obj & o = at( raw( h ) ); chk( LIFETIME, o.alive && o.type == t, m ); }
template< typename H > inline void useIn( VkCommandBuffer cb, H h, Type t, char const * m ) { use( h, t, m ); at( cb ).uses.insert( raw( h ) ); if ( t == TView && valid( at( h ).parent ) ) at( cb ).uses.insert( at( h ).parent ); }
// buffers may be made up by the harness
inline void useBuf( VkCommandBuffer cb, VkBuffer b, char const * m ) { if ( valid( raw( b ) ) ) useIn( cb, b, TBuffer, m ); }
template< typename H > inline void kill( H h, Type t ) {
	if ( !raw( h ) ) return;
	Obj & o = at( raw( h ) ); chk( LIFETIME, o.alive && o.type == t, "object destroyed twice, or a handle that was never created or of another type" );
	chk( INFLIGHT, o.usePending == 0 && !o.pending, "object destroyed while a submission using it may still be in flight" );
	o.alive = false; ++w().destroyed[t];
}
inline bool fail( uint32_t kind ) {
	if ( !w().failing || !( w().failKinds & kind ) ) return false;
	if ( w().failed ) { return false; }
	if ( uint64_t( w().fallible++ ) == w().failAt ) { w().failed = true; return true; }
	return false;
}
inline bool devOk( VkDevice d ) { chk( LIFETIME, raw( d ) == 0xD00D, "call on another device" ); return true; }
inline uint32_t live( Type t ) { uint32_t n = 0; for ( auto & o : w().objs ) if ( o.type == t && o.alive ) ++n; return n; }
inline uint32_t liveAll() { uint32_t n = 0; for ( auto & o : w().objs ) if ( o.alive ) ++n; return n; }
// ---- layout model -------------------------------------------------------------------------------------------------
inline VkImageLayout layoutOf( uint64_t img, uint32_t layer, uint32_t mip ) { auto it = w().layouts.find( { img, ( uint64_t( layer ) << 32 ) | mip } ); return it == w().layouts.end() ? VK_IMAGE_LAYOUT_UNDEFINED : it->second; }
inline void setLayout( uint64_t img, uint32_t layer, uint32_t mip, VkImageLayout l ) { w().layouts[{ img, ( uint64_t( layer ) << 32 ) | mip }] = l; }
// physical subresources of a range: a 3D image has one array layer, whatever slices the library names
template< typename F > inline void forRange( uint64_t img, VkImageSubresourceRange const & r, F f ) {
	Obj & o = at( img );
	uint32_t lc = r.layerCount, mc = r.levelCount;
	if ( lc == VK_REMAINING_ARRAY_LAYERS ) lc = o.img.arrayLayers - r.baseArrayLayer;
	if ( mc == VK_REMAINING_MIP_LEVELS ) mc = o.img.mipLevels - r.baseMipLevel;
	if ( o.img.imageType == VK_IMAGE_TYPE_3D ) { for ( uint32_t m = 0; m < mc; ++m ) f( 0u, r.baseMipLevel + m ); return; }
	for ( uint32_t l = 0; l < lc; ++l ) for ( uint32_t m = 0; m < mc; ++m ) f( r.baseArrayLayer + l, r.baseMipLevel + m );
}
inline void needLayout( uint64_t img, VkImageSubresourceRange const & r, VkImageLayout l, char const * msg ) { if ( !( w().on & LAYOUT ) ) return; forRange( img, r, [&]( uint32_t a, uint32_t m ) { sym_check( layoutOf( img, a, m ) == l, msg ); } ); }
inline VkImageSubresourceRange toRange( VkImageSubresourceLayers const & l ) { return { l.aspectMask, l.mipLevel, 1u, l.baseArrayLayer, l.layerCount }; }
inline Cmd & cmd( CmdKind k, VkCommandBuffer cb ) { use( cb, TCmd, "command recorded into a dead command buffer" ); chk( STATE, at( cb ).recording, "command recorded outside begin/end" ); w().cmds.emplace_back(); auto & c = w().cmds.back(); c.kind = k; c.cb = cb; return c; }
inline void mark( VkCommandBuffer cb, int id ) { auto & c = cmd( CMark, cb ); c.mark = id; }
#define FK VKAPI_ATTR VkResult VKAPI_CALL
#define FKV VKAPI_ATTR void VKAPI_CALL
using AC = VkAllocationCallbacks const *;
// ---- simple objects ----------------------------------------------------------------------------------------------
#define FK_SIMPLE( Name, Info, ST, T, COPY )\
inline FK Create##Name( VkDevice d, Info const * i, AC, Vk##Name * out ) { devOk( d ); FK_ST( i, ST ); if ( fail( FCreate ) ) return w().failCode; auto h = add( T ); { Obj & o = at( h ); ( void )o; COPY; } *out = mk< Vk##Name >( h ); made( h ); return VK_SUCCESS; }\
inline FKV Destroy##Name( VkDevice d, Vk##Name h, AC ) { devOk( d ); kill( h, T ); }
FK_SIMPLE( Semaphore, VkSemaphoreCreateInfo, SEMAPHORE_CREATE_INFO, TSem, )
FK_SIMPLE( Event, VkEventCreateInfo, EVENT_CREATE_INFO, TEvent, )
FK_SIMPLE( Fence, VkFenceCreateInfo, FENCE_CREATE_INFO, TFence, o.signaled = ( i->flags & VK_FENCE_CREATE_SIGNALED_BIT ) != 0 )
FK_SIMPLE( Sampler, VkSamplerCreateInfo, SAMPLER_CREATE_INFO, TSampler, o.samp = *i )
FK_SIMPLE( Image, VkImageCreateInfo, IMAGE_CREATE_INFO, TImage, o.img = *i; o.img.pQueueFamilyIndices = nullptr )
FK_SIMPLE( Buffer, VkBufferCreateInfo, BUFFER_CREATE_INFO, TBuffer, o.buf = *i )
FK_SIMPLE( QueryPool, VkQueryPoolCreateInfo, QUERY_POOL_CREATE_INFO, TQueryPool, o.queryCount = i->queryCount; o.flags = i->queryType; o.qstate.resize( i->queryCount < 4096 ? i->queryCount : 0 ) )
inline FK CreateImageView( VkDevice d, VkImageViewCreateInfo const * i, AC, VkImageView * out ) { devOk( d ); FK_ST( i, IMAGE_VIEW_CREATE_INFO ); use( i->image, TImage, "view of a dead image" ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TView ); at( h ).view = *i; at( h ).parent = raw( i->image ); *out = mk< VkImageView >( h ); made( h ); return VK_SUCCESS; }
inline FKV DestroyImageView( VkDevice d, VkImageView h, AC ) { devOk( d ); kill( h, TView ); }
inline FK CreateCommandPool( VkDevice d, VkCommandPoolCreateInfo const * i, AC, VkCommandPool * out ) { devOk( d ); FK_ST( i, COMMAND_POOL_CREATE_INFO ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TCmdPool ); at( h ).flags = i->flags; *out = mk< VkCommandPool >( h ); return VK_SUCCESS; }
inline FKV DestroyCommandPool( VkDevice d, VkCommandPool h, AC ) { devOk( d ); kill( h, TCmdPool ); if ( raw( h ) ) for ( auto & o : w().objs ) if ( o.type == TCmd && o.alive && o.parent == raw( h ) ) o.alive = false; }
inline FK AllocateCommandBuffers( VkDevice d, VkCommandBufferAllocateInfo const * i, VkCommandBuffer * out ) { devOk( d ); FK_ST( i, COMMAND_BUFFER_ALLOCATE_INFO ); use( i->commandPool, TCmdPool, "command buffer allocated from a dead pool" ); if ( fail( FAlloc ) ) return w().failCode; for ( uint32_t k = 0; k < i->commandBufferCount; ++k ) { auto h = add( TCmd ); at( h ).parent = raw( i->commandPool ); out[k] = mk< VkCommandBuffer >( h ); } return VK_SUCCESS; }
inline FKV FreeCommandBuffers( VkDevice d, VkCommandPool p, uint32_t n, VkCommandBuffer const * c ) { devOk( d ); use( p, TCmdPool, "command buffer freed to a dead pool" ); for ( uint32_t k = 0; k < n; ++k ) { if ( raw( c[k] ) ) { chk( LIFETIME, at( c[k] ).parent == raw( p ), "command buffer freed to another pool" ); chk( INFLIGHT, !at( c[k] ).usePending, "command buffer freed while pending" ); kill( c[k], TCmd ); } } }
inline FK CreateDescriptorSetLayout( VkDevice d, VkDescriptorSetLayoutCreateInfo const * i, AC, VkDescriptorSetLayout * out ) { devOk( d ); FK_ST( i, DESCRIPTOR_SET_LAYOUT_CREATE_INFO ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TDsLayout ); at( h ).bindings.assign( i->pBindings, i->pBindings + i->bindingCount ); *out = mk< VkDescriptorSetLayout >( h ); made( h ); return VK_SUCCESS; }
inline FKV DestroyDescriptorSetLayout( VkDevice d, VkDescriptorSetLayout h, AC ) { devOk( d ); kill( h, TDsLayout ); }
inline FK CreatePipelineLayout( VkDevice d, VkPipelineLayoutCreateInfo const * i, AC, VkPipelineLayout * out ) { devOk( d ); FK_ST( i, PIPELINE_LAYOUT_CREATE_INFO ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TPipeLayout ); for ( uint32_t k = 0; k < i->setLayoutCount; ++k ) { use( i->pSetLayouts[k], TDsLayout, "pipeline layout made from a dead set layout" ); at( h ).layoutSets.push_back( raw( i->pSetLayouts[k] ) ); } at( h ).push.assign( i->pPushConstantRanges, i->pPushConstantRanges + i->pushConstantRangeCount ); *out = mk< VkPipelineLayout >( h ); made( h ); return VK_SUCCESS; }
inline FKV DestroyPipelineLayout( VkDevice d, VkPipelineLayout h, AC ) { devOk( d ); kill( h, TPipeLayout ); }
inline FK CreateDescriptorPool( VkDevice d, VkDescriptorPoolCreateInfo const * i, AC, VkDescriptorPool * out ) { devOk( d ); FK_ST( i, DESCRIPTOR_POOL_CREATE_INFO ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TDsPool ); at( h ).flags = i->flags; at( h ).maxSets = i->maxSets; at( h ).poolSizes.assign( i->pPoolSizes, i->pPoolSizes + i->poolSizeCount ); *out = mk< VkDescriptorPool >( h ); made( h ); return VK_SUCCESS; }
inline FKV DestroyDescriptorPool( VkDevice d, VkDescriptorPool h, AC ) { devOk( d ); kill( h, TDsPool ); if ( raw( h ) ) for ( auto & o : w().objs ) if ( o.type == TDsSet && o.alive && o.parent == raw( h ) ) { chk( INFLIGHT, !o.usePending, "descriptor pool destroyed while a set of it may be in use" ); o.alive = false; } }
inline FK AllocateDescriptorSets( VkDevice d, VkDescriptorSetAllocateInfo const * i, VkDescriptorSet * out ) {
	devOk( d ); FK_ST( i, DESCRIPTOR_SET_ALLOCATE_INFO ); use( i->descriptorPool, TDsPool, "set allocated from a dead pool" ); if ( fail( FAlloc ) ) return w().failCode;
	for ( uint32_t k = 0; k < i->descriptorSetCount; ++k ) { use( i->pSetLayouts[k], TDsLayout, "set allocated with a dead layout" ); auto h = add( TDsSet ); at( h ).parent = raw( i->descriptorPool ); at( h ).setLayout = raw( i->pSetLayouts[k] ); ++at( i->descriptorPool ).setsAllocated; out[k] = mk< VkDescriptorSet >( h ); }
	return VK_SUCCESS; }
inline FK FreeDescriptorSets( VkDevice d, VkDescriptorPool p, uint32_t n, VkDescriptorSet const * s ) { devOk( d ); use( p, TDsPool, "set freed to a dead pool" ); for ( uint32_t k = 0; k < n; ++k ) if ( raw( s[k] ) ) { chk( LIFETIME, at( s[k] ).parent == raw( p ), "set freed to another pool" ); chk( LIFETIME, ( at( p ).flags & VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) != 0, "set freed individually from a pool made without that right" ); kill( s[k], TDsSet ); --at( p ).setsAllocated; } return VK_SUCCESS; }
inline FKV UpdateDescriptorSets( VkDevice d, uint32_t n, VkWriteDescriptorSet const * ws, uint32_t, VkCopyDescriptorSet const * ) {
	devOk( d ); for ( uint32_t k = 0; k < n; ++k ) { auto & x = ws[k]; FK_ST( &x, WRITE_DESCRIPTOR_SET ); use( x.dstSet, TDsSet, "write to a dead descriptor set" ); DsWrite y{ raw( x.dstSet ), x.dstBinding, x.dstArrayElement, x.descriptorType, {}, {}, {} }; if ( x.pImageInfo ) y.imgs.assign( x.pImageInfo, x.pImageInfo + x.descriptorCount ); if ( x.pBufferInfo ) y.bufs.assign( x.pBufferInfo, x.pBufferInfo + x.descriptorCount ); if ( x.pTexelBufferView ) y.texels.assign( x.pTexelBufferView, x.pTexelBufferView + x.descriptorCount );
		for ( auto & im : y.imgs ) { if ( raw( im.imageView ) ) use( im.imageView, TView, "descriptor refers to a dead view" ); if ( raw( im.sampler ) ) use( im.sampler, TSampler, "descriptor refers to a dead sampler" ); }
		Obj & set = at( x.dstSet ); chk( INFLIGHT, !set.usePending, "descriptor set written while a submission using it may still be in flight" ); for ( auto & im : y.imgs ) { if ( raw( im.imageView ) ) { set.uses.insert( raw( im.imageView ) ); if ( valid( at( im.imageView ).parent ) ) set.uses.insert( at( im.imageView ).parent ); } if ( raw( im.sampler ) ) set.uses.insert( raw( im.sampler ) ); } for ( auto & b : y.bufs ) if ( valid( raw( b.buffer ) ) ) { use( b.buffer, TBuffer, "descriptor refers to a dead buffer" ); set.uses.insert( raw( b.buffer ) ); }
		w().writes.push_back( y ); } }
inline void stagesOk( VkPipelineShaderStageCreateInfo const * s, uint32_t n ) { for ( uint32_t k = 0; k < n; ++k ) FK_ST( s + k, PIPELINE_SHADER_STAGE_CREATE_INFO ); }
inline FK CreateGraphicsPipelines( VkDevice d, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * i, AC, VkPipeline * out ) {
	devOk( d ); if ( w().on & VALID ) for ( uint32_t k = 0; k < n; ++k ) { auto & x = i[k]; FK_ST( &x, GRAPHICS_PIPELINE_CREATE_INFO ); stagesOk( x.pStages, x.stageCount ); chk( VALID, x.stageCount && x.pVertexInputState && x.pInputAssemblyState && x.pViewportState && x.pRasterizationState && x.pMultisampleState, "a graphics pipeline lacks a state" ); FK_ST( x.pVertexInputState, PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO ); FK_ST( x.pInputAssemblyState, PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO ); FK_ST( x.pViewportState, PIPELINE_VIEWPORT_STATE_CREATE_INFO ); FK_ST( x.pRasterizationState, PIPELINE_RASTERIZATION_STATE_CREATE_INFO ); FK_ST( x.pMultisampleState, PIPELINE_MULTISAMPLE_STATE_CREATE_INFO ); if ( x.pDepthStencilState ) FK_ST( x.pDepthStencilState, PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO ); if ( x.pColorBlendState ) FK_ST( x.pColorBlendState, PIPELINE_COLOR_BLEND_STATE_CREATE_INFO ); if ( x.pTessellationState ) FK_ST( x.pTessellationState, PIPELINE_TESSELLATION_STATE_CREATE_INFO ); if ( x.pDynamicState ) FK_ST( x.pDynamicState, PIPELINE_DYNAMIC_STATE_CREATE_INFO ); }
	 if ( fail( FCreate ) ) return w().failCode;
	for ( uint32_t k = 0; k < n; ++k ) { use( i[k].layout, TPipeLayout, "pipeline made with a dead layout" ); use( i[k].renderPass, TRenderPass, "pipeline made with a dead render pass" ); auto h = add( TGfxPipe ); Obj & o = at( h ); o.pipeLayout = raw( i[k].layout ); o.pipeRenderPass = raw( i[k].renderPass ); o.stages.assign( i[k].pStages, i[k].pStages + i[k].stageCount );
		if ( i[k].pColorBlendState ) { o.hasColourBlend = true; o.blends.assign( i[k].pColorBlendState->pAttachments, i[k].pColorBlendState->pAttachments + i[k].pColorBlendState->attachmentCount ); }
		if ( i[k].pDepthStencilState ) { o.hasDepthState = true; o.ds = *i[k].pDepthStencilState; }
		if ( i[k].pViewportState ) { if ( i[k].pViewportState->pViewports ) o.vps.assign( i[k].pViewportState->pViewports, i[k].pViewportState->pViewports + i[k].pViewportState->viewportCount ); if ( i[k].pViewportState->pScissors ) o.scissors.assign( i[k].pViewportState->pScissors, i[k].pViewportState->pScissors + i[k].pViewportState->scissorCount ); }
		if ( i[k].pInputAssemblyState ) o.ia = *i[k].pInputAssemblyState; if ( i[k].pRasterizationState ) o.rs = *i[k].pRasterizationState; if ( i[k].pMultisampleState ) o.ms = *i[k].pMultisampleState; o.subpass = i[k].subpass; if ( auto v = i[k].pVertexInputState ) { o.vAttrs.assign( v->pVertexAttributeDescriptions, v->pVertexAttributeDescriptions + v->vertexAttributeDescriptionCount ); o.vBinds.assign( v->pVertexBindingDescriptions, v->pVertexBindingDescriptions + v->vertexBindingDescriptionCount ); }
		out[k] = mk< VkPipeline >( h ); made( h ); }
	return VK_SUCCESS; }
inline FK CreateComputePipelines( VkDevice d, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * i, AC, VkPipeline * out ) { devOk( d ); for ( uint32_t k = 0; k < n; ++k ) { FK_ST( i + k, COMPUTE_PIPELINE_CREATE_INFO ); stagesOk( &i[k].stage, 1 ); } if ( fail( FCreate ) ) return w().failCode; for ( uint32_t k = 0; k < n; ++k ) { use( i[k].layout, TPipeLayout, "pipeline made with a dead layout" ); auto h = add( TGfxPipe ); at( h ).compute = true; at( h ).pipeLayout = raw( i[k].layout ); at( h ).stages.push_back( i[k].stage ); out[k] = mk< VkPipeline >( h ); made( h ); } return VK_SUCCESS; }
inline FKV DestroyPipeline( VkDevice d, VkPipeline h, AC ) { devOk( d ); kill( h, TGfxPipe ); }
inline FK CreateRenderPass( VkDevice d, VkRenderPassCreateInfo const * i, AC, VkRenderPass * out ) {
	devOk( d ); FK_ST( i, RENDER_PASS_CREATE_INFO ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TRenderPass ); Obj & o = at( h ); o.atts.assign( i->pAttachments, i->pAttachments + i->attachmentCount ); o.subpasses = i->subpassCount; o.deps.assign( i->pDependencies, i->pDependencies + i->dependencyCount );
	for ( uint32_t s = 0; s < i->subpassCount; ++s ) { auto & sp = i->pSubpasses[s]; o.colRefs.assign( sp.pColorAttachments, sp.pColorAttachments + sp.colorAttachmentCount ); if ( sp.pResolveAttachments ) o.resRefs.assign( sp.pResolveAttachments, sp.pResolveAttachments + sp.colorAttachmentCount ); o.inRefs.assign( sp.pInputAttachments, sp.pInputAttachments + sp.inputAttachmentCount ); if ( sp.pDepthStencilAttachment ) { o.hasDepth = true; o.depthRef = *sp.pDepthStencilAttachment; } }
	*out = mk< VkRenderPass >( h ); made( h ); return VK_SUCCESS; }
inline FKV DestroyRenderPass( VkDevice d, VkRenderPass h, AC ) { devOk( d ); kill( h, TRenderPass ); }
inline FK CreateFramebuffer( VkDevice d, VkFramebufferCreateInfo const * i, AC, VkFramebuffer * out ) { devOk( d ); FK_ST( i, FRAMEBUFFER_CREATE_INFO ); use( i->renderPass, TRenderPass, "framebuffer for a dead render pass" ); for ( uint32_t k = 0; k < i->attachmentCount; ++k ) use( i->pAttachments[k], TView, "framebuffer over a dead view" ); if ( fail( FCreate ) ) return w().failCode; auto h = add( TFramebuffer ); at( h ).fb = *i; at( h ).fbViews.assign( i->pAttachments, i->pAttachments + i->attachmentCount ); *out = mk< VkFramebuffer >( h ); made( h ); return VK_SUCCESS; }
inline FKV DestroyFramebuffer( VkDevice d, VkFramebuffer h, AC ) { devOk( d ); kill( h, TFramebuffer ); }
// ---- memory ------------------------------------------------------------------------------------------------------
inline FKV GetBufferMemoryRequirements( VkDevice d, VkBuffer h, VkMemoryRequirements * r ) { devOk( d ); use( h, TBuffer, "requirements of a dead buffer" ); *r = { w().reqSize, 16, w().reqBits }; }
inline FKV GetImageMemoryRequirements( VkDevice d, VkImage h, VkMemoryRequirements * r ) { devOk( d ); use( h, TImage, "requirements of a dead image" ); *r = { w().reqSize, 16, w().reqBits }; }
inline FK AllocateMemory( VkDevice d, VkMemoryAllocateInfo const * i, AC, VkDeviceMemory * out ) { devOk( d ); FK_ST( i, MEMORY_ALLOCATE_INFO ); if ( fail( FAlloc ) ) return w().failCode; auto h = add( TMemory ); at( h ).size = i->allocationSize; at( h ).memType = i->memoryTypeIndex; *out = mk< VkDeviceMemory >( h ); return VK_SUCCESS; }
inline FKV FreeMemory( VkDevice d, VkDeviceMemory h, AC ) { devOk( d ); kill( h, TMemory ); }
inline FK BindBufferMemory( VkDevice d, VkBuffer b, VkDeviceMemory m, VkDeviceSize ) { devOk( d ); use( b, TBuffer, "bind of a dead buffer" ); use( m, TMemory, "bind of dead memory" ); if ( fail( FBind ) ) return w().failCode; at( b ).mem = raw( m ); return VK_SUCCESS; }
inline FK BindImageMemory( VkDevice d, VkImage b, VkDeviceMemory m, VkDeviceSize ) { devOk( d ); use( b, TImage, "bind of a dead image" ); use( m, TMemory, "bind of dead memory" ); if ( fail( FBind ) ) return w().failCode; at( b ).mem = raw( m ); return VK_SUCCESS; }
inline FK MapMemory( VkDevice d, VkDeviceMemory m, VkDeviceSize, VkDeviceSize, VkMemoryMapFlags, void ** p ) { devOk( d ); use( m, TMemory, "map of dead memory" ); if ( fail( FMap ) ) return w().failCode; w().mapped.resize( 4096 ); *p = w().mapped.data(); at( m ).mapped = true; return VK_SUCCESS; }
inline FKV UnmapMemory( VkDevice d, VkDeviceMemory m ) { devOk( d ); use( m, TMemory, "unmap of dead memory" ); chk( LIFETIME, at( m ).mapped, "unmap of memory that is not mapped" ); at( m ).mapped = false; }
inline FK FlushMappedMemoryRanges( VkDevice d, uint32_t n, VkMappedMemoryRange const * r ) { devOk( d ); for ( uint32_t i = 0; i < n; ++i ) use( r[i].memory, TMemory, "flush of dead memory" ); return fail( FMap ) ? w().failCode : VK_SUCCESS; }
inline FK InvalidateMappedMemoryRanges( VkDevice d, uint32_t n, VkMappedMemoryRange const * r ) { devOk( d ); for ( uint32_t i = 0; i < n; ++i ) use( r[i].memory, TMemory, "invalidate of dead memory" ); return VK_SUCCESS; }
// ---- synchronisation ---------------------------------------------------------------------------------------------
inline void complete( VkFence f ) { Obj & o = at( f ); if ( !o.pending ) return; o.pending = false; o.signaled = true; for ( auto & s : w().submits ) if ( s.fence == f && raw( s.queue ) != ~0ull ) { for ( auto c : s.cbs ) { Obj & co = at( c ); if ( co.usePending ) --co.usePending; for ( auto u : co.uses ) { Obj & uo = at( u ); if ( uo.usePending ) --uo.usePending; } } for ( auto h : s.signals ) if ( at( h ).usePending ) --at( h ).usePending; s.queue = ( VkQueue )~0ull; } }
inline FK ResetFences( VkDevice d, uint32_t n, VkFence const * f ) { devOk( d ); if ( ( w().failKinds & FLost ) && fail( FLost ) ) return w().failCode; for ( uint32_t i = 0; i < n; ++i ) { use( f[i], TFence, "reset of a dead fence" ); chk( FENCE, !at( f[i] ).pending, "fence reset while its submission may still be in flight" ); at( f[i] ).signaled = false; ++at( f[i] ).resets; } return VK_SUCCESS; }
inline FK WaitForFences( VkDevice d, uint32_t n, VkFence const * f, VkBool32, uint64_t timeout ) { devOk( d ); for ( uint32_t i = 0; i < n; ++i ) { use( f[i], TFence, "wait on a dead fence" ); chk( FENCE, at( f[i] ).pending || at( f[i] ).signaled, "wait on a fence that nothing will signal" ); ++at( f[i] ).waits; if ( at( f[i] ).pending && timeout != ~0ull && ( w().failKinds & FWait ) && fail( FWait ) ) return VK_TIMEOUT; if ( timeout == ~0ull && fail( FLost ) ) return w().failCode; complete( f[i] ); } if ( w().onWait ) w().onWait(); return VK_SUCCESS; }
inline FK GetFenceStatus( VkDevice d, VkFence f ) { devOk( d ); use( f, TFence, "status of a dead fence" ); return at( f ).signaled ? VK_SUCCESS : VK_NOT_READY; }
inline FK BeginCommandBuffer( VkCommandBuffer c, VkCommandBufferBeginInfo const * i ) { use( c, TCmd, "begin of a dead command buffer" ); FK_ST( i, COMMAND_BUFFER_BEGIN_INFO ); if ( fail( FBegin ) ) return w().failCode; Obj & o = at( c ); o.firstCmd = w().cmds.size(); o.labels = 0; o.submits = 0; chk( STATE, !o.recording, "begin of a command buffer already recording" ); chk( INFLIGHT, !o.usePending, "command buffer re-recorded while pending" ); w().openRP = w().openFB = 0; o.recording = true; o.ended = false; ++o.cbBegins; o.flags = i->flags; o.uses.clear(); return VK_SUCCESS; }
inline FK EndCommandBuffer( VkCommandBuffer c ) { use( c, TCmd, "end of a dead command buffer" ); Obj & o = at( c ); chk( STATE, o.recording, "end of a command buffer not recording" ); o.recording = false; if ( fail( FBegin ) ) { w().openRP = w().openFB = 0; return w().failCode; } o.ended = true; chk( VALID, !w().openRP, "a command buffer ends inside of a render pass" ); chk( VALID, o.labels == 0, "a command buffer ends with open debug labels" ); if ( w().onEnd ) w().onEnd( c ); return VK_SUCCESS; }
inline FK ResetCommandBuffer( VkCommandBuffer c, VkCommandBufferResetFlags ) { use( c, TCmd, "reset of a dead command buffer" ); if ( fail( FBegin ) ) return w().failCode; Obj & o = at( c ); chk( INFLIGHT, !o.usePending, "command buffer reset while pending" ); o.recording = false; o.ended = false; o.uses.clear(); return VK_SUCCESS; }
inline FK QueueSubmit( VkQueue q, uint32_t n, VkSubmitInfo const * s, VkFence f ) {
	if ( fail( FSubmit ) ) return w().failCode;
	for ( uint32_t k = 0; k < n; ++k ) { FK_ST( s + k, SUBMIT_INFO ); Submit x; x.queue = q; x.fence = f; x.waits.assign( s[k].pWaitSemaphores, s[k].pWaitSemaphores + s[k].waitSemaphoreCount ); x.stages.assign( s[k].pWaitDstStageMask, s[k].pWaitDstStageMask + s[k].waitSemaphoreCount ); x.cbs.assign( s[k].pCommandBuffers, s[k].pCommandBuffers + s[k].commandBufferCount ); x.signals.assign( s[k].pSignalSemaphores, s[k].pSignalSemaphores + s[k].signalSemaphoreCount );
		for ( auto c : x.cbs ) { use( c, TCmd, "submit of a dead command buffer" ); chk( STATE, at( c ).ended, "submit of a command buffer that is not fully recorded" ); chk( VALID, !( at( c ).flags & VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT ) || !at( c ).submits++, "a command buffer recorded for one submission is submitted twice" ); ++at( c ).usePending; for ( auto u : at( c ).uses ) { chk( LIFETIME, at( u ).alive, "submitted commands use a destroyed object" ); ++at( u ).usePending; } }
		for ( auto h : x.signals ) { use( h, TSem, "submit signals a dead semaphore" ); ++at( h ).usePending; }
		w().submits.push_back( x ); }
	if ( raw( f ) ) { use( f, TFence, "submit with a dead fence" ); chk( FENCE, !at( f ).signaled && !at( f ).pending, "submit with a fence that is signaled or in use" ); at( f ).pending = true; }
	return VK_SUCCESS; }
inline FK GetQueryPoolResults( VkDevice d, VkQueryPool p, uint32_t first, uint32_t n, size_t size, void * out, VkDeviceSize stride, VkQueryResultFlags fl ) {
	devOk( d ); use( p, TQueryPool, "results of a dead query pool" ); ++w().queryReads; chk( QUERY, uint64_t( first ) + n <= at( p ).queryCount, "query results read outside the pool" );
	for ( uint32_t i = 0; i < n; ++i ) { chk( QUERY, ( w().on & QUERY ) == 0 || ( first + i < at( p ).qstate.size() && at( p ).qstate[first + i] == 2 ), "query results read before the queries were written" ); uint64_t v = first + i < w().queryResults.size() ? w().queryResults[first + i] : 0; if ( i * stride + ( fl & VK_QUERY_RESULT_64_BIT ? 8 : 4 ) <= size ) { if ( fl & VK_QUERY_RESULT_64_BIT ) std::memcpy( ( char * )out + i * stride, &v, 8 ); else { uint32_t x = uint32_t( v ); std::memcpy( ( char * )out + i * stride, &x, 4 ); } } }
	return w().queryResult; }
inline FK ResetEvent( VkDevice, VkEvent ) { return VK_SUCCESS; }
inline FK SetEvent( VkDevice, VkEvent ) { return VK_SUCCESS; }
inline FK GetEventStatus( VkDevice, VkEvent ) { return VK_EVENT_SET; }
// ---- commands ----------------------------------------------------------------------------------------------------
inline FKV CmdPipelineBarrier( VkCommandBuffer c, VkPipelineStageFlags s, VkPipelineStageFlags t, VkDependencyFlags df, uint32_t nm, VkMemoryBarrier const * m, uint32_t nb, VkBufferMemoryBarrier const * b, uint32_t ni, VkImageMemoryBarrier const * im ) {
	auto & x = cmd( CBarrier, c ); x.srcStage = s; x.dstStage = t; x.depFlags = df; x.mems.assign( m, m + nm ); x.bufs.assign( b, b + nb ); x.imgs.assign( im, im + ni );
	for ( auto & k : x.bufs ) { FK_ST( &k, BUFFER_MEMORY_BARRIER ); useIn( c, k.buffer, TBuffer, "barrier on a dead buffer" ); } for ( auto & k : x.mems ) FK_ST( &k, MEMORY_BARRIER ); for ( auto & k : x.imgs ) FK_ST( &k, IMAGE_MEMORY_BARRIER ); done( x );
	for ( auto & k : x.imgs ) { useIn( c, k.image, TImage, "barrier on a dead image" );
		if ( w().on & LAYOUT ) { sym_check( k.newLayout != VK_IMAGE_LAYOUT_UNDEFINED && k.newLayout != VK_IMAGE_LAYOUT_PREINITIALIZED, "image barrier to the undefined layout" );
			forRange( raw( k.image ), k.subresourceRange, [&]( uint32_t a, uint32_t mp ) { sym_check( k.oldLayout == VK_IMAGE_LAYOUT_UNDEFINED || layoutOf( raw( k.image ), a, mp ) == k.oldLayout, "image barrier starts from a layout the subresource is not in" ); } ); }
		forRange( raw( k.image ), k.subresourceRange, [&]( uint32_t a, uint32_t mp ) { setLayout( raw( k.image ), a, mp, k.newLayout ); } ); } }
inline FKV CmdClearColorImage( VkCommandBuffer c, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r ) { auto & x = cmd( CClearColour, c ); x.dst = raw( i ); x.dstLayout = l; x.col = *v; x.ranges.assign( r, r + n ); useIn( c, i, TImage, "clear of a dead image" ); for ( auto & k : x.ranges ) needLayout( raw( i ), k, l, "clear of an image that is in another layout" ); done( x ); }
inline FKV CmdClearDepthStencilImage( VkCommandBuffer c, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r ) { auto & x = cmd( CClearDepth, c ); x.dst = raw( i ); x.dstLayout = l; x.dsv = *v; x.ranges.assign( r, r + n ); useIn( c, i, TImage, "clear of a dead image" ); for ( auto & k : x.ranges ) needLayout( raw( i ), k, l, "clear of an image that is in another layout" ); done( x ); }
inline FKV CmdDispatch( VkCommandBuffer c, uint32_t a, uint32_t b, uint32_t d ) { auto & x = cmd( CDispatch, c ); x.n[0] = a; x.n[1] = b; x.n[2] = d; done( x ); }
inline FKV CmdDispatchIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o ) { auto & x = cmd( CDispatchInd, c ); x.src = raw( b ); x.q[0] = o; done( x ); }
inline FKV CmdDraw( VkCommandBuffer c, uint32_t v, uint32_t i, uint32_t fv, uint32_t fi ) { auto & x = cmd( CDraw, c ); x.n[0] = v; x.n[1] = i; x.n[2] = fv; x.n[3] = fi; done( x ); }
inline FKV CmdDrawIndexed( VkCommandBuffer c, uint32_t n, uint32_t i, uint32_t fi, int32_t vo, uint32_t fin ) { auto & x = cmd( CDrawIdx, c ); x.n[0] = n; x.n[1] = i; x.n[2] = fi; x.n[3] = uint32_t( vo ); x.n[4] = fin; done( x ); }
inline FKV CmdDrawIndexedIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ) { auto & x = cmd( CDrawIdxInd, c ); x.src = raw( b ); x.q[0] = o; x.n[0] = n; x.n[1] = s; done( x ); }
inline FKV CmdDrawIndirect( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ) { auto & x = cmd( CDrawInd, c ); x.src = raw( b ); x.q[0] = o; x.n[0] = n; x.n[1] = s; done( x ); }
inline FKV CmdBeginRenderPass( VkCommandBuffer c, VkRenderPassBeginInfo const * i, VkSubpassContents sc ) {
	auto & x = cmd( CBeginRP, c ); x.src = raw( i->renderPass ); x.dst = raw( i->framebuffer ); x.area = i->renderArea; x.n[0] = sc; x.clears.assign( i->pClearValues, i->pClearValues + i->clearValueCount ); FK_ST( i, RENDER_PASS_BEGIN_INFO );
	useIn( c, i->renderPass, TRenderPass, "begin of a dead render pass" ); useIn( c, i->framebuffer, TFramebuffer, "begin with a dead framebuffer" );
	done( x ); Obj & rp = at( i->renderPass ); Obj & fb = at( i->framebuffer ); chk( STATE, !w().openRP, "render pass begun inside a render pass" ); w().openRP = raw( i->renderPass ); w().openFB = raw( i->framebuffer );
	chk( STATE, rp.atts.size() == fb.fbViews.size(), "framebuffer and render pass disagree on the attachment count" );
	for ( size_t k = 0; k < fb.fbViews.size() && k < rp.atts.size(); ++k ) { Obj & v = at( fb.fbViews[k] ); chk( LIFETIME, v.alive, "framebuffer used after one of its views was destroyed" ); useIn( c, fb.fbViews[k], TView, "framebuffer used after one of its views was destroyed" ); if ( w().on & LAYOUT ) forRange( raw( v.view.image ), v.view.subresourceRange, [&]( uint32_t a, uint32_t m ) { sym_check( rp.atts[k].initialLayout == VK_IMAGE_LAYOUT_UNDEFINED || layoutOf( raw( v.view.image ), a, m ) == rp.atts[k].initialLayout, "render pass attachment begins in another layout than the image is in" ); } ); }
	auto enter = [&]( VkAttachmentReference const & r ) { if ( r.attachment < fb.fbViews.size() ) { Obj & v = at( fb.fbViews[r.attachment] ); forRange( raw( v.view.image ), v.view.subresourceRange, [&]( uint32_t a, uint32_t m ) { setLayout( raw( v.view.image ), a, m, r.layout ); } ); } };
	for ( auto & r : rp.colRefs ) enter( r ); if ( rp.hasDepth ) enter( rp.depthRef ); }
inline FKV CmdEndRenderPass( VkCommandBuffer c ) {
	done( cmd( CEndRP, c ) ); chk( STATE, w().openRP != 0, "render pass ended but none is open" ); Obj & rp = at( w().openRP ); Obj & fb = at( w().openFB );
	for ( size_t k = 0; k < fb.fbViews.size() && k < rp.atts.size(); ++k ) { Obj & v = at( fb.fbViews[k] ); chk( LAYOUT, rp.atts[k].finalLayout != VK_IMAGE_LAYOUT_UNDEFINED, "render pass attachment ends in the undefined layout" ); forRange( raw( v.view.image ), v.view.subresourceRange, [&]( uint32_t a, uint32_t m ) { setLayout( raw( v.view.image ), a, m, rp.atts[k].finalLayout ); } ); }
	w().openRP = w().openFB = 0; }
inline FKV CmdBindPipeline( VkCommandBuffer c, VkPipelineBindPoint b, VkPipeline p ) { auto & x = cmd( CBindPipe, c ); x.bp = b; x.src = raw( p ); useIn( c, p, TGfxPipe, "bind of a dead pipeline" ); done( x ); }
inline FKV CmdBindDescriptorSets( VkCommandBuffer c, VkPipelineBindPoint b, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * s, uint32_t nd, uint32_t const * d ) { auto & x = cmd( CBindSets, c ); x.bp = b; x.src = raw( l ); x.n[0] = first; useIn( c, l, TPipeLayout, "bind with a dead pipeline layout" ); for ( uint32_t i = 0; i < n; ++i ) { x.hs.push_back( raw( s[i] ) ); useIn( c, s[i], TDsSet, "bind of a dead descriptor set" ); auto const us = at( s[i] ).uses; for ( auto u : us ) { chk( LIFETIME, at( u ).alive, "a bound descriptor set refers to a destroyed object" ); at( c ).uses.insert( u ); } } x.dyn.assign( d, d + nd ); done( x ); }
inline FKV CmdBindVertexBuffers( VkCommandBuffer c, uint32_t first, uint32_t n, VkBuffer const * b, VkDeviceSize const * o ) { auto & x = cmd( CBindVB, c ); x.n[0] = first; for ( uint32_t i = 0; i < n; ++i ) { useBuf( c, b[i], "bind of a dead vertex buffer" ); x.hs.push_back( raw( b[i] ) ); x.q[i < 4 ? i : 3] = o[i]; } done( x ); }
inline FKV CmdBindIndexBuffer( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, VkIndexType t ) { auto & x = cmd( CBindIB, c ); useBuf( c, b, "bind of a dead index buffer" ); x.src = raw( b ); x.q[0] = o; x.n[0] = t; done( x ); }
inline FKV CmdPushConstants( VkCommandBuffer c, VkPipelineLayout l, VkShaderStageFlags s, uint32_t o, uint32_t sz, void const * p ) { auto & x = cmd( CPush, c ); x.src = raw( l ); x.n[0] = s; x.n[1] = o; x.n[2] = sz; x.data.assign( ( uint8_t const * )p, ( uint8_t const * )p + sz ); done( x ); }
inline FKV CmdResetQueryPool( VkCommandBuffer c, VkQueryPool p, uint32_t f, uint32_t n ) { auto & x = cmd( CResetQuery, c ); x.src = raw( p ); x.n[0] = f; x.n[1] = n; useIn( c, p, TQueryPool, "reset of a dead query pool" ); chk( QUERY, uint64_t( f ) + n <= at( p ).queryCount, "queries reset outside the pool" ); for ( uint32_t i = 0; i < n; ++i ) if ( f + i < at( p ).qstate.size() ) at( p ).qstate[f + i] = 1; done( x ); }
inline FKV CmdWriteTimestamp( VkCommandBuffer c, VkPipelineStageFlagBits s, VkQueryPool p, uint32_t q ) { auto & x = cmd( CTimestamp, c ); x.src = raw( p ); x.n[0] = q; x.n[1] = s; useIn( c, p, TQueryPool, "timestamp into a dead query pool" ); chk( QUERY, q < at( p ).queryCount, "timestamp written outside the pool" ); if ( q < at( p ).qstate.size() ) { chk( QUERY, at( p ).qstate[q] == 1, "timestamp written into a query that was not reset or is already written" ); at( p ).qstate[q] = 2; } done( x ); }
inline FKV CmdBlitImage( VkCommandBuffer c, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * r, VkFilter f ) { auto & x = cmd( CBlit, c ); x.src = raw( s ); x.srcLayout = sl; x.dst = raw( d ); x.dstLayout = dl; x.blits.assign( r, r + n ); x.filter = f; useIn( c, s, TImage, "blit of a dead image" ); useIn( c, d, TImage, "blit of a dead image" ); for ( auto & k : x.blits ) { needLayout( raw( s ), toRange( k.srcSubresource ), sl, "blit source is in another layout" ); needLayout( raw( d ), toRange( k.dstSubresource ), dl, "blit destination is in another layout" ); } done( x ); }
inline FKV CmdCopyBuffer( VkCommandBuffer c, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r ) { auto & x = cmd( CCopyBuf, c ); x.src = raw( s ); x.dst = raw( d ); x.bcopies.assign( r, r + n ); done( x ); }
inline FKV CmdCopyBufferToImage( VkCommandBuffer c, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, VkBufferImageCopy const * r ) { auto & x = cmd( CCopyBufImg, c ); x.src = raw( s ); x.dst = raw( d ); x.dstLayout = l; x.bicopies.assign( r, r + n ); useIn( c, d, TImage, "copy to a dead image" ); for ( auto & k : x.bicopies ) needLayout( raw( d ), toRange( k.imageSubresource ), l, "copy destination is in another layout" ); done( x ); }
inline FKV CmdCopyImage( VkCommandBuffer c, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * r ) { auto & x = cmd( CCopyImg, c ); x.src = raw( s ); x.srcLayout = sl; x.dst = raw( d ); x.dstLayout = dl; x.copies.assign( r, r + n ); useIn( c, s, TImage, "copy of a dead image" ); useIn( c, d, TImage, "copy to a dead image" ); for ( auto & k : x.copies ) { needLayout( raw( s ), toRange( k.srcSubresource ), sl, "copy source is in another layout" ); needLayout( raw( d ), toRange( k.dstSubresource ), dl, "copy destination is in another layout" ); } done( x ); }
inline FKV CmdCopyImageToBuffer( VkCommandBuffer c, VkImage s, VkImageLayout l, VkBuffer d, uint32_t n, VkBufferImageCopy const * r ) { auto & x = cmd( CCopyImgBuf, c ); x.src = raw( s ); x.dst = raw( d ); x.srcLayout = l; x.bicopies.assign( r, r + n ); useIn( c, s, TImage, "copy of a dead image" ); for ( auto & k : x.bicopies ) needLayout( raw( s ), toRange( k.imageSubresource ), l, "copy source is in another layout" ); done( x ); }
inline FKV CmdExecuteCommands( VkCommandBuffer c, uint32_t n, VkCommandBuffer const * s ) { auto & x = cmd( CExec, c ); for ( uint32_t i = 0; i < n; ++i ) x.hs.push_back( raw( s[i] ) ); done( x ); }
inline FKV CmdFillBuffer( VkCommandBuffer c, VkBuffer b, VkDeviceSize o, VkDeviceSize s, uint32_t v ) { auto & x = cmd( CFill, c ); x.dst = raw( b ); x.q[0] = o; x.q[1] = s; x.n[0] = v; done( x ); }
inline FKV CmdResetEvent( VkCommandBuffer c, VkEvent, VkPipelineStageFlags ) { cmd( CEvent, c ); }
inline FKV CmdSetEvent( VkCommandBuffer c, VkEvent, VkPipelineStageFlags ) { cmd( CEvent, c ); }
inline FKV CmdWaitEvents( VkCommandBuffer c, uint32_t, VkEvent const *, VkPipelineStageFlags, VkPipelineStageFlags, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ) { cmd( CEvent, c ); }
// ---- debug names and labels, there only when validity is looked at ------------------------------------------------
inline VkObjectType typeOf( Type t ) { VkObjectType const m[]{ VK_OBJECT_TYPE_UNKNOWN, VK_OBJECT_TYPE_PIPELINE, VK_OBJECT_TYPE_PIPELINE_LAYOUT, VK_OBJECT_TYPE_DESCRIPTOR_SET_LAYOUT, VK_OBJECT_TYPE_DESCRIPTOR_POOL, VK_OBJECT_TYPE_DESCRIPTOR_SET, VK_OBJECT_TYPE_BUFFER, VK_OBJECT_TYPE_DEVICE_MEMORY, VK_OBJECT_TYPE_RENDER_PASS, VK_OBJECT_TYPE_FRAMEBUFFER, VK_OBJECT_TYPE_IMAGE, VK_OBJECT_TYPE_IMAGE_VIEW, VK_OBJECT_TYPE_SAMPLER, VK_OBJECT_TYPE_COMMAND_POOL, VK_OBJECT_TYPE_COMMAND_BUFFER, VK_OBJECT_TYPE_SEMAPHORE, VK_OBJECT_TYPE_QUERY_POOL, VK_OBJECT_TYPE_EVENT, VK_OBJECT_TYPE_FENCE }; return m[t]; }
struct DebugName { VkStructureType sType; void const * pNext; VkObjectType objectType; uint64_t objectHandle; char const * name; };
struct DebugLabel { VkStructureType sType; void const * pNext; char const * name; float colour[4]; };
inline FK SetDebugUtilsObjectNameEXT( VkDevice d, DebugName const * i ) { devOk( d ); FK_ST( i, DEBUG_UTILS_OBJECT_NAME_INFO_EXT ); chk( VALID, valid( i->objectHandle ) && at( i->objectHandle ).alive && typeOf( at( i->objectHandle ).type ) == i->objectType, "a name is given to a dead object, or as another type" ); return VK_SUCCESS; }
inline FKV CmdBeginDebugUtilsLabelEXT( VkCommandBuffer c, DebugLabel const * i ) { use( c, TCmd, "label in a dead command buffer" ); FK_ST( i, DEBUG_UTILS_LABEL_EXT ); chk( VALID, at( c ).recording && i->name != nullptr, "a label begun outside of begin/end" ); ++at( c ).labels; }
inline FKV CmdEndDebugUtilsLabelEXT( VkCommandBuffer c ) { use( c, TCmd, "label in a dead command buffer" ); chk( VALID, at( c ).recording && at( c ).labels > 0, "a label ended but none is open" ); --at( c ).labels; }
inline VKAPI_ATTR PFN_vkVoidFunction VKAPI_CALL getProc( VkDevice, char const * name ) {
	static std::map< std::string, PFN_vkVoidFunction > const m = [] { std::map< std::string, PFN_vkVoidFunction > r;
#define P( n ) r.emplace( "vk" #n, ( PFN_vkVoidFunction )n );
	P( CreateGraphicsPipelines ) P( CreateComputePipelines ) P( DestroyPipeline ) P( CreatePipelineLayout ) P( DestroyPipelineLayout ) P( CreateDescriptorSetLayout ) P( DestroyDescriptorSetLayout ) P( CreateDescriptorPool ) P( DestroyDescriptorPool ) P( AllocateDescriptorSets ) P( FreeDescriptorSets )
	P( CreateBuffer ) P( DestroyBuffer ) P( GetBufferMemoryRequirements ) P( GetImageMemoryRequirements ) P( AllocateMemory ) P( FreeMemory ) P( BindBufferMemory ) P( BindImageMemory ) P( MapMemory ) P( UnmapMemory ) P( FlushMappedMemoryRanges ) P( InvalidateMappedMemoryRanges )
	P( CreateRenderPass ) P( DestroyRenderPass ) P( CreateFramebuffer ) P( DestroyFramebuffer ) P( CreateImage ) P( DestroyImage ) P( CreateImageView ) P( DestroyImageView ) P( CreateSampler ) P( DestroySampler ) P( CreateCommandPool ) P( DestroyCommandPool ) P( AllocateCommandBuffers ) P( FreeCommandBuffers ) P( CreateSemaphore ) P( DestroySemaphore ) P( UpdateDescriptorSets )
	P( BeginCommandBuffer ) P( EndCommandBuffer ) P( QueueSubmit ) P( CreateQueryPool ) P( DestroyQueryPool ) P( GetQueryPoolResults ) P( ResetCommandBuffer ) P( CreateEvent ) P( DestroyEvent ) P( ResetEvent ) P( SetEvent ) P( GetEventStatus ) P( CreateFence ) P( DestroyFence ) P( GetFenceStatus ) P( WaitForFences ) P( ResetFences )
	P( CmdBindPipeline ) P( CmdBindDescriptorSets ) P( CmdBindVertexBuffers ) P( CmdBindIndexBuffer ) P( CmdClearColorImage ) P( CmdClearDepthStencilImage ) P( CmdDispatch ) P( CmdDispatchIndirect ) P( CmdDraw ) P( CmdDrawIndexed ) P( CmdDrawIndexedIndirect ) P( CmdDrawIndirect ) P( CmdBeginRenderPass ) P( CmdEndRenderPass ) P( CmdPushConstants ) P( CmdResetQueryPool ) P( CmdWriteTimestamp ) P( CmdPipelineBarrier ) P( CmdBlitImage ) P( CmdCopyBuffer ) P( CmdCopyBufferToImage ) P( CmdCopyImage ) P( CmdCopyImageToBuffer ) P( CmdExecuteCommands ) P( CmdFillBuffer ) P( CmdResetEvent ) P( CmdSetEvent ) P( CmdWaitEvents )
	if ( w().on & VALID ) { P( SetDebugUtilsObjectNameEXT ) P( CmdBeginDebugUtilsLabelEXT ) P( CmdEndDebugUtilsLabelEXT ) }
#undef P
	return r; }();
	auto it = m.find( name ); return it == m.end() ? nullptr : it->second; }
// ---- context -----------------------------------------------------------------------------------------------------
struct CtxDesc { bool separateDs{ true }; float period{ 1.0f }; VkPhysicalDeviceMemoryProperties mem{}; bool setMem{}; };
inline std::unique_ptr< crg::GraphContext > context( CtxDesc const & d = {} ) {
	VkPhysicalDeviceMemoryProperties m{}; if ( d.setMem ) m = d.mem; else { m.memoryTypeCount = 2; m.memoryTypes[0] = { VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, 0 }; m.memoryTypes[1] = { VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, 1 }; m.memoryHeapCount = 2; m.memoryHeaps[0].size = m.memoryHeaps[1].size = 1u << 30; }
	static VkPhysicalDeviceProperties p; std::memset( &p, 0, sizeof p ); p.limits.timestampPeriod = d.period; p.limits.nonCoherentAtomSize = 64;
	crg::Logger::setDebugCallback( []( std::string const &, bool ) {} ); crg::Logger::setTraceCallback( []( std::string const &, bool ) {} ); crg::Logger::setInfoCallback( []( std::string const &, bool ) {} ); crg::Logger::setWarningCallback( []( std::string const &, bool ) {} ); crg::Logger::setErrorCallback( []( std::string const &, bool ) {} );
	return std::make_unique< crg::GraphContext >( mk< VkDevice >( 0xD00D ), VkPipelineCache{}, nullptr, m, p, d.separateDs, getProc ); }
template< typename F > inline bool throws( F f ) { try { f(); } catch ( std::exception const & ) { return true; } return false; }
}
