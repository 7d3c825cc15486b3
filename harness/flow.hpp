// Graphs of passes using views of one image: the layout and the contents of every subresource are followed through the
// recorded commands, and compared with what each pass needs and should see.
#pragma once
#include "common.hpp"
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
namespace flow {
using namespace hc;
enum Kind : uint32_t { Sampled, OutStorage, InOutStorage, TransIn, TransOut, OutColour, InOutColour, InColour, InStorage, ClearStorage, Implicit, OutDs, InOutDs, InDs, TransInOut, SampledDs, KCount };
inline bool reads( uint32_t k ) { return k != OutStorage && k != TransOut && k != OutColour && k != ClearStorage && k != OutDs; }
inline bool writes( uint32_t k ) { return k == OutStorage || k == InOutStorage || k == TransOut || k == OutColour || k == InOutColour || k == ClearStorage || k == OutDs || k == InOutDs || k == TransInOut; }
inline bool target( uint32_t k ) { return k == OutColour || k == InOutColour || k == InColour || k == OutDs || k == InOutDs || k == InDs; }
inline VkImageLayout needed( uint32_t k )
{
	switch ( k ) {
	case Sampled: case SampledDs: case Implicit: return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
	case TransIn: return VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; case TransOut: case TransInOut: return VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
	case OutColour: case InOutColour: case InColour: return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
	case OutDs: case InOutDs: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL; case InDs: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
	default: return VK_IMAGE_LAYOUT_GENERAL; }
}
inline void declare( FramePass & p, uint32_t k, ImageViewId v, uint32_t b )
{
	switch ( k ) {
	case Sampled: case SampledDs: p.addSampledView( v, b ); break; case OutStorage: p.addOutputStorageView( v, b ); break; case InOutStorage: p.addInOutStorageView( v, b ); break;
	case TransIn: p.addTransferInputView( v ); break; case TransOut: p.addTransferOutputView( v ); break; case TransInOut: p.addTransferInOutView( v ); break;
	case OutColour: p.addOutputColourView( v ); break; case InOutColour: p.addInOutColourView( v ); break; case InColour: p.addInputColourView( v ); break;
	case InStorage: p.addInputStorageView( v, b ); break; case ClearStorage: p.addClearableOutputStorageView( v, b ); break; case Implicit: p.addImplicitColourView( v, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); break;
	case OutDs: p.addOutputDepthStencilView( v ); break; case InOutDs: p.addInOutDepthStencilView( v ); break; default: p.addInputDepthStencilView( v ); break; }
}
// one image: what each of its subresources holds (0 nothing defined) and should hold
struct Image
{
	ImageId id; uint32_t L, M; VkFormat fmt; uint64_t vk{}; std::vector< int > holds, wants; VkImageViewType vt;
	// a volume (depth above 1) has one layer
	Image( ResourceHandler & h, char const * name, uint32_t layers, uint32_t mips, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM, uint32_t depth = 1, VkSampleCountFlagBits samples = VK_SAMPLE_COUNT_1_BIT ) : id{ h.createImageId( ImageData{ name, 0u, depth > 1 ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, f, { 8, 8, depth }, VK_IMAGE_USAGE_SAMPLED_BIT, mips, layers, samples } ) }, L{ layers }, M{ mips }, fmt{ f }, holds( layers * mips, 0 ), wants( layers * mips, 0 ), vt{ depth > 1 ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY } {}
	template< typename F > void each( VkImageSubresourceRange const & r, F f ) { for ( uint32_t l = 0; l < L; ++l ) for ( uint32_t m = 0; m < M; ++m ) if ( ( l >= r.baseArrayLayer ) & ( l < r.baseArrayLayer + r.layerCount ) & ( m >= r.baseMipLevel ) & ( m < r.baseMipLevel + r.levelCount ) ) f( l, m, l * M + m ); }
	template< typename F > void all( F f ) { for ( uint32_t l = 0; l < L; ++l ) for ( uint32_t m = 0; m < M; ++m ) f( l, m, l * M + m ); }
	VkImageLayout layout( uint32_t l, uint32_t m ) { return vk ? fk::layoutOf( vk, l, m ) : VK_IMAGE_LAYOUT_UNDEFINED; }
	// somebody outside of the graph puts contents in there
	void outside( VkImageSubresourceRange const & r, VkImageLayout l, int what ) { each( r, [&]( uint32_t a, uint32_t m, uint32_t k ) { fk::setLayout( vk, a, m, l ); holds[k] = wants[k] = what; } ); }
};
struct Flow
{
	struct Use { Image * img; uint32_t kind; VkImageSubresourceRange r; bool compute{}; Image * second{}; }; std::function< void( fk::Cmd const & ) > onCmd;
	std::unique_ptr< GraphContext > ctx; ResourceHandler h; std::vector< std::unique_ptr< Image > > imgs; size_t pos{}; Log log; std::vector< uint32_t > expected; bool on{ true }; std::function< uint32_t() > index;
	explicit Flow( fk::CtxDesc cd = {} ) : ctx{ fk::context( cd ) } { fk::w().on = fk::LIFETIME | fk::LAYOUT | fk::STATE; }
	~Flow() { on = false; }
	Image * of( uint64_t vk ) { for ( auto & i : imgs ) if ( i->vk == vk ) return i.get(); return nullptr; }
	Image & image( char const * n, uint32_t l, uint32_t m, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM, uint32_t depth = 1, VkSampleCountFlagBits samples = VK_SAMPLE_COUNT_1_BIT ) { imgs.push_back( std::make_unique< Image >( h, n, l, m, f, depth, samples ) ); return *imgs.back(); }
	void lose( uint64_t vk, VkImageSubresourceRange const & r ) { if ( auto i = of( vk ) ) fk::forRange( vk, r, [&]( uint32_t l, uint32_t m ) { i->holds[l * i->M + m] = 0; } ); }
	// contents lost by the commands recorded since the last call
	void scan()
	{
		auto & cmds = fk::w().cmds;
		for ( ; pos < cmds.size(); ++pos ) { auto & c = cmds[pos]; if ( onCmd ) onCmd( c );
			if ( c.kind == fk::CBarrier ) for ( auto & b : c.imgs ) if ( b.oldLayout == VK_IMAGE_LAYOUT_UNDEFINED ) lose( fk::raw( b.image ), b.subresourceRange );
			if ( c.kind == fk::CClearColour || c.kind == fk::CClearDepth ) for ( auto & r : c.ranges ) lose( c.dst, r );
			if ( c.kind == fk::CBeginRP ) { auto & rp = fk::at( c.src ); auto & fb = fk::at( c.dst ); for ( size_t k = 0; k < rp.atts.size() && k < fb.fbViews.size(); ++k ) { auto & a = rp.atts[k]; auto & v = fk::at( fb.fbViews[k] ); if ( a.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED || a.loadOp != VK_ATTACHMENT_LOAD_OP_LOAD ) lose( fk::raw( v.view.image ), v.view.subresourceRange ); } } }
	}
	std::function< void( std::vector< Use > const & ) > onUse;
	// what a pass finds when its own commands run
	void visit( uint32_t id, std::vector< Use > const & uses )
	{
		if ( !on ) return;
		scan(); log.push_back( id );
		for ( auto & u : uses ) u.img->each( u.r, [&]( uint32_t l, uint32_t m, uint32_t k ) {
			sym_check( u.img->layout( l, m ) == needed( u.kind ), "a pass runs while one of its attachments is not in the layout its use needs" );
			if ( reads( u.kind ) && u.img->wants[k] ) { sym_check( u.img->holds[k] == u.img->wants[k], "the contents a pass reads were lost on the way" ); sym_reach( "read-back" ); } } );
		for ( auto & u : uses ) if ( writes( u.kind ) ) u.img->each( u.r, [&]( uint32_t, uint32_t, uint32_t k ) { u.img->holds[k] = u.img->wants[k] = 10 + int( id ); } );
		if ( onUse ) onUse( uses ); sym_reach( "ran" );
	}
	RunnablePassCreator creator( uint32_t id, std::vector< Use > uses, std::function< bool() > enabled, ru::Config cfg = {} )
	{
		bool rp = false, cp = false; for ( auto & u : uses ) { rp = rp || target( u.kind ); cp = cp || u.compute; }
		return [this, id, uses, enabled, cfg, rp, cp]( FramePass const & p, GraphContext & c, RunnableGraph & g ) -> RunnablePassPtr {
			for ( auto & i : imgs ) if ( !i->vk ) i->vk = fk::raw( g.createImage( i->id ) );
			auto rec = RunnablePass::RecordCallback( [this, id, uses]( RecordContext &, VkCommandBuffer cb, uint32_t i ) { fk::mark( cb, int( id ) ); auto us = uses; for ( auto & u : us ) if ( i && u.second ) u.img = u.second; visit( id, us ); } );
			auto en = RunnablePass::IsEnabledCallback( [enabled]() { return !enabled || enabled(); } ); auto idx = RunnablePass::GetPassIndexCallback( [this]() { return index ? index() : 0u; } ); auto init = RunnablePass::InitialiseCallback( []( uint32_t ) {} );
			auto inl = RenderPass::GetSubpassContentsCallback( []() { return VK_SUBPASS_CONTENTS_INLINE; } ); auto st = RunnablePass::GetPipelineStateCallback( []() { return pstate(); } );
			if ( !enabled && !cp ) { if ( rp ) return std::make_unique< RenderPass >( p, c, g, RenderPass::Callbacks{ init, rec }, VkExtent2D{ 1, 1 }, cfg ); return std::make_unique< RunnablePass >( p, c, g, RunnablePass::Callbacks{ init, st, rec }, cfg ); }
			if ( rp ) return std::make_unique< RenderPass >( p, c, g, RenderPass::Callbacks{ init, rec, inl, idx, en }, VkExtent2D{ 1, 1 }, cfg );
			return std::make_unique< RunnablePass >( p, c, g, RunnablePass::Callbacks{ init, st, rec, idx, en, RunnablePass::IsComputePassCallback( [cp]() { return cp; } ) }, cfg ); };
	}
	// after a recording: what the graph says it leaves is what the commands leave, and nothing was lost
	void judge( FrameGraph & g )
	{
		scan();
		for ( auto & i : imgs ) i->all( [&]( uint32_t l, uint32_t m, uint32_t k ) {
			auto said = g.getFinalLayoutState( i->id, i->vt, rng( getAspectMask( i->fmt ), m, 1, l, 1 ) ).layout;
			sym_check( said == i->layout( l, m ), "the final layout a graph reports is not the one its commands leave" );
			if ( i->wants[k] ) sym_check( i->holds[k] == i->wants[k], "what a pass wrote is lost before the end of the graph" ); } );
		sym_check( log == expected, "the passes and actions recorded are not the expected ones in order" ); log.clear(); expected.clear();
	}
	void run( RunnableGraph & r, FrameGraph & g ) { r.record(); judge( g ); }
	// the registered output layouts
	void outputs( Image & i, VkImageSubresourceRange const & r, VkImageLayout l ) { i.each( r, [&]( uint32_t a, uint32_t m, uint32_t ) { auto is = i.layout( a, m ); if ( is != VK_IMAGE_LAYOUT_UNDEFINED ) { sym_check( is == l, "a view is not left in its registered output layout" ); sym_reach( "output" ); } } ); }
};
}
