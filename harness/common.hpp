#pragma once
#include "fakevk.hpp"
namespace hc {
using namespace crg;
inline ImageData imgData( char const * name, VkImageType t, VkFormat f, VkExtent3D e, uint32_t mips, uint32_t layers, VkImageUsageFlags u = VK_IMAGE_USAGE_SAMPLED_BIT ) { return ImageData{ name, 0u, t, f, e, u, mips, layers }; }
inline ImageViewData viewData( char const * name, ImageId i, VkImageViewType t, VkImageSubresourceRange r ) { return ImageViewData{ name, i, 0u, t, i.data->info.format, r }; }
inline VkImageSubresourceRange rng( VkImageAspectFlags a, uint32_t bm, uint32_t nm, uint32_t bl, uint32_t nl ) { return { a, bm, nm, bl, nl }; }
// symbolic sub-range of [0,n)
inline void subRange( std::string const & p, uint32_t n, uint32_t & base, uint32_t & count ) { base = uint32_t( sym_range( ( p + "b" ).c_str(), 0, n - 1 ) ); count = uint32_t( sym_range( ( p + "c" ).c_str(), 1, n ) ); sym_assume( base + count <= n ); }
inline VkImageSubresourceRange symRange( std::string const & p, uint32_t layers, uint32_t mips, VkImageAspectFlags a = VK_IMAGE_ASPECT_COLOR_BIT ) { VkImageSubresourceRange r{ a, 0, 1, 0, 1 }; if ( layers > 1 ) subRange( p + "l", layers, r.baseArrayLayer, r.layerCount ); if ( mips > 1 ) subRange( p + "m", mips, r.baseMipLevel, r.levelCount ); return r; }
inline bool operator==( LayoutState const & a, LayoutState const & b ) { return a.layout == b.layout && a.state.access == b.state.access && a.state.pipelineStage == b.state.pipelineStage; }
inline VkImageLayout symLayout( char const * n, std::vector< VkImageLayout > const & v ) { std::vector< uint64_t > x( v.begin(), v.end() ); return VkImageLayout( sym_oneof( n, x.data(), uint32_t( x.size() ) ) ); }
inline LayoutState symState( std::string const & p, std::vector< VkImageLayout > const & v ) { LayoutState s; s.layout = symLayout( ( p + "lay" ).c_str(), v ); s.state.access = uint32_t( sym_bits( ( p + "acc" ).c_str(), 32 ) ); s.state.pipelineStage = uint32_t( sym_bits( ( p + "stg" ).c_str(), 32 ) ); return s; }
}
namespace hc {
using Log = std::vector< uint32_t >;
inline PipelineState pstate( VkPipelineStageFlags s = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) { return crg::getPipelineState( s ); }
struct PassOpt { VkPipelineStageFlags stage{ VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT }; std::function< bool() > enabled; std::function< uint32_t() > index; bool compute{}; ru::Config cfg{}; RunnablePass::RecordCallback record; std::function< void( uint32_t ) > init; };
// a pass whose commands are one marker (plus opt.record), logging each recording
inline RunnablePassCreator marker( int id, Log & log, PassOpt opt = {} ) {
	return [id, &log, opt]( FramePass const & p, GraphContext & c, RunnableGraph & g ) -> RunnablePassPtr {
		return std::make_unique< RunnablePass >( p, c, g
			, RunnablePass::Callbacks{ RunnablePass::InitialiseCallback( [opt]( uint32_t i ) { if ( opt.init ) opt.init( i ); } )
				, RunnablePass::GetPipelineStateCallback( [opt]() { return pstate( opt.stage ); } )
				, RunnablePass::RecordCallback( [id, &log, opt]( RecordContext & rc, VkCommandBuffer cb, uint32_t i ) { log.push_back( uint32_t( id ) ); fk::mark( cb, id ); if ( opt.record ) opt.record( rc, cb, i ); } )
				, RunnablePass::GetPassIndexCallback( [opt]() { return opt.index ? opt.index() : 0u; } )
				, RunnablePass::IsEnabledCallback( [opt]() { return opt.enabled ? opt.enabled() : true; } )
				, RunnablePass::IsComputePassCallback( [opt]() { return opt.compute; } ) }
			, opt.cfg ); }; }
inline bool flag( std::string const & n ) { return sym_range( n.c_str(), 0, 1 ) != 0; }
inline uint32_t pickIdx( std::string const & n, uint32_t count ) { uint64_t v = sym_range( n.c_str(), 0, count - 1 ); for ( uint32_t i = 0; i + 1 < count; ++i ) if ( v == i ) return i; return count - 1; }
// like pickIdx, but always explores one path per value
inline uint32_t forkIdx( std::string const & n, uint32_t count ) { return uint32_t( sym_fork( sym_range( n.c_str(), 0, count - 1 ) ) ); }
}
