// C13: format, layout and range classification is right for every enum value
#include "common.hpp"
#include <RenderGraph/FramePass.hpp>
using namespace hc;
namespace {
void formats() {
	auto f = VkFormat( uint32_t( sym_bits( "format", 32 ) ) );
	bool d = f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D32_SFLOAT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT;
	bool s = f == VK_FORMAT_S8_UINT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT;
	sym_check( isDepthFormat( f ) == d, "a format is wrongly classified as to depth" ); sym_check( isStencilFormat( f ) == s, "a format is wrongly classified as to stencil" ); sym_check( isDepthStencilFormat( f ) == ( d && s ), "a format is wrongly classified as depth-stencil" ); sym_check( isColourFormat( f ) == ( !d && !s ), "a format is wrongly classified as colour" );
	uint32_t a = ( d ? VK_IMAGE_ASPECT_DEPTH_BIT : 0 ) | ( s ? VK_IMAGE_ASPECT_STENCIL_BIT : 0 ) | ( !d && !s ? VK_IMAGE_ASPECT_COLOR_BIT : 0 ); sym_check( getAspectMask( f ) == a, "a format gets the wrong aspect" ); sym_reach( d ? "depth" : "colour" ); sym_obs( a );
}
struct Row { VkImageLayout l; uint32_t must, may, stages; };
// access that the layout exists for, other access it allows, stages able to perform it
Row const Rows[] = {
	{ VK_IMAGE_LAYOUT_UNDEFINED, 0, 0, VK_PIPELINE_STAGE_HOST_BIT | VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT },
	{ VK_IMAGE_LAYOUT_PREINITIALIZED, VK_ACCESS_HOST_WRITE_BIT, 0, VK_PIPELINE_STAGE_HOST_BIT },
	{ VK_IMAGE_LAYOUT_GENERAL, 0, VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT | VK_PIPELINE_STAGE_ALL_COMMANDS_BIT },
	{ VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT },
	{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_ACCESS_SHADER_READ_BIT, VK_ACCESS_INPUT_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT },
	{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_ACCESS_TRANSFER_READ_BIT, 0, VK_PIPELINE_STAGE_TRANSFER_BIT },
	{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_ACCESS_TRANSFER_WRITE_BIT, 0, VK_PIPELINE_STAGE_TRANSFER_BIT },
	{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, 0, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, 0, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT },
	{ VK_IMAGE_LAYOUT_PRESENT_SRC_KHR, 0, VK_ACCESS_MEMORY_READ_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
	{ VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR, 0, VK_ACCESS_MEMORY_READ_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
	{ VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV, VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV, 0, VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV },
	{ VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT, VK_ACCESS_FRAGMENT_DENSITY_MAP_READ_BIT_EXT, 0, VK_PIPELINE_STAGE_FRAGMENT_DENSITY_PROCESS_BIT_EXT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
};
void layouts() {
	auto l = VkImageLayout( uint32_t( sym_bits( "layout", 32 ) ) ); uint32_t acc = getAccessMask( l ), stg = getStageMask( l ); bool hit = false;
	for ( auto & r : Rows ) if ( l == r.l ) { hit = true; sym_check( ( acc & r.must ) == r.must, "a layout's access mask lacks the access the layout is for" ); sym_check( ( acc & ~( r.must | r.may ) ) == 0, "a layout's access mask asks for access the layout forbids" ); sym_check( stg != 0 && ( stg & ~r.stages ) == 0, "a layout's stages cannot perform its accesses" ); auto s = makeLayoutState( l ); sym_check( s.layout == l && s.state.access == acc && s.state.pipelineStage == stg, "makeLayoutState differs from the masks of its layout" ); sym_reach( "known-layout" ); }
	if ( !hit ) sym_check( acc == 0 && stg == 0, "an unknown layout gets masks" ); sym_obs( acc );
}
void stages() {
	uint32_t f = uint32_t( sym_bits( "stages", 32 ) ); auto p = getPipelineState( f ); sym_check( p.pipelineStage == f, "a pipeline state loses stages" ); uint32_t a = 0;
	if ( f & VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) a |= VK_ACCESS_MEMORY_READ_BIT; if ( f & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) a |= VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT; if ( f & VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) a |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
	if ( f & ( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) ) a |= VK_ACCESS_SHADER_READ_BIT; if ( f & VK_PIPELINE_STAGE_TRANSFER_BIT ) a |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT; if ( f & VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV ) a |= VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV;
	sym_check( p.access == a, "a pipeline state's access does not follow its stages" ); sym_obs( a );
}
void memory( uint32_t n ) {
	fk::CtxDesc cd; cd.setMem = true; cd.mem.memoryTypeCount = n; for ( uint32_t i = 0; i < n; ++i ) cd.mem.memoryTypes[i].propertyFlags = uint32_t( sym_bits( ( "flags" + std::to_string( i ) ).c_str(), 32 ) );
	uint32_t bits = uint32_t( sym_bits( "typeBits", 32 ) ), want = uint32_t( sym_bits( "wanted", 32 ) ); auto ctx = fk::context( cd ); bool ok = false, any = false; uint32_t got = ~0u;
	try { got = ctx->deduceMemoryType( bits, want ); ok = true; } catch ( crg::Exception const & ) {}
	for ( uint32_t i = 0; i < n; ++i ) { bool fits = ( ( bits >> i ) & 1 ) && ( cd.mem.memoryTypes[i].propertyFlags & want ) == want; any = any || fits; if ( ok && got == i ) sym_check( fits, "a memory type that is not allowed or lacks the wanted properties is selected" ); }
	sym_check( ok == any, "memory type selection fails although a type fits, or succeeds with none" ); if ( ok ) sym_check( got < n, "a memory type that does not exist is selected" ); sym_reach( ok ? "memory" : "no-memory" );
}
// the aligned fill of a clearable storage buffer
void align() {
	auto ctx = fk::context(); ResourceHandler handler; Log log; uint64_t off = sym_bits( "offset", 64 ), size = sym_bits( "size", 64 ); sym_assume( off < ( 1ull << 62 ) ); bool whole = size == VK_WHOLE_SIZE; sym_assume( whole || size < ( 1ull << 62 ) ); VkBuffer b = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) );
	FrameGraph g{ handler, "g" }; auto & p = g.createPass( "p", marker( 0, log ) ); p.addClearableOutputStorageBuffer( Buffer{ b, "b" }, 0, off, size ); auto run = g.compile( *ctx ); run->record(); bool seen = false;
	for ( auto & x : fk::w().cmds ) if ( x.kind == fk::CFill ) { seen = true; sym_check( fk::raw( b ) == x.dst && x.n[0] == 0, "another buffer is cleared" ); sym_check( x.q[0] >= off && ( x.q[0] & 3 ) == 0 && x.q[0] - off < 4, "an aligned offset is not the smallest multiple not below it" ); if ( whole ) sym_check( x.q[1] == VK_WHOLE_SIZE, "the whole-size marker is not kept" ); else sym_check( x.q[1] >= size && ( x.q[1] & 3 ) == 0 && x.q[1] - size < 4, "an aligned size is not the smallest multiple not below it" ); }
	sym_check( seen, "a clearable buffer is not cleared" ); sym_reach( "align" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: formats(); break; case 1: layouts(); break; case 2: stages(); break; case 3: memory( 3 ); break; case 4: align(); break; case 5: memory( 0 ); break; case 6: memory( 8 ); break; } }
