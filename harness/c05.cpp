// C05: buffer barriers follow the tracked access state
#include "common.hpp"
using namespace hc;
namespace {
uint32_t const Writes = VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT | VK_ACCESS_HOST_WRITE_BIT | VK_ACCESS_MEMORY_WRITE_BIT;
// a barrier may cover more than what was requested
bool covers( VkBufferMemoryBarrier const & b, BufferSubresourceRange const & r ) { if ( b.offset > r.offset ) return false; if ( b.size == VK_WHOLE_SIZE ) return true; return r.size != VK_WHOLE_SIZE && r.size <= b.size && r.offset - b.offset <= b.size - r.size; }
AccessState symAccess( std::string const & p ) { AccessState s; s.access = uint32_t( sym_bits( ( p + "acc" ).c_str(), 32 ) ); s.pipelineStage = uint32_t( sym_bits( ( p + "stg" ).c_str(), 32 ) ); return s; }
void run( uint32_t ops, uint32_t nbuf ) {
	auto ctx = fk::context(); ResourceHandler handler; ContextResourcesCache res{ handler, *ctx }; RecordContext rc{ res }; VkCommandBuffer cb = fk::mk< VkCommandBuffer >( fk::add( fk::TCmd ) ); fk::at( cb ).recording = true;
	VkBuffer bufs[3]; for ( auto & b : bufs ) b = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ); bool known[3]{}; AccessState st[3]{}; fk::w().on = fk::LIFETIME | fk::STATE;
	for ( uint32_t k = 0; k < ops; ++k ) {
		auto p = "b" + std::to_string( k ); uint32_t i = pickIdx( p + "buf", nbuf ), how = pickIdx( p + "how", 3 ); BufferSubresourceRange r{ sym_bits( ( p + "off" ).c_str(), 64 ), sym_bits( ( p + "siz" ).c_str(), 64 ) }; auto want = symAccess( p );
		if ( how == 0 ) { rc.setAccessState( bufs[i], r, want ); known[i] = true; st[i] = want; }
		else {
			bool force = flag( p + "force" ); AccessState init = how == 1 ? symAccess( p + "i" ) : AccessState{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
			size_t n = fk::w().cmds.size(); if ( how == 1 ) rc.memoryBarrier( cb, bufs[i], r, init.access, init.pipelineStage, want, force ); else rc.memoryBarrier( cb, bufs[i], r, want, force );
			// a state whose stage is bottom-of-pipe carries no pending work: the caller's initial state stands for it
			AccessState from = known[i] && st[i].pipelineStage != VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ? st[i] : init;
			bool need = force || from.access != want.access || from.pipelineStage != want.pipelineStage || ( from.access & Writes ) != 0; sym_check( fk::w().cmds.size() == n + ( need ? 1 : 0 ), need ? "a needed buffer barrier is missing" : "a useless buffer barrier is emitted" );
			if ( fk::w().cmds.size() > n ) { auto & x = fk::w().cmds.back(); sym_check( x.kind == fk::CBarrier && x.bufs.size() == 1 && x.imgs.empty() && x.mems.empty(), "a buffer barrier request records something else" ); auto & b = x.bufs[0]; sym_check( b.buffer == bufs[i], "a barrier names another buffer" ); sym_check( covers( b, r ), "a buffer barrier covers another range" ); sym_check( b.srcAccessMask == from.access && x.srcStage == from.pipelineStage, "a buffer barrier's source is not the tracked state" ); sym_check( b.dstAccessMask == want.access && x.dstStage == want.pipelineStage, "a buffer barrier's destination is not the requested state" ); sym_check( b.srcQueueFamilyIndex == b.dstQueueFamilyIndex, "a buffer barrier transfers ownership" ); known[i] = true; st[i] = want; sym_reach( "barrier" ); } else sym_reach( "no-barrier" );
		}
		for ( uint32_t j = 0; j < nbuf; ++j ) { auto & g = rc.getAccessState( bufs[j], r ); if ( known[j] ) sym_check( g.access == st[j].access && g.pipelineStage == st[j].pipelineStage, "the tracked state of a buffer is not the last requested one" ); else sym_check( g.access == 0 && g.pipelineStage == VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, "a buffer nobody touched has a state" ); }
	}
	sym_obs( fk::w().cmds.size() );
}
// states merged from another graph: the first registered has priority, none is lost
void merge() {
	auto ctx = fk::context(); ResourceHandler handler; ContextResourcesCache res{ handler, *ctx }; RecordContext a{ res }, b{ res }; VkBuffer bufs[2]; for ( auto & x : bufs ) x = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) );
	bool ina[2], inb[2]; AccessState sa[2], sb[2]; for ( int i = 0; i < 2; ++i ) { auto n = std::to_string( i ); ina[i] = flag( "a" + n ); inb[i] = flag( "b" + n ); sa[i] = symAccess( "sa" + n ); sb[i] = symAccess( "sb" + n ); if ( ina[i] ) a.setAccessState( bufs[i], {}, sa[i] ); if ( inb[i] ) b.setAccessState( bufs[i], {}, sb[i] ); }
	a.addStates( b );
	for ( int i = 0; i < 2; ++i ) { auto g = a.getAccessState( bufs[i], {} ); AccessState w = ina[i] ? sa[i] : inb[i] ? sb[i] : AccessState{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT }; sym_check( g.access == w.access && g.pipelineStage == w.pipelineStage, "merging graphs loses or overrides a buffer state" ); }
	sym_reach( "merge" );
}
// barriers a graph records for the buffers of its passes
void graph( bool withOther ) {
	auto ctx = fk::context(); ResourceHandler handler; Log log; VkBuffer vb[2]; for ( auto & b : vb ) b = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) );
	{
		FrameGraph g{ handler, "g" }; Buffer bufs[2]{ Buffer{ vb[0], "b0" }, Buffer{ vb[1], "b1" } }; BufferSubresourceRange range{ 64, 128 };
		AccessState want[3][2]; bool uses[3][2]{}; bool en[3]; bool comp[3]; FramePass * prev = nullptr;
		for ( uint32_t k = 0; k < 3; ++k ) {
			auto n = std::to_string( k ); comp[k] = flag( "comp" + n ); en[k] = flag( "en" + n ); PassOpt o; o.compute = comp[k]; bool e = en[k]; o.enabled = [e] { return e; }; auto & p = g.createPass( "p" + n, marker( int( k ), log, o ) ); if ( prev ) p.addDependency( *prev ); prev = &p;
			for ( uint32_t i = 0; i < ( withOther ? 2u : 1u ); ++i ) {
				uint32_t kind = pickIdx( "kind" + n + std::to_string( i ), withOther ? 3 : 7 ); uses[k][i] = true; auto sh = VkPipelineStageFlags( comp[k] ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
				switch ( kind ) {
				case 0: p.addInputStorageBuffer( bufs[i], i, range.offset, range.size ); want[k][i] = { VK_ACCESS_SHADER_READ_BIT, sh }; break;
				case 1: p.addOutputStorageBuffer( bufs[i], i, range.offset, range.size ); want[k][i] = { VK_ACCESS_SHADER_WRITE_BIT, sh }; break;
				case 2: uses[k][i] = false; break;
				case 3: p.addInOutStorageBuffer( bufs[i], i, range.offset, range.size ); want[k][i] = { VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, sh }; break;
				case 4: p.addTransferInputBuffer( bufs[i], range.offset, range.size ); want[k][i] = { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }; break;
				case 5: p.addUniformBuffer( bufs[i], i, range.offset, range.size ); want[k][i] = { VK_ACCESS_UNIFORM_READ_BIT, sh }; break;
				default: p.addTransferOutputBuffer( bufs[i], range.offset, range.size ); want[k][i] = { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }; break;
				}
			}
		}
		auto run = g.compile( *ctx ); fk::w().on = fk::LIFETIME | fk::STATE; fk::w().cmds.clear(); run->record();
		// replay the stream: before each marker, every buffer of the pass has been brought to the state it declares, each barrier starting from the previous one
		AccessState cur[2]; bool known[2]{}, wrote[2]{}; std::vector< uint32_t > seen; 
		for ( auto & x : fk::w().cmds ) {
			if ( x.kind == fk::CBarrier ) for ( auto & b : x.bufs ) { uint32_t i = b.buffer == vb[0] ? 0 : 1; if ( known[i] ) sym_check( b.srcAccessMask == cur[i].access && x.srcStage == cur[i].pipelineStage, "a pass's buffer barrier does not start from the state the previous user left" ); sym_check( covers( b, range ), "a pass's buffer barrier covers another range" ); cur[i] = { b.dstAccessMask, x.dstStage }; known[i] = true; wrote[i] = false; }
			if ( x.kind == fk::CMark ) { uint32_t k = uint32_t( x.mark ); seen.push_back( k ); for ( uint32_t i = 0; i < 2; ++i ) if ( uses[k][i] ) { sym_check( known[i] && cur[i].access == want[k][i].access && cur[i].pipelineStage == want[k][i].pipelineStage, "a pass runs without its buffer having been brought to the declared access" ); sym_check( !wrote[i], "a pass does not wait for what was written in its buffer" ); wrote[i] = ( want[k][i].access & Writes ) != 0; sym_reach( "used" ); } }
		}
		uint32_t n = 0; for ( uint32_t k = 0; k < 3; ++k ) if ( en[k] ) ++n; sym_check( seen.size() == n, "wrong passes recorded" );
	}
}
}
extern "C" void sym_main() {
	switch ( sym_scenario() ) {
	case 0: run( 2, 2 ); break;
	case 1: merge(); break;
	case 2: graph( false ); break;
	case 3: run( 3, 2 ); break;
	case 4: graph( true ); break;
	case 5: run( 4, 2 ); break;
	}
}
