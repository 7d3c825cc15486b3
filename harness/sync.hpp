// execution and memory dependencies of core Vulkan, for one subresource or one byte of a buffer
#pragma once
#include "common.hpp"
namespace sync {
using S = VkPipelineStageFlags; using A = VkAccessFlags;
inline S const Gfx = VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT | VK_PIPELINE_STAGE_VERTEX_INPUT_BIT | VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
inline S const All = Gfx | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT | VK_PIPELINE_STAGE_TRANSFER_BIT | VK_PIPELINE_STAGE_HOST_BIT;
inline A const Writes = VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT | VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_HOST_WRITE_BIT;
// the order of the stages of the graphics pipeline
inline S const Order[]{ VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT, VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT, VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT, VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };
inline S plain( S s ) { if ( s & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT ) return All; if ( s & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) s |= Gfx; return s & All; }
inline S earlier( S s ) { if ( s & VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) return All; S r = plain( s ); bool on = false; for ( int i = 9; i >= 0; --i ) { on = on || ( r & Order[i] ); if ( on ) r |= Order[i]; } return r; }
inline S later( S s ) { if ( s & VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT ) return All; S r = plain( s ); bool on = false; for ( int i = 0; i < 10; ++i ) { on = on || ( r & Order[i] ); if ( on ) r |= Order[i]; } return r; }
// one subresource: its last write, and the reads since
struct Sub { bool any{}, avail{}; S stage{}, chain{}; A access{}; std::vector< std::pair< S, A > > visible; std::vector< S > reads; };
struct Scope { S src, dst; A srcA, dstA; };
inline bool sees( Sub const & s, S st, A ac ) { bool all = true; for ( S b = 1; b && b <= st; b <<= 1 ) if ( st & b ) for ( A x = 1; x && x <= ac; x <<= 1 ) if ( ac & x ) { bool f = false; for ( auto & [vs, va] : s.visible ) f = f || ( ( vs & b ) && ( va & x ) ); all = all && f; } return all; }
// a memory dependency on one subresource, and its layout transition, if any; the chains are those before it
inline void depends( Sub & x, Scope const & s, bool transition, char const * what )
{
	bool after = ( x.chain & earlier( s.src ) ) != 0; if ( x.any && !x.avail && ( x.stage & plain( s.src ) ) == x.stage && ( x.access & ~s.srcA ) == 0 ) x.avail = true;
	if ( transition ) { sym_check( !x.any || ( x.avail && after ), what ); for ( auto r : x.reads ) sym_check( ( r & earlier( s.src ) ) != 0, what ); x.reads.clear(); x.any = x.avail = true; x.stage = x.chain = 0; x.access = 0; x.visible.clear(); x.chain = later( s.dst ); x.visible.emplace_back( plain( s.dst ), s.dstA ); }
	else if ( x.avail && after ) x.visible.emplace_back( plain( s.dst ), s.dstA );
}
inline void access( Sub & x, S st, A ac, char const * what )
{
	if ( x.any ) { sym_check( sees( x, st, ac ), what ); sym_reach( "after-write" ); }
	if ( ac & Writes ) { for ( auto r : x.reads ) { sym_check( ( r & st ) == st, what ); sym_reach( "after-read" ); } x.reads.clear(); x.any = true; x.avail = false; x.stage = x.chain = st; x.access = ac & Writes; x.visible.clear(); }
	else x.reads.push_back( st );
}
inline void chains( Sub & x, Scope const & s ) { if ( x.chain & earlier( s.src ) ) x.chain |= later( s.dst ); for ( auto & r : x.reads ) if ( r & earlier( s.src ) ) r |= later( s.dst ); }
}
