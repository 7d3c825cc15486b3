// Graphs whose passes create objects lazily, and the operations a user does on them
#pragma once
#include "common.hpp"
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
namespace life {
using namespace hc;
using Program = VkPipelineShaderStageCreateInfoArray;
uint32_t const Indices = 2;
inline Program program( uint32_t i, uint32_t stages ) { Program p; for ( uint32_t k = 0; k < stages; ++k ) { VkPipelineShaderStageCreateInfo s{}; s.sType = VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO; s.flags = 16 * i + k; p.push_back( s ); } return p; }
enum Kind : uint32_t { Compute, Quad, Mesh, Render, Mips, Plain };
enum Programs : uint32_t { One, PerIndex, Creator };
struct PassCtl { Kind kind; Programs programs; uint32_t prog[2]; uint32_t index{}; bool enabled{ true }; RunnablePass * pass{}; std::function< void( Program, uint32_t ) > reset; };
// one graph of passes writing images of their own and reading the one of the previous pass
struct Rig
{
	std::unique_ptr< GraphContext > ctx; std::unique_ptr< ResourceHandler > h; std::vector< std::unique_ptr< FrameGraph > > graphs; std::vector< RunnableGraphPtr > runs; std::vector< std::unique_ptr< PassCtl > > passes; uint32_t names{}; Log log;
	Rig() : ctx{ fk::context() }, h{ std::make_unique< ResourceHandler >() } { fk::w().on = fk::LIFETIME | fk::STATE; }
	Rig( GraphContext * c, ResourceHandler * handler ) : ctx{ c }, h{ handler } {}
	FrameGraph & graph() { graphs.push_back( std::make_unique< FrameGraph >( *h, "g" + std::to_string( graphs.size() ) ) ); return *graphs.back(); }
	ImageViewId image( uint32_t mips = 1 ) { auto n = "i" + std::to_string( names++ ); auto i = h->createImageId( imgData( n.c_str(), VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, mips, 1 ) ); return h->createViewId( viewData( ( n + "v" ).c_str(), i, VK_IMAGE_VIEW_TYPE_2D, rng( 1, 0, 1, 0, 1 ) ) ); }
	// the program of each index at first
	static void first( PassCtl & c, Programs p ) { c.programs = p; for ( uint32_t i = 0; i < 2; ++i ) c.prog[i] = p == One ? 1 : p == PerIndex ? 1 + i : 3 + i; }
	// any reset of a pass
	void reset( PassCtl & c, std::string const & n, uint32_t id ) { auto pr = c.programs; bool fresh = pr != Creator && !forkIdx( n + "keep", 2 ); uint32_t i = pr == One ? 0 : forkIdx( n + "i", 2 ); if ( fresh ) { c.prog[i] = id; if ( pr == One ) c.prog[1] = id; } c.reset( fresh ? program( id, c.kind == Compute ? 1 : 2 ) : Program{}, i ); sym_reach( "reset" ); }
	bool pipelines( Kind k ) { return k == Compute || k == Quad || k == Mesh; }
	// a run binds the pipeline of the current program and index for each enabled pass in turn
	void submit( RunnableGraph & run, std::vector< PassCtl * > const & ps )
	{
		size_t from = fk::w().cmds.size(); run.run( queue() ); auto & s = fk::w().submits.back(); sym_check( s.cbs.size() == 1, "a run does not submit its one command buffer" );
		std::vector< uint64_t > bound; for ( size_t k = from; k < fk::w().cmds.size(); ++k ) { auto & c = fk::w().cmds[k]; if ( c.kind == fk::CBindPipe && c.cb == s.cbs[0] ) bound.push_back( c.src ); }
		size_t at = 0; for ( auto p : ps ) if ( p->enabled && pipelines( p->kind ) ) { sym_check( at < bound.size(), "an enabled pass binds no pipeline" ); auto & o = fk::at( bound[at++] ); sym_check( o.alive && o.type == fk::TGfxPipe && !o.stages.empty() && o.stages[0].flags == 16 * p->prog[p->index], "a pass is recorded with a pipeline that is not the current one of its index" ); }
		sym_check( at == bound.size(), "a run binds pipelines for disabled passes" );
		// nothing replaced is kept longer
		uint32_t np = 0, nr = 0; for ( auto & p : passes ) { if ( pipelines( p->kind ) ) np += p->programs == One ? 1 : 2; if ( p->kind == Quad || p->kind == Mesh || p->kind == Render ) nr += Indices; }
		if ( runs.size() == 1 ) sym_check( fk::live( fk::TGfxPipe ) <= np && fk::live( fk::TRenderPass ) <= nr && fk::live( fk::TFramebuffer ) <= nr, "replaced objects are kept after the submissions using them are done" );
		sym_reach( "run" );
	}
	template< typename C > void programs( C & c, Programs p, uint32_t stages ) { if ( p == One ) c.program( program( 1, stages ) ); else if ( p == PerIndex ) c.programs( { program( 1, stages ), program( 2, stages ) } ); else c.programCreator( ProgramCreator{ Indices, [stages]( uint32_t i ) { return program( 3 + i, stages ); } } ); }
	// reads each of in (possibly none), writes out, or reads and writes it
	PassCtl & add( FrameGraph & g, Kind k, Programs pr, ImageViewIdArray const & in, ImageViewIdArray const & out, bool inout = false, bool resettable = true )
	{
		passes.push_back( std::make_unique< PassCtl >() ); auto & c = *passes.back(); c.kind = k; first( c, pr ); auto ctl = &c; ru::Config ruc{ Indices, resettable };
		auto en = RunnablePass::IsEnabledCallback( [ctl]() { return ctl->enabled; } ); auto idx = RunnablePass::GetPassIndexCallback( [ctl]() { return ctl->index; } );
		auto & p = g.createPass( "p" + std::to_string( passes.size() ), [this, ctl, k, pr, ruc, en, idx]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr {
			RunnablePassPtr res;
			auto done = [ctl, &res]( auto ptr ) { auto q = ptr.get(); ctl->pass = q; ctl->reset = [q]( Program pg, uint32_t i ) { q->resetPipeline( std::move( pg ), i ); }; res = std::move( ptr ); };
			if ( k == Compute ) { cp::Config cfg; programs( cfg, pr, 1 ); cfg.isEnabled( en ).getPassIndex( idx ); done( std::make_unique< ComputePass >( fp, x, r, ruc, std::move( cfg ) ) ); }
			else if ( k == Quad ) { rq::Config cfg; programs( cfg, pr, 2 ); cfg.isEnabled( en ).passIndex( &ctl->index ).texcoordConfig( Texcoord{} ); done( std::make_unique< RenderQuad >( fp, x, r, ruc, std::move( cfg ) ) ); }
			else if ( k == Mesh ) { rm::Config cfg; programs( cfg, pr, 2 ); cfg.isEnabled( en ).getPassIndex( idx ); done( std::make_unique< RenderMesh >( fp, x, r, ruc, std::move( cfg ) ) ); }
			else if ( k == Render ) { auto q = std::make_unique< RenderPass >( fp, x, r, RenderPass::Callbacks{ RunnablePass::InitialiseCallback( []( uint32_t ) {} ), RunnablePass::RecordCallback( []( RecordContext &, VkCommandBuffer cb, uint32_t ) { fk::mark( cb, 1 ); } ), RenderPass::GetSubpassContentsCallback( []() { return VK_SUBPASS_CONTENTS_INLINE; } ), idx, en }, VkExtent2D{ 16, 16 }, ruc ); ctl->pass = q.get(); res = std::move( q ); }
			else if ( k == Mips ) { auto q = std::make_unique< GenerateMipmaps >( fp, x, r, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, ruc, idx, en ); ctl->pass = q.get(); res = std::move( q ); }
			else { auto q = std::make_unique< RunnablePass >( fp, x, r, RunnablePass::Callbacks{ RunnablePass::InitialiseCallback( []( uint32_t ) {} ), RunnablePass::GetPipelineStateCallback( []() { return pstate(); } ), RunnablePass::RecordCallback( []( RecordContext &, VkCommandBuffer cb, uint32_t ) { fk::mark( cb, 2 ); } ), idx, en, RunnablePass::IsComputePassCallback( []() { return false; } ) }, ruc ); ctl->pass = q.get(); res = std::move( q ); }
			return res; } );
		if ( !in.empty() ) p.addSampledView( in, 0 );
		if ( k == Compute ) { if ( inout ) p.addInOutStorageView( out, 1 ); else p.addOutputStorageView( out, 1 ); }
		else if ( k == Mips ) p.addTransferInOutView( out );
		else if ( k == Plain ) p.addTransferOutputView( out );
		else if ( inout ) p.addInOutColourView( out ); else p.addOutputColourView( out );
		return c;
	}
	RunnableGraph & compile( uint32_t g ) { runs.resize( graphs.size() ); runs[g] = graphs[g]->compile( *ctx ); return *runs[g]; }
	VkQueue queue() { return fk::mk< VkQueue >( 0xABC0 ); }
	// what remains after everything is gone; user objects are made before the rig
	void end( uint32_t order ) { if ( order == 0 ) for ( auto & r : runs ) r.reset(); else for ( size_t i = runs.size(); i-- > 0; ) runs[i].reset(); graphs.clear(); h.reset(); ctx.reset(); sym_check( fk::liveAll() == 0, "an object outlives the graphs, the handler and the context" ); }
};
}
