// C23: draws and dispatches use the configured counts and states
#include "common.hpp"
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
using namespace hc;
namespace {
using Program = VkPipelineShaderStageCreateInfoArray;
// program i, recognised by its flags
Program program( uint32_t i, uint32_t stages ) { Program p; for ( uint32_t k = 0; k < stages; ++k ) { VkPipelineShaderStageCreateInfo s{}; s.sType = VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO; s.flags = 16 * i + k; p.push_back( s ); } return p; }
// one program for every index, one per index, or a creator
uint32_t const Indices = 2;
template< typename C > uint32_t programs( C & cfg, uint32_t stages, uint32_t idx )
{
	switch ( forkIdx( "programs", 3 ) ) {
	case 0: cfg.program( program( 5, stages ) ); return 5;
	case 1: cfg.programs( { program( 1, stages ), program( 2, stages ) } ); return 1 + idx;
	default: cfg.programCreator( ProgramCreator{ Indices, [stages]( uint32_t i ) { return program( 3 + i, stages ); } } ); return 3 + idx; }
}
struct Extra { VkDescriptorSetLayout layout{}; VkPushConstantRange push{}; bool on{}; };
template< typename C > Extra extra( C & cfg )
{
	Extra e; e.on = forkIdx( "extra", 2 ); if ( !e.on ) return e;
	e.layout = fk::mk< VkDescriptorSetLayout >( fk::add( fk::TDsLayout ) );
	e.push = { uint32_t( sym_bits( "pushStage", 32 ) ), uint32_t( sym_bits( "pushOffset", 32 ) ), uint32_t( sym_bits( "pushSize", 32 ) ) };
	cfg.layout( e.layout ); cfg.m_baseConfig.pushConstants( e.push ); return e;
}
VkBuffer buffer() { return fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ); }
// events of the recording, in order: callbacks leave markers
struct Cb { std::vector< uint32_t > idx; };
RunnablePass::RecordCallback note( int id, Cb & cb ) { return RunnablePass::RecordCallback( [id, &cb]( RecordContext &, VkCommandBuffer c, uint32_t i ) { fk::mark( c, id ); cb.idx.push_back( i ); } ); }
struct Found { fk::Cmd const * run{}, * pipe{}, * sets{}, * vb{}, * ib{}, * rp{}; int at[8]; };
bool isRun( fk::CmdKind k ) { return k == fk::CDispatch || k == fk::CDispatchInd || k == fk::CDraw || k == fk::CDrawIdx || k == fk::CDrawIdxInd || k == fk::CDrawInd; }
Found find( bool graphics )
{
	Found f; bool before = false, after = false, in = false;
	for ( auto & x : fk::w().cmds ) {
		if ( x.kind == fk::CBeginRP ) { f.rp = &x; in = true; }
		if ( x.kind == fk::CEndRP ) in = false;
		if ( x.kind == fk::CBindPipe ) f.pipe = &x; if ( x.kind == fk::CBindSets ) f.sets = &x; if ( x.kind == fk::CBindVB ) f.vb = &x; if ( x.kind == fk::CBindIB ) f.ib = &x;
		if ( x.kind == fk::CMark && x.mark == 100 ) { sym_check( !before && !f.run && f.pipe && f.sets, "the recording callback is not called once between binding and drawing" ); before = true; }
		if ( x.kind == fk::CMark && x.mark == 101 ) { sym_check( !after && f.run, "the end callback is not called once after the draw or dispatch" ); after = true; }
		if ( isRun( x.kind ) ) { sym_check( !f.run, "a pass draws or dispatches twice" ); f.run = &x; sym_check( before, "the recording callback is not called once between binding and drawing" ); sym_check( in == graphics, "a draw is outside of its render pass, or a dispatch inside one" ); } }
	sym_check( f.run && f.pipe && f.sets, "a pass draws or dispatches nothing, or with no pipeline or descriptors" ); sym_check( after, "the end callback is not called once after the draw or dispatch" );
	return f;
}
void pipeline( Found const & f, uint32_t prog, uint32_t stages, Extra const & e, bool compute )
{
	auto & o = fk::at( f.pipe->src ); auto bp = compute ? VK_PIPELINE_BIND_POINT_COMPUTE : VK_PIPELINE_BIND_POINT_GRAPHICS;
	sym_check( o.type == fk::TGfxPipe && o.alive && o.compute == compute, "the bound pipeline is not one of the pass's kind" );
	sym_check( f.pipe->bp == bp && f.sets->bp == bp, "pipeline or descriptors are bound at another bind point" );
	sym_check( o.stages.size() == stages, "the pipeline is made from another program" ); for ( uint32_t k = 0; k < stages; ++k ) sym_check( o.stages[k].flags == 16 * prog + k, "the pipeline is made from another program" );
	sym_check( f.sets->src == o.pipeLayout && f.sets->n[0] == 0 && f.sets->hs.size() == 1, "descriptors are bound with another layout than the pipeline's" );
	auto & l = fk::at( o.pipeLayout ); sym_check( l.layoutSets.size() == ( e.on ? 2u : 1u ) && l.push.size() == ( e.on ? 1u : 0u ), "the pipeline layout lacks the configured sets or push constants" );
	if ( e.on ) sym_check( ( l.layoutSets[1] == fk::raw( e.layout ) ) && ( ( l.push[0].stageFlags == e.push.stageFlags ) & ( l.push[0].offset == e.push.offset ) & ( l.push[0].size == e.push.size ) ), "the pipeline layout lacks the configured sets or push constants" );
	sym_check( fk::at( f.sets->hs[0] ).setLayout == l.layoutSets[0], "the descriptors bound are not of the pipeline's layout" );
}
void compute()
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" };
	uint32_t idx = forkIdx( "index", Indices ), n[3], c[3]; bool has[3], set[3]; char const * d = "xyz";
	cp::Config cfg; auto prog = programs( cfg, 1, idx ); auto e = extra( cfg );
	for ( uint32_t k = 0; k < 3; ++k ) { std::string s( 1, d[k] ); n[k] = uint32_t( sym_bits( ( s + "count" ).c_str(), 32 ) ); c[k] = uint32_t( sym_bits( ( s + "callback" ).c_str(), 32 ) ); set[k] = forkIdx( s + "set", 2 ); has[k] = forkIdx( s + "hasCallback", 2 ); }
	uint32_t calls[3]{};
	auto get = [&]( uint32_t k ) { return cp::GetGroupCountCallback( [&calls, &c, k]() { ++calls[k]; return c[k]; } ); };
	if ( set[0] ) cfg.groupCountX( n[0] ); if ( set[1] ) cfg.groupCountY( n[1] ); if ( set[2] ) cfg.groupCountZ( n[2] );
	if ( has[0] ) cfg.getGroupCountX( get( 0 ) ); if ( has[1] ) cfg.getGroupCountY( get( 1 ) ); if ( has[2] ) cfg.getGroupCountZ( get( 2 ) );
	VkBuffer ib[2]{ buffer(), buffer() }; bool ind = forkIdx( "indirect", 2 ); auto off = sym_bits( "offset", 64 ); if ( ind ) cfg.indirectBuffer( IndirectBuffer{ Buffer{ VkBufferArray{ ib[0], ib[1] }, "i" }, 12, off } );
	Cb rec, end; uint32_t inits = 0; uint32_t en = forkIdx( "enable", 4 ); bool flagv = en & 1;
	if ( en >= 2 ) cfg.isEnabled( RunnablePass::IsEnabledCallback( [&]() { return flagv; } ) ); else cfg.enabled( &flagv );
	cfg.getPassIndex( RunnablePass::GetPassIndexCallback( [&]() { return idx; } ) );
	cfg.recordInto( note( 100, rec ) ).end( note( 101, end ) ).initialise( RunnablePass::InitialiseCallback( [&]( uint32_t ) { ++inits; } ) );
	g.createPass( "p", [&]( FramePass const & p, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr { return std::make_unique< ComputePass >( p, x, r, ru::Config{ Indices }, cfg ); } );
	auto run = g.compile( *ctx ); run->record();
	if ( !flagv ) { for ( auto & x : fk::w().cmds ) sym_check( !isRun( x.kind ) && x.kind != fk::CBindPipe, "a disabled pass dispatches" ); sym_check( rec.idx.empty() && end.idx.empty(), "a disabled pass calls its recording callbacks" ); sym_reach( "disabled" ); return; }
	auto f = find( false ); pipeline( f, prog, 1, e, true );
	sym_check( rec.idx.size() == 1 && rec.idx[0] == idx && end.idx.size() == 1 && end.idx[0] == idx, "a recording callback is not called once with the pass index" );
	if ( ind ) sym_check( f.run->kind == fk::CDispatchInd && f.run->src == fk::raw( ib[idx] ) && f.run->q[0] == off, "an indirect dispatch does not use the configured buffer and offset" );
	else { sym_check( f.run->kind == fk::CDispatch, "a dispatch is indirect with no indirect buffer" ); for ( uint32_t k = 0; k < 3; ++k ) { sym_check( f.run->n[k] == ( has[k] ? c[k] : set[k] ? n[k] : 1u ), k == 0 ? "the X group count dispatched is not the configured one" : k == 1 ? "the Y group count dispatched is not the configured one" : "the Z group count dispatched is not the configured one" ); } }
	sym_reach( ind ? "dispatch-indirect" : "dispatch" );
}
struct Target { ImageViewId col, dep; bool hasDep; VkExtent2D size; uint32_t mip; };
// any configured size within the targets
VkExtent2D symSize() { return { uint32_t( sym_range( "rw", 1, 1 << 14 ) ), uint32_t( sym_range( "rh", 1, 1 << 14 ) ) }; }
Target target( ResourceHandler & h, FramePass & p )
{
	Target t; t.mip = forkIdx( "mip", 2 ); t.hasDep = forkIdx( "depth", 2 );
	VkExtent3D e{ uint32_t( sym_range( "width", 1, 1 << 14 ) ), uint32_t( sym_range( "height", 1, 1 << 14 ) ), 1 };
	auto mk = [&]( char const * n, VkFormat f ) { auto i = h.createImageId( imgData( n, VK_IMAGE_TYPE_2D, f, e, 2, 1 ) ); return h.createViewId( viewData( n, i, VK_IMAGE_VIEW_TYPE_2D, rng( getAspectMask( f ), t.mip, 1, 0, 1 ) ) ); };
	t.col = mk( "c", VK_FORMAT_R8G8B8A8_UNORM ); p.addOutputColourView( t.col ); if ( t.hasDep ) { t.dep = mk( "d", VK_FORMAT_D32_SFLOAT ); p.addOutputDepthView( t.dep ); }
	t.size = { std::max( 1u, e.width >> t.mip ), std::max( 1u, e.height >> t.mip ) }; return t;
}
VkPipelineDepthStencilStateCreateInfo symDepth() { VkPipelineDepthStencilStateCreateInfo d{}; d.sType = VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO; d.depthTestEnable = uint32_t( sym_range( "dtest", 0, 1 ) ); d.depthWriteEnable = uint32_t( sym_range( "dwrite", 0, 1 ) ); d.depthCompareOp = VkCompareOp( sym_range( "dop", 0, 7 ) ); d.stencilTestEnable = uint32_t( sym_range( "stest", 0, 1 ) ); d.front.reference = uint32_t( sym_bits( "sref", 32 ) ); return d; }
void states( Found const & f, Target const & t, VkExtent2D rs, VkOffset2D pos, VkPipelineDepthStencilStateCreateInfo const & ds, VkPrimitiveTopology topo, VkCullModeFlags cull )
{
	auto & o = fk::at( f.pipe->src );
	sym_check( o.ia.topology == topo && o.ia.primitiveRestartEnable == VK_FALSE, "the pipeline has another topology" );
	sym_check( ( o.rs.cullMode == cull ) & ( o.rs.polygonMode == VK_POLYGON_MODE_FILL ) & ( o.rs.rasterizerDiscardEnable == VK_FALSE ), "the pipeline has another cull mode or discards" );
	sym_check( o.hasDepthState && ( ( o.ds.depthTestEnable == ds.depthTestEnable ) & ( o.ds.depthWriteEnable == ds.depthWriteEnable ) & ( o.ds.depthCompareOp == ds.depthCompareOp ) & ( o.ds.stencilTestEnable == ds.stencilTestEnable ) & ( o.ds.front.reference == ds.front.reference ) ), "the pipeline has another depth and stencil state" );
	sym_check( o.vps.size() == 1 && o.scissors.size() == 1, "the pipeline has no single viewport and scissor" );
	auto & s = o.scissors[0]; sym_check( ( s.offset.x == pos.x ) & ( s.offset.y == pos.y ) & ( s.extent.width == rs.width ) & ( s.extent.height == rs.height ), "the scissor is not at the configured position and size" );
	auto & v = o.vps[0]; sym_check( ( v.x == float( pos.x ) ) & ( v.y == float( pos.y ) ) & ( v.width == float( rs.width ) ) & ( v.height == float( rs.height ) ) & ( v.minDepth == 0.0f ) & ( v.maxDepth == 1.0f ), "the viewport is not at the configured position and size" );
	sym_check( o.blends.size() == 1 && o.hasColourBlend, "the pipeline does not blend each colour target" );
	sym_check( o.pipeRenderPass == f.rp->src && o.subpass == 0, "the pipeline is made for another render pass" );
	auto & fb = fk::at( f.rp->dst ).fb; sym_check( ( fb.width == t.size.width ) & ( fb.height == t.size.height ) & ( f.rp->area.extent.width == t.size.width ) & ( f.rp->area.extent.height == t.size.height ) & ( f.rp->area.offset.x == 0 ) & ( f.rp->area.offset.y == 0 ), "the render area or framebuffer is not the size of the targets" );
}
void mesh()
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" };
	uint32_t idx = forkIdx( "index", Indices ); rm::Config cfg; auto prog = programs( cfg, 2, idx ); auto e = extra( cfg );
	bool hv = forkIdx( "vertex", 2 ), hi = forkIdx( "indices", 2 ), hd = forkIdx( "indirect", 2 ); VkBuffer vb[2]{ buffer(), buffer() }, ib[2]{ buffer(), buffer() }, db[2]{ buffer(), buffer() };
	VkVertexInputAttributeDescription at{ uint32_t( sym_bits( "loc", 32 ) ), 0, VK_FORMAT_R32G32_SFLOAT, uint32_t( sym_bits( "aoff", 32 ) ) }; VkVertexInputBindingDescription bd{ 0, uint32_t( sym_bits( "stride", 32 ) ), VK_VERTEX_INPUT_RATE_VERTEX };
	if ( hv ) cfg.vertexBuffer( VertexBuffer{ Buffer{ VkBufferArray{ vb[0], vb[1] }, "v" }, {}, { at }, { bd } } ); if ( hi ) cfg.indexBuffer( IndexBuffer{ Buffer{ VkBufferArray{ ib[0], ib[1] }, "i" } } );
	auto off = sym_bits( "offset", 64 ); uint32_t stride = uint32_t( sym_bits( "istride", 32 ) ); if ( hd ) cfg.indirectBuffer( IndirectBuffer{ Buffer{ VkBufferArray{ db[0], db[1] }, "d" }, stride, off } );
	uint32_t vc = uint32_t( sym_bits( "vertices", 32 ) ), ic = uint32_t( sym_bits( "primitives", 32 ) ); auto it = VkIndexType( sym_range( "indexType", 0, 1 ) ); VkCullModeFlags cull = uint32_t( sym_range( "cull", 0, 3 ) );
	VkOffset2D pos{ int32_t( sym_range( "px", 0, 1000 ) ), int32_t( sym_range( "py", 0, 1000 ) ) }; auto rs = symSize(); auto ds = symDepth(); Cb rec, end; bool en = forkIdx( "enabled", 2 );
	cfg.getVertexCount( GetVertexCountCallback( [&]() { return vc; } ) ).getPrimitiveCount( GetPrimitiveCountCallback( [&]() { return ic; } ) ).getIndexType( GetIndexTypeCallback( [&]() { return it; } ) ).getCullMode( GetCullModeCallback( [&]() { return cull; } ) ).renderPosition( pos ).renderSize( rs ).depthStencilState( ds ).recordInto( note( 100, rec ) ).end( note( 101, end ) );
	cfg.getPassIndex( RunnablePass::GetPassIndexCallback( [&]() { return idx; } ) ).isEnabled( RunnablePass::IsEnabledCallback( [&]() { return en; } ) );
	auto & p = g.createPass( "p", [&]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr { return std::make_unique< RenderMesh >( fp, x, r, ru::Config{ Indices }, std::move( cfg ) ); } );
	auto t = target( h, p ); sym_assume( ( rs.width <= t.size.width ) & ( rs.height <= t.size.height ) ); auto run = g.compile( *ctx ); run->record();
	if ( !en ) { for ( auto & x : fk::w().cmds ) sym_check( !isRun( x.kind ) && x.kind != fk::CBeginRP, "a disabled pass draws" ); sym_reach( "disabled" ); return; }
	auto f = find( true ); pipeline( f, prog, 2, e, false ); states( f, t, rs, pos, ds, VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST, cull );
	sym_check( rec.idx.size() == 1 && rec.idx[0] == idx && end.idx.size() == 1 && end.idx[0] == idx, "a recording callback is not called once with the pass index" );
	auto & o = fk::at( f.pipe->src ); sym_check( o.vAttrs.size() == ( hv ? 1u : 0u ) && o.vBinds.size() == ( hv ? 1u : 0u ), "the pipeline has another vertex input" ); if ( hv ) sym_check( ( o.vAttrs[0].location == at.location ) & ( o.vAttrs[0].offset == at.offset ) & ( o.vAttrs[0].format == at.format ) & ( o.vBinds[0].stride == bd.stride ) & ( o.vBinds[0].inputRate == bd.inputRate ), "the pipeline has another vertex input" );
	sym_check( ( f.vb != nullptr ) == hv && ( f.ib != nullptr ) == hi, "vertex or index buffers are bound without need, or missing" );
	if ( hv ) sym_check( f.vb->hs.size() == 1 && f.vb->hs[0] == fk::raw( vb[idx] ) && f.vb->q[0] == 0 && f.vb->n[0] == 0, "another vertex buffer is bound" ); if ( hi ) sym_check( f.ib->src == fk::raw( ib[idx] ) && f.ib->q[0] == 0 && f.ib->n[0] == uint32_t( it ), "another index buffer is bound" );
	auto kind = hd ? ( hi ? fk::CDrawIdxInd : fk::CDrawInd ) : ( hi ? fk::CDrawIdx : fk::CDraw ); sym_check( f.run->kind == kind, "a mesh is not drawn with the kind of draw its buffers ask for" );
	auto & n = f.run->n; if ( hd ) sym_check( f.run->src == fk::raw( db[idx] ) && ( ( f.run->q[0] == off ) & ( n[0] == 1 ) & ( n[1] == stride ) ), "an indirect draw does not use the configured buffer, offset and stride" ); else if ( hi ) sym_check( ( n[0] == ic ) & ( n[1] == 1 ) & ( n[2] == 0 ) & ( n[3] == 0 ) & ( n[4] == 0 ), "an indexed draw does not draw the configured indices once" ); else sym_check( ( n[0] == vc ) & ( n[1] == 1 ) & ( n[2] == 0 ) & ( n[3] == 0 ), "a draw does not draw the configured vertices once" );
	sym_reach( hd ? "draw-indirect" : hi ? "draw-indexed" : "draw" );
}
void quad()
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" };
	uint32_t idx = forkIdx( "index", Indices ); rq::Config cfg; auto prog = programs( cfg, 2, idx ); auto e = extra( cfg );
	bool hd = forkIdx( "indirect", 2 ), tc = forkIdx( "texcoord", 2 ), hn = forkIdx( "hasInstances", 2 ); VkBuffer db[2]{ buffer(), buffer() };
	auto off = sym_bits( "offset", 64 ); uint32_t stride = uint32_t( sym_bits( "istride", 32 ) ); if ( hd ) cfg.indirectBuffer( IndirectBuffer{ Buffer{ VkBufferArray{ db[0], db[1] }, "d" }, stride, off } );
	uint32_t inst = uint32_t( sym_bits( "instances", 32 ) ); if ( hn ) cfg.instances( inst ); if ( tc ) cfg.texcoordConfig( Texcoord{} );
	VkOffset2D pos{ int32_t( sym_range( "px", 0, 1000 ) ), int32_t( sym_range( "py", 0, 1000 ) ) }; auto rs = symSize(); auto ds = symDepth(); Cb rec, end; uint32_t en = forkIdx( "enable", 4 ); bool flagv = en & 1;
	if ( en >= 2 ) cfg.isEnabled( RunnablePass::IsEnabledCallback( [&]() { return flagv; } ) ); else cfg.enabled( &flagv );
	cfg.passIndex( &idx ).renderPosition( pos ).renderSize( rs ).depthStencilState( ds ).recordInto( note( 100, rec ) ).end( note( 101, end ) );
	auto & p = g.createPass( "p", [&]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr { return std::make_unique< RenderQuad >( fp, x, r, ru::Config{ Indices }, cfg ); } );
	auto t = target( h, p ); sym_assume( ( rs.width <= t.size.width ) & ( rs.height <= t.size.height ) ); auto run = g.compile( *ctx ); run->record();
	if ( !flagv ) { for ( auto & x : fk::w().cmds ) sym_check( !isRun( x.kind ) && x.kind != fk::CBeginRP, "a disabled pass draws" ); sym_reach( "disabled" ); return; }
	auto f = find( true ); pipeline( f, prog, 2, e, false ); states( f, t, rs, pos, ds, VK_PRIMITIVE_TOPOLOGY_TRIANGLE_STRIP, VK_CULL_MODE_NONE );
	sym_check( rec.idx.size() == 1 && rec.idx[0] == idx && end.idx.size() == 1 && end.idx[0] == idx, "a recording callback is not called once with the pass index" );
	sym_check( f.vb && f.vb->hs.size() == 1 && f.vb->q[0] == 0 && f.vb->n[0] == 0 && fk::at( f.vb->hs[0] ).type == fk::TBuffer && fk::at( f.vb->hs[0] ).alive && !f.ib, "a quad is not drawn from its vertex buffer" );
	auto & o = fk::at( f.pipe->src ); sym_check( o.vAttrs.size() == ( tc ? 2u : 1u ) && o.vBinds.size() == 1 && o.vBinds[0].stride >= ( tc ? 16u : 8u ), "a quad has another vertex input" ); sym_check( fk::at( f.vb->hs[0] ).buf.size >= 3 * o.vBinds[0].stride, "a quad's vertex buffer is too small for its vertices" );
	auto & n = f.run->n; if ( hd ) sym_check( f.run->kind == fk::CDrawInd && f.run->src == fk::raw( db[idx] ) && ( ( f.run->q[0] == off ) & ( n[0] == 1 ) & ( n[1] == stride ) ), "an indirect draw does not use the configured buffer, offset and stride" ); else sym_check( f.run->kind == fk::CDraw && ( ( n[0] == 3 ) & ( n[1] == ( hn ? inst : 1u ) ) & ( n[2] == 0 ) & ( n[3] == 0 ) ), "a quad does not draw one triangle for each configured instance" );
	sym_reach( hd ? "quad-indirect" : "quad" );
}
// passes made from callbacks alone, by each of the constructors; whatever is not given has its default value
void plain( bool render, uint32_t records )
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" };
	uint32_t given = forkIdx( "given", render ? 4 : 5 ), idx = forkIdx( "index", Indices ), nPre = forkIdx( "pre", 3 ), nPost = forkIdx( "post", 3 ); bool en = forkIdx( "enabled", 2 ), comp = !render && forkIdx( "compute", 2 ); auto contents = VkSubpassContents( sym_range( "contents", 0, 1 ) );
	uint32_t inits[Indices]{}; std::vector< uint32_t > idxs; PipelineState st{ uint32_t( sym_bits( "access", 32 ) ), uint32_t( sym_bits( "stage", 32 ) ) };
	auto init = RunnablePass::InitialiseCallback( [&]( uint32_t i ) { sym_check( i < Indices, "another index is initialised" ); ++inits[i]; } );
	uint32_t asIdx = given >= ( render ? 2u : 2u ) ? idx : 0; bool asEn = given >= 3 ? en : true, asComp = given >= 4 && comp;
	auto rec = RunnablePass::RecordCallback( [&]( RecordContext &, VkCommandBuffer c, uint32_t i ) { sym_check( i == asIdx && inits[i] > 0, "a pass records an index it was not initialised for" ); fk::mark( c, 50 ); } );
	auto contentsCb = RenderPass::GetSubpassContentsCallback( [contents]() { return contents; } ); auto index = RunnablePass::GetPassIndexCallback( [&]() { return idx; } ); auto enabled = RunnablePass::IsEnabledCallback( [&]() { return en; } ); auto isComp = RunnablePass::IsComputePassCallback( [comp]() { return comp; } ); auto state = RunnablePass::GetPipelineStateCallback( [st]() { return st; } );
	ru::Config cfg{ Indices }; auto act = [&]( int id ) { return [&, id]( RecordContext &, VkCommandBuffer c, uint32_t i ) { sym_check( i == asIdx, "an action is given another index" ); fk::mark( c, id ); }; };
	for ( uint32_t k = 0; k < nPre; ++k ) cfg.prePassAction( act( int( 10 + k ) ) ); for ( uint32_t k = 0; k < nPost; ++k ) cfg.postPassAction( act( int( 60 + k ) ) );
	RunnablePass const * made{};
	auto & p = g.createPass( "p", [&]( FramePass const & f, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr {
		RunnablePassPtr res;
		if ( render ) { using C = RenderPass::Callbacks; auto cb = given == 0 ? C{ init, rec } : given == 1 ? C{ init, rec, contentsCb } : given == 2 ? C{ init, rec, contentsCb, index } : C{ init, rec, contentsCb, index, enabled }; res = std::make_unique< RenderPass >( f, x, r, cb, VkExtent2D{ 1, 1 }, cfg ); }
		else { using C = RunnablePass::Callbacks; auto cb = given == 0 ? C{ init, state, rec } : given == 1 ? C{ init, state, rec } : given == 2 ? C{ init, state, rec, index } : given == 3 ? C{ init, state, rec, index, enabled } : C{ init, state, rec, index, enabled, isComp }; res = std::make_unique< RunnablePass >( f, x, r, cb, cfg ); }
		made = res.get(); return res; } );
	auto i = h.createImageId( imgData( "i", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 1, 1 ) ); auto v = h.createViewId( viewData( "v", i, VK_IMAGE_VIEW_TYPE_2D, rng( VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 ) ) );
	if ( render ) p.addOutputColourView( v ); else p.addInOutStorageView( v, 0 );
	auto run = g.compile( *ctx );
	if ( !render ) sym_check( ( made->getPipelineState().access == st.access ) & ( made->getPipelineState().pipelineStage == st.pipelineStage ), "a pass reports another pipeline state" );
	sym_check( made->isEnabled() == asEn && made->getIndex() == ( asEn ? asIdx : RunnablePass::InvalidIndex ), "a pass reports another index or enabling" );
	for ( uint32_t t = 0; t < records; ++t ) {
		auto from = fk::w().cmds.size(); run->record(); std::vector< int > seen, want; bool in = false; uint32_t begins = 0;
		for ( size_t k = from; k < fk::w().cmds.size(); ++k ) { auto & c = fk::w().cmds[k];
			if ( c.kind == fk::CBeginRP ) { in = true; ++begins; sym_check( render && c.n[0] == uint32_t( given >= 1 ? contents : VK_SUBPASS_CONTENTS_INLINE ), "a render pass is begun for other contents" ); } if ( c.kind == fk::CEndRP ) in = false;
			if ( c.kind == fk::CMark ) { seen.push_back( c.mark ); sym_check( in == ( render && c.mark == 50 ), "a pass records outside of its render pass, or an action inside" ); }
			if ( c.kind == fk::CBarrier ) for ( auto & b : c.imgs ) sym_check( b.newLayout != VK_IMAGE_LAYOUT_GENERAL || c.dstStage == ( asComp ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ), "the attachments of a pass wait for another kind of shader" ); }
		if ( asEn ) { for ( uint32_t k = 0; k < nPre; ++k ) want.push_back( int( 10 + k ) ); want.push_back( 50 ); for ( uint32_t k = 0; k < nPost; ++k ) want.push_back( int( 60 + k ) ); }
		sym_check( seen == want, "the actions and the recording of a pass are not run once each, in order" ); sym_check( begins == ( render && asEn ? 1u : 0u ), "a render pass is not begun once" );
		if ( given >= 2 && t + 1 < records ) idx = asIdx = forkIdx( "index" + std::to_string( t ), Indices ); if ( given >= 3 && t + 1 < records ) en = asEn = forkIdx( "enabled" + std::to_string( t ), 2 ); }
	if ( !render ) for ( auto k : inits ) sym_check( k <= 1, "the same index is initialised twice" );
	sym_reach( render ? "render" : "plain" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: compute(); break; case 1: mesh(); break; case 2: quad(); break; case 3: plain( false, 2 ); break; case 4: plain( true, 2 ); break; case 5: plain( false, 3 ); break; case 6: plain( true, 3 ); break; } }
