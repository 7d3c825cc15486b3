// C19: any one failing call raises an exception, leaks nothing and leaves nothing half-made or untrue behind
#include "life.hpp"
using namespace life;
namespace {
// the call that fails, among all those that may
void arm() { auto & w = fk::w(); w.failing = true; w.failKinds = fk::FCreate | fk::FAlloc | fk::FBind | fk::FMap | fk::FSubmit | fk::FBegin | fk::FLost; w.failAt = sym_range( "fail", 0, 300 ); w.failCode = VkResult( -int32_t( sym_range( "code", 1, 0x7FFFFFFF ) ) ); }
// what is alive is complete
void whole()
{
	for ( auto & o : fk::w().objs ) if ( o.alive ) {
		if ( o.type == fk::TImage || o.type == fk::TBuffer ) sym_check( o.mem && fk::at( o.mem ).alive && fk::at( o.mem ).type == fk::TMemory, "an image or a buffer is kept without its memory" );
		if ( o.type == fk::TView ) sym_check( fk::at( o.parent ).alive, "a view is kept without its image" ); }
}
// runs what may fail: either it succeeds and nothing failed meanwhile, or it raises the library's exception, and then works
template< typename F > bool attempt( F f, char const * silent )
{
	bool before = fk::w().failed, thrown = false;
	try { f(); } catch ( crg::Exception const & ) { thrown = true; }
	bool failed = fk::w().failed && !before;
	sym_check( thrown == failed, failed ? silent : "a call raises an exception though nothing failed" );
	if ( failed ) sym_reach( "failed" );
	return !thrown;
}
void caches()
{
	Rig r; std::unique_ptr< ResourcesCache > c = std::make_unique< ResourcesCache >( *r.h ); ImageViewId v[2]{ r.image(), r.image() }; arm();
	uint32_t order = forkIdx( "order", 2 );
	auto get = [&]( auto request, fk::Type type, char const * what ) { uint64_t h{}; uint32_t live = fk::liveAll(); if ( !attempt( [&]() { h = request(); }, what ) ) { sym_check( fk::liveAll() <= live + 2 * ( type == fk::TView ), "a failed request leaves objects behind" ); whole(); h = request(); } sym_check( fk::valid( h ) && fk::at( h ).alive && fk::at( h ).type == type, "a request returns a null or half-made handle" ); whole(); sym_check( request() == h, "asking again gives another handle" ); };
	for ( uint32_t k = 0; k < 2; ++k ) {
		auto image = [&]() { get( [&]() { return fk::raw( c->createImage( *r.ctx, v[k].data->image ) ); }, fk::TImage, "an image that could not be created is returned" ); };
		auto view = [&]() { get( [&]() { return fk::raw( c->createImageView( *r.ctx, v[k] ) ); }, fk::TView, "a view that could not be created is returned" ); };
		if ( order ) { view(); image(); } else { image(); view(); } }
	for ( uint32_t k = 0; k < 2; ++k ) get( [&]() { SamplerDesc d; d.mipLodBias = float( k ); return fk::raw( c->createSampler( *r.ctx, d ) ); }, fk::TSampler, "a sampler that could not be created is returned" );
	for ( uint32_t k = 0; k < 2; ++k ) get( [&]() { return fk::raw( c->createQuadTriVertexBuffer( *r.ctx, k != 0, Texcoord{} ).buffer.buffer( 0 ) ); }, fk::TBuffer, "a vertex buffer that could not be created is returned" );
	c.reset(); r.end( 0 ); sym_reach( "caches" );
}
// another failure, some calls after the first
uint32_t rearms{};
void rearm() { if ( !rearms ) return; --rearms; auto & w = fk::w(); w.failed = false; w.failAt = w.fallible + uint64_t( sym_range( ( "again" + std::to_string( rearms ) ).c_str(), 0, 40 ) ); w.failCode = VK_ERROR_OUT_OF_HOST_MEMORY; }
// what a failed run must leave as it was: the layouts the graph tells, and, for the model, what the lost commands did not do
struct Before
{
	decltype( fk::w().layouts ) layouts{ fk::w().layouts }; std::vector< std::vector< uint32_t > > queries; std::vector< std::pair< ImageViewId, LayoutState > > told; FrameGraph const & g; uint64_t submits{ fk::w().submits.size() };
	Before( FrameGraph const & graph, ImageViewIdArray const & views ) : g{ graph } { for ( auto & o : fk::w().objs ) queries.push_back( o.qstate ); for ( auto & v : views ) told.emplace_back( v, g.getFinalLayoutState( v ) ); }
	void undo() { fk::w().layouts = layouts; size_t i = 0; for ( auto & o : fk::w().objs ) { o.qstate = i < queries.size() ? queries[i] : std::vector< uint32_t >( o.qstate.size(), 0u ); ++i; } }
	void failed()
	{
		sym_check( fk::w().submits.size() == submits, "a run that raises an exception was submitted" );
		for ( auto & t : told ) { auto now = g.getFinalLayoutState( t.first ); sym_check( now.layout == t.second.layout && now.state.access == t.second.state.access && now.state.pipelineStage == t.second.state.pipelineStage, "a run that failed changes the layouts the graph tells" ); }
		undo();
	}
};
// the times are read after any run, failed or not
void times( Rig & r ) { r.runs[0]->getTimer().retrieveGpuTime(); for ( auto & c : r.passes ) if ( c->pass ) c->pass->getTimer().retrieveGpuTime(); }
// a graph compiled and run with a failure anywhere
void graph( Kind a, Kind b, bool inout, bool flips, uint32_t more = 0 )
{
	rearms = more;
	Rig r; fk::w().on |= fk::FENCE | fk::LAYOUT | fk::QUERY; auto & g = r.graph(); auto pr = Programs( forkIdx( "programs", 3 ) ); bool read = more || forkIdx( "read", 2 ); ImageViewIdArray x{ r.image( a == Mips ? 3 : 1 ), r.image( a == Mips ? 3 : 1 ) }, y{ r.image(), r.image() };
	auto & p = r.add( g, a, pr, {}, x, inout ); auto & q = r.add( g, b, pr, x, y, inout ); arm();
	while ( !attempt( [&]() { r.compile( 0 ); }, "a graph that could not be compiled is returned" ) ) { sym_check( fk::liveAll() == 0, "a failed compilation leaves objects behind" ); sym_reach( "compile" ); rearm(); }
	whole();
	for ( uint32_t t = 0; t < 3; ++t ) {
		std::string n = "s" + std::to_string( t );
		if ( flips && t == 1 ) { p.index = q.index = 1; }
		ImageViewIdArray all{ x }; all.insert( all.end(), y.begin(), y.end() ); auto before = std::make_unique< Before >( g, all ); 
		while ( !attempt( [&]() { r.submit( *r.runs[0], { &p, &q } ); }, "a run goes on with what could not be done" ) ) { whole(); before->failed(); if ( read ) times( r ); before = std::make_unique< Before >( g, all ); sym_reach( "record" ); rearm(); }
		whole(); if ( read ) times( r );
		if ( t == 1 ) for ( auto c : { &p, &q } ) if ( c->reset ) { auto pg = program( 9, c->kind == Compute ? 1 : 2 ); uint32_t i = pr == One ? 0 : c->index; if ( pr != Creator ) { c->prog[i] = 9; if ( pr == One ) c->prog[1] = 9; } auto reset = [&]() { Before unsubmitted{ g, {} }; struct Off { Before & b; uint32_t on{ fk::w().on }; ~Off() { fk::w().on = on; b.undo(); } } off{ unsubmitted }; fk::w().on &= ~( fk::LAYOUT | fk::QUERY ); c->reset( pr == Creator ? Program{} : pg, i ); }; uint32_t tries = 0; while ( !attempt( reset, "a pipeline that could not be created is used" ) ) { sym_reach( "reset" ); rearm(); if ( !forkIdx( "retry" + std::to_string( tries++ ), 2 ) ) break; } } }
	r.end( 0 ); sym_reach( "graph" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: caches(); break;
	case 1: graph( Compute, Quad, false, true ); break;
	case 2: graph( Quad, Mesh, false, true ); break;
	case 3: graph( Render, Compute, true, true ); break;
	case 4: graph( Mips, Plain, false, true ); break;
	case 5: graph( Mesh, Quad, true, true ); break;
	case 6: graph( Compute, Quad, false, true, 1 ); break;
	case 7: graph( Quad, Mesh, true, true, 1 ); break;
	case 8: graph( Render, Mips, false, true, 1 ); break;
	case 9: graph( Mesh, Compute, false, true, 2 ); break; } }
