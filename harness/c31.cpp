// C31: the commands a graph records order every access of a buffer after the conflicting ones before it
#include "sync.hpp"
using namespace hc; using namespace sync;
namespace {
enum Kind : uint32_t { Uniform, UniformView, In, InView, Out, OutView, InOut, InOutView, ClearOut, ClearOutView, TransIn, TransOut, TransInOut, Indirect, Vertices, HostRead, Clear };
struct Range { uint64_t off{}, size{}; bool whole{}; };
struct Use { uint64_t vk; uint32_t kind; Range r; bool compute; };
Range symRange4( std::string const & n ) { Range r; r.whole = flag( n + "whole" ); r.off = 4 * sym_range( ( n + "off" ).c_str(), 0, 63 ); r.size = 4 * sym_range( ( n + "size" ).c_str(), 1, 64 ); sym_assume( r.off + r.size <= 256 ); if ( r.whole ) r.size = VK_WHOLE_SIZE; return r; }
std::vector< uint32_t > const All17{ Uniform, UniformView, In, InView, Out, OutView, InOut, InOutView, ClearOut, ClearOutView, TransIn, TransOut, TransInOut, Indirect, Vertices, HostRead }, Some{ Uniform, In, Out, InOut, TransIn, TransOut, Indirect }, Few{ Uniform, In, Out, TransOut };
struct World
{
	std::unique_ptr< GraphContext > ctx{ fk::context() }; ResourceHandler h; Log log; std::vector< Use > uses; std::vector< uint32_t > index; std::map< uint64_t, Sub > subs; uint64_t byte; size_t pos{}; std::vector< uint64_t > vks; std::vector< std::vector< uint64_t > > arrays;
	World() { byte = sym_range( "byte", 0, 255 ); fk::w().on = fk::LIFETIME | fk::STATE; }
	VkBuffer buffer() { auto b = fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ); vks.push_back( fk::raw( b ) ); return b; }
	bool in( uint64_t off, uint64_t size ) const { return off <= byte && ( size == VK_WHOLE_SIZE || byte < off + size ); }
	static void declare( FramePass & p, uint32_t kind, Buffer const & b, Range const & r, uint32_t n )
	{
		auto view = fk::mk< VkBufferView >( 0x7000 + n );
		switch ( kind ) {
		case Uniform: p.addUniformBuffer( b, n, r.off, r.size ); break; case UniformView: p.addUniformBufferView( b, view, n, r.off, r.size ); break;
		case In: p.addInputStorageBuffer( b, n, r.off, r.size ); break; case InView: p.addInputStorageBufferView( b, view, n, r.off, r.size ); break;
		case Out: p.addOutputStorageBuffer( b, n, r.off, r.size ); break; case OutView: p.addOutputStorageBufferView( b, view, n, r.off, r.size ); break;
		case InOut: p.addInOutStorageBuffer( b, n, r.off, r.size ); break; case InOutView: p.addInOutStorageBufferView( b, view, n, r.off, r.size ); break;
		case ClearOut: p.addClearableOutputStorageBuffer( b, n, r.off, r.size ); break; case ClearOutView: p.addClearableOutputStorageBufferView( b, view, n, r.off, r.size ); break;
		case TransIn: p.addTransferInputBuffer( b, r.off, r.size ); break; case TransOut: p.addTransferOutputBuffer( b, r.off, r.size ); break; case TransInOut: p.addTransferInOutBuffer( b, r.off, r.size ); break;
		case Indirect: p.addImplicitBuffer( b, r.off, r.size, { VK_ACCESS_INDIRECT_COMMAND_READ_BIT, VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT } ); break;
		case Vertices: p.addImplicitBuffer( b, r.off, r.size, { VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT } ); break;
		default: p.addImplicitBuffer( b, r.off, r.size, { VK_ACCESS_HOST_READ_BIT, VK_PIPELINE_STAGE_HOST_BIT } ); break; }
	}
	static void needs( Use const & u, S & st, A & ac )
	{
		st = u.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT; ac = 0; A const R = VK_ACCESS_SHADER_READ_BIT, W = VK_ACCESS_SHADER_WRITE_BIT;
		switch ( u.kind ) {
		case Uniform: ac = VK_ACCESS_UNIFORM_READ_BIT; break; case UniformView: case In: case InView: ac = R; break; case Out: case OutView: case ClearOut: case ClearOutView: ac = W; break; case InOut: case InOutView: ac = R | W; break;
		case TransIn: st = VK_PIPELINE_STAGE_TRANSFER_BIT; ac = VK_ACCESS_TRANSFER_READ_BIT; break; case TransOut: st = VK_PIPELINE_STAGE_TRANSFER_BIT; ac = VK_ACCESS_TRANSFER_WRITE_BIT; break; case TransInOut: st = VK_PIPELINE_STAGE_TRANSFER_BIT; ac = VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT; break;
		case Indirect: st = VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT; ac = VK_ACCESS_INDIRECT_COMMAND_READ_BIT; break; case Vertices: st = VK_PIPELINE_STAGE_VERTEX_INPUT_BIT; ac = VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT; break; default: st = VK_PIPELINE_STAGE_HOST_BIT; ac = VK_ACCESS_HOST_READ_BIT; break; }
	}
	RunnablePassCreator pass( uint32_t id, bool compute, std::function< bool() > on, std::function< uint32_t() > idx = {} ) { PassOpt o; o.compute = compute; o.enabled = on; o.index = idx; o.cfg.maxPassCount = 2; return marker( int( id ), log, o ); }
	// what was recorded since the last call; the use of each pass, in the buffer of the recorded index
	std::function< std::vector< Use >( uint32_t ) > of;
	void judge()
	{
		auto & cmds = fk::w().cmds;
		for ( ; pos < cmds.size(); ++pos ) { auto & c = cmds[pos];
			if ( c.kind == fk::CBarrier ) {
				for ( auto & b : c.bufs ) if ( in( b.offset, b.size ) ) depends( subs[fk::raw( b.buffer )], { c.srcStage, c.dstStage, b.srcAccessMask, b.dstAccessMask }, false, "" );
				for ( auto & m : c.mems ) for ( auto & [k, x] : subs ) depends( x, { c.srcStage, c.dstStage, m.srcAccessMask, m.dstAccessMask }, false, "" );
				for ( auto & [k, x] : subs ) chains( x, { c.srcStage, c.dstStage, 0, 0 } ); }
			if ( c.kind == fk::CFill && in( c.q[0], c.q[1] ) ) access( subs[c.dst], VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, "a buffer is cleared while it may still be accessed" );
			if ( c.kind == fk::CMark ) for ( auto & u : of( uint32_t( c.mark ) ) ) if ( in( u.r.off, u.r.size ) ) { S st; A ac; needs( u, st, ac ); access( subs[u.vk], st, ac, "a pass accesses a buffer that may still be accessed, or does not see what was written there" ); sym_reach( "used" ); } }
	}
};
// ordered passes over one buffer
void chain( uint32_t n, std::vector< uint32_t > const & kinds, bool toggles, bool compute, bool ranges, uint32_t recordings )
{
	World w; FrameGraph g{ w.h, "g" }; Buffer b{ w.buffer(), "b" }; std::vector< Use > us( n ); std::vector< char > on( n, 1 ); FramePass * prev{};
	for ( uint32_t i = 0; i < n; ++i ) { auto s = "p" + std::to_string( i ); us[i] = { w.vks[0], kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )], ranges ? symRange4( s ) : Range{ 16, 64 }, compute && flag( s + "compute" ) };
		auto & p = g.createPass( s, w.pass( i, us[i].compute, [&on, i]() { return on[i] != 0; } ) ); World::declare( p, us[i].kind, b, us[i].r, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; }
	w.of = [&us]( uint32_t i ) { return std::vector< Use >{ us[i] }; }; auto run = g.compile( *w.ctx ); fk::w().cmds.clear();
	for ( uint32_t k = 0; k < recordings; ++k ) { w.subs.clear(); for ( uint32_t i = 0; i < n; ++i ) on[i] = !toggles || forkIdx( "on" + std::to_string( i ) + std::to_string( k ), 2 ); run->record(); w.judge(); }
	sym_reach( "chain" );
}
// passes using two buffers each, of several indices
void several( uint32_t n, std::vector< uint32_t > const & kinds, bool indices )
{
	World w; FrameGraph g{ w.h, "g" }; uint32_t const N = indices ? 2 : 1; std::vector< Buffer > bs; std::vector< std::vector< uint64_t > > raws;
	for ( uint32_t k = 0; k < 2; ++k ) { VkBufferArray a; std::vector< uint64_t > r; for ( uint32_t i = 0; i < N; ++i ) { a.push_back( w.buffer() ); r.push_back( fk::raw( a.back() ) ); } bs.emplace_back( a, "b" + std::to_string( k ) ); raws.push_back( r ); }
	std::vector< std::array< Use, 2 > > us( n ); std::vector< uint32_t > idx( n ); FramePass * prev{};
	for ( uint32_t i = 0; i < n; ++i ) { auto s = "p" + std::to_string( i ); bool cp = i & 1; if ( indices ) idx[i] = forkIdx( s + "index", 2 ); auto & p = g.createPass( s, w.pass( i, cp, []() { return true; }, [&idx, i]() { return idx[i]; } ) );
		for ( uint32_t k = 0; k < 2; ++k ) { us[i][k] = { raws[k][idx[i]], kinds[forkIdx( s + "kind" + std::to_string( k ), uint32_t( kinds.size() ) )], { 16, 64 }, cp }; World::declare( p, us[i][k].kind, bs[k], us[i][k].r, k ); }
		if ( prev ) p.addDependency( *prev ); prev = &p; }
	w.of = [&us]( uint32_t i ) { return std::vector< Use >{ us[i][0], us[i][1] }; }; auto run = g.compile( *w.ctx ); fk::w().cmds.clear(); run->record(); w.judge(); sym_reach( "several" );
}
// graphs submitted one after the other, each starting from what the ones it depends on leave
void graphs( uint32_t n, uint32_t each, std::vector< uint32_t > const & kinds, bool skips )
{
	World w; Buffer b{ w.buffer(), "b" }; std::vector< std::unique_ptr< FrameGraph > > gs; std::vector< RunnableGraphPtr > runs; std::vector< Use > us;
	for ( uint32_t k = 0; k < n; ++k ) { gs.push_back( std::make_unique< FrameGraph >( w.h, "g" + std::to_string( k ) ) ); auto & g = *gs.back(); if ( k ) g.addDependency( *gs[k - 1] ); FramePass * prev{};
		for ( uint32_t i = 0; i < each; ++i ) { uint32_t id = k * each + i; auto s = "p" + std::to_string( id ); bool no = skips && forkIdx( s + "skip", 2 ); us.push_back( { w.vks[0], kinds[forkIdx( s + "kind", uint32_t( kinds.size() ) )], { 16, 64 }, flag( s + "compute" ) } ); auto & p = g.createPass( s, w.pass( id, us.back().compute, [no]() { return !no; } ) ); World::declare( p, us.back().kind, b, us.back().r, 0 ); if ( prev ) p.addDependency( *prev ); prev = &p; }
		runs.push_back( g.compile( *w.ctx ) ); }
	w.of = [&us]( uint32_t i ) { return std::vector< Use >{ us[i] }; }; fk::w().cmds.clear(); for ( auto & r : runs ) { r->record(); w.judge(); }
	sym_reach( "graphs" ); runs.clear(); gs.clear();
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: chain( 2, All17, false, true, false, 1 ); break;
	case 1: chain( 3, Some, true, false, false, 1 ); break;
	case 2: chain( 3, Few, false, true, false, 1 ); break;
	case 3: chain( 3, Few, false, false, true, 1 ); break;
	case 4: several( 2, Few, true ); break;
	case 5: graphs( 2, 1, All17, false ); break;
	case 6: graphs( 3, 1, Few, true ); break;
	case 7: chain( 2, Few, true, false, true, 2 ); break;
	case 8: chain( 3, All17, false, false, false, 1 ); break;
	case 9: chain( 4, Few, true, true, false, 1 ); break;
	case 10: chain( 4, Few, false, false, true, 1 ); break;
	case 11: several( 3, { Uniform, InOut, TransOut }, true ); break;
	case 12: graphs( 2, 2, Some, false ); break; } }
