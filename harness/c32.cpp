// C32: one handler and one context serve several threads
#include "life.hpp"
#include "threads.hpp"
using namespace life;
namespace {
bool unknown = false;
// th::context sets the logger's callbacks
std::unique_ptr< GraphContext > start() { fk::w().on |= fk::LIFETIME | fk::STATE; auto c = th::context(); Logger::setTraceCallback( []( std::string const & m, bool ) { if ( m.compare( 0, 17, "Destroyed Unknown" ) == 0 ) unknown = true; } ); Logger::setErrorCallback( []( std::string const & m, bool ) { sym_check( m.compare( 0, 6, "Leaked" ) != 0, "the handler loses an object" ); } );
	return c; }
void finish( std::unique_ptr< ResourceHandler > & h, std::unique_ptr< GraphContext > & c ) { h.reset(); c.reset(); sym_check( fk::liveAll() == 0, "an object outlives its owners" ); sym_check( !unknown, "the context forgets an object" ); sym_reach( "end" ); }
ImageData img( char const * n ) { return imgData( n, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 4, 4 ); }
ImageViewData view( ImageId i, uint32_t level ) { return viewData( "v", i, VK_IMAGE_VIEW_TYPE_2D, rng( 1, level, 1, 0, 1 ) ); }
// identifiers: images always differ, views differ with their descriptions
struct Made { bool image{}; uint32_t level{}; ImageId i{}; ImageViewId v{}; };
void ids( uint32_t threads, uint32_t ops, uint32_t points, uint32_t steps )
{
	auto ctx = start(); auto h = std::make_unique< ResourceHandler >(); auto base = h->createImageId( img( "base" ) ); Made m[3][3]; std::vector< std::function< void() > > fs;
	for ( uint32_t t = 0; t < threads; ++t ) { for ( uint32_t k = 0; k < ops; ++k ) { uint32_t op = forkIdx( "t" + std::to_string( t ) + "o" + std::to_string( k ), 3 ); m[t][k].image = op == 2; m[t][k].level = op; } auto mine = m[t]; fs.push_back( [&, mine]() { for ( uint32_t k = 0; k < ops; ++k ) { if ( mine[k].image ) mine[k].i = h->createImageId( img( "i" ) ); else mine[k].v = h->createViewId( view( base, mine[k].level ) ); } } ); }
	th::run( fs, points, steps );
	for ( uint32_t a = 0; a < threads * ops; ++a ) { auto & x = m[a / ops][a % ops]; if ( x.image ) sym_check( x.i.data && x.i.data->name == "i" && x.i != base, "an image has no identifier of its own" ); else sym_check( x.v.data && x.v.data->info.subresourceRange.baseMipLevel == x.level && h->createViewId( view( base, x.level ) ) == x.v, "a view is not found again" );
		for ( uint32_t b = 0; b < a; ++b ) { auto & y = m[b / ops][b % ops]; if ( x.image && y.image ) sym_check( x.i.id != y.i.id && x.i.data != y.i.data, "two images made by different threads share an identifier" ); if ( !x.image && !y.image ) sym_check( ( x.v.id == y.v.id ) == ( x.level == y.level ) && ( x.v.data == y.v.data ) == ( x.level == y.level ), "two threads are not given one identifier per view" ); } }
	sym_reach( "ids" ); finish( h, ctx );
}
// the same views and images asked by several threads: made once, with nothing half made
void shared( uint32_t threads, uint32_t points, uint32_t steps )
{
	auto ctx = start(); auto h = std::make_unique< ResourceHandler >(); ImageId i[2]{ h->createImageId( img( "i0" ) ), h->createImageId( img( "i1" ) ) }; ImageViewId v[2]{ h->createViewId( view( i[0], 0 ) ), h->createViewId( view( i[0], 1 ) ) }; std::vector< std::function< void() > > fs; uint64_t got[3]{}; uint32_t op[3]{};
	{ std::vector< std::unique_ptr< ContextResourcesCache > > caches; for ( uint32_t t = 0; t < threads; ++t ) { caches.push_back( std::make_unique< ContextResourcesCache >( *h, *ctx ) ); op[t] = forkIdx( "op" + std::to_string( t ), 4 ); auto c = caches.back().get(); fs.push_back( [&, t, c]() { got[t] = op[t] < 2 ? fk::raw( c->createImageView( v[op[t]] ) ) : fk::raw( c->createImage( i[op[t] - 2] ) ); auto & o = fk::at( got[t] ); sym_check( o.alive && ( op[t] < 2 ? o.type == fk::TView && fk::at( o.view.image ).alive && fk::at( o.view.image ).mem : o.type == fk::TImage && o.mem ), "a thread is given an object that is not ready" ); } ); }
	th::run( fs, points, steps );
	uint32_t images = 0, views = 0; for ( uint32_t k = 0; k < 2; ++k ) { bool n = false, u = false; for ( uint32_t t = 0; t < threads; ++t ) { u |= op[t] == k; n |= op[t] == 2 + k || ( k == 0 && op[t] < 2 ); } images += n; views += u; }
	for ( uint32_t a = 0; a < threads; ++a ) for ( uint32_t b = 0; b < a; ++b ) sym_check( ( got[a] == got[b] ) == ( op[a] == op[b] ), "two threads are not given one object per identifier" );
	sym_check( fk::w().created[fk::TImage] == images && fk::w().created[fk::TView] == views && fk::live( fk::TImage ) == images && fk::live( fk::TView ) == views, "an image or a view is created again for another thread" ); sym_reach( "shared" ); }
	finish( h, ctx );
}
// each thread makes and destroys objects of its own
void own( uint32_t kinds, uint32_t points, uint32_t steps )
{
	auto ctx = start(); auto h = std::make_unique< ResourceHandler >(); std::vector< std::function< void() > > fs; SamplerDesc d; ImageViewId v[2]; for ( uint32_t t = 0; t < 2; ++t ) v[t] = h->createViewId( view( h->createImageId( img( "i" ) ), 0 ) );
	for ( uint32_t t = 0; t < 2; ++t ) { uint32_t op = forkIdx( "op" + std::to_string( t ), kinds ); fs.push_back( [&, t, op]() { ContextResourcesCache c{ *h, *ctx }; if ( op == 0 ) { auto s = c.createSampler( d ); sym_check( fk::at( s ).alive && c.createSampler( d ) == s, "a sampler is not kept" ); } else if ( op == 1 ) { auto & b = c.createQuadTriVertexBuffer( true, Texcoord{} ); sym_check( fk::at( b.buffer.buffer() ).alive && fk::at( b.buffer.buffer() ).mem && &c.createQuadTriVertexBuffer( true, Texcoord{} ) == &b, "a vertex buffer is not kept" ); } else { auto x = c.createImageView( v[t] ); sym_check( fk::at( x ).alive && c.createImageView( v[t] ) == x, "a view is not kept" ); if ( op == 3 ) { sym_check( c.destroyImageView( v[t] ) && !fk::at( x ).alive && c.destroyImage( v[t].data->image ), "an object is not destroyed" ); } } } ); }
	th::run( fs, points, steps ); sym_reach( "own" ); finish( h, ctx );
}
// each thread builds, compiles and runs a graph of its own, on a context of its own
struct Trace { std::vector< uint64_t > v; };
Trace graph( ResourceHandler & h, GraphContext & ctx, uint32_t kind)
{
	Trace r; auto rig = std::make_unique< Rig >( &ctx, &h ); // released below
	auto & g = rig->graph(); ImageViewIdArray x{ rig->image(), rig->image() }, y{ rig->image(), rig->image() }; auto k = kind == 0 ? Quad : kind == 1 ? Compute : Mips; auto & p = rig->add( g, k, One, {}, x ); rig->add( g, Compute, One, x, y );
	auto & run = rig->compile( 0 );
	for ( int n = 0; n < 2; ++n ) { p.index = uint32_t( n ); auto w = run.run( rig->queue() ); sym_check( w.size() == 1, "a run is not to be waited for" ); uint64_t cb = 0; for ( auto & s : fk::w().submits ) if ( !s.signals.empty() && s.signals[0] == w[0].semaphore ) { sym_check( s.cbs.size() == 1, "a run does not submit its one command buffer" ); cb = fk::raw( s.cbs[0] ); }
		sym_check( cb != 0, "a run is not submitted" ); for ( auto & c : fk::w().cmds ) if ( fk::raw( c.cb ) == cb ) { r.v.push_back( c.kind ); r.v.push_back( c.srcStage ); r.v.push_back( c.dstStage ); for ( auto & b : c.imgs ) { r.v.push_back( b.oldLayout ); r.v.push_back( b.newLayout ); r.v.push_back( b.srcAccessMask ); r.v.push_back( b.dstAccessMask ); sym_check( fk::at( b.image ).alive, "a command uses a dead image" ); } } }
	rig->runs.clear(); rig->graphs.clear(); rig->h.release(); rig->ctx.release(); return r;
}
void graphs( uint32_t points, uint32_t steps )
{
	auto other = th::context(); auto ctx = start(); auto h = std::make_unique< ResourceHandler >(); GraphContext * c[2]{ ctx.get(), other.get() }; uint32_t k[2]; Trace want[2], got[2]; for ( uint32_t t = 0; t < 2; ++t ) { k[t] = forkIdx( "kind" + std::to_string( t ), 2 ); want[t] = graph( *h, *c[t], k[t] ); }
	std::vector< std::function< void() > > fs; for ( uint32_t t = 0; t < 2; ++t ) fs.push_back( [&, t]() { got[t] = graph( *h, *c[t], k[t] ); } );
	th::run( fs, points, steps ); for ( uint32_t t = 0; t < 2; ++t ) sym_check( got[t].v == want[t].v, "a graph built beside another thread's is not recorded as it is alone" ); sym_reach( "graphs" ); other.reset(); finish( h, ctx );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) {
	case 0: ids( 2, 1, 4, 20 ); break;
	case 1: shared( 2, 3, 40 ); break;
	case 2: own( 4, 2, 80 ); break;
	case 3: graphs( 1, 1200 ); break;
	case 4: ids( 2, 2, 2, 60 ); break;
	case 5: shared( 3, 2, 120 ); break;
	case 6: ids( 2, 2, 3, 40 ); break;
	case 7: ids( 3, 1, 2, 30 ); break;
	case 8: own( 4, 3, 80 ); break; } }
