// C24: identifiers and names stay unique and nested groups keep their content
#include "common.hpp"
using namespace hc;
namespace {
struct G { FramePassGroup * g; int parent; int name; }; struct P { FramePass * p; int group; int name; };
// any sequence of group and pass creations in the groups made so far
void tree( uint32_t steps, uint32_t names ) {
	auto ctx = fk::context(); ResourceHandler h; Log log; FrameGraph g{ h, "graph" }; std::vector< G > gs{ { &g.getDefaultGroup(), -1, -1 } }; std::vector< P > ps;
	auto full = [&]( int gi ) { std::string s; for ( ; gi > 0; gi = gs[gi].parent ) s = "/n" + std::to_string( gs[gi].name ) + s; return "graph" + s; };
	for ( uint32_t t = 0; t < steps; ++t ) {
		std::string n = "s" + std::to_string( t ); bool pass = forkIdx( n + "kind", 2 ); uint32_t gi = forkIdx( n + "group", uint32_t( gs.size() ) ); int name = int( forkIdx( n + "name", names ) ); std::string s = "n" + std::to_string( name ); auto & grp = *gs[gi].g;
		if ( pass ) { bool dup = false; for ( auto & p : ps ) dup = dup || ( p.group == int( gi ) && p.name == name ); sym_check( grp.hasPass( s ) == dup, "a group knows a pass it does not hold, or the reverse" ); FramePass * made = nullptr; bool thrown = fk::throws( [&]() { made = gi == 0 && ( t & 1 ) ? &g.createPass( s, marker( int( ps.size() ), log ) ) : &grp.createPass( s, marker( int( ps.size() ), log ) ); } ); sym_check( thrown == dup, "a second pass of the same name is accepted in a group, or a new name is refused" ); if ( !thrown ) { ps.push_back( { made, int( gi ), name } ); sym_reach( "pass" ); } else sym_reach( "refused" ); }
		else { int had = -1; for ( size_t k = 1; k < gs.size(); ++k ) if ( gs[k].parent == int( gi ) && gs[k].name == name ) had = int( k ); auto & made = gi == 0 && ( t & 1 ) ? g.createPassGroup( s ) : grp.createPassGroup( s ); if ( had >= 0 ) sym_check( &made == gs[had].g, "asking again for a group gives another one" ); else { for ( auto & x : gs ) sym_check( x.g != &made && x.g->id != made.id, "two groups share an identifier" ); sym_check( made.parent == &grp && made.getName() == s, "a group has another parent or name" ); gs.push_back( { &made, int( gi ), name } ); sym_reach( "group" ); } } }
	for ( size_t k = 0; k < gs.size(); ++k ) sym_check( gs[k].g->getFullName() == full( int( k ) ), "a group's full name is not its path" );
	for ( size_t i = 0; i < ps.size(); ++i ) { auto & p = ps[i]; for ( size_t j = 0; j < i; ++j ) { sym_check( p.p->id != ps[j].p->id, "two passes share an identifier" ); sym_check( p.p->getFullName() != ps[j].p->getFullName(), "two passes share a full name" ); } sym_check( p.p->getName() == "n" + std::to_string( p.name ) && &p.p->group == gs[p.group].g && &p.p->graph == &g, "a pass has another name, group or graph" ); sym_check( p.p->getFullName() == full( p.group ) + "/n" + std::to_string( p.name ), "a pass's full name is not its path" ); }
	FramePassArray all; g.getDefaultGroup().listPasses( all ); sym_check( all.size() == ps.size(), "the passes of nested groups are not all listed once" ); for ( auto & p : ps ) sym_check( std::count( all.begin(), all.end(), p.p ) == 1, "the passes of nested groups are not all listed once" );
	if ( !ps.empty() ) { auto run = g.compile( *ctx ); run->record(); sym_check( log.size() == ps.size(), "a pass of a nested group is lost or recorded twice" ); for ( size_t i = 0; i < ps.size(); ++i ) sym_check( std::count( log.begin(), log.end(), uint32_t( i ) ) == 1, "a pass of a nested group is lost or recorded twice" ); sym_reach( "compiled" ); }
}
// images and views made through the handler, two graphs and a group
void ids( uint32_t steps ) {
	ResourceHandler h; FrameGraph g0{ h, "g0" }, g1{ h, "g1" }; auto & grp = g1.createPassGroup( "n" ); std::vector< ImageId > is; std::vector< ImageViewId > vs; struct D { uint32_t mips, layers, fmt, w; uint32_t type; }; std::vector< D > ds; struct V { uint32_t img, mip; }; std::vector< V > vd;
	for ( uint32_t t = 0; t < steps; ++t ) {
		std::string n = "s" + std::to_string( t ); uint32_t via = forkIdx( n + "via", 4 ); bool view = !is.empty() && forkIdx( n + "view", 2 );
		if ( !view ) { D d{ uint32_t( sym_bits( ( n + "mips" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "layers" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "fmt" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "w" ).c_str(), 32 ) ), uint32_t( sym_range( ( n + "type" ).c_str(), 0, 2 ) ) }; auto x = imgData( "img", VkImageType( d.type ), VkFormat( d.fmt ), { d.w, 8, 4 }, d.mips, d.layers ); auto id = via == 0 ? h.createImageId( x ) : via == 1 ? g0.createImage( x ) : via == 2 ? g1.createImage( x ) : grp.createImage( x ); for ( auto & o : is ) sym_check( o.id != id.id && o.data != id.data, "two images share an identifier" ); is.push_back( id ); ds.push_back( d ); sym_reach( "image" ); }
		else { uint32_t im = forkIdx( n + "img", uint32_t( is.size() ) ), mip = uint32_t( sym_range( ( n + "mip" ).c_str(), 0, 3 ) ); auto x = viewData( "view", is[im], VK_IMAGE_VIEW_TYPE_2D, rng( 1, mip, 1, 0, 1 ) ); auto id = via == 0 ? h.createViewId( x ) : via == 1 ? g0.createView( x ) : via == 2 ? g1.createView( x ) : grp.createView( x ); for ( size_t k = 0; k < vs.size(); ++k ) sym_check( ( vs[k].id == id.id ) == ( vd[k].img == im && vd[k].mip == mip ), "two views share an identifier, or one view has two" ); vs.push_back( id ); vd.push_back( { im, mip } ); sym_reach( "view" ); }
		for ( size_t k = 0; k < is.size(); ++k ) { auto & d = ds[k]; auto & i = is[k].data->info; sym_check( ( i.mipLevels == d.mips ) & ( i.arrayLayers == d.layers ) & ( uint32_t( i.format ) == d.fmt ) & ( i.extent.width == d.w ) & ( i.extent.height == 8 ) & ( i.extent.depth == 4 ) & ( uint32_t( i.imageType ) == d.type ), "an image loses the creation data it was given" ); auto e = getExtent( is[k] ); sym_check( ( e.width == d.w ) & ( e.height == 8 ) & ( e.depth == 4 ) & ( uint32_t( getFormat( is[k] ) ) == d.fmt ) & ( getMipLevels( is[k] ) == d.mips ) & ( uint32_t( getImageType( is[k] ) ) == d.type ), "an image's getters do not tell its creation data" ); }
		for ( size_t k = 0; k < vs.size(); ++k ) { auto & v = *vs[k].data; sym_check( ( v.image.id == is[vd[k].img].id ) && ( v.info.subresourceRange.baseMipLevel == vd[k].mip ), "a view loses the creation data it was given" ); } }
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: tree( 4, 2 ); break; case 1: ids( 4 ); break; case 2: tree( 5, 2 ); break; case 3: ids( 5 ); break; } }
