// C20: resource caches return one object per distinct description
#include "common.hpp"
using namespace hc;
namespace {
uint32_t bits( std::string const & n, char k, uint32_t hi = 2 ) { return uint32_t( sym_range( ( n + k ).c_str(), 0, hi ) ); }
// views: every field of the description symbolic
void views( bool all ) {
	auto ctx = fk::context(); ResourceHandler h; ContextResourcesCache res{ h, *ctx }; ImageId img[2]{ h.createImageId( imgData( "i0", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 4, 4 ) ), h.createImageId( imgData( "i0", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 4, 4 ) ) };
	ImageViewData d[2]; uint32_t im[2]; for ( int i = 0; i < 2; ++i ) { std::string n = i ? "b" : "a"; im[i] = forkIdx( n + "image", 2 ); auto & x = d[i]; x = viewData( i ? "b" : "a", img[im[i]], VkImageViewType( bits( n, 't', 6 ) ), rng( bits( n, 'A', 7 ), bits( n, 'm', 3 ), bits( n, 'c', 4 ), bits( n, 'l', 3 ), bits( n, 'k', 4 ) ) ); x.info.format = VkFormat( uint32_t( sym_bits( ( n + "fmt" ).c_str(), 32 ) ) ); x.info.flags = bits( n, 'f', 3 ); if ( all ) { x.info.components.r = VkComponentSwizzle( bits( n, 'R', 6 ) ); x.info.components.g = VkComponentSwizzle( bits( n, 'G', 6 ) ); x.info.components.b = VkComponentSwizzle( bits( n, 'B', 6 ) ); x.info.components.a = VkComponentSwizzle( bits( n, 'Z', 6 ) ); } }
	auto & a = d[0].info; auto & b = d[1].info; auto & ra = a.subresourceRange; auto & rb = b.subresourceRange; bool same = im[0] == im[1]; same = same & ( a.viewType == b.viewType ) & ( a.format == b.format ) & ( a.flags == b.flags ) & ( ra.aspectMask == rb.aspectMask ) & ( ra.baseMipLevel == rb.baseMipLevel ) & ( ra.levelCount == rb.levelCount ) & ( ra.baseArrayLayer == rb.baseArrayLayer ) & ( ra.layerCount == rb.layerCount ) & ( a.components.r == b.components.r ) & ( a.components.g == b.components.g ) & ( a.components.b == b.components.b ) & ( a.components.a == b.components.a );
	auto v0 = h.createViewId( d[0] ), v1 = h.createViewId( d[1] ); sym_check( ( v0 == v1 ) == same, "views of different descriptions share an identifier, or views of the same one do not" ); sym_check( h.createViewId( d[0] ) == v0, "asking again for a view gives another one" );
	auto h0 = res.createImageView( v0 ), h1 = res.createImageView( v1 ); sym_check( h0 && h1 && ( h0 == h1 ) == same && res.createImageView( v0 ) == h0, "a view is created again, or shared between two descriptions" ); int i = 0;
	for ( auto x : { h0, h1 } ) { auto & c = fk::at( x ).view; auto & w = d[i].info; sym_check( ( c.viewType == w.viewType ) & ( c.format == w.format ) & ( c.flags == w.flags ) & ( c.components.r == w.components.r ) & ( c.components.g == w.components.g ) & ( c.components.b == w.components.b ) & ( c.components.a == w.components.a ) & ( c.subresourceRange.aspectMask == w.subresourceRange.aspectMask ) & ( c.subresourceRange.baseMipLevel == w.subresourceRange.baseMipLevel ) & ( c.subresourceRange.levelCount == w.subresourceRange.levelCount ) & ( c.subresourceRange.baseArrayLayer == w.subresourceRange.baseArrayLayer ) & ( c.subresourceRange.layerCount == w.subresourceRange.layerCount ), "a view is not created with the requested parameters" ); sym_check( c.image == res.createImage( img[im[i]] ), "a view is created on another image" ); ++i; }
	sym_reach( same ? "same-view" : "other-view" );
}
// images: creation parameters, one handle per identifier
void images() {
	auto ctx = fk::context(); ResourceHandler h; ContextResourcesCache res{ h, *ctx }; ImageId id[2]; ImageData d[2]; for ( int i = 0; i < 2; ++i ) { std::string n = i ? "b" : "a"; auto & x = d[i]; x = ImageData{ n, uint32_t( sym_bits( ( n + "flags" ).c_str(), 32 ) ), VkImageType( bits( n, 't' ) ), VkFormat( uint32_t( sym_bits( ( n + "fmt" ).c_str(), 32 ) ) ), { uint32_t( sym_bits( ( n + "w" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "h" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "d" ).c_str(), 32 ) ) }, uint32_t( sym_bits( ( n + "use" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "mips" ).c_str(), 32 ) ), uint32_t( sym_bits( ( n + "layers" ).c_str(), 32 ) ) }; x.info.samples = VkSampleCountFlagBits( uint32_t( sym_bits( ( n + "smp" ).c_str(), 32 ) ) ); x.info.tiling = VkImageTiling( bits( n, 'T', 1 ) ); id[i] = h.createImageId( x ); }
	sym_check( id[0] != id[1], "two images share an identifier" ); auto h0 = res.createImage( id[0] ), h1 = res.createImage( id[1] ); sym_check( h0 && h1 && h0 != h1 && res.createImage( id[0] ) == h0 && res.createImage( id[1] ) == h1, "an image is created again, or shared between two identifiers" ); int i = 0;
	for ( auto x : { h0, h1 } ) { auto & c = fk::at( x ).img; auto & w = d[i++].info; sym_check( ( c.flags == w.flags ) & ( c.imageType == w.imageType ) & ( c.format == w.format ) & ( c.extent.width == w.extent.width ) & ( c.extent.height == w.extent.height ) & ( c.extent.depth == w.extent.depth ) & ( c.mipLevels == w.mipLevels ) & ( c.arrayLayers == w.arrayLayers ) & ( c.samples == w.samples ) & ( c.tiling == w.tiling ) & ( c.usage == w.usage ) & ( c.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED ), "an image is not created with the requested parameters" ); }
	sym_check( fk::live( fk::TImage ) == 2, "an image is created more than once" ); sym_reach( "images" );
}
// samplers: any fields
float number( std::string const & n ) { static float const f[]{ 0.0f, 1.0f, 12.5f }; return f[forkIdx( n, 3 )]; }
void samplers( bool floats, bool viaGraph ) {
	auto ctx = fk::context(); ResourceHandler h; ResourcesCache caches{ h }; SamplerDesc d[2]; for ( int i = 0; i < 2; ++i ) { std::string n = i ? "b" : "a"; auto & x = d[i]; if ( floats ) { x.mipLodBias = number( n + "bias" ); x.minLod = number( n + "min" ); x.maxLod = number( n + "max" ); } else { x.magFilter = VkFilter( forkIdx( n + "M", 2 ) ); x.minFilter = VkFilter( forkIdx( n + "m", 2 ) ); x.mipmapMode = VkSamplerMipmapMode( forkIdx( n + "p", 2 ) ); x.addressModeU = VkSamplerAddressMode( forkIdx( n + "u", 2 ) ); x.addressModeV = VkSamplerAddressMode( forkIdx( n + "v", 2 ) ); x.addressModeW = VkSamplerAddressMode( forkIdx( n + "w", 2 ) ); } }
	auto & a = d[0]; auto & b = d[1]; bool same = ( a.magFilter == b.magFilter ) & ( a.minFilter == b.minFilter ) & ( a.mipmapMode == b.mipmapMode ) & ( a.addressModeU == b.addressModeU ) & ( a.addressModeV == b.addressModeV ) & ( a.addressModeW == b.addressModeW ) & ( a.mipLodBias == b.mipLodBias ) & ( a.minLod == b.minLod ) & ( a.maxLod == b.maxLod );
	VkSampler s[2]; if ( viaGraph ) { Log log; FrameGraph g{ h, "g" }; g.createPass( "p", marker( 0, log ) ); auto run = g.compile( *ctx ); for ( int i = 0; i < 2; ++i ) s[i] = run->createSampler( d[i] ); sym_check( ( s[0] == s[1] ) == same && run->createSampler( a ) == s[0], "samplers of different descriptions are shared, or those of the same one are not" ); return; }
	for ( int i = 0; i < 2; ++i ) s[i] = caches.createSampler( *ctx, d[i] ); sym_check( s[0] && s[1] && ( s[0] == s[1] ) == same && caches.createSampler( *ctx, a ) == s[0], "samplers of different descriptions are shared, or those of the same one are not" );
	for ( int i = 0; i < 2; ++i ) { auto & c = fk::at( s[i] ).samp; auto & w = d[i]; sym_check( ( c.magFilter == w.magFilter ) & ( c.minFilter == w.minFilter ) & ( c.mipmapMode == w.mipmapMode ) & ( c.addressModeU == w.addressModeU ) & ( c.addressModeV == w.addressModeV ) & ( c.addressModeW == w.addressModeW ) & ( c.mipLodBias == w.mipLodBias ) & ( c.minLod == w.minLod ) & ( c.maxLod == w.maxLod ), "a sampler is not created with the requested parameters" ); }
	sym_reach( same ? "same-sampler" : "other-sampler" );
}
// vertex buffers of the full screen triangle
void vertices() {
	auto ctx = fk::context(); ResourceHandler h; ResourcesCache caches{ h }; struct { bool t, u, v; } d[2]; VertexBuffer const * b[2]; std::vector< uint8_t > data[2]; for ( int i = 0; i < 2; ++i ) { std::string n = i ? "b" : "a"; d[i] = { flag( n + "tex" ), flag( n + "invU" ), flag( n + "invV" ) }; size_t before = fk::live( fk::TBuffer ); b[i] = &caches.createQuadTriVertexBuffer( *ctx, d[i].t, Texcoord{ d[i].u, d[i].v } ); if ( fk::live( fk::TBuffer ) != before ) data[i] = fk::w().mapped; else data[i] = data[0]; }
	bool same = d[0].t == d[1].t && d[0].u == d[1].u && d[0].v == d[1].v; sym_check( ( b[0] == b[1] ) == same && &caches.createQuadTriVertexBuffer( *ctx, d[0].t, Texcoord{ d[0].u, d[0].v } ) == b[0], "vertex buffers of different descriptions are shared, or those of the same one are not" ); sym_check( ( b[0]->buffer.buffer( 0 ) == b[1]->buffer.buffer( 0 ) ) == same, "two vertex buffers share a handle" );
	for ( int i = 0; i < 2; ++i ) { sym_check( b[i]->vertexAttribs.size() == ( d[i].t ? 2u : 1u ) && b[i]->vertexBindings.size() == 1, "a vertex buffer does not describe its content" ); sym_check( b[i]->inputState.vertexAttributeDescriptionCount == b[i]->vertexAttribs.size() && b[i]->inputState.pVertexAttributeDescriptions == b[i]->vertexAttribs.data() && b[i]->inputState.vertexBindingDescriptionCount == 1 && b[i]->inputState.pVertexBindingDescriptions == b[i]->vertexBindings.data(), "a vertex input state is not that of its buffer" ); sym_check( fk::at( b[i]->buffer.buffer( 0 ) ).buf.size == 3 * b[i]->vertexBindings[0].stride && ( fk::at( b[i]->buffer.buffer( 0 ) ).buf.usage & VK_BUFFER_USAGE_VERTEX_BUFFER_BIT ), "a vertex buffer does not hold three vertices" );
		if ( data[i].size() >= 48 ) { float f[12]; std::memcpy( f, data[i].data(), 48 ); sym_check( f[0] == -1 && f[1] == -3 && f[4] == -1 && f[5] == 1 && f[8] == 3 && f[9] == 1, "the triangle does not cover the screen" ); sym_check( ( f[10] > f[2] ) == !d[i].u && ( f[7] > f[3] ) == !d[i].v && f[2] == f[6] && f[7] == f[11] && f[2] != f[10] && f[3] != f[7], "texture coordinates are not inverted as asked" ); sym_reach( "content" ); } }
	sym_reach( "vertices" );
}
// creation and destruction in any order, through two caches of one context
void churn( uint32_t steps ) {
	auto ctx = fk::context(); ResourceHandler h; ImageId img = h.createImageId( imgData( "i", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 4, 4 ) ), img2 = h.createImageId( imgData( "i2", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 4, 4 ) ); ImageViewId view = h.createViewId( viewData( "v", img, VK_IMAGE_VIEW_TYPE_2D, rng( 1, 0, 1, 0, 1 ) ) ); fk::w().on |= fk::LIFETIME;
	{ std::unique_ptr< ContextResourcesCache > c[2]{ std::make_unique< ContextResourcesCache >( h, *ctx ), std::make_unique< ContextResourcesCache >( h, *ctx ) }; int oi = -1, oi2 = -1, ov = -1; VkImage hi{}, hi2{}; VkImageView hv{};
	for ( uint32_t t = 0; t < steps; ++t ) { std::string n = "s" + std::to_string( t ); uint32_t op = forkIdx( n + "op", 6 ), k = forkIdx( n + "cache", 2 ); if ( !c[k] ) continue; auto & r = *c[k];
		if ( op == 0 ) { auto x = r.createImage( img ); if ( oi < 0 ) { oi = int( k ); hi = x; } sym_check( x == hi && x && fk::at( x ).alive, "asking for an image gives another handle or a dead one" ); }
		if ( op == 1 ) { auto x = r.createImage( img2 ); if ( oi2 < 0 ) { oi2 = int( k ); hi2 = x; } sym_check( x == hi2 && x && fk::at( x ).alive && x != hi, "asking for an image gives another handle or a dead one" ); }
		if ( op == 2 ) { auto x = r.createImageView( view ); if ( oi < 0 ) { oi = int( k ); hi = r.createImage( img ); } if ( ov < 0 ) { ov = int( k ); hv = x; } sym_check( x == hv && x && fk::at( x ).alive && fk::at( x ).view.image == hi, "asking for a view gives another handle, a dead one or one of another image" ); }
		if ( op == 3 && ov < 0 ) { bool own = oi == int( k ); sym_check( r.destroyImage( img ) == own, "destroying an image reports another owner" ); if ( own ) { sym_check( !fk::at( hi ).alive, "a destroyed image lives on" ); oi = -1; hi = {}; sym_reach( "destroy" ); } }
		if ( op == 4 ) { bool own = ov == int( k ); sym_check( r.destroyImageView( view ) == own, "destroying a view reports another owner" ); if ( own ) { sym_check( !fk::at( hv ).alive, "a destroyed view lives on" ); ov = -1; hv = {}; } }
		if ( op == 5 && ov < 0 ) { c[k].reset(); for ( auto o : { &oi, &oi2 } ) if ( *o == int( k ) ) *o = -1; if ( oi < 0 ) hi = {}; if ( oi2 < 0 ) hi2 = {}; sym_reach( "drop" ); }
		sym_check( fk::live( fk::TImage ) == uint32_t( ( oi >= 0 ) + ( oi2 >= 0 ) ) && fk::live( fk::TView ) == uint32_t( ov >= 0 ), "an object is destroyed though its cache still owns it, or the reverse" ); }
	if ( ov >= 0 ) c[ov].reset(); }
	sym_check( fk::live( fk::TImage ) == 0 && fk::live( fk::TView ) == 0 && fk::live( fk::TMemory ) == 0, "an object outlives its cache" ); sym_reach( "churn" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: views( true ); break; case 1: images(); break; case 2: samplers( false, false ); break; case 3: samplers( true, false ); break; case 4: samplers( true, true ); break; case 5: vertices(); break; case 6: churn( 4 ); break; case 7: churn( 5 ); break; } }
