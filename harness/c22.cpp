// C22: descriptors bind every declared attachment at its declared binding
#include "common.hpp"
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
using namespace hc;
namespace {
// what one attachment must give
struct Want { bool bound{}; uint32_t binding{}; VkDescriptorType type{}; VkBuffer buf[2]{}; VkBufferView texel{}; uint64_t off{}, size{}; ImageViewId view[2]; VkFilter filter{}; bool sampler{}; };
enum Kind { Sampled, StoreIn, StoreOut, StoreInOut, UBuf, SBufIn, SBufOut, SBufInOut, UView, SViewIn, SViewOut, TransIn, TransBuf, StoreClear, SBufClear, SViewClear, SViewInOut, ImpView, ImpBuf, KindCount };
Want declare( ResourceHandler & h, FramePass & p, std::string const & n, uint32_t kind, uint32_t views )
{
	Want w; w.binding = uint32_t( sym_bits( ( n + "binding" ).c_str(), 32 ) ); w.off = sym_bits( ( n + "offset" ).c_str(), 64 ); w.size = sym_bits( ( n + "size" ).c_str(), 64 ); sym_assume( w.size > 0 && w.size < ( 1ull << 62 ) && w.off < ( 1ull << 62 ) );
	bool image = kind <= StoreInOut || kind == TransIn || kind == StoreClear || kind == ImpView; w.bound = kind != TransIn && kind != TransBuf && kind != ImpView && kind != ImpBuf;
	ImageViewIdArray vs; VkBufferArray bs; VkFormat f = kind == Sampled && forkIdx( n + "depth", 2 ) ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM;
	for ( uint32_t i = 0; i < views; ++i ) {
		if ( image ) { auto s = n + std::to_string( i ); auto im = h.createImageId( imgData( s.c_str(), VK_IMAGE_TYPE_2D, f, { 8, 8, 1 }, 2, 2 ) ); vs.push_back( h.createViewId( viewData( s.c_str(), im, VK_IMAGE_VIEW_TYPE_2D, rng( getAspectMask( f ), i, 1, 1 - i, 1 ) ) ) ); }
		else bs.push_back( fk::mk< VkBuffer >( fk::add( fk::TBuffer ) ) ); }
	for ( uint32_t i = 0; i < 2; ++i ) { if ( image ) w.view[i] = vs[i % views]; else w.buf[i] = bs[i % views]; }
	auto texel = VkBufferView( uintptr_t( 0x7000 + uint32_t( n[1] ) ) );
	SamplerDesc sd; w.filter = VkFilter( kind == Sampled ? forkIdx( n + "filter", 2 ) : 0 ); sd.minFilter = w.filter;
	auto buf = [&]() { return Buffer{ bs, n }; };
	switch ( kind ) {
	case Sampled: p.addSampledView( vs, w.binding, sd ); w.type = VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER; w.sampler = true; break;
	case StoreIn: p.addInputStorageView( vs, w.binding ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; break;
	case StoreOut: p.addOutputStorageView( vs, w.binding ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; break;
	case StoreInOut: p.addInOutStorageView( vs, w.binding ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; break;
	case StoreClear: p.addClearableOutputStorageView( vs, w.binding ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; break;
	case UBuf: p.addUniformBuffer( buf(), w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER; break;
	case SBufIn: p.addInputStorageBuffer( buf(), w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; break;
	case SBufOut: p.addOutputStorageBuffer( buf(), w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; break;
	case SBufInOut: p.addInOutStorageBuffer( buf(), w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; break;
	case SBufClear: p.addClearableOutputStorageBuffer( buf(), w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_BUFFER; break;
	case UView: p.addUniformBufferView( buf(), texel, w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER; w.texel = texel; break;
	case SViewIn: p.addInputStorageBufferView( buf(), texel, w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; w.texel = texel; break;
	case SViewOut: p.addOutputStorageBufferView( buf(), texel, w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; w.texel = texel; break;
	case SViewInOut: p.addInOutStorageBufferView( buf(), texel, w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; w.texel = texel; break;
	case SViewClear: p.addClearableOutputStorageBufferView( buf(), texel, w.binding, w.off, w.size ); w.type = VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER; w.texel = texel; break;
	case TransIn: p.addTransferInputView( vs ); break;
	case TransBuf: p.addTransferInputBuffer( buf(), w.off, w.size ); break;
	case ImpView: p.addImplicitColourView( vs, VK_IMAGE_LAYOUT_GENERAL ); break;
	case ImpBuf: p.addImplicitBuffer( buf(), w.off, w.size, AccessState{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } ); break; }
	return w;
}
void bind( uint32_t count, bool graphics )
{
	auto ctx = fk::context(); ResourceHandler h; FrameGraph g{ h, "g" }; uint32_t idx = 0; std::map< std::pair< uint32_t, uint32_t >, VkImageLayout > at; RunnableGraph * rg{}; std::vector< Want > ws;
	VkShaderStageFlags need = graphics ? VK_SHADER_STAGE_VERTEX_BIT | VK_SHADER_STAGE_FRAGMENT_BIT : VK_SHADER_STAGE_COMPUTE_BIT; VkPipelineShaderStageCreateInfo st{}; st.sType = VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO;
	// the layouts of the attached images when the pass's own commands run
	auto rec = RunnablePass::RecordCallback( [&]( RecordContext &, VkCommandBuffer, uint32_t i ) { for ( uint32_t k = 0; k < ws.size(); ++k ) if ( ws[k].bound && ws[k].view[i].data ) { auto & v = *ws[k].view[i].data; at[{ k, i }] = fk::layoutOf( fk::raw( rg->createImage( v.image ) ), v.info.subresourceRange.baseArrayLayer, v.info.subresourceRange.baseMipLevel ); } } );
	auto & p = g.createPass( "p", [&]( FramePass const & fp, GraphContext & x, RunnableGraph & r ) -> RunnablePassPtr {
		rg = &r;
		if ( graphics ) { rq::Config c; c.program( { st } ).passIndex( &idx ).recordInto( rec ); return std::make_unique< RenderQuad >( fp, x, r, ru::Config{ 2 }, c ); }
		cp::Config c; c.program( { st } ).getPassIndex( RunnablePass::GetPassIndexCallback( [&]() { return idx; } ) ).recordInto( rec ); return std::make_unique< ComputePass >( fp, x, r, ru::Config{ 2 }, c ); } );
	for ( uint32_t k = 0; k < count; ++k ) { auto n = "a" + std::to_string( k ); auto kind = forkIdx( n + "kind", KindCount ); ws.push_back( declare( h, p, n, kind, 1 + forkIdx( n + "views", 2 ) ) ); for ( uint32_t j = 0; j < k; ++j ) sym_assume( ws[j].binding != ws[k].binding ); }
	if ( graphics ) { auto im = h.createImageId( imgData( "target", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 8, 8, 1 }, 1, 1 ) ); p.addOutputColourView( h.createViewId( viewData( "target", im, VK_IMAGE_VIEW_TYPE_2D, rng( 1, 0, 1, 0, 1 ) ) ) ); }
	auto run = g.compile( *ctx ); uint64_t sets[2]{};
	for ( idx = 0; idx < 2; ++idx ) {
		fk::w().cmds.clear(); run->record(); fk::Cmd const * b{}; fk::Cmd const * pipe{}; for ( auto & x : fk::w().cmds ) { if ( x.kind == fk::CBindSets ) { sym_check( !b, "descriptors are bound twice" ); b = &x; } if ( x.kind == fk::CBindPipe ) pipe = &x; } sym_check( b && pipe && b->hs.size() == 1, "no descriptor set is bound" ); sets[idx] = b->hs[0];
		auto & lay = fk::at( fk::at( b->hs[0] ).setLayout ); auto & pool = fk::at( fk::at( b->hs[0] ).parent );
		uint32_t bound = 0; for ( auto & w : ws ) bound += w.bound;
		sym_check( lay.bindings.size() == bound, "the descriptor layout has a binding for another number of attachments" );
		sym_check( fk::at( fk::at( pipe->src ).pipeLayout ).layoutSets[0] == fk::at( b->hs[0] ).setLayout, "the bound descriptors are not of the pipeline's layout" );
		uint32_t writes = 0; for ( auto & x : fk::w().writes ) writes += x.set == b->hs[0];
		sym_check( writes == bound, "another number of descriptors than attachments is written" );
		for ( uint32_t k = 0; k < count; ++k ) {
			auto & w = ws[k]; if ( !w.bound ) continue; uint32_t inLayout = 0, inWrites = 0, need_ = 0;
			for ( auto & x : lay.bindings ) if ( x.binding == w.binding ) { ++inLayout; sym_check( x.descriptorType == w.type && x.descriptorCount == 1, "a binding has another descriptor type than its attachment" ); sym_check( ( x.stageFlags & need ) == need, "a binding is not visible to the pass's shaders" ); }
			sym_check( inLayout == 1, "an attachment has no binding of its own in the layout" );
			for ( auto & o : ws ) need_ += o.bound && o.type == w.type; uint32_t room = 0; for ( auto & s : pool.poolSizes ) if ( s.type == w.type ) room += s.descriptorCount; sym_check( room >= 2 * need_ && pool.maxSets >= 2, "the descriptor pool is too small for its sets" );
			for ( auto & x : fk::w().writes ) if ( x.set == b->hs[0] && x.binding == w.binding ) {
				++inWrites; sym_check( x.element == 0 && x.type == w.type, "an attachment is written with another descriptor type" );
				if ( w.texel ) sym_check( x.texels.size() == 1 && x.texels[0] == w.texel, "a texel buffer descriptor refers to another view" );
				else if ( w.buf[0] ) { sym_check( x.bufs.size() == 1 && fk::raw( x.bufs[0].buffer ) == fk::raw( w.buf[idx] ), "a buffer descriptor refers to another buffer" ); sym_check( ( x.bufs[0].offset == w.off ) & ( x.bufs[0].range == w.size ), "a buffer descriptor covers another range" ); }
				else { sym_check( x.imgs.size() == 1 && fk::raw( x.imgs[0].imageView ) == fk::raw( run->createImageView( w.view[idx] ) ), "an image descriptor refers to another view" ); sym_check( x.imgs[0].imageLayout == at[{ k, idx }], "an image descriptor announces another layout than the image has" ); if ( w.sampler ) sym_check( fk::at( x.imgs[0].sampler ).type == fk::TSampler && fk::at( x.imgs[0].sampler ).samp.minFilter == w.filter, "an image descriptor uses another sampler" ); } }
			sym_check( inWrites == 1, "an attachment has no descriptor of its own" );
			sym_reach( w.texel ? "texel" : w.buf[0] ? "buffer" : w.sampler ? "sampled" : "storage" ); } }
	sym_check( sets[0] != sets[1], "two pass indices share a descriptor set" );
}
}
extern "C" void sym_main() { fk::w().on |= fk::LAYOUT; switch ( sym_scenario() ) { case 0: bind( 1, false ); break; case 1: bind( 1, true ); break; case 2: bind( 2, false ); break; case 3: bind( 2, true ); break; } }
