// C10: attachments translate to the right layout, access, stage and descriptor
#include "common.hpp"
using namespace hc;
namespace {
uint32_t const SR = VK_ACCESS_SHADER_READ_BIT, SW = VK_ACCESS_SHADER_WRITE_BIT, TR = VK_ACCESS_TRANSFER_READ_BIT, TW = VK_ACCESS_TRANSFER_WRITE_BIT, CR = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, CW = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, DR = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, DW = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
enum Kind { Sampled, ImplC, ImplD, ImplDS, StoI, StoO, StoCl, StoIO, TrI, TrO, TrIO, ColI, ColO, ColIO, DepI, DepO, DepIO, DsI, DsO, DsIO, StI, StO, StIO, Count };
VkAttachmentLoadOp const LOAD = VK_ATTACHMENT_LOAD_OP_LOAD, CLR = VK_ATTACHMENT_LOAD_OP_CLEAR, LDC = VK_ATTACHMENT_LOAD_OP_DONT_CARE; VkAttachmentStoreOp const STO = VK_ATTACHMENT_STORE_OP_STORE, SDC = VK_ATTACHMENT_STORE_OP_DONT_CARE;
RunnablePassCreator none() { return []( FramePass const &, GraphContext &, RunnableGraph & ) { return RunnablePassPtr{}; }; }
void image() {
	ResourceHandler h; FrameGraph g{ h, "g" }; auto & pass = g.createPass( "p", none() ); uint32_t kind = pickIdx( "kind", Count ), nviews = pickIdx( "views", 2 ) + 1, idx = nviews == 1 ? pickIdx( "index", 2 ) : pickIdx( "index", nviews ); bool sep = flag( "separate" ), compute = flag( "compute" ); uint32_t binding = uint32_t( sym_bits( "binding", 32 ) );
	bool depth = kind >= DepI && kind <= DepIO, ds = ( kind >= DsI && kind <= DsIO ), st = kind >= StI && kind <= StIO; depth = depth || kind == ImplD; ds = ds || kind == ImplDS; bool both = ( depth || st ) && flag( "both" ); auto fmt = ds || both ? VK_FORMAT_D24_UNORM_S8_UINT : st ? VK_FORMAT_S8_UINT : depth ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM;
	auto img = h.createImageId( imgData( "i", VK_IMAGE_TYPE_2D, fmt, { 16, 16, 1 }, 4, 2 ) ); ImageViewIdArray views; for ( uint32_t i = 0; i < nviews; ++i ) views.push_back( h.createViewId( viewData( i ? "v1" : "v0", img, VK_IMAGE_VIEW_TYPE_2D, rng( getAspectMask( fmt ), i, 1, 0, 1 ) ) ) );
	SamplerDesc sd{ VK_FILTER_LINEAR, VK_FILTER_NEAREST, VK_SAMPLER_MIPMAP_MODE_LINEAR, VK_SAMPLER_ADDRESS_MODE_REPEAT, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_BORDER, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT, 0.5f, 1.0f, 3.0f }; VkClearValue cv{}; for ( auto & x : cv.color.uint32 ) x = 0x3F800001; auto want = VkImageLayout( uint32_t( sym_range( "wanted", 0, 8 ) ) ); VkPipelineColorBlendAttachmentState blend{ VK_TRUE, VK_BLEND_FACTOR_ONE, VK_BLEND_FACTOR_SRC_ALPHA, VK_BLEND_OP_ADD, VK_BLEND_FACTOR_ZERO, VK_BLEND_FACTOR_ONE, VK_BLEND_OP_MAX, 7 };
	switch ( kind ) {
	case Sampled: pass.addSampledView( views, binding, sd ); break; case ImplC: pass.addImplicitColourView( views, want ); break; case ImplD: pass.addImplicitDepthView( views, want ); break; case ImplDS: pass.addImplicitDepthStencilView( views, want ); break;
	case StoI: pass.addInputStorageView( views, binding ); break; case StoO: pass.addOutputStorageView( views, binding ); break; case StoCl: pass.addClearableOutputStorageView( views, binding ); break; case StoIO: pass.addInOutStorageView( views, binding ); break;
	case TrI: pass.addTransferInputView( views ); break; case TrO: pass.addTransferOutputView( views ); break; case TrIO: pass.addTransferInOutView( views ); break;
	case ColI: pass.addInputColourView( views ); break; case ColO: pass.addOutputColourView( views, cv ); break; case ColIO: pass.addInOutColourView( views, blend ); break;
	case DepI: pass.addInputDepthView( views ); break; case DepO: pass.addOutputDepthView( views, cv ); break; case DepIO: pass.addInOutDepthView( views ); break;
	case DsI: pass.addInputDepthStencilView( views ); break; case DsO: pass.addOutputDepthStencilView( views, cv ); break; case DsIO: pass.addInOutDepthStencilView( views ); break;
	case StI: pass.addInputStencilView( views ); break; case StO: pass.addOutputStencilView( views, cv ); break; default: pass.addInOutStencilView( views ); break;
	}
	sym_check( pass.images.size() == 1 && pass.buffers.empty(), "one attachment call declares another number of attachments" ); auto & a = pass.images.front();
	bool in = kind == Sampled || kind == ImplC || kind == ImplD || kind == ImplDS || kind == StoI || kind == StoIO || kind == TrI || kind == TrIO || kind == ColI || kind == ColIO || kind == DepI || kind == DepIO || kind == DsI || kind == DsIO || kind == StI || kind == StIO;
	bool out = kind == StoO || kind == StoCl || kind == StoIO || kind == TrO || kind == TrIO || kind == ColO || kind == ColIO || kind == DepO || kind == DepIO || kind == DsO || kind == DsIO || kind == StO || kind == StIO;
	sym_check( a.isInput() == in && a.isOutput() == out && a.isInOut() == ( in && out ), "an attachment's direction is not the declared one" ); sym_check( a.isImage() && !a.isBuffer(), "an image attachment is taken for a buffer" ); sym_check( a.isClearable() == ( kind == StoCl ), "an attachment is cleared though it should not, or the reverse" );
	sym_check( a.getViewCount() == nviews && a.view( idx ) == views[nviews == 1 ? 0 : idx] && a.getBufferCount() == 0, "an attachment gives another view than the declared one" );
	bool sto = kind >= StoI && kind <= StoIO, tr = kind >= TrI && kind <= TrIO, col = kind >= ColI && kind <= ColIO, dep = kind >= DepI && kind <= DepIO, dst = kind >= DsI && kind <= DsIO, imp = kind >= ImplC && kind <= ImplDS;
	sym_check( a.isSampledView() == ( kind == Sampled ) && a.isStorageView() == sto && a.isTransferView() == tr && a.isTransitionView() == imp && a.isColourAttach() == col && a.isDepthAttach() == ( dep || dst ) && a.isStencilAttach() == ( st || dst ) && a.imageAttach.isDepthStencilAttach() == dst, "an attachment's kind is not the declared one" );
	VkImageLayout lay{}; uint32_t acc = 0, stg = 0; auto sh = uint32_t( compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
	if ( kind == Sampled ) { lay = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; acc = SR; stg = sh; }
	else if ( imp ) { lay = want; acc = getAccessMask( want ); stg = getStageMask( want ); }
	else if ( sto ) { lay = VK_IMAGE_LAYOUT_GENERAL; acc = ( in ? SR : 0 ) | ( out ? SW : 0 ); stg = sh; }
	else if ( tr ) { lay = out ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; acc = ( in ? TR : 0 ) | ( out ? TW : 0 ); stg = VK_PIPELINE_STAGE_TRANSFER_BIT; }
	else if ( col ) { lay = VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL; acc = ( in ? CR : 0 ) | ( out ? CW : 0 ); stg = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT; }
	else { bool d1 = dep && sep && !both, s1 = st && sep && !both; lay = out ? ( d1 ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : s1 ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL ) : ( d1 ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : s1 ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL ); acc = ( in ? DR : 0 ) | ( out ? DW : 0 ); stg = VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT; }
	sym_check( a.getImageLayout( sep ) == lay, "an attachment's layout does not permit its declared use" ); sym_check( a.getAccessMask() == acc, "an attachment's access is not its declared use" ); 
	auto gs = a.getPipelineStageFlags( compute ); if ( dep || dst || st ) sym_check( ( gs & VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) != 0 && ( gs & ~uint32_t( VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT ) ) == 0, "an attachment's stages are not those of its use" ); else sym_check( gs == stg, "an attachment's stages are not those of its use" );
	if ( kind == Sampled ) sym_check( a.getDescriptorType() == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER && a.binding == binding && a.imageAttach.samplerDesc == sd, "a sampled attachment loses its binding, sampler or descriptor type" ); if ( sto ) sym_check( a.getDescriptorType() == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE && a.binding == binding, "a storage attachment loses its binding or descriptor type" );
	auto lo = a.getLoadOp(); auto so = a.getStoreOp(); auto slo = a.getStencilLoadOp(); auto sso = a.getStencilStoreOp();
	if ( col || dep || dst ) sym_check( lo == ( in ? LOAD : CLR ) && so == ( out ? STO : SDC ), "load or store operations are not those of the direction" ); else sym_check( lo == LDC && so == SDC, "load or store operations on something that is not an attachment of the render pass" );
	if ( dst || st ) sym_check( slo == ( in ? LOAD : CLR ) && sso == ( out ? STO : SDC ), "stencil load or store operations are not those of the direction" ); else sym_check( slo == LDC && sso == SDC, "stencil operations on an attachment without stencil" );
	if ( out && !in && ( col || dep || dst || st ) ) sym_check( a.getClearValue().color.uint32[0] == 0x3F800001 && a.getClearValue().color.uint32[3] == 0x3F800001, "a clear value is lost" ); if ( kind == ColIO ) sym_check( a.getBlendState().srcAlphaBlendFactor == VK_BLEND_FACTOR_ZERO && a.getBlendState().colorWriteMask == 7 && a.getBlendState().blendEnable == VK_TRUE && a.getBlendState().alphaBlendOp == VK_BLEND_OP_MAX, "a blend state is lost" );
	sym_reach( in && out ? "inout" : in ? "in" : "out" ); sym_obs( lay );
}
enum BKind { Impl, Uni, SI, SO, SCl, SIO, ImplV, UniV, SIV, SOV, SClV, SIOV, TI, TO, TIO, BCount };
void buffer() {
	ResourceHandler h; FrameGraph g{ h, "g" }; auto & pass = g.createPass( "p", none() ); uint32_t kind = pickIdx( "kind", BCount ), n = pickIdx( "bufs", 2 ) + 1, idx = pickIdx( "index", n ); bool compute = flag( "compute" ); uint32_t binding = uint32_t( sym_bits( "binding", 32 ) ); uint64_t off = sym_bits( "off", 64 ), size = sym_bits( "size", 64 ); AccessState want{ uint32_t( sym_bits( "wacc", 32 ) ), uint32_t( sym_bits( "wstg", 32 ) ) };
	VkBufferArray arr; for ( uint32_t i = 0; i < n; ++i ) arr.push_back( fk::mk< VkBuffer >( 0x1000 + i ) ); Buffer b{ arr, "b" }; VkBufferView v = fk::mk< VkBufferView >( 0x77 );
	switch ( kind ) {
	case Impl: pass.addImplicitBuffer( b, off, size, want ); break; case Uni: pass.addUniformBuffer( b, binding, off, size ); break; case SI: pass.addInputStorageBuffer( b, binding, off, size ); break; case SO: pass.addOutputStorageBuffer( b, binding, off, size ); break; case SCl: pass.addClearableOutputStorageBuffer( b, binding, off, size ); break; case SIO: pass.addInOutStorageBuffer( b, binding, off, size ); break;
	case ImplV: pass.addImplicitBufferView( b, v, off, size, want ); break; case UniV: pass.addUniformBufferView( b, v, binding, off, size ); break; case SIV: pass.addInputStorageBufferView( b, v, binding, off, size ); break; case SOV: pass.addOutputStorageBufferView( b, v, binding, off, size ); break; case SClV: pass.addClearableOutputStorageBufferView( b, v, binding, off, size ); break; case SIOV: pass.addInOutStorageBufferView( b, v, binding, off, size ); break;
	case TI: pass.addTransferInputBuffer( b, off, size ); break; case TO: pass.addTransferOutputBuffer( b, off, size ); break; default: pass.addTransferInOutBuffer( b, off, size ); break;
	}
	sym_check( pass.buffers.size() == 1 && pass.images.empty(), "one attachment call declares another number of attachments" ); auto & a = pass.buffers.front(); uint32_t k = kind >= ImplV && kind <= SIOV ? kind - ImplV : kind; bool view = kind >= ImplV && kind <= SIOV, tr = kind >= TI;
	bool in = k == Impl || k == Uni || k == SI || k == SIO || k == TI || k == TIO, out = k == SO || k == SCl || k == SIO || k == TO || k == TIO, sto = k >= SI && k <= SIO;
	sym_check( a.isInput() == in && a.isOutput() == out, "a buffer attachment's direction is not the declared one" ); sym_check( a.isBuffer() && !a.isImage(), "a buffer attachment is taken for an image" ); sym_check( a.isClearable() == ( k == SCl ), "a buffer is cleared though it should not, or the reverse" ); sym_check( a.getBufferCount() == n && a.buffer( idx ) == arr[idx] && a.getViewCount() == 0, "an attachment gives another buffer than the declared one" ); sym_check( a.getBufferRange().offset == off && a.getBufferRange().size == size, "an attachment's buffer range is not the declared one" );
	sym_check( a.isUniformBuffer() == ( k == Uni ) && a.isStorageBuffer() == sto && a.isTransferBuffer() == tr && a.isTransitionBuffer() == ( k == Impl ), "a buffer attachment's kind is not the declared one" );
	uint32_t acc = tr ? ( ( in ? TR : 0 ) | ( out ? TW : 0 ) ) : k == Impl ? want.access : ( ( in ? SR : 0 ) | ( out ? SW : 0 ) ), stg = tr ? uint32_t( VK_PIPELINE_STAGE_TRANSFER_BIT ) : k == Impl ? want.pipelineStage : uint32_t( compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
	auto ga = a.getAccessMask(); if ( k == Uni ) sym_check( ga != 0 && ( ga & ~uint32_t( SR | VK_ACCESS_UNIFORM_READ_BIT ) ) == 0, "a uniform buffer is not read-only" ); else sym_check( ga == acc, "a buffer's access is not its declared use" ); sym_check( a.getPipelineStageFlags( compute ) == stg, "a buffer's stages are not those of its use" );
	if ( k == Uni || sto ) {
		auto type = k == Uni ? ( view ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER ) : ( view ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER ); sym_check( a.getDescriptorType() == type && a.binding == binding, "a buffer attachment loses its binding or descriptor type" );
		auto w = a.getBufferWrite( idx ); sym_check( w->dstBinding == binding && w->descriptorCount == 1 && w->dstArrayElement == 0 && w->descriptorType == type, "a buffer's descriptor write has another binding, count or type" );
		if ( view ) sym_check( w.texelBufferView.size() == 1 && w.texelBufferView[0] == v, "a buffer view's descriptor write does not name the view" ); else sym_check( w.bufferInfo.size() == 1 && w.bufferInfo[0].buffer == arr[idx] && w.bufferInfo[0].offset == off && w.bufferInfo[0].range == size, "a buffer's descriptor write names another buffer or range" );
	}
	sym_reach( "buffer" ); sym_obs( stg );
}
// two declarations are equal exactly when nothing declared differs
void equality() {
	ResourceHandler h; FrameGraph g{ h, "g" }; auto & pass = g.createPass( "p", none() ); auto img = h.createImageId( imgData( "i", VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16, 16, 1 }, 4, 2 ) ); ImageViewId v[2]; for ( uint32_t i = 0; i < 2; ++i ) v[i] = h.createViewId( viewData( i ? "v1" : "v0", img, VK_IMAGE_VIEW_TYPE_2D, rng( 1, i, 1, 0, 1 ) ) );
	uint32_t what = pickIdx( "what", 5 ); bool same = true;
	if ( what == 0 ) { VkImageLayout l[2]; uint32_t w[2]; for ( int i = 0; i < 2; ++i ) { l[i] = VkImageLayout( uint32_t( sym_range( i ? "l1" : "l0", 0, 7 ) ) ); w[i] = pickIdx( i ? "w1" : "w0", 2 ); pass.addImplicitColourView( v[w[i]], l[i] ); } same = l[0] == l[1] && w[0] == w[1]; }
	if ( what == 1 ) { AccessState s[2]; for ( int i = 0; i < 2; ++i ) { s[i] = { uint32_t( sym_bits( i ? "a1" : "a0", 32 ) ), uint32_t( sym_bits( i ? "s1" : "s0", 32 ) ) }; pass.addImplicitBuffer( Buffer{ fk::mk< VkBuffer >( 5 ), "b" }, 0, 16, s[i] ); } same = s[0].access == s[1].access && s[0].pipelineStage == s[1].pipelineStage; }
	if ( what == 2 ) { uint64_t o[2], z[2]; for ( int i = 0; i < 2; ++i ) { o[i] = sym_bits( i ? "o1" : "o0", 64 ); z[i] = sym_bits( i ? "z1" : "z0", 64 ); pass.addInputStorageBuffer( Buffer{ fk::mk< VkBuffer >( 5 ), "b" }, 0, o[i], z[i] ); } same = o[0] == o[1] && z[0] == z[1]; }
	if ( what == 3 ) { SamplerDesc d[2]; for ( int i = 0; i < 2; ++i ) { std::string n = i ? "1" : "0"; d[i].magFilter = VkFilter( sym_range( ( "mag" + n ).c_str(), 0, 1 ) ); d[i].minFilter = VkFilter( sym_range( ( "min" + n ).c_str(), 0, 1 ) ); d[i].mipmapMode = VkSamplerMipmapMode( sym_range( ( "mip" + n ).c_str(), 0, 1 ) ); d[i].addressModeU = VkSamplerAddressMode( sym_range( ( "u" + n ).c_str(), 0, 3 ) ); d[i].addressModeV = VkSamplerAddressMode( sym_range( ( "v" + n ).c_str(), 0, 3 ) ); d[i].addressModeW = VkSamplerAddressMode( sym_range( ( "w" + n ).c_str(), 0, 3 ) ); pass.addSampledView( v[0], 0, d[i] ); } same = d[0].magFilter == d[1].magFilter && d[0].minFilter == d[1].minFilter && d[0].mipmapMode == d[1].mipmapMode && d[0].addressModeU == d[1].addressModeU && d[0].addressModeV == d[1].addressModeV && d[0].addressModeW == d[1].addressModeW; }
	if ( what == 4 ) { VkClearValue c[2]{}; for ( int i = 0; i < 2; ++i ) { c[i].color.uint32[0] = uint32_t( sym_bits( i ? "c1" : "c0", 32 ) ); c[i].color.uint32[3] = uint32_t( sym_bits( i ? "d1" : "d0", 32 ) ); pass.addOutputColourView( v[0], c[i] ); } same = c[0].color.uint32[0] == c[1].color.uint32[0] && c[0].color.uint32[3] == c[1].color.uint32[3]; }
	auto & list = pass.images.empty() ? pass.buffers : pass.images; sym_check( ( list[0] == list[1] ) == same, "attachments that differ compare equal, or the reverse" ); sym_check( list[0] == list[0] && ( list[1] == list[0] ) == ( list[0] == list[1] ), "attachment comparison is not reflexive and symmetric" ); sym_reach( same ? "equal" : "unequal" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: image(); break; case 1: buffer(); break; case 2: equality(); break; } }
