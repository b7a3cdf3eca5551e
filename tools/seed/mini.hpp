// A tiny fake Vulkan device for the demonstrations: hands out handles, logs calls.
#pragma once
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mini
{
	using std::string;
	using std::vector;
	template< typename H > uint64_t u( H h ) { return uint64_t( h ); }
	struct Call
	{
		string fn;
		vector< uint64_t > a;
		vector< VkImageMemoryBarrier > ib;
		vector< VkBufferMemoryBarrier > bb;
		VkPipelineStageFlags src{}, dst{};
		vector< VkImageBlit > blits;
		vector< VkImageCopy > copies;
		vector< VkBufferCopy > bufCopies;
		vector< VkBufferImageCopy > bufImgCopies;
		vector< VkImageSubresourceRange > ranges;
		vector< VkAttachmentDescription > atts;
		vector< VkClearValue > clears;
		vector< VkWriteDescriptorSet > writes;
	};
	inline vector< Call > & log() { static vector< Call > v; return v; }
	inline uint64_t next() { static uint64_t n = 100u; return ++n; }
	inline std::map< string, vector< uint64_t > > & created() { static std::map< string, vector< uint64_t > > m; return m; }
	inline std::map< string, vector< uint64_t > > & destroyed() { static std::map< string, vector< uint64_t > > m; return m; }
	inline string & failing() { static string s; return s; }  // name of a call that must fail
	inline int & failAfter() { static int n = 0; return n; }
	inline Call & add( string fn, vector< uint64_t > a = {} ) { log().push_back( { std::move( fn ), std::move( a ) } ); return log().back(); }
	inline bool fails( string const & fn ) { return failing() == fn && failAfter()-- <= 0; }
	inline uint64_t ticks( bool set = false, uint64_t v = 0 ) { static uint64_t t = 1000; if ( set ) t = v; return t; }


#define MINI_CREATE( N ) if ( n == "vkCreate" #N ) return PFN_vkVoidFunction( +[]( VkDevice, void const *, void const *, uint64_t * o ) -> VkResult {\
		if ( fails( "vkCreate" #N ) ) { *o = 0; return VK_ERROR_OUT_OF_DEVICE_MEMORY; }\
		*o = next(); created()[#N].push_back( *o ); add( "vkCreate" #N, { *o } ); return VK_SUCCESS; } );\
	if ( n == "vkDestroy" #N ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t h, void const * ) { destroyed()[#N].push_back( h ); add( "vkDestroy" #N, { h } ); } )
	inline PFN_vkVoidFunction VKAPI_CALL proc( VkDevice, char const * name )
	{
		string n{ name };
		MINI_CREATE( PipelineLayout );
		MINI_CREATE( DescriptorSetLayout );
		MINI_CREATE( DescriptorPool );
		MINI_CREATE( Buffer );
		MINI_CREATE( Framebuffer );
		MINI_CREATE( Image );
		MINI_CREATE( ImageView );
		MINI_CREATE( Sampler );
		MINI_CREATE( CommandPool );
		MINI_CREATE( Semaphore );
		MINI_CREATE( QueryPool );
		MINI_CREATE( Event );
		MINI_CREATE( Fence );
		if ( n == "vkDestroyRenderPass" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t h, void const * ) { destroyed()["RenderPass"].push_back( h ); } );
		if ( n == "vkCreateRenderPass" ) return PFN_vkVoidFunction( +[]( VkDevice, VkRenderPassCreateInfo const * i, void const *, uint64_t * o ) -> VkResult {
			*o = next(); created()["RenderPass"].push_back( *o );
			auto & c = add( "vkCreateRenderPass", { *o } ); c.atts.assign( i->pAttachments, i->pAttachments + i->attachmentCount ); return VK_SUCCESS; } );
		if ( n == "vkCreateGraphicsPipelines" || n == "vkCreateComputePipelines" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t, uint32_t cnt, void const *, void const *, uint64_t * o ) -> VkResult {
			for ( uint32_t i = 0; i < cnt; ++i ) { o[i] = next(); created()["Pipeline"].push_back( o[i] ); } return VK_SUCCESS; } );
		if ( n == "vkDestroyPipeline" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t h, void const * ) { destroyed()["Pipeline"].push_back( h ); } );
		if ( n == "vkAllocateMemory" ) return PFN_vkVoidFunction( +[]( VkDevice, void const *, void const *, uint64_t * o ) -> VkResult {
			if ( fails( "vkAllocateMemory" ) ) return VK_ERROR_OUT_OF_DEVICE_MEMORY;
			*o = next(); created()["Memory"].push_back( *o ); return VK_SUCCESS; } );
		if ( n == "vkFreeMemory" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t h, void const * ) { destroyed()["Memory"].push_back( h ); add( "vkFreeMemory", { h } ); } );
		if ( n == "vkAllocateCommandBuffers" ) return PFN_vkVoidFunction( +[]( VkDevice, VkCommandBufferAllocateInfo const * i, uint64_t * o ) -> VkResult { for ( uint32_t k = 0; k < i->commandBufferCount; ++k ) o[k] = next(); return VK_SUCCESS; } );
		if ( n == "vkAllocateDescriptorSets" ) return PFN_vkVoidFunction( +[]( VkDevice, VkDescriptorSetAllocateInfo const * i, uint64_t * o ) -> VkResult { for ( uint32_t k = 0; k < i->descriptorSetCount; ++k ) o[k] = next(); return VK_SUCCESS; } );
		if ( n == "vkGetImageMemoryRequirements" || n == "vkGetBufferMemoryRequirements" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t, VkMemoryRequirements * o ) { *o = { 4096u, 256u, 1u }; } );
		if ( n == "vkMapMemory" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t, VkDeviceSize, VkDeviceSize, VkFlags, void ** o ) -> VkResult { static char buf[1 << 16]; *o = buf; return VK_SUCCESS; } );
		if ( n == "vkGetQueryPoolResults" ) return PFN_vkVoidFunction( +[]( VkDevice, uint64_t, uint32_t first, uint32_t count, size_t, void * data, VkDeviceSize stride, VkFlags ) -> VkResult {
			for ( uint32_t i = 0; i < count; ++i ) { uint64_t v = ticks() * ( first + i ); memcpy( (char *)data + i * stride, &v, 8u ); } add( "vkGetQueryPoolResults", { first, count } ); return VK_SUCCESS; } );
		if ( n == "vkUpdateDescriptorSets" ) return PFN_vkVoidFunction( +[]( VkDevice, uint32_t c, VkWriteDescriptorSet const * w, uint32_t, void const * ) { auto & k = add( "vkUpdateDescriptorSets" ); k.writes.assign( w, w + c ); for ( auto & x : k.writes ) k.a.push_back( u( x.dstSet ) ); } );
		if ( n == "vkQueueSubmit" ) return PFN_vkVoidFunction( +[]( VkQueue, uint32_t c, VkSubmitInfo const * s, uint64_t f ) -> VkResult { auto & k = add( "vkQueueSubmit" ); for ( uint32_t i = 0; i < c; ++i ) { k.a.push_back( s[i].waitSemaphoreCount ); for ( uint32_t j = 0; j < s[i].waitSemaphoreCount; ++j ) { k.a.push_back( u( s[i].pWaitSemaphores[j] ) ); k.a.push_back( s[i].pWaitDstStageMask[j] ); } } return VK_SUCCESS; } );
		if ( n == "vkCmdPipelineBarrier" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, VkPipelineStageFlags s, VkPipelineStageFlags d, VkFlags, uint32_t, void const *, uint32_t bc, VkBufferMemoryBarrier const * bb, uint32_t ic, VkImageMemoryBarrier const * ib ) {
			auto & k = add( "vkCmdPipelineBarrier" ); k.src = s; k.dst = d; k.bb.assign( bb, bb + bc ); k.ib.assign( ib, ib + ic ); } );
		if ( n == "vkCmdBlitImage" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t s, VkFlags sl, uint64_t d, VkFlags dl, uint32_t c, VkImageBlit const * r, uint32_t f ) { auto & k = add( "vkCmdBlitImage", { s, sl, d, dl, f } ); k.blits.assign( r, r + c ); } );
		if ( n == "vkCmdCopyImage" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t s, VkFlags sl, uint64_t d, VkFlags dl, uint32_t c, VkImageCopy const * r ) { auto & k = add( "vkCmdCopyImage", { s, sl, d, dl } ); k.copies.assign( r, r + c ); } );
		if ( n == "vkCmdCopyBuffer" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t s, uint64_t d, uint32_t c, VkBufferCopy const * r ) { auto & k = add( "vkCmdCopyBuffer", { s, d } ); k.bufCopies.assign( r, r + c ); } );
		if ( n == "vkCmdCopyBufferToImage" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t s, uint64_t d, VkFlags l, uint32_t c, VkBufferImageCopy const * r ) { auto & k = add( "vkCmdCopyBufferToImage", { s, d, l } ); k.bufImgCopies.assign( r, r + c ); } );
		if ( n == "vkCmdCopyImageToBuffer" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t s, VkFlags l, uint64_t d, uint32_t c, VkBufferImageCopy const * r ) { auto & k = add( "vkCmdCopyImageToBuffer", { s, d, l } ); k.bufImgCopies.assign( r, r + c ); } );
		if ( n == "vkCmdClearColorImage" || n == "vkCmdClearDepthStencilImage" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t i, VkFlags l, void const *, uint32_t c, VkImageSubresourceRange const * r ) { auto & k = add( "clear", { i, l } ); k.ranges.assign( r, r + c ); } );
		if ( n == "vkCmdFillBuffer" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t b, VkDeviceSize o, VkDeviceSize s, uint32_t v ) { add( "vkCmdFillBuffer", { b, o, s, v } ); } );
		if ( n == "vkCmdBeginRenderPass" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, VkRenderPassBeginInfo const * b, uint32_t ) { auto & k = add( "vkCmdBeginRenderPass", { u( b->renderPass ), u( b->framebuffer ), b->renderArea.extent.width, b->renderArea.extent.height } ); k.clears.assign( b->pClearValues, b->pClearValues + b->clearValueCount ); } );
		if ( n == "vkCmdDispatch" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint32_t x, uint32_t y, uint32_t z ) { add( "vkCmdDispatch", { x, y, z } ); } );
		if ( n == "vkCmdDispatchIndirect" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t b, VkDeviceSize o ) { add( "vkCmdDispatchIndirect", { b, o } ); } );
		if ( n == "vkCmdDraw" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint32_t a, uint32_t b, uint32_t c, uint32_t d ) { add( "vkCmdDraw", { a, b, c, d } ); } );
		if ( n == "vkCmdDrawIndexed" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t e ) { add( "vkCmdDrawIndexed", { a, b, c, d, e } ); } );
		if ( n == "vkCmdBindDescriptorSets" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint32_t p, uint64_t l, uint32_t f, uint32_t c, uint64_t const * s, uint32_t, void const * ) { add( "vkCmdBindDescriptorSets", { p, l, f, c ? s[0] : 0u } ); } );
		if ( n == "vkCmdBindPipeline" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint32_t p, uint64_t l ) { add( "vkCmdBindPipeline", { p, l } ); } );
		if ( n == "vkCmdWriteTimestamp" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint32_t s, uint64_t p, uint32_t q ) { add( "vkCmdWriteTimestamp", { s, p, q } ); } );
		if ( n == "vkCmdResetQueryPool" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer, uint64_t p, uint32_t f, uint32_t c ) { add( "vkCmdResetQueryPool", { p, f, c } ); } );
		if ( n == "vkWaitForFences" ) return PFN_vkVoidFunction( +[]( VkDevice, uint32_t, uint64_t const * f, VkBool32, uint64_t ) -> VkResult { add( "vkWaitForFences", { f[0] } ); return VK_SUCCESS; } );
		if ( n == "vkResetFences" ) return PFN_vkVoidFunction( +[]( VkDevice, uint32_t, uint64_t const * f ) -> VkResult { add( "vkResetFences", { f[0] } ); return VK_SUCCESS; } );
		if ( n == "vkBeginCommandBuffer" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer c, void const * ) -> VkResult { add( "vkBeginCommandBuffer", { u( c ) } ); return VK_SUCCESS; } );
		if ( n == "vkResetCommandBuffer" ) return PFN_vkVoidFunction( +[]( VkCommandBuffer c, VkFlags ) -> VkResult { add( "vkResetCommandBuffer", { u( c ) } ); return VK_SUCCESS; } );
		return PFN_vkVoidFunction( +[]() -> VkResult { return VK_SUCCESS; } );
	}

	inline crg::GraphContext & ctx( bool separate = false, float period = 1.0f )
	{
		VkPhysicalDeviceMemoryProperties mp{};
		mp.memoryTypeCount = 1u;
		mp.memoryTypes[0] = { VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT | VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, 0u };
		mp.memoryHeapCount = 1u;
		mp.memoryHeaps[0] = { 1u << 30u, 0u };
		VkPhysicalDeviceProperties pp{};
		pp.limits.timestampPeriod = period;
		static crg::GraphContext c{ VkDevice( 1u ), VK_NULL_HANDLE, nullptr, mp, pp, separate, &proc };
		return c;
	}
	inline crg::ImageData image( string name, VkFormat f, uint32_t mips = 1u, uint32_t layers = 1u, VkExtent3D e = { 64u, 64u, 1u } )
	{
		return crg::ImageData{ std::move( name ), 0u, VK_IMAGE_TYPE_2D, f, e, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT, mips, layers };
	}
	inline VkImageAspectFlags aspect( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_D16_UNORM: case VK_FORMAT_D32_SFLOAT: case VK_FORMAT_X8_D24_UNORM_PACK32: return VK_IMAGE_ASPECT_DEPTH_BIT;
		case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT: return VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
		case VK_FORMAT_S8_UINT: return VK_IMAGE_ASPECT_STENCIL_BIT;
		default: return VK_IMAGE_ASPECT_COLOR_BIT;
		}
	}
	inline crg::ImageViewData view( string name, crg::ImageId i, uint32_t mip = 0u, uint32_t mips = 1u, uint32_t layer = 0u, uint32_t layers = 1u, VkImageViewType t = VK_IMAGE_VIEW_TYPE_2D )
	{
		auto f = i.data->info.format;
		return crg::ImageViewData{ std::move( name ), i, 0u, t, f, { aspect( f ), mip, mips, layer, layers } };
	}
	using RecordFn = std::function< void( crg::RecordContext &, VkCommandBuffer, uint32_t ) >;
	// A pass doing whatever the function says.
	inline crg::RunnablePassCreator pass( RecordFn rec = {}, std::function< bool() > enabled = {}, std::function< uint32_t() > index = {}, crg::ru::Config config = {}, VkPipelineStageFlags stage = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, bool compute = false )
	{
		return [=]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & g ) -> crg::RunnablePassPtr
		{
			crg::RunnablePass::Callbacks cb{ crg::RunnablePass::InitialiseCallback( []( uint32_t ){} ), crg::RunnablePass::GetPipelineStateCallback( [stage](){ return crg::PipelineState{ crg::getAccessMask( VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ), stage }; } ) };
			cb.record = crg::RunnablePass::RecordCallback( [rec]( crg::RecordContext & rc, VkCommandBuffer b, uint32_t i ){ if ( rec ) rec( rc, b, i ); } );
			if ( enabled ) cb.isEnabled = crg::RunnablePass::IsEnabledCallback( enabled );
			if ( index ) cb.getPassIndex = crg::RunnablePass::GetPassIndexCallback( index );
			cb.isComputePass = crg::RunnablePass::IsComputePassCallback( [compute](){ return compute; } );
			return std::make_unique< crg::RunnablePass >( fp, c, g, std::move( cb ), config );
		};
	}
	// All barriers recorded on an image since a position of the log.
	inline vector< VkImageMemoryBarrier > barriers( uint64_t image, size_t from = 0u )
	{
		vector< VkImageMemoryBarrier > r;
		for ( size_t i = from; i < log().size(); ++i )
			for ( auto & b : log()[i].ib )
				if ( u( b.image ) == image ) r.push_back( b );
		return r;
	}
	inline vector< VkBufferMemoryBarrier > bufBarriers( uint64_t buffer, size_t from = 0u )
	{
		vector< VkBufferMemoryBarrier > r;
		for ( size_t i = from; i < log().size(); ++i )
			for ( auto & b : log()[i].bb )
				if ( u( b.buffer ) == buffer ) r.push_back( b );
		return r;
	}
	// Layout every (layer, mip) of an image ends up in.
	struct Layouts
	{
		std::map< std::pair< uint32_t, uint32_t >, VkImageLayout > cells;
		bool ok{ true };
		void apply( VkImageMemoryBarrier const & b )
		{
			for ( uint32_t l = 0; l < b.subresourceRange.layerCount; ++l )
				for ( uint32_t m = 0; m < b.subresourceRange.levelCount; ++m )
				{
					auto & c = cells[{ b.subresourceRange.baseArrayLayer + l, b.subresourceRange.baseMipLevel + m }];
					if ( b.oldLayout != VK_IMAGE_LAYOUT_UNDEFINED && b.oldLayout != c ) { ok = false; fprintf( stderr, "wrong old layout %d, is %d\n", int( b.oldLayout ), int( c ) ); }
					c = b.newLayout;
				}
		}
	};
	inline int & failures() { static int n = 0; return n; }
	inline void expect( bool c, char const * what )
	{
		if ( !c ) { ++failures(); fprintf( stderr, "FAILED: %s\n", what ); }
	}
	inline int done() { fflush( stderr ); if ( failures() ) _Exit( 1 ); fprintf( stderr, "ok\n" ); _Exit( 0 ); }
}
