#include "sim.hpp"
#include <cassert>
#include <cstring>
#include <sstream>
#include <algorithm>

namespace sim
{
	SIM_TLS Device * g = nullptr;

	char const * name( Ty t )
	{
		static char const * n[] = { "None", "Image", "ImageView", "Buffer", "BufferView", "Memory", "Sampler", "RenderPass", "Framebuffer", "Pipeline", "PipelineLayout",
			"SetLayout", "DescPool", "DescSet", "CmdPool", "CmdBuf", "Semaphore", "Fence", "QueryPool", "Event", "Shader", "Device", "Queue", "Cache" };
		return n[int( t )];
	}
	char const * name( CK k )
	{
		static char const * n[] = { "Barrier", "BindPipeline", "BindSets", "BindVB", "BindIB", "ClearColor", "ClearDS", "Dispatch", "DispatchIndirect", "Draw", "DrawIndexed",
			"DrawIndirect", "DrawIndexedIndirect", "BeginRP", "EndRP", "Push", "ResetQuery", "Timestamp", "Blit", "CopyBuffer", "CopyBufImg", "CopyImg",
			"CopyImgBuf", "Fill", "BeginLabel", "EndLabel", "Use", "Mark", "Other" };
		return n[int( k )];
	}

	Device::Device() { g = this; }
	Device::~Device() { if ( g == this ) g = nullptr; }

	Obj & Device::make( Ty t, uint64_t parent )
	{
		uint64_t h = ( uint64_t( t ) << 40 ) | ( ( ( next++ ) ^ handleMask ) << 4 );
		auto o = std::make_unique< Obj >();
		o->ty = t; o->h = h; o->parent = parent; o->seq = uint32_t( order.size() );
		order.push_back( h );
		return *objs.emplace( h, std::move( o ) ).first->second;
	}
	std::string Device::show( uint64_t h )const
	{
		if ( !h ) return "null";
		auto it = objs.find( h );
		if ( it == objs.end() ) { std::ostringstream s; s << "unknown(0x" << std::hex << h << ")"; return s.str(); }
		return std::string( sim::name( it->second->ty ) ) + "#" + std::to_string( it->second->seq ) + ( it->second->name.empty() ? "" : "'" + it->second->name + "'" );
	}
	void Device::fail( std::string cat, std::string msg )
	{
		if ( viols.size() < 64u ) viols.push_back( { std::move( cat ), std::move( msg ) } );
	}
	bool Device::has( std::string const & cat )const
	{
		return std::any_of( viols.begin(), viols.end(), [&]( Viol const & v ) { return v.cat == cat; } );
	}
	std::string Device::first( std::string const & cat )const
	{
		for ( auto & v : viols ) if ( v.cat == cat ) return v.msg;
		return {};
	}
	Obj * Device::find( uint64_t h, Ty t )
	{
		auto it = objs.find( h );
		return ( it == objs.end() || it->second->ty != t ) ? nullptr : it->second.get();
	}
	Obj * Device::use( uint64_t h, Ty t, char const * where )
	{
		auto o = find( h, t );
		if ( !o ) { fail( "lifetime", std::string( where ) + ": " + show( h ) + " is not a " + sim::name( t ) ); return nullptr; }
		if ( !o->alive ) { fail( "lifetime", std::string( where ) + ": " + show( h ) + " is already destroyed" ); return nullptr; }
		return o;
	}
	static bool inflightRef( Device & d, uint64_t h )
	{
		for ( auto & s : d.subs ) if ( !s.done && s.refs.count( h ) ) return true;
		return false;
	}
	void Device::kill( uint64_t h, Ty t, char const * where )
	{
		++calls[where];
		if ( !h ) return; // destroying null is allowed
		auto o = use( h, t, where );
		if ( !o ) return;
		if ( o->external ) fail( "lifetime", std::string( where ) + ": destroys " + show( h ) + " which belongs to the user" );
		if ( inflightRef( *this, h ) ) fail( "inflight", std::string( where ) + ": destroys " + show( h ) + " while a submission using it is pending" );
		if ( o->parent )
		{
			auto it = objs.find( o->parent );
			if ( it == objs.end() || !it->second->alive ) fail( "lifetime", std::string( where ) + ": " + show( h ) + " outlived its parent " + show( o->parent ) );
		}
		o->alive = false;
		events.push_back( { std::string( "destroy " ) + sim::name( t ), h, 0 } );
		for ( auto & [_, cb] : objs )
			if ( cb->ty == Ty::CmdBuf && cb->refs.count( h ) ) cb->invalid = true;
		// children owned by a pool go with it
		if ( t == Ty::DescPool || t == Ty::CmdPool )
			for ( auto & [_, c] : objs )
				if ( c->alive && c->parent == h && ( c->ty == Ty::DescSet || c->ty == Ty::CmdBuf ) )
				{
					if ( inflightRef( *this, c->h ) ) fail( "inflight", std::string( where ) + ": frees " + show( c->h ) + " while pending" );
					c->alive = false;
				}
	}
	bool Device::fault( char const * what )
	{
		++calls[what];
		auto n = faultable++;
		faultableNames.emplace_back( what );
		if ( n == faultAt ) { faulted = what; return true; }
		return false;
	}
	std::vector< uint64_t > Device::liveOwned()const
	{
		std::vector< uint64_t > r;
		for ( auto h : order ) { auto & o = *objs.at( h ); if ( o.alive && !o.external ) r.push_back( h ); }
		return r;
	}

	uint32_t Device::aspectsOf( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_D16_UNORM: case VK_FORMAT_X8_D24_UNORM_PACK32: case VK_FORMAT_D32_SFLOAT: return VK_IMAGE_ASPECT_DEPTH_BIT;
		case VK_FORMAT_S8_UINT: return VK_IMAGE_ASPECT_STENCIL_BIT;
		case VK_FORMAT_D16_UNORM_S8_UINT: case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT: return VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
		default: return VK_IMAGE_ASPECT_COLOR_BIT;
		}
	}
	uint32_t bytesPerPixel( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_R8_UNORM: case VK_FORMAT_S8_UINT: return 1;
		case VK_FORMAT_D16_UNORM: case VK_FORMAT_R16_SFLOAT: return 2;
		case VK_FORMAT_R16G16B16A16_SFLOAT: return 8;
		case VK_FORMAT_R32G32B32A32_SFLOAT: return 16;
		default: return 4;
		}
	}
	static std::vector< uint32_t > aspectList( uint32_t mask )
	{
		std::vector< uint32_t > r;
		for ( uint32_t b : { VK_IMAGE_ASPECT_COLOR_BIT, VK_IMAGE_ASPECT_DEPTH_BIT, VK_IMAGE_ASPECT_STENCIL_BIT } ) if ( mask & b ) r.push_back( b );
		return r;
	}
	void Device::forSubs( Obj & img, VkImageSubresourceRange const & r0, std::function< void( Sub &, uint32_t, uint32_t, uint32_t ) > f, char const * where )
	{
		auto r = r0;
		if ( r.levelCount == VK_REMAINING_MIP_LEVELS ) r.levelCount = img.ici.mipLevels - std::min( img.ici.mipLevels, r.baseMipLevel );
		if ( r.layerCount == VK_REMAINING_ARRAY_LAYERS ) r.layerCount = img.ici.arrayLayers - std::min( img.ici.arrayLayers, r.baseArrayLayer );
		auto all = aspectsOf( img.ici.format );
		if ( !r.aspectMask || ( r.aspectMask & ~all ) ) fail( "bounds", std::string( where ) + ": aspect mask " + std::to_string( r.aspectMask ) + " not in " + show( img.h ) );
		if ( !r.levelCount || !r.layerCount || r.baseMipLevel + uint64_t( r.levelCount ) > img.ici.mipLevels || r.baseArrayLayer + uint64_t( r.layerCount ) > img.ici.arrayLayers )
		{
			fail( "bounds", std::string( where ) + ": range layers " + std::to_string( r.baseArrayLayer ) + "+" + std::to_string( r.layerCount ) + " mips " + std::to_string( r.baseMipLevel ) + "+" + std::to_string( r.levelCount )
				+ " outside of " + show( img.h ) + " (" + std::to_string( img.ici.arrayLayers ) + " layers, " + std::to_string( img.ici.mipLevels ) + " mips)" );
			return;
		}
		auto al = aspectList( all );
		for ( uint32_t a = 0; a < al.size(); ++a )
		{
			if ( !( al[a] & r.aspectMask ) ) continue;
			for ( uint32_t l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
				for ( uint32_t m = r.baseMipLevel; m < r.baseMipLevel + r.levelCount; ++m )
					f( img.subs[( a * img.ici.arrayLayers + l ) * img.ici.mipLevels + m], al[a], l, m );
		}
	}
	VkImageSubresourceRange Device::viewRange( Obj const & v ) { return v.vci.subresourceRange; }
	void Device::setImage( uint64_t image, VkImageSubresourceRange const & r, VkImageLayout layout, bool defined )
	{
		auto img = find( image, Ty::Image );
		if ( !img ) return;
		auto v = ++contentVersion;
		forSubs( *img, r, [&]( Sub & s, uint32_t, uint32_t, uint32_t ) { s.layout = layout; s.content = s.ideal = defined ? v : 0u; }, "setImage" );
	}
	VkBuffer Device::makeBuffer( VkDeviceSize size, std::string nm )
	{
		auto & o = make( Ty::Buffer );
		o.external = true; o.size = size; o.name = std::move( nm ); o.usage = ~0u; o.mem = 1;
		return as< VkBuffer >( o.h );
	}
	uint64_t Device::makeExternal( Ty t, std::string nm )
	{
		auto & o = make( t );
		o.external = true; o.name = std::move( nm );
		return o.h;
	}
	VkExtent3D Device::mipExtent( Obj const & img, uint32_t mip )const
	{
		auto f = [mip]( uint32_t v ) { return std::max( 1u, v >> mip ); };
		return { f( img.ici.extent.width ), f( img.ici.extent.height ), f( img.ici.extent.depth ) };
	}

	VkDevice deviceHandle() { static int d; return reinterpret_cast< VkDevice >( &d ); }
	VkQueue queueHandle( uint32_t i ) { static int q[4]; return reinterpret_cast< VkQueue >( &q[i] ); }
	VkPhysicalDeviceMemoryProperties memProps()
	{
		VkPhysicalDeviceMemoryProperties r{};
		r.memoryHeapCount = 1; r.memoryHeaps[0].size = 1ull << 32;
		r.memoryTypeCount = uint32_t( g->memTypes.size() );
		for ( size_t i = 0u; i < g->memTypes.size(); ++i ) r.memoryTypes[i].propertyFlags = g->memTypes[i];
		return r;
	}
	VkPhysicalDeviceProperties devProps( float period )
	{
		VkPhysicalDeviceProperties r{};
		r.limits.timestampPeriod = period;
		r.limits.nonCoherentAtomSize = 64;
		return r;
	}

	//********************************************************************************************
	// object creation
	//********************************************************************************************
#define FN( name ) VKAPI_ATTR auto VKAPI_CALL name
#define FAULT( what ) if ( g->fault( what ) ) return g->faultCode
	static void created( Obj & o ) { g->events.push_back( { std::string( "create " ) + name( o.ty ), o.h, 0 } ); }

	static VkResult VKAPI_CALL CreateImage( VkDevice, VkImageCreateInfo const * ci, VkAllocationCallbacks const *, VkImage * out )
	{
		FAULT( "vkCreateImage" );
		auto & o = g->make( Ty::Image );
		o.ici = *ci;
		if ( !ci->extent.width || !ci->extent.height || !ci->extent.depth || !ci->mipLevels || !ci->arrayLayers ) g->fail( "bounds", "vkCreateImage: zero sized image" );
		o.subs.resize( size_t( aspectList( Device::aspectsOf( ci->format ) ).size() ) * ci->mipLevels * ci->arrayLayers );
		for ( auto & s : o.subs ) s.layout = ci->initialLayout;
		*out = as< VkImage >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyImage( VkDevice, VkImage h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Image, "vkDestroyImage" ); }
	static VkResult VKAPI_CALL CreateImageView( VkDevice, VkImageViewCreateInfo const * ci, VkAllocationCallbacks const *, VkImageView * out )
	{
		FAULT( "vkCreateImageView" );
		auto img = g->use( u( ci->image ), Ty::Image, "vkCreateImageView" );
		auto & o = g->make( Ty::View, u( ci->image ) );
		o.vci = *ci;
		if ( img )
		{
			if ( !img->mem && !img->external ) g->fail( "lifetime", "vkCreateImageView: image has no memory bound" );
			auto r = ci->subresourceRange;
			if ( img->ici.imageType == VK_IMAGE_TYPE_3D && ci->viewType != VK_IMAGE_VIEW_TYPE_3D ) { r.baseArrayLayer = 0; r.layerCount = 1; }
			g->forSubs( *img, r, []( Sub &, uint32_t, uint32_t, uint32_t ) {}, "vkCreateImageView" );
		}
		*out = as< VkImageView >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyImageView( VkDevice, VkImageView h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::View, "vkDestroyImageView" ); }
	static VkResult VKAPI_CALL CreateSampler( VkDevice, VkSamplerCreateInfo const * ci, VkAllocationCallbacks const *, VkSampler * out )
	{
		FAULT( "vkCreateSampler" );
		auto & o = g->make( Ty::Sampler );
		o.sci = *ci;
		*out = as< VkSampler >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroySampler( VkDevice, VkSampler h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Sampler, "vkDestroySampler" ); }
	static VkResult VKAPI_CALL CreateBuffer( VkDevice, VkBufferCreateInfo const * ci, VkAllocationCallbacks const *, VkBuffer * out )
	{
		FAULT( "vkCreateBuffer" );
		auto & o = g->make( Ty::Buffer );
		o.size = ci->size; o.usage = ci->usage;
		*out = as< VkBuffer >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyBuffer( VkDevice, VkBuffer h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Buffer, "vkDestroyBuffer" ); }
	static void VKAPI_CALL GetBufferMemoryRequirements( VkDevice, VkBuffer h, VkMemoryRequirements * r )
	{
		++g->calls["vkGetBufferMemoryRequirements"];
		auto o = g->use( u( h ), Ty::Buffer, "vkGetBufferMemoryRequirements" );
		r->size = ( ( o ? o->size : 0 ) + g->memAlign ) / g->memAlign * g->memAlign; r->alignment = g->memAlign; r->memoryTypeBits = uint32_t( g->memTypeBits );
	}
	static void VKAPI_CALL GetImageMemoryRequirements( VkDevice, VkImage h, VkMemoryRequirements * r )
	{
		++g->calls["vkGetImageMemoryRequirements"];
		auto o = g->use( u( h ), Ty::Image, "vkGetImageMemoryRequirements" );
		VkDeviceSize s = o ? uint64_t( o->ici.extent.width ) * o->ici.extent.height * o->ici.extent.depth * o->ici.arrayLayers * 8 : 0;
		r->size = ( s + g->memAlign ) / g->memAlign * g->memAlign; r->alignment = g->memAlign; r->memoryTypeBits = uint32_t( g->memTypeBits );
	}
	static VkResult VKAPI_CALL AllocateMemory( VkDevice, VkMemoryAllocateInfo const * ai, VkAllocationCallbacks const *, VkDeviceMemory * out )
	{
		FAULT( "vkAllocateMemory" );
		auto & o = g->make( Ty::Memory );
		o.size = ai->allocationSize; o.memType = ai->memoryTypeIndex;
		*out = as< VkDeviceMemory >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL FreeMemory( VkDevice, VkDeviceMemory h, VkAllocationCallbacks const * )
	{
		g->kill( u( h ), Ty::Memory, "vkFreeMemory" );
	}
	static VkResult VKAPI_CALL BindImageMemory( VkDevice, VkImage i, VkDeviceMemory m, VkDeviceSize off )
	{
		FAULT( "vkBindImageMemory" );
		auto o = g->use( u( i ), Ty::Image, "vkBindImageMemory" );
		auto mem = g->use( u( m ), Ty::Memory, "vkBindImageMemory" );
		if ( o && mem )
		{
			if ( o->mem ) g->fail( "lifetime", "vkBindImageMemory: image already bound" );
			VkMemoryRequirements r; GetImageMemoryRequirements( deviceHandle(), i, &r );
			if ( off % r.alignment || off + r.size > mem->size ) g->fail( "memory", "vkBindImageMemory: memory too small or misaligned" );
			if ( !( ( r.memoryTypeBits >> mem->memType ) & 1 ) ) g->fail( "memory", "vkBindImageMemory: memory type not allowed" );
			bool anyLocal = false;
			for ( size_t i = 0u; i < g->memTypes.size(); ++i ) anyLocal = anyLocal || ( ( ( g->memTypeBits >> i ) & 1u ) && ( g->memTypes[i] & VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT ) );
			if ( !( memProps().memoryTypes[mem->memType].propertyFlags & VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT ) && anyLocal ) g->fail( "memory", "vkBindImageMemory: image not in device local memory" );
			o->mem = u( m );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL BindBufferMemory( VkDevice, VkBuffer b, VkDeviceMemory m, VkDeviceSize off )
	{
		FAULT( "vkBindBufferMemory" );
		auto o = g->use( u( b ), Ty::Buffer, "vkBindBufferMemory" );
		auto mem = g->use( u( m ), Ty::Memory, "vkBindBufferMemory" );
		if ( o && mem )
		{
			if ( o->mem ) g->fail( "lifetime", "vkBindBufferMemory: buffer already bound" );
			VkMemoryRequirements r; GetBufferMemoryRequirements( deviceHandle(), b, &r );
			if ( off % r.alignment || off + r.size > mem->size ) g->fail( "memory", "vkBindBufferMemory: memory too small or misaligned" );
			if ( !( ( r.memoryTypeBits >> mem->memType ) & 1 ) ) g->fail( "memory", "vkBindBufferMemory: memory type not allowed" );
			o->mem = u( m );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL MapMemory( VkDevice, VkDeviceMemory m, VkDeviceSize off, VkDeviceSize size, VkMemoryMapFlags, void ** out )
	{
		FAULT( "vkMapMemory" );
		auto o = g->use( u( m ), Ty::Memory, "vkMapMemory" );
		if ( !o ) return VK_ERROR_MEMORY_MAP_FAILED;
		if ( o->mapped ) g->fail( "memory", "vkMapMemory: already mapped" );
		if ( !( memProps().memoryTypes[o->memType].propertyFlags & VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT ) ) g->fail( "memory", "vkMapMemory: memory not host visible" );
		if ( size != VK_WHOLE_SIZE && off + size > o->size ) g->fail( "memory", "vkMapMemory: range outside allocation" );
		auto n = size == VK_WHOLE_SIZE ? o->size - off : size;
		if ( !o->map ) o->map = std::make_shared< std::vector< uint8_t > >( o->size );
		(void)n;
		o->mapped = true;
		*out = o->map->data() + off;
		return VK_SUCCESS;
	}
	static void VKAPI_CALL UnmapMemory( VkDevice, VkDeviceMemory m )
	{
		auto o = g->use( u( m ), Ty::Memory, "vkUnmapMemory" );
		if ( o ) { if ( !o->mapped ) g->fail( "memory", "vkUnmapMemory: not mapped" ); o->mapped = false; }
	}
	static VkResult VKAPI_CALL FlushMapped( VkDevice, uint32_t n, VkMappedMemoryRange const * r )
	{
		for ( uint32_t i = 0; i < n; ++i ) { auto o = g->use( u( r[i].memory ), Ty::Memory, "vkFlushMappedMemoryRanges" ); if ( o && !o->mapped ) g->fail( "memory", "vkFlushMappedMemoryRanges: not mapped" ); }
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL InvalidateMapped( VkDevice d, uint32_t n, VkMappedMemoryRange const * r ) { return FlushMapped( d, n, r ); }

	static VkResult VKAPI_CALL CreateRenderPass( VkDevice, VkRenderPassCreateInfo const * ci, VkAllocationCallbacks const *, VkRenderPass * out )
	{
		FAULT( "vkCreateRenderPass" );
		auto & o = g->make( Ty::RenderPass );
		o.atts.assign( ci->pAttachments, ci->pAttachments + ci->attachmentCount );
		if ( ci->subpassCount != 1 ) g->fail( "renderpass", "vkCreateRenderPass: expected one subpass" );
		if ( ci->subpassCount )
		{
			auto & s = ci->pSubpasses[0];
			if ( s.colorAttachmentCount ) o.colorRefs.assign( s.pColorAttachments, s.pColorAttachments + s.colorAttachmentCount );
			if ( s.inputAttachmentCount ) o.inputRefs.assign( s.pInputAttachments, s.pInputAttachments + s.inputAttachmentCount );
			if ( s.pDepthStencilAttachment ) { o.hasDepth = true; o.depthRef = *s.pDepthStencilAttachment; }
		}
		o.deps.assign( ci->pDependencies, ci->pDependencies + ci->dependencyCount );
		for ( auto & r : o.colorRefs ) if ( r.attachment >= o.atts.size() ) g->fail( "renderpass", "vkCreateRenderPass: colour reference out of range" );
		if ( o.hasDepth && o.depthRef.attachment >= o.atts.size() ) g->fail( "renderpass", "vkCreateRenderPass: depth reference out of range" );
		for ( auto & a : o.atts )
		{
			if ( a.finalLayout == VK_IMAGE_LAYOUT_UNDEFINED || a.finalLayout == VK_IMAGE_LAYOUT_PREINITIALIZED ) g->fail( "renderpass", "vkCreateRenderPass: undefined final layout" );
			auto asp = Device::aspectsOf( a.format );
			if ( a.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED )
			{
				if ( ( asp & ( VK_IMAGE_ASPECT_COLOR_BIT | VK_IMAGE_ASPECT_DEPTH_BIT ) ) && a.loadOp == VK_ATTACHMENT_LOAD_OP_LOAD ) g->fail( "renderpass", "vkCreateRenderPass: loads an attachment with undefined initial layout" );
				if ( ( asp & VK_IMAGE_ASPECT_STENCIL_BIT ) && a.stencilLoadOp == VK_ATTACHMENT_LOAD_OP_LOAD ) g->fail( "renderpass", "vkCreateRenderPass: loads a stencil attachment with undefined initial layout" );
			}
		}
		*out = as< VkRenderPass >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyRenderPass( VkDevice, VkRenderPass h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::RenderPass, "vkDestroyRenderPass" ); }
	static VkResult VKAPI_CALL CreateFramebuffer( VkDevice, VkFramebufferCreateInfo const * ci, VkAllocationCallbacks const *, VkFramebuffer * out )
	{
		FAULT( "vkCreateFramebuffer" );
		auto rp = g->use( u( ci->renderPass ), Ty::RenderPass, "vkCreateFramebuffer" );
		auto & o = g->make( Ty::Framebuffer );
		o.rp = u( ci->renderPass ); o.w = ci->width; o.hgt = ci->height; o.layers = ci->layers;
		for ( uint32_t i = 0; i < ci->attachmentCount; ++i )
		{
			o.views.push_back( u( ci->pAttachments[i] ) );
			auto v = g->use( o.views.back(), Ty::View, "vkCreateFramebuffer" );
			if ( v && rp && i < rp->atts.size() && rp->atts[i].format != v->vci.format ) g->fail( "renderpass", "vkCreateFramebuffer: view format differs from the render pass attachment" );
			if ( v )
			{
				auto img = g->find( u( v->vci.image ), Ty::Image );
				if ( v->vci.subresourceRange.levelCount != 1 ) g->fail( "renderpass", "vkCreateFramebuffer: attachment view has several mip levels" );
				if ( img )
				{
					auto e = g->mipExtent( *img, v->vci.subresourceRange.baseMipLevel );
					if ( e.width < o.w || e.height < o.hgt ) g->fail( "renderpass", "vkCreateFramebuffer: attachment smaller than the framebuffer" );
					uint32_t lay = img->ici.imageType == VK_IMAGE_TYPE_3D ? e.depth : v->vci.subresourceRange.layerCount;
					if ( lay < o.layers ) g->fail( "renderpass", "vkCreateFramebuffer: attachment has fewer layers than the framebuffer" );
				}
			}
		}
		if ( rp && rp->atts.size() != o.views.size() ) g->fail( "renderpass", "vkCreateFramebuffer: attachment count differs from the render pass" );
		if ( !o.w || !o.hgt || !o.layers ) g->fail( "renderpass", "vkCreateFramebuffer: empty framebuffer" );
		*out = as< VkFramebuffer >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyFramebuffer( VkDevice, VkFramebuffer h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Framebuffer, "vkDestroyFramebuffer" ); }

	static VkResult VKAPI_CALL CreateGraphicsPipelines( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * ci, VkAllocationCallbacks const *, VkPipeline * out )
	{
		FAULT( "vkCreateGraphicsPipelines" );
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto & c = ci[i];
			auto rp = g->use( u( c.renderPass ), Ty::RenderPass, "vkCreateGraphicsPipelines" );
			g->use( u( c.layout ), Ty::PipelineLayout, "vkCreateGraphicsPipelines" );
			auto & o = g->make( Ty::Pipeline );
			o.layout = u( c.layout ); o.rp = u( c.renderPass );
			for ( uint32_t s = 0; s < c.stageCount; ++s ) o.stages.push_back( { c.pStages[s].stage, u( c.pStages[s].module ), c.pStages[s].pName ? c.pStages[s].pName : "" } );
			if ( c.pViewportState )
			{
				if ( c.pViewportState->pViewports ) o.viewports.assign( c.pViewportState->pViewports, c.pViewportState->pViewports + c.pViewportState->viewportCount );
				if ( c.pViewportState->pScissors ) o.scissors.assign( c.pViewportState->pScissors, c.pViewportState->pScissors + c.pViewportState->scissorCount );
			}
			if ( c.pColorBlendState && c.pColorBlendState->pAttachments ) o.blends.assign( c.pColorBlendState->pAttachments, c.pColorBlendState->pAttachments + c.pColorBlendState->attachmentCount );
			if ( c.pVertexInputState )
			{
				auto & v = *c.pVertexInputState;
				if ( v.vertexBindingDescriptionCount ) o.vbinds.assign( v.pVertexBindingDescriptions, v.pVertexBindingDescriptions + v.vertexBindingDescriptionCount );
				if ( v.vertexAttributeDescriptionCount ) o.vattrs.assign( v.pVertexAttributeDescriptions, v.pVertexAttributeDescriptions + v.vertexAttributeDescriptionCount );
			}
			if ( c.pInputAssemblyState ) o.iasm = *c.pInputAssemblyState;
			if ( c.pDepthStencilState ) { o.hasDss = true; o.dss = *c.pDepthStencilState; }
			if ( c.pRasterizationState ) o.ras = *c.pRasterizationState;
			if ( c.pMultisampleState ) o.ms = *c.pMultisampleState;
			if ( rp && o.blends.size() != rp->colorRefs.size() ) g->fail( "renderpass", "vkCreateGraphicsPipelines: " + std::to_string( o.blends.size() ) + " blend states for " + std::to_string( rp->colorRefs.size() ) + " colour attachments" );
			out[i] = as< VkPipeline >( o.h ); created( o );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL CreateComputePipelines( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * ci, VkAllocationCallbacks const *, VkPipeline * out )
	{
		FAULT( "vkCreateComputePipelines" );
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto & c = ci[i];
			g->use( u( c.layout ), Ty::PipelineLayout, "vkCreateComputePipelines" );
			auto & o = g->make( Ty::Pipeline );
			o.compute = true; o.layout = u( c.layout );
			o.stages.push_back( { c.stage.stage, u( c.stage.module ), c.stage.pName ? c.stage.pName : "" } );
			out[i] = as< VkPipeline >( o.h ); created( o );
		}
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyPipeline( VkDevice, VkPipeline h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Pipeline, "vkDestroyPipeline" ); }
	static VkResult VKAPI_CALL CreatePipelineLayout( VkDevice, VkPipelineLayoutCreateInfo const * ci, VkAllocationCallbacks const *, VkPipelineLayout * out )
	{
		FAULT( "vkCreatePipelineLayout" );
		auto & o = g->make( Ty::PipelineLayout );
		for ( uint32_t i = 0; i < ci->setLayoutCount; ++i ) { o.setLayouts.push_back( u( ci->pSetLayouts[i] ) ); g->use( o.setLayouts.back(), Ty::SetLayout, "vkCreatePipelineLayout" ); }
		if ( ci->pushConstantRangeCount ) o.pcs.assign( ci->pPushConstantRanges, ci->pPushConstantRanges + ci->pushConstantRangeCount );
		*out = as< VkPipelineLayout >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyPipelineLayout( VkDevice, VkPipelineLayout h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::PipelineLayout, "vkDestroyPipelineLayout" ); }
	static VkResult VKAPI_CALL CreateDescriptorSetLayout( VkDevice, VkDescriptorSetLayoutCreateInfo const * ci, VkAllocationCallbacks const *, VkDescriptorSetLayout * out )
	{
		FAULT( "vkCreateDescriptorSetLayout" );
		auto & o = g->make( Ty::SetLayout );
		if ( ci->bindingCount ) o.binds.assign( ci->pBindings, ci->pBindings + ci->bindingCount );
		for ( size_t i = 0; i < o.binds.size(); ++i ) for ( size_t j = 0; j < i; ++j )
			if ( o.binds[i].binding == o.binds[j].binding ) g->fail( "descriptor", "vkCreateDescriptorSetLayout: binding " + std::to_string( o.binds[i].binding ) + " appears twice" );
		*out = as< VkDescriptorSetLayout >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyDescriptorSetLayout( VkDevice, VkDescriptorSetLayout h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::SetLayout, "vkDestroyDescriptorSetLayout" ); }
	static VkResult VKAPI_CALL CreateDescriptorPool( VkDevice, VkDescriptorPoolCreateInfo const * ci, VkAllocationCallbacks const *, VkDescriptorPool * out )
	{
		FAULT( "vkCreateDescriptorPool" );
		auto & o = g->make( Ty::DescPool );
		o.maxSets = ci->maxSets; o.flags = ci->flags;
		for ( uint32_t i = 0; i < ci->poolSizeCount; ++i )
		{
			o.sizes.push_back( ci->pPoolSizes[i] ); o.used.push_back( { ci->pPoolSizes[i].type, 0u } );
			if ( !ci->pPoolSizes[i].descriptorCount ) g->fail( "descriptor", "vkCreateDescriptorPool: empty pool size" );
		}
		if ( !o.maxSets ) g->fail( "descriptor", "vkCreateDescriptorPool: no set" );
		*out = as< VkDescriptorPool >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyDescriptorPool( VkDevice, VkDescriptorPool h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::DescPool, "vkDestroyDescriptorPool" ); }
	static bool poolTake( Obj & p, Obj & sl, int dir )
	{
		auto used = p.used; auto sets = int64_t( p.usedSets ) + dir;
		if ( sets < 0 || sets > p.maxSets ) return false;
		for ( auto & b : sl.binds )
		{
			int64_t need = int64_t( b.descriptorCount ) * dir;
			bool done = need == 0;
			for ( size_t i = 0; i < used.size() && !done; ++i )
			{
				if ( used[i].type != b.descriptorType ) continue;
				int64_t cur = used[i].descriptorCount;
				if ( dir > 0 )
				{
					int64_t room = int64_t( p.sizes[i].descriptorCount ) - cur;
					int64_t t = std::min( room, need ); used[i].descriptorCount += uint32_t( t ); need -= t;
				}
				else { int64_t t = std::min( cur, -need ); used[i].descriptorCount -= uint32_t( t ); need += t; }
				done = need == 0;
			}
			if ( !done ) return false;
		}
		p.used = used; p.usedSets = uint32_t( sets );
		return true;
	}
	static VkResult VKAPI_CALL AllocateDescriptorSets( VkDevice, VkDescriptorSetAllocateInfo const * ai, VkDescriptorSet * out )
	{
		FAULT( "vkAllocateDescriptorSets" );
		auto p = g->use( u( ai->descriptorPool ), Ty::DescPool, "vkAllocateDescriptorSets" );
		for ( uint32_t i = 0; i < ai->descriptorSetCount; ++i )
		{
			auto sl = g->use( u( ai->pSetLayouts[i] ), Ty::SetLayout, "vkAllocateDescriptorSets" );
			if ( p && sl && !poolTake( *p, *sl, 1 ) ) { g->fail( "descriptor", "vkAllocateDescriptorSets: pool exhausted (maxSets " + std::to_string( p->maxSets ) + ", used " + std::to_string( p->usedSets ) + ")" ); }
			auto & o = g->make( Ty::DescSet, u( ai->descriptorPool ) );
			o.setLayout = u( ai->pSetLayouts[i] );
			out[i] = as< VkDescriptorSet >( o.h ); created( o );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL FreeDescriptorSets( VkDevice, VkDescriptorPool pool, uint32_t n, VkDescriptorSet const * s )
	{
		auto p = g->use( u( pool ), Ty::DescPool, "vkFreeDescriptorSets" );
		for ( uint32_t i = 0; i < n; ++i )
		{
			if ( !s[i] ) continue;
			auto o = g->find( u( s[i] ), Ty::DescSet );
			if ( p && !( p->flags & VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) ) g->fail( "lifetime", "vkFreeDescriptorSets: pool does not allow freeing" );
			if ( o && o->parent != u( pool ) ) g->fail( "lifetime", "vkFreeDescriptorSets: set of another pool" );
			if ( o && p && o->alive ) if ( auto sl = g->find( o->setLayout, Ty::SetLayout ) ) poolTake( *p, *sl, -1 );
			g->kill( u( s[i] ), Ty::DescSet, "vkFreeDescriptorSets" );
		}
		return VK_SUCCESS;
	}
	static void VKAPI_CALL UpdateDescriptorSets( VkDevice, uint32_t n, VkWriteDescriptorSet const * w, uint32_t, VkCopyDescriptorSet const * )
	{
		++g->calls["vkUpdateDescriptorSets"];
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto & x = w[i];
			auto o = g->use( u( x.dstSet ), Ty::DescSet, "vkUpdateDescriptorSets" );
			if ( !o ) continue;
			if ( inflightRef( *g, o->h ) ) g->fail( "inflight", "vkUpdateDescriptorSets: set in use by a pending submission" );
			auto sl = g->find( o->setLayout, Ty::SetLayout );
			VkDescriptorSetLayoutBinding const * b{};
			if ( sl ) for ( auto & c : sl->binds ) if ( c.binding == x.dstBinding ) b = &c;
			if ( !b ) { g->fail( "descriptor", "vkUpdateDescriptorSets: binding " + std::to_string( x.dstBinding ) + " not in the set layout" ); continue; }
			if ( b->descriptorType != x.descriptorType ) g->fail( "descriptor", "vkUpdateDescriptorSets: type " + std::to_string( x.descriptorType ) + " written to binding " + std::to_string( x.dstBinding ) + " of type " + std::to_string( b->descriptorType ) );
			if ( x.dstArrayElement + x.descriptorCount > b->descriptorCount ) g->fail( "descriptor", "vkUpdateDescriptorSets: too many descriptors for binding " + std::to_string( x.dstBinding ) );
			if ( !x.descriptorCount ) g->fail( "descriptor", "vkUpdateDescriptorSets: no descriptor written to binding " + std::to_string( x.dstBinding ) );
			for ( uint32_t e = 0; e < x.descriptorCount; ++e )
			{
				Desc d; d.type = x.descriptorType;
				switch ( x.descriptorType )
				{
				case VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER: case VK_DESCRIPTOR_TYPE_STORAGE_IMAGE: case VK_DESCRIPTOR_TYPE_SAMPLED_IMAGE:
					if ( !x.pImageInfo ) { g->fail( "descriptor", "vkUpdateDescriptorSets: missing image info" ); break; }
					d.sampler = u( x.pImageInfo[e].sampler ); d.view = u( x.pImageInfo[e].imageView ); d.layout = x.pImageInfo[e].imageLayout;
					if ( x.descriptorType == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER ) g->use( d.sampler, Ty::Sampler, "vkUpdateDescriptorSets" );
					g->use( d.view, Ty::View, "vkUpdateDescriptorSets" );
					break;
				case VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER: case VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER:
					if ( !x.pTexelBufferView ) { g->fail( "descriptor", "vkUpdateDescriptorSets: missing texel buffer view" ); break; }
					d.bufferView = u( x.pTexelBufferView[e] ); g->use( d.bufferView, Ty::BufferView, "vkUpdateDescriptorSets" );
					break;
				default:
					if ( !x.pBufferInfo ) { g->fail( "descriptor", "vkUpdateDescriptorSets: missing buffer info" ); break; }
					d.buffer = u( x.pBufferInfo[e].buffer ); d.offset = x.pBufferInfo[e].offset; d.range = x.pBufferInfo[e].range;
					g->use( d.buffer, Ty::Buffer, "vkUpdateDescriptorSets" );
				}
				o->descs[{ x.dstBinding, x.dstArrayElement + e }] = d;
			}
		}
	}
	static VkResult VKAPI_CALL CreateCommandPool( VkDevice, VkCommandPoolCreateInfo const * ci, VkAllocationCallbacks const *, VkCommandPool * out )
	{
		FAULT( "vkCreateCommandPool" );
		auto & o = g->make( Ty::CmdPool ); o.flags = ci->flags;
		*out = as< VkCommandPool >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyCommandPool( VkDevice, VkCommandPool h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::CmdPool, "vkDestroyCommandPool" ); }
	static VkResult VKAPI_CALL AllocateCommandBuffers( VkDevice, VkCommandBufferAllocateInfo const * ai, VkCommandBuffer * out )
	{
		FAULT( "vkAllocateCommandBuffers" );
		g->use( u( ai->commandPool ), Ty::CmdPool, "vkAllocateCommandBuffers" );
		for ( uint32_t i = 0; i < ai->commandBufferCount; ++i )
		{
			auto & o = g->make( Ty::CmdBuf, u( ai->commandPool ) );
			out[i] = reinterpret_cast< VkCommandBuffer >( o.h ); created( o );
		}
		return VK_SUCCESS;
	}
	static void VKAPI_CALL FreeCommandBuffers( VkDevice, VkCommandPool p, uint32_t n, VkCommandBuffer const * b )
	{
		g->use( u( p ), Ty::CmdPool, "vkFreeCommandBuffers" );
		for ( uint32_t i = 0; i < n; ++i )
		{
			if ( auto o = g->find( u( b[i] ), Ty::CmdBuf ); o && o->parent != u( p ) ) g->fail( "lifetime", "vkFreeCommandBuffers: buffer of another pool" );
			g->kill( u( b[i] ), Ty::CmdBuf, "vkFreeCommandBuffers" );
		}
	}
	static VkResult VKAPI_CALL CreateSemaphore( VkDevice, VkSemaphoreCreateInfo const *, VkAllocationCallbacks const *, VkSemaphore * out )
	{
		FAULT( "vkCreateSemaphore" );
		auto & o = g->make( Ty::Semaphore );
		*out = as< VkSemaphore >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroySemaphore( VkDevice, VkSemaphore h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Semaphore, "vkDestroySemaphore" ); }
	static VkResult VKAPI_CALL CreateQueryPool( VkDevice, VkQueryPoolCreateInfo const * ci, VkAllocationCallbacks const *, VkQueryPool * out )
	{
		FAULT( "vkCreateQueryPool" );
		auto & o = g->make( Ty::QueryPool ); o.queries.resize( ci->queryCount );
		if ( ci->queryType != VK_QUERY_TYPE_TIMESTAMP ) g->fail( "query", "vkCreateQueryPool: not a timestamp pool" );
		*out = as< VkQueryPool >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyQueryPool( VkDevice, VkQueryPool h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::QueryPool, "vkDestroyQueryPool" ); }
	static VkResult VKAPI_CALL CreateEvent( VkDevice, VkEventCreateInfo const *, VkAllocationCallbacks const *, VkEvent * out )
	{
		FAULT( "vkCreateEvent" );
		auto & o = g->make( Ty::Event );
		*out = as< VkEvent >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyEvent( VkDevice, VkEvent h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Event, "vkDestroyEvent" ); }
	static VkResult VKAPI_CALL CreateFence( VkDevice, VkFenceCreateInfo const * ci, VkAllocationCallbacks const *, VkFence * out )
	{
		FAULT( "vkCreateFence" );
		auto & o = g->make( Ty::Fence ); o.signaled = ci->flags & VK_FENCE_CREATE_SIGNALED_BIT;
		*out = as< VkFence >( o.h ); created( o );
		return VK_SUCCESS;
	}
	static void VKAPI_CALL DestroyFence( VkDevice, VkFence h, VkAllocationCallbacks const * ) { g->kill( u( h ), Ty::Fence, "vkDestroyFence" ); }

	void Device::complete( Submission & s )
	{
		if ( s.done ) return;
		for ( auto & o : subs ) if ( o.queue == s.queue && o.id < s.id ) complete( o );
		s.done = true;
		events.push_back( { "complete", s.cmdBuf, s.id } );
		if ( s.fence ) if ( auto f = find( s.fence, Ty::Fence ) ) if ( f->pendingSub == s.id ) { f->signaled = true; f->pendingSub = 0; }
	}
	void Device::completeAll() { for ( auto & s : subs ) complete( s ); }

	static VkResult VKAPI_CALL GetFenceStatus( VkDevice, VkFence h )
	{
		auto o = g->use( u( h ), Ty::Fence, "vkGetFenceStatus" );
		if ( !o || !o->signaled ) return VK_NOT_READY;
		g->events.push_back( { "fence known signaled", o->h, 0u } );
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL WaitForFences( VkDevice, uint32_t n, VkFence const * h, VkBool32, uint64_t timeout )
	{
		++g->calls["vkWaitForFences"];
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto o = g->use( u( h[i] ), Ty::Fence, "vkWaitForFences" );
			if ( !o ) continue;
			if ( o->signaled ) { g->events.push_back( { "fence known signaled", o->h, 0u } ); continue; }
			++g->waits;
			if ( !o->pendingSub )
			{
				if ( timeout == ~0ull ) { g->fail( "deadlock", "vkWaitForFences: waits forever on " + g->show( o->h ) + ", which nothing will signal" ); continue; }
				return VK_TIMEOUT;
			}
			auto sub = std::find_if( g->subs.begin(), g->subs.end(), [o]( Submission const & s ){ return s.id == o->pendingSub; } );
			// A wait which does not last for ever may end too early, once.
			if ( timeout == 0 || ( timeout != ~0ull && sub->timeouts++ == 0u ) ) return VK_TIMEOUT;
			g->complete( *sub );
			g->events.push_back( { "fence known signaled", o->h, 0u } );
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL ResetFences( VkDevice, uint32_t n, VkFence const * h )
	{
		++g->calls["vkResetFences"];
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto o = g->use( u( h[i] ), Ty::Fence, "vkResetFences" );
			if ( !o ) continue;
			g->events.push_back( { "reset fence", o->h, o->pendingSub } );
			if ( o->pendingSub ) g->fail( "sync", "vkResetFences: " + g->show( o->h ) + " belongs to a pending submission" );
			o->signaled = false;
		}
		return VK_SUCCESS;
	}

	//********************************************************************************************
	// command buffers
	//********************************************************************************************
	static bool pending( uint64_t cb )
	{
		for ( auto & s : g->subs ) if ( !s.done && s.cmdBuf == cb ) return true;
		return false;
	}
	static VkResult VKAPI_CALL ResetCommandBuffer( VkCommandBuffer c, VkCommandBufferResetFlags )
	{
		++g->calls["vkResetCommandBuffer"];
		auto o = g->use( u( c ), Ty::CmdBuf, "vkResetCommandBuffer" );
		if ( !o ) return VK_SUCCESS;
		g->events.push_back( { "reset cmdbuf", o->h, 0 } );
		if ( pending( o->h ) ) g->fail( "sync", "vkResetCommandBuffer: " + g->show( o->h ) + " is still pending" );
		if ( auto p = g->find( o->parent, Ty::CmdPool ); p && !( p->flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) ) g->fail( "sync", "vkResetCommandBuffer: pool does not allow it" );
		o->cb = Obj::CB::Initial; o->cmds.clear(); o->refs.clear(); o->invalid = false;
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL BeginCommandBuffer( VkCommandBuffer c, VkCommandBufferBeginInfo const * bi )
	{
		++g->calls["vkBeginCommandBuffer"];
		auto o = g->use( u( c ), Ty::CmdBuf, "vkBeginCommandBuffer" );
		if ( !o ) return VK_SUCCESS;
		g->events.push_back( { "begin cmdbuf", o->h, 0 } );
		if ( pending( o->h ) ) g->fail( "sync", "vkBeginCommandBuffer: " + g->show( o->h ) + " is still pending" );
		if ( o->cb == Obj::CB::Recording ) g->fail( "cmdstate", "vkBeginCommandBuffer: already recording" );
		o->cb = Obj::CB::Recording; o->cmds.clear(); o->refs.clear(); o->invalid = false; ++o->generation; o->beginFlags = bi->flags;
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL EndCommandBuffer( VkCommandBuffer c )
	{
		++g->calls["vkEndCommandBuffer"];
		auto o = g->use( u( c ), Ty::CmdBuf, "vkEndCommandBuffer" );
		if ( !o ) return VK_SUCCESS;
		if ( o->cb != Obj::CB::Recording ) g->fail( "cmdstate", "vkEndCommandBuffer: not recording" );
		o->cb = Obj::CB::Executable;
		int rp = 0, lab = 0;
		for ( auto & x : o->cmds ) { rp += x.k == CK::BeginRP; rp -= x.k == CK::EndRP; lab += x.k == CK::BeginLabel; lab -= x.k == CK::EndLabel; }
		if ( rp ) g->fail( "cmdstate", "vkEndCommandBuffer: unbalanced render pass" );
		if ( lab ) g->fail( "cmdstate", "vkEndCommandBuffer: unbalanced debug label" );
		return VK_SUCCESS;
	}
	static Cmd * cmd( VkCommandBuffer c, CK k )
	{
		static Cmd dummy;
		auto o = g->use( u( c ), Ty::CmdBuf, name( k ) );
		if ( !o ) { dummy = Cmd{}; return &dummy; }
		if ( o->cb != Obj::CB::Recording ) g->fail( "cmdstate", std::string( name( k ) ) + ": command buffer is not recording" );
		o->cmds.emplace_back();
		o->cmds.back().k = k;
		return &o->cmds.back();
	}
	static void ref( VkCommandBuffer c, uint64_t h, Ty t, CK k )
	{
		auto o = g->use( h, t, name( k ) );
		if ( !o ) return;
		if ( auto b = g->find( u( c ), Ty::CmdBuf ) )
		{
			b->refs.insert( h );
			if ( t == Ty::Framebuffer ) { for ( auto v : o->views ) { b->refs.insert( v ); if ( auto vo = g->find( v, Ty::View ) ) b->refs.insert( u( vo->vci.image ) ); } b->refs.insert( o->rp ); }
		}
	}
	void cmdMark( VkCommandBuffer cb, std::string s, std::vector< int64_t > a )
	{
		auto c = cmd( cb, CK::Mark ); c->s = std::move( s ); c->a = std::move( a );
	}
	void cmdUse( VkCommandBuffer cb, Use const & use )
	{
		auto c = cmd( cb, CK::Use ); c->use = use; c->h = { use.image };
		ref( cb, use.image, Ty::Image, CK::Use );
	}
	static void VKAPI_CALL CmdPipelineBarrier( VkCommandBuffer cb, VkPipelineStageFlags src, VkPipelineStageFlags dst, VkDependencyFlags df
		, uint32_t nm, VkMemoryBarrier const * m, uint32_t nb, VkBufferMemoryBarrier const * b, uint32_t ni, VkImageMemoryBarrier const * im )
	{
		auto c = cmd( cb, CK::Barrier );
		c->a = { src, dst, df };
		c->mb.assign( m, m + nm ); c->bb.assign( b, b + nb ); c->ib.assign( im, im + ni );
		for ( auto & x : c->bb ) { c->h.push_back( u( x.buffer ) ); }
		for ( auto & x : c->ib ) { c->h.push_back( u( x.image ) ); }
		for ( uint32_t i = 0; i < nb; ++i )
		{
			ref( cb, u( b[i].buffer ), Ty::Buffer, CK::Barrier );
			if ( auto o = g->find( u( b[i].buffer ), Ty::Buffer ) )
			{
				if ( b[i].offset >= o->size || ( b[i].size != VK_WHOLE_SIZE && ( !b[i].size || b[i].offset + b[i].size > o->size ) ) ) g->fail( "bounds", "buffer barrier range outside of " + g->show( o->h ) );
			}
		}
		for ( uint32_t i = 0; i < ni; ++i ) ref( cb, u( im[i].image ), Ty::Image, CK::Barrier );
	}
	static void VKAPI_CALL CmdBindPipeline( VkCommandBuffer cb, VkPipelineBindPoint bp, VkPipeline p )
	{
		auto c = cmd( cb, CK::BindPipeline ); c->a = { bp }; c->h = { u( p ) }; ref( cb, u( p ), Ty::Pipeline, CK::BindPipeline );
	}
	static void VKAPI_CALL CmdBindDescriptorSets( VkCommandBuffer cb, VkPipelineBindPoint bp, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * s, uint32_t nd, uint32_t const * d )
	{
		auto c = cmd( cb, CK::BindSets ); c->a = { bp, first, n }; c->h = { u( l ) };
		for ( uint32_t i = 0; i < n; ++i ) c->h.push_back( u( s[i] ) );
		for ( uint32_t i = 0; i < nd; ++i ) c->a.push_back( d[i] );
		ref( cb, u( l ), Ty::PipelineLayout, CK::BindSets );
		for ( uint32_t i = 0; i < n; ++i ) ref( cb, u( s[i] ), Ty::DescSet, CK::BindSets );
	}
	static void VKAPI_CALL CmdBindVertexBuffers( VkCommandBuffer cb, uint32_t first, uint32_t n, VkBuffer const * b, VkDeviceSize const * o )
	{
		auto c = cmd( cb, CK::BindVB ); c->a = { first };
		for ( uint32_t i = 0; i < n; ++i ) { c->h.push_back( u( b[i] ) ); c->a.push_back( int64_t( o[i] ) ); }
		for ( uint32_t i = 0; i < n; ++i ) ref( cb, u( b[i] ), Ty::Buffer, CK::BindVB );
	}
	static void VKAPI_CALL CmdBindIndexBuffer( VkCommandBuffer cb, VkBuffer b, VkDeviceSize o, VkIndexType t )
	{
		auto c = cmd( cb, CK::BindIB ); c->a = { int64_t( o ), t }; c->h = { u( b ) }; ref( cb, u( b ), Ty::Buffer, CK::BindIB );
	}
	static void VKAPI_CALL CmdClearColorImage( VkCommandBuffer cb, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		auto c = cmd( cb, CK::ClearColor ); c->a = { l }; c->h = { u( i ) }; c->ranges.assign( r, r + n ); VkClearValue x{}; x.color = *v; c->clears = { x };
		ref( cb, u( i ), Ty::Image, CK::ClearColor );
	}
	static void VKAPI_CALL CmdClearDepthStencilImage( VkCommandBuffer cb, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		auto c = cmd( cb, CK::ClearDS ); c->a = { l }; c->h = { u( i ) }; c->ranges.assign( r, r + n ); VkClearValue x{}; x.depthStencil = *v; c->clears = { x };
		ref( cb, u( i ), Ty::Image, CK::ClearDS );
	}
	static void VKAPI_CALL CmdDispatch( VkCommandBuffer cb, uint32_t x, uint32_t y, uint32_t z ) { auto c = cmd( cb, CK::Dispatch ); c->a = { x, y, z }; }
	static void VKAPI_CALL CmdDispatchIndirect( VkCommandBuffer cb, VkBuffer b, VkDeviceSize o ) { auto c = cmd( cb, CK::DispatchIndirect ); c->h = { u( b ) }; c->a = { int64_t( o ) }; ref( cb, u( b ), Ty::Buffer, CK::DispatchIndirect ); }
	static void VKAPI_CALL CmdDraw( VkCommandBuffer cb, uint32_t v, uint32_t i, uint32_t fv, uint32_t fi ) { auto c = cmd( cb, CK::Draw ); c->a = { v, i, fv, fi }; }
	static void VKAPI_CALL CmdDrawIndexed( VkCommandBuffer cb, uint32_t n, uint32_t i, uint32_t fi, int32_t vo, uint32_t fin ) { auto c = cmd( cb, CK::DrawIndexed ); c->a = { n, i, fi, vo, fin }; }
	static void VKAPI_CALL CmdDrawIndirect( VkCommandBuffer cb, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ) { auto c = cmd( cb, CK::DrawIndirect ); c->h = { u( b ) }; c->a = { int64_t( o ), n, s }; ref( cb, u( b ), Ty::Buffer, CK::DrawIndirect ); }
	static void VKAPI_CALL CmdDrawIndexedIndirect( VkCommandBuffer cb, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ) { auto c = cmd( cb, CK::DrawIndexedIndirect ); c->h = { u( b ) }; c->a = { int64_t( o ), n, s }; ref( cb, u( b ), Ty::Buffer, CK::DrawIndexedIndirect ); }
	static void VKAPI_CALL CmdBeginRenderPass( VkCommandBuffer cb, VkRenderPassBeginInfo const * bi, VkSubpassContents sc )
	{
		auto c = cmd( cb, CK::BeginRP );
		c->h = { u( bi->renderPass ), u( bi->framebuffer ) };
		c->a = { bi->renderArea.offset.x, bi->renderArea.offset.y, bi->renderArea.extent.width, bi->renderArea.extent.height, sc };
		c->clears.assign( bi->pClearValues, bi->pClearValues + bi->clearValueCount );
		auto rp = g->find( u( bi->renderPass ), Ty::RenderPass ); auto fb = g->find( u( bi->framebuffer ), Ty::Framebuffer );
		ref( cb, u( bi->renderPass ), Ty::RenderPass, CK::BeginRP );
		ref( cb, u( bi->framebuffer ), Ty::Framebuffer, CK::BeginRP );
		if ( rp && fb )
		{
			if ( rp->atts.size() != fb->views.size() ) g->fail( "renderpass", "vkCmdBeginRenderPass: framebuffer does not match the render pass" );
			if ( bi->renderArea.offset.x < 0 || bi->renderArea.offset.y < 0 || bi->renderArea.offset.x + bi->renderArea.extent.width > fb->w || bi->renderArea.offset.y + bi->renderArea.extent.height > fb->hgt )
				g->fail( "renderpass", "vkCmdBeginRenderPass: render area outside of the framebuffer" );
			for ( size_t i = 0; i < rp->atts.size(); ++i )
				if ( ( rp->atts[i].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR || rp->atts[i].stencilLoadOp == VK_ATTACHMENT_LOAD_OP_CLEAR ) && i >= bi->clearValueCount )
					g->fail( "renderpass", "vkCmdBeginRenderPass: no clear value for attachment " + std::to_string( i ) );
			for ( auto v : fb->views ) g->use( v, Ty::View, "vkCmdBeginRenderPass" );
		}
	}
	static void VKAPI_CALL CmdEndRenderPass( VkCommandBuffer cb ) { cmd( cb, CK::EndRP ); }
	static void VKAPI_CALL CmdPushConstants( VkCommandBuffer cb, VkPipelineLayout l, VkShaderStageFlags st, uint32_t o, uint32_t s, void const * ) { auto c = cmd( cb, CK::Push ); c->h = { u( l ) }; c->a = { st, o, s }; ref( cb, u( l ), Ty::PipelineLayout, CK::Push ); }
	static void VKAPI_CALL CmdResetQueryPool( VkCommandBuffer cb, VkQueryPool p, uint32_t f, uint32_t n ) { auto c = cmd( cb, CK::ResetQuery ); c->h = { u( p ) }; c->a = { f, n }; ref( cb, u( p ), Ty::QueryPool, CK::ResetQuery ); }
	static void VKAPI_CALL CmdWriteTimestamp( VkCommandBuffer cb, VkPipelineStageFlagBits s, VkQueryPool p, uint32_t q ) { auto c = cmd( cb, CK::Timestamp ); c->h = { u( p ) }; c->a = { q, s }; ref( cb, u( p ), Ty::QueryPool, CK::Timestamp ); }
	static void VKAPI_CALL CmdBlitImage( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * r, VkFilter f )
	{
		auto c = cmd( cb, CK::Blit ); c->h = { u( s ), u( d ) }; c->a = { sl, dl, f }; c->ibl.assign( r, r + n );
		ref( cb, u( s ), Ty::Image, CK::Blit ); ref( cb, u( d ), Ty::Image, CK::Blit );
	}
	static void VKAPI_CALL CmdCopyBuffer( VkCommandBuffer cb, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r )
	{
		auto c = cmd( cb, CK::CopyBuffer ); c->h = { u( s ), u( d ) }; c->bc.assign( r, r + n );
		ref( cb, u( s ), Ty::Buffer, CK::CopyBuffer ); ref( cb, u( d ), Ty::Buffer, CK::CopyBuffer );
	}
	static void VKAPI_CALL CmdCopyBufferToImage( VkCommandBuffer cb, VkBuffer s, VkImage d, VkImageLayout dl, uint32_t n, VkBufferImageCopy const * r )
	{
		auto c = cmd( cb, CK::CopyBufImg ); c->h = { u( s ), u( d ) }; c->a = { dl }; c->bic.assign( r, r + n );
		ref( cb, u( s ), Ty::Buffer, CK::CopyBufImg ); ref( cb, u( d ), Ty::Image, CK::CopyBufImg );
	}
	static void VKAPI_CALL CmdCopyImage( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * r )
	{
		auto c = cmd( cb, CK::CopyImg ); c->h = { u( s ), u( d ) }; c->a = { sl, dl }; c->ic.assign( r, r + n );
		ref( cb, u( s ), Ty::Image, CK::CopyImg ); ref( cb, u( d ), Ty::Image, CK::CopyImg );
	}
	static void VKAPI_CALL CmdCopyImageToBuffer( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkBuffer d, uint32_t n, VkBufferImageCopy const * r )
	{
		auto c = cmd( cb, CK::CopyImgBuf ); c->h = { u( s ), u( d ) }; c->a = { sl }; c->bic.assign( r, r + n );
		ref( cb, u( s ), Ty::Image, CK::CopyImgBuf ); ref( cb, u( d ), Ty::Buffer, CK::CopyImgBuf );
	}
	static void VKAPI_CALL CmdFillBuffer( VkCommandBuffer cb, VkBuffer b, VkDeviceSize o, VkDeviceSize s, uint32_t v )
	{
		auto c = cmd( cb, CK::Fill ); c->h = { u( b ) }; c->a = { int64_t( o ), int64_t( s ), v }; ref( cb, u( b ), Ty::Buffer, CK::Fill );
		if ( auto x = g->find( u( b ), Ty::Buffer ) )
			if ( ( o & 3 ) || o >= x->size || ( s != VK_WHOLE_SIZE && ( ( s & 3 ) || !s || o + s > x->size ) ) ) g->fail( "bounds", "vkCmdFillBuffer: offset " + std::to_string( o ) + " size " + std::to_string( int64_t( s ) ) + " on " + g->show( x->h ) + " of " + std::to_string( x->size ) + " bytes" );
	}
	static void VKAPI_CALL CmdExecuteCommands( VkCommandBuffer cb, uint32_t n, VkCommandBuffer const * ) { auto c = cmd( cb, CK::Other ); c->s = "ExecuteCommands"; c->a = { n }; }
	static void VKAPI_CALL CmdResetEvent( VkCommandBuffer cb, VkEvent, VkPipelineStageFlags ) { cmd( cb, CK::Other )->s = "ResetEvent"; }
	static void VKAPI_CALL CmdSetEvent( VkCommandBuffer cb, VkEvent, VkPipelineStageFlags ) { cmd( cb, CK::Other )->s = "SetEvent"; }
	static void VKAPI_CALL CmdWaitEvents( VkCommandBuffer cb, uint32_t, VkEvent const *, VkPipelineStageFlags, VkPipelineStageFlags, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ) { cmd( cb, CK::Other )->s = "WaitEvents"; }
	static void VKAPI_CALL CmdBeginDebugUtilsLabelEXT( VkCommandBuffer cb, VkDebugUtilsLabelEXT const * l ) { cmd( cb, CK::BeginLabel )->s = l->pLabelName ? l->pLabelName : ""; }
	static void VKAPI_CALL CmdEndDebugUtilsLabelEXT( VkCommandBuffer cb ) { cmd( cb, CK::EndLabel ); }
	static VkResult setName( char const * fn, uint64_t h, uint32_t type, char const * name, uint32_t ext )
	{
		static std::map< Ty, uint32_t > const types{ { Ty::Image, VK_OBJECT_TYPE_IMAGE }, { Ty::View, VK_OBJECT_TYPE_IMAGE_VIEW }, { Ty::Buffer, VK_OBJECT_TYPE_BUFFER }, { Ty::BufferView, VK_OBJECT_TYPE_BUFFER_VIEW }, { Ty::Memory, VK_OBJECT_TYPE_DEVICE_MEMORY }
			, { Ty::Sampler, VK_OBJECT_TYPE_SAMPLER }, { Ty::RenderPass, VK_OBJECT_TYPE_RENDER_PASS }, { Ty::Framebuffer, VK_OBJECT_TYPE_FRAMEBUFFER }, { Ty::Pipeline, VK_OBJECT_TYPE_PIPELINE }, { Ty::PipelineLayout, VK_OBJECT_TYPE_PIPELINE_LAYOUT }
			, { Ty::SetLayout, VK_OBJECT_TYPE_DESCRIPTOR_SET_LAYOUT }, { Ty::DescPool, VK_OBJECT_TYPE_DESCRIPTOR_POOL }, { Ty::DescSet, VK_OBJECT_TYPE_DESCRIPTOR_SET }, { Ty::CmdPool, VK_OBJECT_TYPE_COMMAND_POOL }, { Ty::CmdBuf, VK_OBJECT_TYPE_COMMAND_BUFFER }
			, { Ty::Semaphore, VK_OBJECT_TYPE_SEMAPHORE }, { Ty::Fence, VK_OBJECT_TYPE_FENCE }, { Ty::QueryPool, VK_OBJECT_TYPE_QUERY_POOL }, { Ty::Event, VK_OBJECT_TYPE_EVENT }, { Ty::Shader, VK_OBJECT_TYPE_SHADER_MODULE } };
		auto it = g->objs.find( h );
		if ( it == g->objs.end() || !it->second->alive ) g->fail( "lifetime", std::string( fn ) + ": unknown or destroyed object" );
		else
		{
			auto & o = *it->second;
			auto ty = types.find( o.ty );
			if ( ty != types.end() && ty->second != type ) g->fail( "naming", std::string( fn ) + ": " + g->show( h ) + " is named as an object of type " + std::to_string( type ) );
			if ( !name || !*name ) g->fail( "naming", std::string( fn ) + ": empty name for " + g->show( h ) );
			o.name = name ? name : "";
			o.named |= ext;
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL SetDebugUtilsObjectNameEXT( VkDevice, VkDebugUtilsObjectNameInfoEXT const * i ) { return setName( "vkSetDebugUtilsObjectNameEXT", i->objectHandle, i->objectType, i->pObjectName, 1u ); }
	static VkResult VKAPI_CALL DebugMarkerSetObjectNameEXT( VkDevice, VkDebugMarkerObjectNameInfoEXT const * i ) { return setName( "vkDebugMarkerSetObjectNameEXT", i->object, i->objectType, i->pObjectName, 2u ); }
	// With both extensions, the labels of the second one are told apart.
	static void VKAPI_CALL CmdDebugMarkerBeginEXT( VkCommandBuffer cb, VkDebugMarkerMarkerInfoEXT const * l )
	{
		std::string s = l->pMarkerName ? l->pMarkerName : "";
		if ( g->debugExt == 3u ) g->labels.push_back( "begin " + s );
		else cmd( cb, CK::BeginLabel )->s = s;
	}
	static void VKAPI_CALL CmdDebugMarkerEndEXT( VkCommandBuffer cb )
	{
		if ( g->debugExt == 3u ) g->labels.push_back( "end" );
		else cmd( cb, CK::EndLabel );
	}
	static VkResult VKAPI_CALL SetEvent( VkDevice, VkEvent ) { return VK_SUCCESS; }
	static VkResult VKAPI_CALL ResetEvent( VkDevice, VkEvent ) { return VK_SUCCESS; }
	static VkResult VKAPI_CALL GetEventStatus( VkDevice, VkEvent ) { return VK_EVENT_SET; }

	static VkResult VKAPI_CALL QueueSubmit( VkQueue q, uint32_t n, VkSubmitInfo const * si, VkFence fence )
	{
		++g->calls["vkQueueSubmit"];
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto & x = si[i];
			for ( uint32_t b = 0; b < std::max( 1u, x.commandBufferCount ); ++b )
			{
				Submission s;
				s.id = g->subs.size() + 1;
				s.queue = u( q );
				if ( b < x.commandBufferCount ) s.cmdBuf = u( x.pCommandBuffers[b] );
				if ( b == 0 ) for ( uint32_t w = 0; w < x.waitSemaphoreCount; ++w ) { s.waits.push_back( u( x.pWaitSemaphores[w] ) ); s.waitStages.push_back( x.pWaitDstStageMask[w] ); g->use( s.waits.back(), Ty::Semaphore, "vkQueueSubmit" ); }
				if ( b + 1 >= x.commandBufferCount ) for ( uint32_t w = 0; w < x.signalSemaphoreCount; ++w ) { s.signals.push_back( u( x.pSignalSemaphores[w] ) ); g->use( s.signals.back(), Ty::Semaphore, "vkQueueSubmit" ); }
				for ( auto h : s.waits ) s.refs.insert( h );
				for ( auto h : s.signals ) s.refs.insert( h );
				if ( i + 1 == n && b + 1 >= x.commandBufferCount && fence )
				{
					s.fence = u( fence );
					if ( auto f = g->use( s.fence, Ty::Fence, "vkQueueSubmit" ) )
					{
						if ( f->signaled ) g->fail( "sync", "vkQueueSubmit: fence is already signalled" );
						if ( f->pendingSub ) g->fail( "sync", "vkQueueSubmit: fence belongs to a pending submission" );
						f->pendingSub = s.id; s.refs.insert( s.fence );
					}
				}
				g->events.push_back( { "submit", s.cmdBuf, s.id } );
				if ( auto cb = s.cmdBuf ? g->use( s.cmdBuf, Ty::CmdBuf, "vkQueueSubmit" ) : nullptr )
				{
					if ( cb->cb != Obj::CB::Executable ) g->fail( "cmdstate", "vkQueueSubmit: command buffer is not executable" );
					if ( cb->invalid ) g->fail( "lifetime", "vkQueueSubmit: command buffer uses a destroyed object" );
					if ( pending( cb->h ) && !( cb->beginFlags & VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT ) ) g->fail( "sync", "vkQueueSubmit: command buffer is still pending" );
					if ( ( cb->beginFlags & VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT ) && cb->submittedGen == cb->generation ) g->fail( "sync", "vkQueueSubmit: one-time command buffer submitted twice" );
					cb->submittedGen = cb->generation;
					s.refs.insert( cb->h );
					for ( auto h : cb->refs )
					{
						s.refs.insert( h );
						if ( auto ds = g->find( h, Ty::DescSet ) )
							for ( auto & [_, d] : ds->descs )
							{
								for ( auto z : { d.sampler, d.view, d.buffer, d.bufferView } ) if ( z ) s.refs.insert( z );
								if ( auto v = g->find( d.view, Ty::View ) ) s.refs.insert( u( v->vci.image ) );
							}
					}
					g->subs.push_back( s );
					if ( g->execute ) g->execCmds( g->subs.back(), *cb );
				}
				else g->subs.push_back( s );
				if ( !g->lazy ) g->complete( g->subs.back() );
			}
		}
		return VK_SUCCESS;
	}
	static VkResult VKAPI_CALL GetQueryPoolResults( VkDevice, VkQueryPool p, uint32_t first, uint32_t n, size_t size, void * data, VkDeviceSize stride, VkQueryResultFlags fl )
	{
		++g->calls["vkGetQueryPoolResults"];
		auto o = g->use( u( p ), Ty::QueryPool, "vkGetQueryPoolResults" );
		if ( !o ) return VK_ERROR_DEVICE_LOST;
		g->events.push_back( { "get queries", o->h, first } );
		if ( first + n > o->queries.size() ) { g->fail( "query", "vkGetQueryPoolResults: out of the pool" ); return VK_ERROR_DEVICE_LOST; }
		if ( fl & VK_QUERY_RESULT_WAIT_BIT ) g->completeAll();
		size_t w = ( fl & VK_QUERY_RESULT_64_BIT ) ? 8 : 4;
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto & q = o->queries[first + i];
			if ( stride * i + w > size ) { g->fail( "query", "vkGetQueryPoolResults: data too small" ); break; }
			if ( !q.written )
			{
				if ( fl & VK_QUERY_RESULT_WAIT_BIT ) g->fail( "query", "vkGetQueryPoolResults: waits for query " + std::to_string( first + i ) + " which nothing writes" );
				return VK_NOT_READY;
			}
			std::memcpy( static_cast< uint8_t * >( data ) + stride * i, &q.value, w );
		}
		return VK_SUCCESS;
	}

	//********************************************************************************************
	// execution
	//********************************************************************************************
	static std::string lay( VkImageLayout l )
	{
		switch ( l )
		{
		case 0: return "UNDEFINED"; case 1: return "GENERAL"; case 2: return "COLOR_ATTACHMENT"; case 3: return "DEPTH_STENCIL_ATTACHMENT"; case 4: return "DEPTH_STENCIL_READ_ONLY";
		case 5: return "SHADER_READ_ONLY"; case 6: return "TRANSFER_SRC"; case 7: return "TRANSFER_DST"; case 8: return "PREINITIALIZED";
		default: return std::to_string( int( l ) );
		}
	}
	static std::string at( uint64_t img, uint32_t asp, uint32_t l, uint32_t m )
	{
		return g->show( img ) + "[aspect " + std::to_string( asp ) + ", layer " + std::to_string( l ) + ", mip " + std::to_string( m ) + "]";
	}
	struct ActiveRP { Obj * rp{}; Obj * fb{}; std::map< Sub *, uint32_t > lost; };

	void Device::execCmds( Submission & sub, Obj & cb )
	{
		uint64_t pipeG{}, pipeC{};
		std::map< std::pair< int64_t, uint32_t >, uint64_t > sets; // (bind point, slot)
		ActiveRP rp;
		auto readSub = [&]( Sub & s, uint64_t img, uint32_t a, uint32_t l, uint32_t m, char const * who )
		{
			auto it = rp.lost.find( &s );
			if ( it != rp.lost.end() && it->second ) fail( "content", std::string( who ) + " reads " + at( img, a, l, m ) + " whose data the render pass cleared although it is declared as input" );
			else if ( s.ideal && s.content != s.ideal ) fail( "content", std::string( who ) + " reads " + at( img, a, l, m ) + " whose data was discarded by a layout transition" );
		};
		auto writeSub = [&]( Sub & s, uint32_t v ) { s.content = s.ideal = v; };
		auto needLayout = [&]( Sub & s, VkImageLayout l, uint64_t img, uint32_t a, uint32_t ly, uint32_t m, std::string const & who )
		{
			if ( s.layout != l ) fail( "layout", who + " expects " + at( img, a, ly, m ) + " in " + lay( l ) + ", it is in " + lay( s.layout ) );
		};
		auto region = [&]( Obj & img, VkImageSubresourceLayers const & l, VkOffset3D o, VkExtent3D e, char const * who )->VkImageSubresourceRange
		{
			if ( l.mipLevel < img.ici.mipLevels )
			{
				auto x = mipExtent( img, l.mipLevel );
				if ( o.x < 0 || o.y < 0 || o.z < 0 || !e.width || !e.height || !e.depth
					|| uint64_t( o.x ) + e.width > x.width || uint64_t( o.y ) + e.height > x.height || uint64_t( o.z ) + e.depth > x.depth )
					fail( "bounds", std::string( who ) + ": region offset (" + std::to_string( o.x ) + "," + std::to_string( o.y ) + "," + std::to_string( o.z ) + ") extent (" + std::to_string( e.width ) + "," + std::to_string( e.height ) + "," + std::to_string( e.depth )
						+ ") outside of mip " + std::to_string( l.mipLevel ) + " of " + show( img.h ) );
			}
			return { l.aspectMask, l.mipLevel, 1u, l.baseArrayLayer, l.layerCount };
		};
		auto shaderUse = [&]( bool compute, char const * who )
		{
			auto p = find( compute ? pipeC : pipeG, Ty::Pipeline );
			if ( !p ) { fail( "cmdstate", std::string( who ) + ": no pipeline bound" ); return; }
			if ( p->compute != compute ) fail( "cmdstate", std::string( who ) + ": wrong kind of pipeline" );
			auto pl = find( p->layout, Ty::PipelineLayout );
			if ( !pl ) return;
			for ( uint32_t slot = 0; slot < pl->setLayouts.size(); ++slot )
			{
				auto sl = find( pl->setLayouts[slot], Ty::SetLayout );
				if ( !sl || sl->external || sl->binds.empty() ) continue;
				auto it = sets.find( { compute ? 1 : 0, slot } );
				if ( it == sets.end() ) { fail( "descriptor", std::string( who ) + ": no descriptor set bound at slot " + std::to_string( slot ) ); continue; }
				auto ds = find( it->second, Ty::DescSet );
				if ( !ds || ds->external ) continue;
				if ( ds->setLayout != sl->h ) fail( "descriptor", std::string( who ) + ": set bound at slot " + std::to_string( slot ) + " has another layout" );
				for ( auto & b : sl->binds )
					for ( uint32_t e = 0; e < b.descriptorCount; ++e )
					{
						auto d = ds->descs.find( { b.binding, e } );
						if ( d == ds->descs.end() ) { fail( "descriptor", std::string( who ) + ": binding " + std::to_string( b.binding ) + " never written" ); continue; }
						if ( d->second.view )
						{
							auto v = use( d->second.view, Ty::View, who );
							if ( !v ) continue;
							auto img = use( u( v->vci.image ), Ty::Image, who );
							if ( img ) forSubs( *img, v->vci.subresourceRange, [&]( Sub & s, uint32_t a, uint32_t l, uint32_t m ) { needLayout( s, d->second.layout, img->h, a, l, m, std::string( who ) + ", binding " + std::to_string( b.binding ) ); }, who );
						}
						for ( auto [h, t] : { std::pair{ d->second.buffer, Ty::Buffer }, std::pair{ d->second.bufferView, Ty::BufferView }, std::pair{ d->second.sampler, Ty::Sampler } } )
							if ( h ) use( h, t, who );
					}
			}
		};
		auto notInRP = [&]( Cmd const & c ) { if ( rp.rp ) fail( "cmdstate", std::string( sim::name( c.k ) ) + " recorded inside a render pass" ); };
		auto inRP = [&]( Cmd const & c ) { if ( !rp.rp ) fail( "cmdstate", std::string( sim::name( c.k ) ) + " recorded outside of a render pass" ); };

		for ( auto & c : cb.cmds )
		{
			auto n = sim::name( c.k );
			switch ( c.k )
			{
			case CK::Barrier:
				notInRP( c );
				if ( c.a[0] == 0 || c.a[1] == 0 ) fail( "stage", "barrier with an empty stage mask" );
				for ( auto & b : c.ib )
				{
					auto img = use( u( b.image ), Ty::Image, n );
					if ( !img ) continue;
					auto all = aspectsOf( img->ici.format );
					if ( !separateDS && ( all & VK_IMAGE_ASPECT_DEPTH_BIT ) && ( all & VK_IMAGE_ASPECT_STENCIL_BIT ) && b.subresourceRange.aspectMask != all )
						fail( "bounds", "barrier on one aspect only of " + show( img->h ) );
					if ( b.newLayout == VK_IMAGE_LAYOUT_UNDEFINED || b.newLayout == VK_IMAGE_LAYOUT_PREINITIALIZED ) fail( "oldlayout", "barrier to an undefined layout on " + show( img->h ) );
					forSubs( *img, b.subresourceRange, [&]( Sub & s, uint32_t a, uint32_t l, uint32_t m )
						{
							if ( b.oldLayout == VK_IMAGE_LAYOUT_UNDEFINED ) s.content = 0;
							else if ( s.layout != b.oldLayout ) fail( "oldlayout", "barrier says " + at( img->h, a, l, m ) + " is in " + lay( b.oldLayout ) + ", it is in " + lay( s.layout ) );
							s.layout = b.newLayout;
						}, "barrier" );
				}
				break;
			case CK::BindPipeline: ( c.a[0] == VK_PIPELINE_BIND_POINT_COMPUTE ? pipeC : pipeG ) = c.h[0]; use( c.h[0], Ty::Pipeline, n ); break;
			case CK::BindSets: for ( uint32_t i = 1; i < c.h.size(); ++i ) { sets[{ c.a[0], uint32_t( c.a[1] ) + i - 1 }] = c.h[i]; use( c.h[i], Ty::DescSet, n ); } break;
			case CK::BindVB: case CK::BindIB: break;
			case CK::ClearColor: case CK::ClearDS:
				notInRP( c );
				if ( auto img = use( c.h[0], Ty::Image, n ) )
				{
					if ( ( aspectsOf( img->ici.format ) == VK_IMAGE_ASPECT_COLOR_BIT ) != ( c.k == CK::ClearColor ) ) fail( "bounds", std::string( n ) + ": wrong clear command for the image format" );
					auto v = ++contentVersion;
					for ( auto & r : c.ranges ) forSubs( *img, r, [&]( Sub & s, uint32_t a, uint32_t l, uint32_t m )
						{ needLayout( s, VkImageLayout( c.a[0] ), img->h, a, l, m, n ); writeSub( s, v ); }, n );
				}
				if ( c.a[0] != VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL && c.a[0] != VK_IMAGE_LAYOUT_GENERAL ) fail( "layout", std::string( n ) + " in layout " + lay( VkImageLayout( c.a[0] ) ) );
				break;
			case CK::Dispatch: case CK::DispatchIndirect: notInRP( c ); shaderUse( true, n ); break;
			case CK::Draw: case CK::DrawIndexed: case CK::DrawIndirect: case CK::DrawIndexedIndirect:
				inRP( c ); shaderUse( false, n );
				if ( auto p = find( pipeG, Ty::Pipeline ); p && rp.rp )
				{
					auto prp = find( p->rp, Ty::RenderPass );
					if ( prp )
					{
						bool ok = prp->atts.size() == rp.rp->atts.size() && prp->colorRefs.size() == rp.rp->colorRefs.size() && prp->hasDepth == rp.rp->hasDepth;
						for ( size_t i = 0; ok && i < prp->atts.size(); ++i ) ok = prp->atts[i].format == rp.rp->atts[i].format && prp->atts[i].samples == rp.rp->atts[i].samples;
						if ( !ok ) fail( "renderpass", std::string( n ) + ": pipeline was built for an incompatible render pass" );
					}
				}
				break;
			case CK::BeginRP:
				notInRP( c );
				rp = {};
				rp.rp = use( c.h[0], Ty::RenderPass, n ); rp.fb = use( c.h[1], Ty::Framebuffer, n );
				if ( !rp.rp || !rp.fb ) { rp = {}; break; }
				for ( size_t i = 0; i < rp.rp->atts.size() && i < rp.fb->views.size(); ++i )
				{
					auto & at_ = rp.rp->atts[i];
					auto v = use( rp.fb->views[i], Ty::View, n ); if ( !v ) continue;
					auto img = use( u( v->vci.image ), Ty::Image, n ); if ( !img ) continue;
					auto range = v->vci.subresourceRange;
					range.aspectMask = aspectsOf( img->ici.format ); // layouts of attachments concern all aspects
					VkImageLayout inside = at_.finalLayout;
					for ( auto & r : rp.rp->colorRefs ) if ( r.attachment == i ) inside = r.layout;
					if ( rp.rp->hasDepth && rp.rp->depthRef.attachment == i ) inside = rp.rp->depthRef.layout;
					auto ver = ++contentVersion;
					forSubs( *img, range, [&]( Sub & s, uint32_t a, uint32_t l, uint32_t m )
						{
							if ( at_.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED ) { if ( s.ideal ) rp.lost[&s] = s.ideal; s.content = 0; }
							else if ( s.layout != at_.initialLayout ) fail( "oldlayout", "render pass says attachment " + std::to_string( i ) + ", " + at( img->h, a, l, m ) + ", is in " + lay( at_.initialLayout ) + ", it is in " + lay( s.layout ) );
							s.layout = inside;
							auto op = a == VK_IMAGE_ASPECT_STENCIL_BIT ? at_.stencilLoadOp : at_.loadOp;
							if ( op == VK_ATTACHMENT_LOAD_OP_CLEAR ) { if ( s.ideal ) rp.lost[&s] = s.ideal; s.content = s.ideal = ver; }
							else if ( op == VK_ATTACHMENT_LOAD_OP_LOAD ) readSub( s, img->h, a, l, m, "render pass load" );
							else s.content = 0;
						}, n );
				}
				break;
			case CK::EndRP:
				inRP( c );
				if ( rp.rp && rp.fb )
					for ( size_t i = 0; i < rp.rp->atts.size() && i < rp.fb->views.size(); ++i )
					{
						auto & at_ = rp.rp->atts[i];
						auto v = find( rp.fb->views[i], Ty::View ); if ( !v ) continue;
						auto img = find( u( v->vci.image ), Ty::Image ); if ( !img ) continue;
						auto range = v->vci.subresourceRange; range.aspectMask = aspectsOf( img->ici.format );
						auto ver = ++contentVersion;
						forSubs( *img, range, [&]( Sub & s, uint32_t a, uint32_t, uint32_t )
							{
								s.layout = at_.finalLayout;
								auto op = a == VK_IMAGE_ASPECT_STENCIL_BIT ? at_.stencilStoreOp : at_.storeOp;
								if ( op == VK_ATTACHMENT_STORE_OP_STORE ) s.content = s.ideal = ver;
							}, n );
					}
				rp = {};
				break;
			case CK::ResetQuery:
				notInRP( c );
				if ( auto p = use( c.h[0], Ty::QueryPool, n ) )
				{
					if ( uint64_t( c.a[0] + c.a[1] ) > p->queries.size() ) fail( "query", "reset of queries outside of the pool" );
					else for ( int64_t i = c.a[0]; i < c.a[0] + c.a[1]; ++i ) p->queries[size_t( i )] = { false, 0, true };
				}
				break;
			case CK::Timestamp:
				if ( auto p = use( c.h[0], Ty::QueryPool, n ) )
				{
					if ( uint64_t( c.a[0] ) >= p->queries.size() ) fail( "query", "timestamp outside of the query pool" );
					else
					{
						auto & q = p->queries[size_t( c.a[0] )];
						if ( !q.reset ) fail( "query", "timestamp written to query " + std::to_string( c.a[0] ) + " without reset" );
						q.reset = false; q.written = true;
						q.value = tick ? tick() : ( ticks += 10 );
					}
				}
				break;
			case CK::Blit:
				notInRP( c );
				if ( auto s = use( c.h[0], Ty::Image, n ), d = use( c.h[1], Ty::Image, n ); s && d )
					for ( auto & r : c.ibl )
					{
						auto box = []( VkOffset3D const * o ) { return std::pair{ VkOffset3D{ std::min( o[0].x, o[1].x ), std::min( o[0].y, o[1].y ), std::min( o[0].z, o[1].z ) }
							, VkExtent3D{ uint32_t( std::abs( o[1].x - o[0].x ) ), uint32_t( std::abs( o[1].y - o[0].y ) ), uint32_t( std::abs( o[1].z - o[0].z ) ) } }; };
						auto bs = box( r.srcOffsets ); auto bd = box( r.dstOffsets );
						auto rs = region( *s, r.srcSubresource, bs.first, bs.second, "blit source" ); auto rd = region( *d, r.dstSubresource, bd.first, bd.second, "blit destination" );
						if ( r.srcSubresource.layerCount != r.dstSubresource.layerCount || r.srcSubresource.aspectMask != r.dstSubresource.aspectMask ) fail( "bounds", "blit between different layer counts or aspects" );
						forSubs( *s, rs, [&]( Sub & x, uint32_t a, uint32_t l, uint32_t m ) { needLayout( x, VkImageLayout( c.a[0] ), s->h, a, l, m, "blit source" ); readSub( x, s->h, a, l, m, "blit" ); }, "blit source" );
						auto v = ++contentVersion;
						forSubs( *d, rd, [&]( Sub & x, uint32_t a, uint32_t l, uint32_t m ) { needLayout( x, VkImageLayout( c.a[1] ), d->h, a, l, m, "blit destination" ); writeSub( x, v ); }, "blit destination" );
					}
				if ( c.a[0] != VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL && c.a[0] != VK_IMAGE_LAYOUT_GENERAL ) fail( "layout", "blit source layout " + lay( VkImageLayout( c.a[0] ) ) );
				if ( c.a[1] != VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL && c.a[1] != VK_IMAGE_LAYOUT_GENERAL ) fail( "layout", "blit destination layout " + lay( VkImageLayout( c.a[1] ) ) );
				break;
			case CK::CopyImg:
				notInRP( c );
				if ( auto s = use( c.h[0], Ty::Image, n ), d = use( c.h[1], Ty::Image, n ); s && d )
					for ( auto & r : c.ic )
					{
						auto rs = region( *s, r.srcSubresource, r.srcOffset, r.extent, "copy source" ); auto rd = region( *d, r.dstSubresource, r.dstOffset, r.extent, "copy destination" );
						forSubs( *s, rs, [&]( Sub & x, uint32_t a, uint32_t l, uint32_t m ) { needLayout( x, VkImageLayout( c.a[0] ), s->h, a, l, m, "copy source" ); readSub( x, s->h, a, l, m, "copy" ); }, "copy source" );
						auto v = ++contentVersion;
						forSubs( *d, rd, [&]( Sub & x, uint32_t a, uint32_t l, uint32_t m ) { needLayout( x, VkImageLayout( c.a[1] ), d->h, a, l, m, "copy destination" ); writeSub( x, v ); }, "copy destination" );
					}
				if ( c.a[0] != VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL && c.a[0] != VK_IMAGE_LAYOUT_GENERAL ) fail( "layout", "copy source layout " + lay( VkImageLayout( c.a[0] ) ) );
				if ( c.a[1] != VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL && c.a[1] != VK_IMAGE_LAYOUT_GENERAL ) fail( "layout", "copy destination layout " + lay( VkImageLayout( c.a[1] ) ) );
				break;
			case CK::CopyBuffer:
				notInRP( c );
				if ( auto s = use( c.h[0], Ty::Buffer, n ), d = use( c.h[1], Ty::Buffer, n ); s && d )
					for ( auto & r : c.bc )
						if ( !r.size || r.srcOffset + r.size > s->size || r.dstOffset + r.size > d->size ) fail( "bounds", "buffer copy outside of a buffer" );
				break;
			case CK::CopyBufImg: case CK::CopyImgBuf:
			{
				notInRP( c );
				bool toImg = c.k == CK::CopyBufImg;
				auto b = use( c.h[toImg ? 0 : 1], Ty::Buffer, n ); auto i = use( c.h[toImg ? 1 : 0], Ty::Image, n );
				if ( b && i )
					for ( auto & r : c.bic )
					{
						auto rr = region( *i, r.imageSubresource, r.imageOffset, r.imageExtent, n );
						auto v = ++contentVersion;
						forSubs( *i, rr, [&]( Sub & x, uint32_t a, uint32_t l, uint32_t m ) { needLayout( x, VkImageLayout( c.a[0] ), i->h, a, l, m, n ); if ( toImg ) writeSub( x, v ); else readSub( x, i->h, a, l, m, n ); }, n );
						if ( r.bufferOffset >= b->size ) fail( "bounds", std::string( n ) + ": outside of the buffer" );
					}
				auto want = toImg ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
				if ( c.a[0] != want && c.a[0] != VK_IMAGE_LAYOUT_GENERAL ) fail( "layout", std::string( n ) + ": image layout " + lay( VkImageLayout( c.a[0] ) ) );
				break;
			}
			case CK::Fill: notInRP( c ); break;
			case CK::Mark: case CK::BeginLabel:
				if ( onMark ) onMark( c );
				break;
			case CK::Use:
				if ( auto img = use( c.use.image, Ty::Image, n ) )
				{
					forSubs( *img, c.use.range, [&]( Sub & s, uint32_t a, uint32_t l, uint32_t m )
						{
							if ( c.use.layout != VK_IMAGE_LAYOUT_MAX_ENUM ) needLayout( s, c.use.layout, img->h, a, l, m, "use by " + c.s );
							if ( c.use.read ) readSub( s, img->h, a, l, m, ( "pass " + c.s ).c_str() );
						}, "use" );
					if ( c.use.write )
					{
						auto v = ++contentVersion;
						forSubs( *img, c.use.range, [&]( Sub & s, uint32_t, uint32_t, uint32_t ) { writeSub( s, v ); }, "use" );
					}
				}
				break;
			default: break;
			}
		}
		(void)sub;
	}

	//********************************************************************************************
	std::string dump( Cmd const & c )
	{
		std::ostringstream s;
		s << name( c.k );
		if ( !c.s.empty() ) s << " '" << c.s << "'";
		for ( auto h : c.h ) s << " " << ( g ? g->show( h ) : std::to_string( h ) );
		for ( auto a : c.a ) s << " " << a;
		auto rg = [&]( VkImageSubresourceRange const & r ) { s << " asp" << r.aspectMask << " L" << r.baseArrayLayer << "+" << r.layerCount << " M" << r.baseMipLevel << "+" << r.levelCount; };
		for ( auto & b : c.ib ) { s << " {" << lay( b.oldLayout ) << "->" << lay( b.newLayout ) << " acc " << b.srcAccessMask << "->" << b.dstAccessMask; rg( b.subresourceRange ); s << "}"; }
		for ( auto & b : c.bb ) s << " {buf acc " << b.srcAccessMask << "->" << b.dstAccessMask << " @" << b.offset << "+" << int64_t( b.size ) << "}";
		for ( auto & r : c.ranges ) rg( r );
		if ( c.k == CK::Use ) { rg( c.use.range ); s << " " << lay( c.use.layout ) << ( c.use.read ? " R" : "" ) << ( c.use.write ? " W" : "" ); }
		return s.str();
	}
	static void raw( std::string & out, void const * p, size_t n ) { out.append( static_cast< char const * >( p ), n ); }
	static void num( std::string & out, int64_t v ) { out += std::to_string( v ); out += ','; }
	std::string canon( std::vector< Cmd > const & cmds, bool withLabels )
	{
		std::map< uint64_t, uint32_t > ids;
		std::string out;
		auto h = [&]( uint64_t v )
		{
			if ( !v ) { out += "0,"; return; }
			auto it = ids.emplace( v, uint32_t( ids.size() + 1 ) ).first;
			out += std::to_string( v >> 40 ) + "#" + std::to_string( it->second ) + ",";
		};
		for ( auto & c : cmds )
		{
			if ( !withLabels && ( c.k == CK::BeginLabel || c.k == CK::EndLabel ) ) continue;
			out += name( c.k ); out += ' ';
			out += c.s; out += ' ';
			for ( auto x : c.h ) h( x );
			for ( auto x : c.a ) num( out, x );
			for ( auto & b : c.ib ) { num( out, b.srcAccessMask ); num( out, b.dstAccessMask ); num( out, b.oldLayout ); num( out, b.newLayout ); auto & r = b.subresourceRange; for ( auto v : { r.aspectMask, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount } ) num( out, v ); }
			for ( auto & b : c.bb ) { num( out, b.srcAccessMask ); num( out, b.dstAccessMask ); num( out, int64_t( b.offset ) ); num( out, int64_t( b.size ) ); }
			for ( auto & r : c.ranges ) for ( auto v : { r.aspectMask, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount } ) num( out, v );
			for ( auto & r : c.ic ) { auto p = reinterpret_cast< uint32_t const * >( &r ); for ( size_t i = 0; i < sizeof( r ) / 4; ++i ) num( out, p[i] ); }
			for ( auto & r : c.ibl ) { auto p = reinterpret_cast< uint32_t const * >( &r ); for ( size_t i = 0; i < sizeof( r ) / 4; ++i ) num( out, p[i] ); }
			for ( auto & r : c.bc ) { num( out, int64_t( r.srcOffset ) ); num( out, int64_t( r.dstOffset ) ); num( out, int64_t( r.size ) ); }
			for ( auto & r : c.bic ) { num( out, int64_t( r.bufferOffset ) ); num( out, r.bufferRowLength ); num( out, r.bufferImageHeight ); num( out, r.imageOffset.x ); num( out, r.imageOffset.y ); num( out, r.imageOffset.z ); num( out, r.imageExtent.width ); num( out, r.imageExtent.height ); num( out, r.imageExtent.depth ); num( out, r.imageSubresource.mipLevel ); num( out, r.imageSubresource.baseArrayLayer ); num( out, r.imageSubresource.layerCount ); }
			for ( auto & v : c.clears ) for ( int i = 0; i < 4; ++i ) num( out, v.color.uint32[i] );
			out += '\n';
		}
		(void)raw;
		return out;
	}

	PFN_vkVoidFunction VKAPI_CALL getDeviceProcAddr( VkDevice, char const * n )
	{
		static std::map< std::string, PFN_vkVoidFunction > const table = []
		{
			std::map< std::string, PFN_vkVoidFunction > t;
#define F( x ) t["vk" #x] = reinterpret_cast< PFN_vkVoidFunction >( &x )
			F( CreateGraphicsPipelines ); F( CreateComputePipelines ); F( DestroyPipeline ); F( CreatePipelineLayout ); F( DestroyPipelineLayout );
			F( CreateDescriptorSetLayout ); F( DestroyDescriptorSetLayout ); F( CreateDescriptorPool ); F( DestroyDescriptorPool ); F( AllocateDescriptorSets ); F( FreeDescriptorSets );
			F( CreateBuffer ); F( DestroyBuffer ); F( GetBufferMemoryRequirements ); F( GetImageMemoryRequirements ); F( AllocateMemory ); F( FreeMemory ); F( BindBufferMemory ); F( BindImageMemory );
			F( MapMemory ); F( UnmapMemory ); t["vkFlushMappedMemoryRanges"] = reinterpret_cast< PFN_vkVoidFunction >( &FlushMapped ); t["vkInvalidateMappedMemoryRanges"] = reinterpret_cast< PFN_vkVoidFunction >( &InvalidateMapped );
			F( CreateRenderPass ); F( DestroyRenderPass ); F( CreateFramebuffer ); F( DestroyFramebuffer ); F( CreateImage ); F( DestroyImage ); F( CreateImageView ); F( DestroyImageView ); F( CreateSampler ); F( DestroySampler );
			F( CreateCommandPool ); F( DestroyCommandPool ); F( AllocateCommandBuffers ); F( FreeCommandBuffers ); F( CreateSemaphore ); F( DestroySemaphore ); F( UpdateDescriptorSets );
			F( BeginCommandBuffer ); F( EndCommandBuffer ); F( QueueSubmit ); F( CreateQueryPool ); F( DestroyQueryPool ); F( GetQueryPoolResults ); F( ResetCommandBuffer );
			F( CreateEvent ); F( DestroyEvent ); F( ResetEvent ); F( SetEvent ); F( GetEventStatus ); F( CreateFence ); F( DestroyFence ); F( GetFenceStatus ); F( WaitForFences ); F( ResetFences );
			F( CmdBindPipeline ); F( CmdBindDescriptorSets ); F( CmdBindVertexBuffers ); F( CmdBindIndexBuffer ); F( CmdClearColorImage ); F( CmdClearDepthStencilImage ); F( CmdDispatch ); F( CmdDispatchIndirect );
			F( CmdDraw ); F( CmdDrawIndexed ); F( CmdDrawIndexedIndirect ); F( CmdDrawIndirect ); F( CmdBeginRenderPass ); F( CmdEndRenderPass ); F( CmdPushConstants ); F( CmdResetQueryPool ); F( CmdWriteTimestamp );
			F( CmdPipelineBarrier ); F( CmdBlitImage ); F( CmdCopyBuffer ); F( CmdCopyBufferToImage ); F( CmdCopyImage ); F( CmdCopyImageToBuffer ); F( CmdExecuteCommands ); F( CmdResetEvent ); F( CmdSetEvent ); F( CmdWaitEvents ); F( CmdFillBuffer );
			F( SetDebugUtilsObjectNameEXT ); F( CmdBeginDebugUtilsLabelEXT ); F( CmdEndDebugUtilsLabelEXT ); F( DebugMarkerSetObjectNameEXT ); F( CmdDebugMarkerBeginEXT ); F( CmdDebugMarkerEndEXT );
#undef F
			return t;
		}();
		std::string const name{ n };
		auto ext = g ? g->debugExt : 1u;
		if ( !( ext & 1u ) && name.find( "DebugUtils" ) != std::string::npos ) return nullptr;
		if ( !( ext & 2u ) && name.find( "DebugMarker" ) != std::string::npos ) return nullptr;
		auto it = table.find( name );
		return it == table.end() ? nullptr : it->second;
	}
}
