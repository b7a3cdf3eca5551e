// C21: one declared attachment means the same thing to every query.
#include "direct.hpp"
#include <RenderGraph/AttachmentTransition.hpp>
#include <cstring>
using namespace gg;

namespace
{
	// What a layout means, written from the Vulkan specification (stage and access of its typical use).
	struct Meaning { VkImageLayout layout; VkAccessFlags access; VkPipelineStageFlags stage; };
	constexpr VkAccessFlags DSR = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, DSW = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
	constexpr VkPipelineStageFlags LATE = VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
	Meaning const meanings[] = {
		{ VK_IMAGE_LAYOUT_UNDEFINED, 0u, VK_PIPELINE_STAGE_HOST_BIT },
		{ VK_IMAGE_LAYOUT_GENERAL, 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
		{ VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT },
		{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
		{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT },
		{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT },
		{ VK_IMAGE_LAYOUT_PRESENT_SRC_KHR, VK_ACCESS_MEMORY_READ_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
		{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, DSW, LATE },
		{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, DSR, LATE },
		{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL, DSR | DSW, LATE },
		{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL, DSR | DSW, LATE },
		{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL, DSW, LATE },
		{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL, DSR, LATE },
		{ VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL, DSW, LATE },
		{ VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL, DSR, LATE },
		{ VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR, VK_ACCESS_MEMORY_READ_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
		{ VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV, VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV, VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV },
		{ VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT, VK_ACCESS_FRAGMENT_DENSITY_MAP_READ_BIT_EXT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
	};

	enum class K { Sampled, Implicit, Storage, Transfer, Colour, Depth, DepthStencil, Stencil, Uniform };
	struct Role { char const * suffix; K kind; bool in, out, clear; };
	Role const imageRoles[] = {
		{ "Spl", K::Sampled, true, false, false }, { "Impl", K::Implicit, true, false, false },
		{ "IStr", K::Storage, true, false, false }, { "OStr", K::Storage, false, true, false }, { "COStr", K::Storage, false, true, true }, { "IOStr", K::Storage, true, true, false },
		{ "It", K::Transfer, true, false, false }, { "Ot", K::Transfer, false, true, false }, { "IOt", K::Transfer, true, true, false },
		{ "Ic", K::Colour, true, false, false }, { "Oc", K::Colour, false, true, false }, { "IOc", K::Colour, true, true, false },
		{ "Id", K::Depth, true, false, false }, { "Od", K::Depth, false, true, false }, { "IOd", K::Depth, true, true, false },
		{ "Ids", K::DepthStencil, true, false, false }, { "Ods", K::DepthStencil, false, true, false }, { "IOds", K::DepthStencil, true, true, false },
		{ "Is", K::Stencil, true, false, false }, { "Os", K::Stencil, false, true, false }, { "IOs", K::Stencil, true, true, false },
	};
	Role const bufferRoles[] = {
		{ "UB", K::Uniform, true, false, false }, { "ISB", K::Storage, true, false, false }, { "OSB", K::Storage, false, true, false }, { "OSB", K::Storage, false, true, true }, { "IOSB", K::Storage, true, true, false },
		{ "ImplB", K::Implicit, true, false, false }, { "ITB", K::Transfer, true, false, false }, { "OTB", K::Transfer, false, true, false }, { "IOTB", K::Transfer, true, true, false },
		{ "UBV", K::Uniform, true, false, false }, { "ISBV", K::Storage, true, false, false }, { "OSBV", K::Storage, false, true, false }, { "OSBV", K::Storage, false, true, true }, { "IOSBV", K::Storage, true, true, false }, { "ImplBV", K::Implicit, true, false, false },
	};

	struct Decl
	{
		bool image{}; uint32_t role{};
		Role r{};
		// images
		std::vector< crg::ImageViewId > views; bool array{};
		crg::SamplerDesc sampler{}; VkClearValue clear{}; VkPipelineColorBlendAttachmentState blend = crg::DefaultBlendState;
		Meaning wanted{}; VkImageAspectFlags aspect{};
		// buffers
		std::vector< VkBuffer > bufs; std::string bufName; bool isView{}; VkBufferView view{}; VkDeviceSize offset{}, range{}; crg::AccessState access{};
		uint32_t binding{ crg::InvalidBindingId };
		bool noTransition{};
		std::string resource()const { return image ? views.front().data->name : bufName; }
	};
	bool same( crg::SamplerDesc const & a, crg::SamplerDesc const & b )
	{
		return std::tie( a.magFilter, a.minFilter, a.mipmapMode, a.addressModeU, a.addressModeV, a.addressModeW, a.mipLodBias, a.minLod, a.maxLod )
			== std::tie( b.magFilter, b.minFilter, b.mipmapMode, b.addressModeU, b.addressModeV, b.addressModeW, b.mipLodBias, b.minLod, b.maxLod );
	}
	bool same( VkPipelineColorBlendAttachmentState const & a, VkPipelineColorBlendAttachmentState const & b ) { return std::memcmp( &a, &b, sizeof( a ) ) == 0; }
	bool same( VkClearValue const & a, VkClearValue const & b ) { return std::memcmp( &a, &b, sizeof( a ) ) == 0; }
	bool isTarget( K k ) { return k == K::Colour || k == K::Depth || k == K::DepthStencil || k == K::Stencil; }
	// The same thing declared twice, up to the binding.
	bool same( Decl const & a, Decl const & b )
	{
		if ( a.image != b.image || a.role != b.role || a.noTransition != b.noTransition || a.r.clear != b.r.clear ) return false;
		if ( a.image )
		{
			return a.views == b.views && same( a.sampler, b.sampler ) && same( a.clear, b.clear ) && same( a.blend, b.blend )
				&& ( a.r.kind != K::Implicit || ( a.wanted.layout == b.wanted.layout && a.aspect == b.aspect ) );
		}
		return a.bufs == b.bufs && a.view == b.view && a.offset == b.offset && a.range == b.range
			&& a.access.access == b.access.access && a.access.pipelineStage == b.access.pipelineStage;
	}

	crg::SamplerDesc genSampler( pbt::Tape & t )
	{
		auto f = [&](){ return t.pick( { VK_FILTER_NEAREST, VK_FILTER_LINEAR } ); };
		auto a = [&](){ return t.pick( { VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_EDGE, VK_SAMPLER_ADDRESS_MODE_REPEAT, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT } ); };
		auto mag = f(), min = f();
		auto m = t.pick( { VK_SAMPLER_MIPMAP_MODE_NEAREST, VK_SAMPLER_MIPMAP_MODE_LINEAR } );
		auto u = a(), v = a(), w = a();
		return crg::SamplerDesc{ mag, min, m, u, v, w, float( t.below( 3u ) ), -float( t.below( 3u ) ), float( t.below( 3u ) ) };
	}
	VkPipelineColorBlendAttachmentState genBlend( pbt::Tape & t )
	{
		auto f = [&](){ return t.pick( { VK_BLEND_FACTOR_ONE, VK_BLEND_FACTOR_ZERO, VK_BLEND_FACTOR_SRC_ALPHA } ); };
		auto o = [&](){ return t.pick( { VK_BLEND_OP_ADD, VK_BLEND_OP_MAX } ); };
		VkPipelineColorBlendAttachmentState r{};
		r.blendEnable = t.below( 2u );
		r.srcColorBlendFactor = f(); r.dstColorBlendFactor = f(); r.colorBlendOp = o();
		r.srcAlphaBlendFactor = f(); r.dstAlphaBlendFactor = f(); r.alphaBlendOp = o();
		r.colorWriteMask = t.range( 1u, 15u );
		return r;
	}

	// The group tree and its full names.
	struct Tree
	{
		crg::FrameGraph & fg; std::string graph;
		std::vector< std::pair< crg::FramePassGroup *, std::string > > groups;
		Tree( crg::FrameGraph & fg, std::string name ) : fg{ fg }, graph{ name } { groups.push_back( { &fg.getDefaultGroup(), name } ); }
		uint32_t add( pbt::Tape & t, uint32_t i )
		{
			auto parent = t.below( uint32_t( groups.size() ) );
			auto name = "g" + std::to_string( i );
			groups.push_back( { &groups[parent].first->createPassGroup( name ), groups[parent].second + "/" + name } );
			return uint32_t( groups.size() - 1u );
		}
	};

	struct Fmt { VkFormat f; VkImageAspectFlags a; };
	Fmt const colours[] = { { VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_ASPECT_COLOR_BIT }, { VK_FORMAT_R32_SFLOAT, VK_IMAGE_ASPECT_COLOR_BIT }, { VK_FORMAT_R16G16B16A16_SFLOAT, VK_IMAGE_ASPECT_COLOR_BIT } };
	Fmt const depths[] = { { VK_FORMAT_D16_UNORM, VK_IMAGE_ASPECT_DEPTH_BIT }, { VK_FORMAT_D32_SFLOAT, VK_IMAGE_ASPECT_DEPTH_BIT }, { VK_FORMAT_X8_D24_UNORM_PACK32, VK_IMAGE_ASPECT_DEPTH_BIT } };
	constexpr VkImageAspectFlags DS = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
	Fmt const both[] = { { VK_FORMAT_D24_UNORM_S8_UINT, DS }, { VK_FORMAT_D32_SFLOAT_S8_UINT, DS }, { VK_FORMAT_D16_UNORM_S8_UINT, DS } };
	Fmt const stencils[] = { { VK_FORMAT_S8_UINT, VK_IMAGE_ASPECT_STENCIL_BIT } };

	struct Gen
	{
		pbt::Case & c; World & w; uint32_t n{};
		std::map< VkImageAspectFlags, std::vector< crg::ImageViewId > > pool{};
		std::vector< std::pair< std::vector< VkBuffer >, std::string > > bufs{};
		uint64_t handle{ 0x1000u };

		crg::ImageViewId newView( Fmt const & f )
		{
			auto & t = c.t;
			auto mips = t.range( 1u, 4u ), layers = t.range( 1u, 4u );
			auto img = chk::image( w, pbt::fmt( "img%u", n ), f.f, VK_IMAGE_USAGE_SAMPLED_BIT, mips, layers );
			VkImageSubresourceRange r{ f.a, t.below( mips ), 1u, t.below( layers ), 1u };
			r.levelCount = t.range( 1u, mips - r.baseMipLevel );
			r.layerCount = t.range( 1u, layers - r.baseArrayLayer );
			auto v = chk::view( w, pbt::fmt( t.chance( 10 ) ? "/view%u" : "view%u", n++ ), img, r, r.layerCount > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D );
			return v;
		}
		crg::ImageViewId view( VkImageAspectFlags a )
		{
			auto & t = c.t;
			auto & p = pool[a];
			if ( !p.empty() && t.chance( 40 ) ) return t.pick( p );
			auto const & f = a == VK_IMAGE_ASPECT_COLOR_BIT ? colours[t.below( 3u )] : a == VK_IMAGE_ASPECT_DEPTH_BIT ? depths[t.below( 3u )] : a == DS ? both[t.below( 3u )] : stencils[0];
			p.push_back( newView( f ) );
			return p.back();
		}
		std::pair< std::vector< VkBuffer >, std::string > buffer()
		{
			auto & t = c.t;
			if ( !bufs.empty() && t.chance( 40 ) ) return t.pick( bufs );
			std::vector< VkBuffer > v;
			auto k = t.chance( 60 ) ? 1u : t.range( 2u, 4u );
			for ( uint32_t i = 0u; i < k; ++i ) v.push_back( VkBuffer( handle += 0x10u ) );
			bufs.push_back( { v, pbt::fmt( "buf%zu", bufs.size() ) } );
			return bufs.back();
		}
		Decl image()
		{
			auto & t = c.t;
			Decl d;
			d.image = true;
			d.role = t.below( uint32_t( std::size( imageRoles ) ) );
			d.r = imageRoles[d.role];
			switch ( d.r.kind )
			{
			case K::Colour: d.aspect = VK_IMAGE_ASPECT_COLOR_BIT; break;
			case K::Depth: d.aspect = t.chance( 70 ) ? VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT ) : DS; break;
			case K::DepthStencil: d.aspect = DS; break;
			case K::Stencil: d.aspect = t.flag() ? VkImageAspectFlags( VK_IMAGE_ASPECT_STENCIL_BIT ) : DS; break;
			default: d.aspect = t.chance( 60 ) ? VK_IMAGE_ASPECT_COLOR_BIT : t.pick( { VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT ), DS, VkImageAspectFlags( VK_IMAGE_ASPECT_STENCIL_BIT ) } ); break;
			}
			if ( d.r.kind == K::Implicit && d.aspect == VK_IMAGE_ASPECT_STENCIL_BIT ) d.aspect = DS;
			auto nv = t.chance( 70 ) ? 1u : t.range( 2u, 4u );
			for ( uint32_t i = 0u; i < nv; ++i ) d.views.push_back( view( d.aspect ) );
			d.array = nv > 1u || t.flag();
			if ( d.r.kind == K::Sampled || d.r.kind == K::Storage ) d.binding = t.below( 20u );
			if ( isTarget( d.r.kind ) ) d.binding = 0u;
			if ( d.r.kind == K::Sampled && t.chance( 70 ) ) d.sampler = genSampler( t );
			if ( d.r.kind == K::Implicit ) d.wanted = meanings[t.below( uint32_t( std::size( meanings ) ) )];
			if ( isTarget( d.r.kind ) && d.r.out && !d.r.in && t.chance( 60 ) )
			{
				if ( d.r.kind == K::Colour ) d.clear.color.uint32[0] = t.range( 1u, 9u ), d.clear.color.uint32[3] = t.below( 3u );
				else { d.clear.depthStencil.depth = float( t.below( 3u ) ) / 2.0f; d.clear.depthStencil.stencil = t.range( 1u, 7u ); }
			}
			if ( d.r.kind == K::Colour && d.r.in && d.r.out && t.chance( 60 ) ) d.blend = genBlend( t );
			if ( d.r.kind == K::Transfer && d.r.in && d.r.out ) d.noTransition = t.flag();
			return d;
		}
		Decl buf()
		{
			auto & t = c.t;
			Decl d;
			d.role = t.below( uint32_t( std::size( bufferRoles ) ) );
			d.r = bufferRoles[d.role];
			std::tie( d.bufs, d.bufName ) = buffer();
			d.isView = d.role >= 9u;
			if ( d.isView ) d.view = VkBufferView( uintptr_t( 0x900000u + t.below( 3u ) * 0x10u ) );
			d.offset = t.below( 4u ) * 16u;
			d.range = t.chance( 20 ) ? VK_WHOLE_SIZE : t.range( 1u, 64u ) * 4u;
			if ( d.r.kind == K::Implicit ) d.access = { t.pick( { VkAccessFlags( VK_ACCESS_SHADER_READ_BIT ), VkAccessFlags( VK_ACCESS_INDEX_READ_BIT ), VkAccessFlags( VK_ACCESS_HOST_READ_BIT ) } ), t.pick( { VkPipelineStageFlags( VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ), VkPipelineStageFlags( VK_PIPELINE_STAGE_HOST_BIT ) } ) };
			if ( d.r.kind == K::Uniform || d.r.kind == K::Storage ) d.binding = t.below( 20u );
			if ( d.r.kind == K::Transfer && d.r.in && d.r.out ) d.noTransition = t.flag();
			return d;
		}
		// One field of another sampler or blend state.
		void tweak( crg::SamplerDesc & s )
		{
			auto o = genSampler( c.t );
			auto m = s.mipmapMode == VK_SAMPLER_MIPMAP_MODE_LINEAR ? VK_SAMPLER_MIPMAP_MODE_NEAREST : VK_SAMPLER_MIPMAP_MODE_LINEAR;
			uint32_t const f = c.t.below( 9u );
			s = crg::SamplerDesc{ f == 0u ? o.magFilter : s.magFilter, f == 1u ? o.minFilter : s.minFilter, f == 2u ? m : s.mipmapMode
				, f == 3u ? o.addressModeU : s.addressModeU, f == 4u ? o.addressModeV : s.addressModeV, f == 5u ? o.addressModeW : s.addressModeW
				, f == 6u ? s.mipLodBias + 1.0f : s.mipLodBias, f == 7u ? o.minLod : s.minLod, f == 8u ? o.maxLod : s.maxLod };
		}
		void tweak( VkPipelineColorBlendAttachmentState & s )
		{
			auto o = genBlend( c.t );
			switch ( c.t.below( 8u ) )
			{
			case 0: s.blendEnable = !s.blendEnable; break;
			case 1: s.srcColorBlendFactor = o.srcColorBlendFactor; break;
			case 2: s.dstColorBlendFactor = o.dstColorBlendFactor; break;
			case 3: s.colorBlendOp = o.colorBlendOp; break;
			case 4: s.srcAlphaBlendFactor = o.srcAlphaBlendFactor; break;
			case 5: s.dstAlphaBlendFactor = o.dstAlphaBlendFactor; break;
			case 6: s.alphaBlendOp = o.alphaBlendOp; break;
			default: s.colorWriteMask = o.colorWriteMask; break;
			}
		}
		// The same declaration with one thing changed.
		void mutate( Decl & d )
		{
			auto & t = c.t;
			if ( d.image )
			{
				switch ( t.below( 5u ) )
				{
				case 0: d.views[t.below( uint32_t( d.views.size() ) )] = view( d.aspect ); break;
				case 1: if ( d.r.kind == K::Sampled ) tweak( d.sampler ); break;
				case 2: if ( d.r.kind == K::Implicit ) d.wanted = meanings[t.below( uint32_t( std::size( meanings ) ) )]; break;
				case 3: if ( isTarget( d.r.kind ) && d.r.out && !d.r.in ) { if ( d.r.kind == K::Colour ) d.clear.color.uint32[t.below( 4u )] = t.below( 4u ); else { d.clear.depthStencil.stencil = t.below( 7u ); } } break;
				default: if ( d.r.kind == K::Colour && d.r.in && d.r.out ) tweak( d.blend ); break;
				}
			}
			else
			{
				switch ( t.below( 6u ) )
				{
				case 5: // another role for the same bytes
					if ( d.r.kind != K::Implicit )
					{
						uint32_t role = d.isView ? t.range( 9u, 13u ) : t.pick( { 0u, 1u, 2u, 3u, 4u, 6u, 7u, 8u } );
						d.role = role; d.r = bufferRoles[role]; d.noTransition = false;
						d.binding = d.r.kind == K::Transfer ? crg::InvalidBindingId : d.binding == crg::InvalidBindingId ? 3u : d.binding;
					}
					break;
				case 0: std::tie( d.bufs, d.bufName ) = buffer(); break;
				case 1: d.offset += 16u; break;
				case 2: d.range = t.range( 1u, 64u ) * 4u; break;
				case 3: if ( d.isView ) d.view = VkBufferView( uintptr_t( 0x900000u + t.below( 3u ) * 0x10u ) ); break;
				default: if ( d.r.kind == K::Implicit ) d.access.pipelineStage = t.pick( { VkPipelineStageFlags( VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ), VkPipelineStageFlags( VK_PIPELINE_STAGE_HOST_BIT ) } ); break;
				}
			}
		}
	};

	template< typename V > void colour( crg::FramePass & p, Decl const & d, V v )
	{
		if ( d.r.in && d.r.out ) p.addInOutColourView( v, d.blend );
		else if ( d.r.in ) p.addInputColourView( v );
		else p.addOutputColourView( v, d.clear );
	}
	template< typename V > void target( crg::FramePass & p, Decl const & d, V v )
	{
		switch ( d.r.kind )
		{
		case K::Depth: if ( d.r.in && d.r.out ) p.addInOutDepthView( v ); else if ( d.r.in ) p.addInputDepthView( v ); else p.addOutputDepthView( v, d.clear ); break;
		case K::DepthStencil: if ( d.r.in && d.r.out ) p.addInOutDepthStencilView( v ); else if ( d.r.in ) p.addInputDepthStencilView( v ); else p.addOutputDepthStencilView( v, d.clear ); break;
		case K::Stencil: if ( d.r.in && d.r.out ) p.addInOutStencilView( v ); else if ( d.r.in ) p.addInputStencilView( v ); else p.addOutputStencilView( v, d.clear ); break;
		default: colour( p, d, v ); break;
		}
	}
	template< typename V > void declareImage( crg::FramePass & p, Decl const & d, V v )
	{
		auto flag = d.noTransition ? crg::Attachment::Flag::NoTransition : crg::Attachment::Flag::None;
		switch ( d.r.kind )
		{
		case K::Sampled: p.addSampledView( v, d.binding, d.sampler ); break;
		case K::Implicit:
			if ( d.aspect == VK_IMAGE_ASPECT_COLOR_BIT ) p.addImplicitColourView( v, d.wanted.layout );
			else if ( d.aspect == VK_IMAGE_ASPECT_DEPTH_BIT ) p.addImplicitDepthView( v, d.wanted.layout );
			else p.addImplicitDepthStencilView( v, d.wanted.layout );
			break;
		case K::Storage:
			if ( d.r.clear ) p.addClearableOutputStorageView( v, d.binding );
			else if ( d.r.in && d.r.out ) p.addInOutStorageView( v, d.binding );
			else if ( d.r.in ) p.addInputStorageView( v, d.binding );
			else p.addOutputStorageView( v, d.binding );
			break;
		case K::Transfer:
			if ( d.r.in && d.r.out ) p.addTransferInOutView( v, flag );
			else if ( d.r.in ) p.addTransferInputView( v );
			else p.addTransferOutputView( v );
			break;
		default: target( p, d, v ); break;
		}
	}
	void declareBuffer( crg::FramePass & p, Decl const & d )
	{
		crg::Buffer b{ d.bufs, d.bufName };
		auto flag = d.noTransition ? crg::Attachment::Flag::NoTransition : crg::Attachment::Flag::None;
		switch ( d.role )
		{
		case 0: p.addUniformBuffer( b, d.binding, d.offset, d.range ); break;
		case 1: p.addInputStorageBuffer( b, d.binding, d.offset, d.range ); break;
		case 2: p.addOutputStorageBuffer( b, d.binding, d.offset, d.range ); break;
		case 3: p.addClearableOutputStorageBuffer( b, d.binding, d.offset, d.range ); break;
		case 4: p.addInOutStorageBuffer( b, d.binding, d.offset, d.range ); break;
		case 5: p.addImplicitBuffer( b, d.offset, d.range, d.access ); break;
		case 6: p.addTransferInputBuffer( b, d.offset, d.range ); break;
		case 7: p.addTransferOutputBuffer( b, d.offset, d.range ); break;
		case 8: p.addTransferInOutBuffer( b, d.offset, d.range, flag ); break;
		case 9: p.addUniformBufferView( b, d.view, d.binding, d.offset, d.range ); break;
		case 10: p.addInputStorageBufferView( b, d.view, d.binding, d.offset, d.range ); break;
		case 11: p.addOutputStorageBufferView( b, d.view, d.binding, d.offset, d.range ); break;
		case 12: p.addClearableOutputStorageBufferView( b, d.view, d.binding, d.offset, d.range ); break;
		case 13: p.addInOutStorageBufferView( b, d.view, d.binding, d.offset, d.range ); break;
		default: p.addImplicitBufferView( b, d.view, d.offset, d.range, d.access ); break;
		}
	}

	struct Ops { VkAttachmentLoadOp l; VkAttachmentStoreOp s; VkAttachmentLoadOp sl; VkAttachmentStoreOp ss; };
	Ops opsOf( Role const & r )
	{
		auto L = r.in ? VK_ATTACHMENT_LOAD_OP_LOAD : VK_ATTACHMENT_LOAD_OP_CLEAR;
		auto S = r.out ? VK_ATTACHMENT_STORE_OP_STORE : VK_ATTACHMENT_STORE_OP_DONT_CARE;
		auto const l = VK_ATTACHMENT_LOAD_OP_DONT_CARE; auto const s = VK_ATTACHMENT_STORE_OP_DONT_CARE;
		switch ( r.kind )
		{
		case K::Colour: case K::Depth: return { L, S, l, s };
		case K::DepthStencil: return { L, S, L, S };
		case K::Stencil: return { l, s, L, S };
		default: return { l, s, l, s };
		}
	}
	VkImageLayout layoutOf( Decl const & d, bool separate )
	{
		switch ( d.r.kind )
		{
		case K::Sampled: return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case K::Implicit: return d.wanted.layout;
		case K::Storage: return VK_IMAGE_LAYOUT_GENERAL;
		case K::Transfer: return d.r.out ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
		case K::Colour: return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
		case K::Depth: if ( separate ) return d.r.out ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL; break;
		case K::Stencil: if ( separate ) return d.r.out ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL; break;
		default: break;
		}
		return d.r.out ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
	}
	VkAccessFlags accessOf( Decl const & d )
	{
		auto rw = [&]( VkAccessFlags r, VkAccessFlags w ){ return ( d.r.in ? r : 0u ) | ( d.r.out ? w : 0u ); };
		switch ( d.r.kind )
		{
		case K::Sampled: case K::Uniform: return VK_ACCESS_SHADER_READ_BIT;
		case K::Implicit: return d.image ? d.wanted.access : d.access.access;
		case K::Storage: return rw( VK_ACCESS_SHADER_READ_BIT, VK_ACCESS_SHADER_WRITE_BIT );
		case K::Transfer: return rw( VK_ACCESS_TRANSFER_READ_BIT, VK_ACCESS_TRANSFER_WRITE_BIT );
		case K::Colour: return rw( VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT );
		default: return rw( DSR, DSW );
		}
	}
	// The stage; for sampled images only the fragment stage is what the library documents, whatever the pass is.
	VkPipelineStageFlags stageOf( Decl const & d, bool compute )
	{
		auto shader = compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
		switch ( d.r.kind )
		{
		case K::Sampled: case K::Uniform: case K::Storage: return shader;
		case K::Implicit: return d.image ? d.wanted.stage : d.access.pipelineStage;
		case K::Transfer: return VK_PIPELINE_STAGE_TRANSFER_BIT;
		case K::Colour: return VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
		default: return LATE;
		}
	}
	VkDescriptorType descriptorOf( Decl const & d )
	{
		if ( d.image ) return d.r.kind == K::Storage ? VK_DESCRIPTOR_TYPE_STORAGE_IMAGE : VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
		if ( d.r.kind == K::Uniform ) return d.isView ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
		return d.isView ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
	}

	// Every query of one attachment, against what was declared.
	void verify( pbt::Case & c, crg::Attachment const & a, Decl const & d, std::string const & what )
	{
		auto is = [&]( bool got, bool expected, char const * query )
		{
			if ( got != expected ) c.fail( pbt::fmt( "%s: %s answers %s", query, what.c_str(), got ? "true" : "false" ) );
		};
		auto const k = d.r.kind; bool const i = d.r.in, o = d.r.out, im = d.image, bu = !d.image;
		is( a.isInput(), i, "isInput" ); is( a.isOutput(), o, "isOutput" ); is( a.isInOut(), i && o, "isInOut" );
		is( a.isImage(), im, "isImage" ); is( a.isBuffer(), bu, "isBuffer" );
		is( a.isNoTransition(), d.noTransition, "isNoTransition" ); is( a.isClearable(), d.r.clear, "isClearable" );
		is( a.isClearableImage(), im && d.r.clear, "isClearableImage" ); is( a.isClearableBuffer(), bu && d.r.clear, "isClearableBuffer" );
		is( a.isUniformBuffer(), bu && k == K::Uniform, "isUniformBuffer" ); is( a.isUniformBufferView(), bu && k == K::Uniform && d.isView, "isUniformBufferView" );
		is( a.isStorageBuffer(), bu && k == K::Storage, "isStorageBuffer" ); is( a.isStorageBufferView(), bu && k == K::Storage && d.isView, "isStorageBufferView" );
		is( a.isTransferBuffer(), bu && k == K::Transfer, "isTransferBuffer" );
		is( a.isTransferInputBuffer(), bu && k == K::Transfer && i, "isTransferInputBuffer" ); is( a.isTransferOutputBuffer(), bu && k == K::Transfer && o, "isTransferOutputBuffer" );
		is( a.isTransitionBuffer(), bu && k == K::Implicit, "isTransitionBuffer" ); is( a.isTransitionBufferView(), bu && k == K::Implicit && d.isView, "isTransitionBufferView" );
		is( a.isBufferView(), bu && d.isView, "isBufferView" );
		is( a.isSampledView(), im && k == K::Sampled, "isSampledView" ); is( a.isStorageView(), im && k == K::Storage, "isStorageView" );
		is( a.isTransferView(), im && k == K::Transfer, "isTransferView" ); is( a.isTransitionView(), im && k == K::Implicit, "isTransitionView" );
		is( a.isStorageInputView(), im && k == K::Storage && i, "isStorageInputView" ); is( a.isStorageOutputView(), im && k == K::Storage && o, "isStorageOutputView" );
		is( a.isTransferInputView(), im && k == K::Transfer && i, "isTransferInputView" ); is( a.isTransferOutputView(), im && k == K::Transfer && o, "isTransferOutputView" );
		bool const col = k == K::Colour, dep = k == K::Depth || k == K::DepthStencil, ste = k == K::Stencil || k == K::DepthStencil, ds = dep && ste;
		is( a.isColourAttach(), col, "isColourAttach" ); is( a.isColourInputAttach(), col && i, "isColourInputAttach" );
		is( a.isColourOutputAttach(), col && o, "isColourOutputAttach" ); is( a.isColourInOutAttach(), col && i && o, "isColourInOutAttach" );
		is( a.isDepthAttach(), dep, "isDepthAttach" ); is( a.isDepthInputAttach(), dep && i, "isDepthInputAttach" );
		is( a.isDepthOutputAttach(), dep && o, "isDepthOutputAttach" ); is( a.isDepthInOutAttach(), dep && i && o, "isDepthInOutAttach" );
		is( a.isStencilAttach(), ste, "isStencilAttach" ); is( a.isStencilInputAttach(), ste && i, "isStencilInputAttach" );
		is( a.isStencilOutputAttach(), ste && o, "isStencilOutputAttach" ); is( a.isStencilInOutAttach(), ste && i && o, "isStencilInOutAttach" );
		is( a.isStencilClearingAttach(), false, "isStencilClearingAttach" );
		is( a.isDepthStencilInputAttach(), ds && i, "isDepthStencilInputAttach" ); is( a.isDepthStencilOutputAttach(), ds && o, "isDepthStencilOutputAttach" );
		is( a.isDepthStencilInOutAttach(), ds && i && o, "isDepthStencilInOutAttach" );

		auto eq = [&]( auto got, auto expected, char const * query )
		{
			if ( got != expected ) c.fail( pbt::fmt( "%s: %s gives 0x%llx instead of 0x%llx", query, what.c_str(), static_cast< unsigned long long >( got ), static_cast< unsigned long long >( expected ) ) );
		};
		eq( a.binding, d.binding, "binding" );
		eq( a.getAccessMask(), accessOf( d ), "getAccessMask" );
		eq( a.getPipelineStageFlags( false ), stageOf( d, false ), "getPipelineStageFlags" );
		if ( k != K::Sampled ) eq( a.getPipelineStageFlags( true ), stageOf( d, true ), "getPipelineStageFlags" );
		if ( k == K::Uniform || k == K::Sampled || k == K::Storage ) eq( a.getDescriptorType(), descriptorOf( d ), "getDescriptorType" );
		eq( a.getViewCount(), im ? uint32_t( d.views.size() ) : 0u, "getViewCount" );
		eq( a.getBufferCount(), bu ? uint32_t( d.bufs.size() ) : 0u, "getBufferCount" );
		auto counts = uint32_t( std::max( d.views.size(), d.bufs.size() ) );
		for ( uint32_t n = 0u; n < ( counts > 1u ? counts : 3u ); ++n )
		{
			auto v = a.view( n );
			auto expected = im ? d.views[counts > 1u ? n : 0u] : crg::ImageViewId{};
			eq( v.id, expected.id, "view" );
			c.check( v.data == expected.data, pbt::fmt( "view: %s has the data of another view", what.c_str() ) );
			eq( uint64_t( a.buffer( n ) ), bu ? uint64_t( d.bufs[counts > 1u ? n : 0u] ) : 0u, "buffer" );
			if ( bu && ( k == K::Uniform || k == K::Storage ) )
			{
				auto write = a.getBufferWrite( n );
				write.update( VkDescriptorSet( uintptr_t( 0x77u ) ) );
				VkWriteDescriptorSet const & vk = write;
				eq( vk.dstBinding, d.binding, "getBufferWrite binding" ); eq( vk.descriptorCount, 1u, "getBufferWrite count" ); eq( vk.dstArrayElement, 0u, "getBufferWrite array element" );
				eq( vk.descriptorType, descriptorOf( d ), "getBufferWrite type" );
				eq( uint64_t( vk.dstSet ), uint64_t( 0x77u ), "getBufferWrite set" );
				if ( d.isView )
				{
					c.check( vk.pTexelBufferView != nullptr, "getBufferWrite: no texel buffer view" );
					if ( vk.pTexelBufferView ) eq( uint64_t( *vk.pTexelBufferView ), uint64_t( d.view ), "getBufferWrite view" );
					c.check( write.bufferViewInfo.size() == 1u && write.bufferViewInfo[0].offset == d.offset && write.bufferViewInfo[0].range == d.range && write.bufferViewInfo[0].buffer == d.bufs[counts > 1u ? n : 0u], pbt::fmt( "getBufferWrite view range: %s", what.c_str() ) );
				}
				else
				{
					c.check( vk.pBufferInfo != nullptr, "getBufferWrite: no buffer" );
					if ( !vk.pBufferInfo ) return;
					eq( uint64_t( vk.pBufferInfo->buffer ), uint64_t( d.bufs[counts > 1u ? n : 0u] ), "getBufferWrite buffer" );
					eq( vk.pBufferInfo->offset, d.offset, "getBufferWrite offset" ); eq( vk.pBufferInfo->range, d.range, "getBufferWrite range" );
				}
			}
		}
		if ( bu )
		{
			eq( a.getBufferRange().offset, d.offset, "getBufferRange offset" ); eq( a.getBufferRange().size, d.range, "getBufferRange size" );
			return;
		}
		eq( a.getImageLayout( false ), layoutOf( d, false ), "getImageLayout" );
		eq( a.getImageLayout( true ), layoutOf( d, true ), "getImageLayout with separate depth and stencil layouts" );
		auto ops = opsOf( d.r );
		eq( a.getLoadOp(), ops.l, "getLoadOp" ); eq( a.getStoreOp(), ops.s, "getStoreOp" ); eq( a.getStencilLoadOp(), ops.sl, "getStencilLoadOp" ); eq( a.getStencilStoreOp(), ops.ss, "getStencilStoreOp" );
		if ( k == K::Sampled ) c.check( same( a.getSamplerDesc(), d.sampler ), pbt::fmt( "getSamplerDesc: %s gives another sampler", what.c_str() ) );
		if ( isTarget( k ) ) c.check( same( a.getClearValue(), d.clear ), pbt::fmt( "getClearValue: %s gives another value", what.c_str() ) );
		if ( k == K::Colour ) c.check( same( a.getBlendState(), d.blend ), pbt::fmt( "getBlendState: %s gives another state", what.c_str() ) );
	}
}

PBT_CHECK( "C21", "declarations", 50000, 1500000, "several attachments, of both images and buffers" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	Gen gen{ c, w };
	std::string graphName = t.chance( 10 ) ? "" : t.chance( 10 ) ? "/slash" : "graph";
	crg::FrameGraph fg{ *w.handler, graphName };
	Tree tree{ fg, graphName };
	auto ng = t.below( 4u );
	for ( uint32_t i = 0u; i < ng; ++i ) tree.add( t, i );
	auto np = t.range( 1u, 2u );
	struct P { crg::FramePass * fp; std::vector< Decl > images, buffers; };
	std::vector< P > passes;
	std::string log;
	for ( uint32_t p = 0u; p < np; ++p )
	{
		auto gi = t.below( uint32_t( tree.groups.size() ) );
		auto & group = tree.groups[gi];
		auto name = pbt::fmt( "pass%u", p );
		P pass{ &group.first->createPass( name, crg::RunnablePassCreator{} ), {}, {} };
		auto & fp = *pass.fp;
		c.check( fp.getName() == name, "pass name: not the given name" );
		auto gname = ( gi == 0u ? graphName : group.first->getName() ) + "/" + name;
		c.check( fp.getGroupName() == gname, pbt::fmt( "pass group name: %s instead of %s", fp.getGroupName().c_str(), gname.c_str() ) );
		c.check( fp.getFullName() == group.second + "/" + name, pbt::fmt( "pass full name: %s instead of %s/%s", fp.getFullName().c_str(), group.second.c_str(), name.c_str() ) );
		std::vector< std::string > names, bnames;
		auto na = t.count( 1u, 10u, 75u );
		std::vector< Decl > done;
		for ( uint32_t i = 0u; i < na; ++i )
		{
			bool img = t.chance( 60 );
			Decl d = !done.empty() && t.chance( 25 ) ? t.pick( done ) : img ? gen.image() : gen.buf();
			if ( !done.empty() && t.chance( 20 ) ) { d = t.pick( done ); gen.mutate( d ); }
			done.push_back( d );
			auto n = gname + "/" + d.resource() + "/" + d.r.suffix;
			n = n.substr( n.find_first_not_of( '/' ) );
			if ( d.image )
			{
				if ( d.array ) declareImage( fp, d, d.views );
				else declareImage( fp, d, d.views.front() );
				// Depth and stencil targets come first.
				bool front = d.r.kind == K::Depth || d.r.kind == K::DepthStencil || d.r.kind == K::Stencil;
				pass.images.insert( front ? pass.images.begin() : pass.images.end(), d );
				names.insert( front ? names.begin() : names.end(), n );
			}
			else
			{
				declareBuffer( fp, d );
				pass.buffers.push_back( d );
				bnames.push_back( n );
			}
			log += n + ( d.image ? pbt::fmt( " (%zu views)\n", d.views.size() ) : pbt::fmt( " (%zu buffers)\n", d.bufs.size() ) );
			c.note( d.image ? d.r.suffix : d.r.suffix + std::string{ d.r.clear ? " clearable" : "" } );
		}
		c.check( fp.images.size() == pass.images.size() && fp.buffers.size() == pass.buffers.size(), "count: not one attachment per declaration" );
		if ( fp.images.size() != pass.images.size() || fp.buffers.size() != pass.buffers.size() ) return;
		for ( size_t i = 0u; i < names.size(); ++i )
		{
			c.check( fp.images[i].name == names[i], pbt::fmt( "image attachment name: %s instead of %s", fp.images[i].name.c_str(), names[i].c_str() ) );
			c.check( fp.images[i].pass == &fp, "pass: an image attachment of another pass" );
			verify( c, fp.images[i], pass.images[i], names[i] );
		}
		for ( size_t i = 0u; i < bnames.size(); ++i )
		{
			c.check( fp.buffers[i].name == bnames[i], pbt::fmt( "buffer attachment name: %s instead of %s", fp.buffers[i].name.c_str(), bnames[i].c_str() ) );
			c.check( fp.buffers[i].pass == &fp, "pass: a buffer attachment of another pass" );
			verify( c, fp.buffers[i], pass.buffers[i], bnames[i] );
		}
		passes.push_back( std::move( pass ) );
	}
	// Copies, and copies for one view.
	uint32_t equalPairs{}, differentPairs{};
	for ( auto & p : passes )
	{
		auto all = p.fp->images; all.insert( all.end(), p.fp->buffers.begin(), p.fp->buffers.end() );
		auto decls = p.images; decls.insert( decls.end(), p.buffers.begin(), p.buffers.end() );
		for ( size_t i = 0u; i < all.size(); ++i )
		{
			auto copy = all[i];
			c.check( copy == all[i] && copy.name == all[i].name, "copy: differs from the original" );
			verify( c, copy, decls[i], "the copy of " + all[i].name );
			if ( decls[i].image )
			{
				auto v = gen.view( decls[i].aspect );
				crg::Attachment one{ v, all[i] };
				auto d = decls[i];
				d.views = { v };
				verify( c, one, d, "the attachment of one view of " + all[i].name );
				c.check( one.pass == p.fp && one.name == all[i].name + v.data->name, "single view: wrong pass or name" );
			}
		}
		for ( auto & q : passes )
		{
			auto others = q.fp->images; others.insert( others.end(), q.fp->buffers.begin(), q.fp->buffers.end() );
			auto odecls = q.images; odecls.insert( odecls.end(), q.buffers.begin(), q.buffers.end() );
			for ( size_t i = 0u; i < all.size(); ++i ) for ( size_t j = 0u; j < others.size(); ++j )
			{
				bool expected = &p == &q && same( decls[i], odecls[j] );
				( expected ? equalPairs : differentPairs ) += ( &p != &q || i != j );
				c.check( ( all[i] == others[j] ) == expected, pbt::fmt( "equality: %s and %s compare %s", all[i].name.c_str(), others[j].name.c_str(), expected ? "different" : "equal" ) );
				// Transitions compare as their data and their two ends do.
				if ( decls[i].image && odecls[j].image )
				{
					crg::ViewTransition x{ all[i].view(), all[i], all[0] }, y{ all[i].view(), others[j], all[0] }, z{ all[i].view(), all[0], all[i] }, u{ all[i].view(), all[0], others[j] };
					c.check( ( x == y ) == expected && ( z == u ) == expected, "transition equality: does not follow its ends" );
					crg::AttachmentTransitions m{ { x, y, x, u }, {} };
					m = crg::mergeIdenticalTransitions( m );
					size_t distinct = 1u + !( x == y ) + ( !( u == x ) && !( u == y ) );
					c.check( m.viewTransitions.size() == distinct && m.bufferTransitions.empty() && m.viewTransitions[0] == x, pbt::fmt( "merge: %zu transitions instead of %zu", m.viewTransitions.size(), distinct ) );
				}
				if ( !decls[i].image && !odecls[j].image )
				{
					auto & d = p.fp->buffers[0];
					crg::BufferTransition x{ all[i].bufferAttach.buffer, all[i], d }, y{ all[i].bufferAttach.buffer, others[j], d }, z{ others[j].bufferAttach.buffer, all[i], d };
					c.check( ( x == y ) == expected && ( x == z ) == ( decls[i].bufs == odecls[j].bufs ), "transition equality: does not follow its buffer and ends" );
					crg::AttachmentTransitions m{ {}, { x, y, x, z } };
					m = crg::mergeIdenticalTransitions( m );
					size_t distinct = 1u + !( x == y ) + ( !( z == x ) && !( z == y ) );
					c.check( m.bufferTransitions.size() == distinct && m.viewTransitions.empty() && m.bufferTransitions[0] == x, pbt::fmt( "merge: %zu transitions instead of %zu", m.bufferTransitions.size(), distinct ) );
				}
			}
		}
	}
	if ( equalPairs ) c.note( "the same declared twice" );
	size_t ni{}, nb{};
	for ( auto & p : passes ) ni += p.images.size(), nb += p.buffers.size();
	c.sample = log;
	if ( ni && nb && ni + nb > 2u ) { c.nt( log ); }
	w.destroy();
}

namespace
{
	bool same( VkExtent3D const & a, VkExtent3D const & b ) { return a.width == b.width && a.height == b.height && a.depth == b.depth; }
	bool same( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b ) { return std::memcmp( &a, &b, sizeof( a ) ) == 0; }
	VkImageSubresourceRange virt( crg::ImageId img, VkImageViewType type, VkImageSubresourceRange r )
	{
		// A volume's level seen through a 3D view is all its slices.
		if ( type == VK_IMAGE_VIEW_TYPE_3D && ( r.levelCount == 1u || r.levelCount == img.data->info.mipLevels ) )
		{
			r.baseArrayLayer = 0u;
			r.layerCount = std::max( 1u, img.data->info.extent.depth >> r.baseMipLevel );
		}
		return r;
	}
	bool matches( crg::ImageViewData const & a, crg::ImageViewData const & b )
	{
		if ( a.image.id != b.image.id || a.info.flags != b.info.flags || a.info.format != b.info.format ) return false;
		auto x = a.info.subresourceRange, y = b.info.subresourceRange;
		if ( a.info.viewType != b.info.viewType ) { x = virt( a.image, a.info.viewType, x ); y = virt( b.image, b.info.viewType, y ); }
		return ( x.aspectMask & y.aspectMask ) && x.baseMipLevel == y.baseMipLevel && x.levelCount == y.levelCount && x.baseArrayLayer == y.baseArrayLayer && x.layerCount == y.layerCount;
	}
	std::vector< crg::ImageViewId > leaves( crg::ImageViewId v ) { return v.data->source.empty() ? std::vector< crg::ImageViewId >{ v } : v.data->source; }
	bool uses( crg::ImageViewId a, crg::ImageViewId b )
	{
		for ( auto & x : leaves( a ) ) for ( auto & y : leaves( b ) ) if ( matches( *x.data, *y.data ) ) return true;
		return false;
	}
}

PBT_CHECK( "C21", "dependencies", 150000, 1500000, "a dependency through a resource found behind another pass" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	crg::FrameGraph fg{ *w.handler, "graph" };
	// Few resources, so that passes share them.
	std::vector< crg::ImageViewId > views;
	std::vector< crg::ImageId > images;
	auto ni = t.range( 1u, 2u );
	for ( uint32_t i = 0u; i < ni; ++i )
	{
		bool ds = t.chance( 30 );
		images.push_back( chk::image( w, pbt::fmt( "img%u", i ), ds ? VK_FORMAT_D24_UNORM_S8_UINT : VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_USAGE_SAMPLED_BIT, t.range( 1u, 3u ), t.range( 1u, 2u ) ) );
	}
	auto nv = t.range( 1u, 4u );
	for ( uint32_t i = 0u; i < nv; ++i )
	{
		auto img = t.pick( images );
		auto & info = img.data->info;
		VkImageAspectFlags asp = info.format == VK_FORMAT_R8G8B8A8_UNORM ? VkImageAspectFlags( VK_IMAGE_ASPECT_COLOR_BIT ) : t.pick( { DS, VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT ), VkImageAspectFlags( VK_IMAGE_ASPECT_STENCIL_BIT ) } );
		VkImageSubresourceRange r{ asp, t.below( info.mipLevels ), 1u, t.below( info.arrayLayers ), 1u };
		auto v = chk::view( w, pbt::fmt( "v%u", i ), img, r, t.chance( 30 ) ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D );
		if ( std::find( views.begin(), views.end(), v ) == views.end() ) views.push_back( v );
	}
	crg::RunnablePassCreator none{};
	auto np = t.range( 2u, 7u );
	struct Use { uint32_t res; bool in, out, tracked; };
	struct P { crg::FramePass * fp; std::vector< uint32_t > deps; std::vector< Use > views, bufs; };
	std::vector< P > ps;
	auto nb = t.range( 1u, 2u );
	std::vector< crg::Buffer > bufs;
	for ( uint32_t i = 0u; i < nb; ++i ) bufs.push_back( crg::Buffer{ t.chance( 25 ) ? std::vector< VkBuffer >{ VkBuffer( uintptr_t( 0x100u + i * 0x20u ) ), VkBuffer( uintptr_t( 0x110u + i * 0x20u ) ) } : std::vector< VkBuffer >{ VkBuffer( uintptr_t( 0x100u + i * 0x20u ) ) }, pbt::fmt( "b%u", i ) } );
	std::string log;
	for ( uint32_t i = 0u; i < np; ++i )
	{
		P p{ &fg.createPass( pbt::fmt( "p%u", i ), none ), {}, {}, {} };
		log += pbt::fmt( "p%u <-", i );
		for ( uint32_t j = 0u; j < i; ++j ) if ( t.chance( j + 1u == i ? 70 : 30 ) ) p.deps.push_back( j );
		if ( t.chance( 15 ) ) std::reverse( p.deps.begin(), p.deps.end() );
		if ( t.flag() ) { crg::FramePassArray a; for ( auto d : p.deps ) a.push_back( ps[d].fp ); p.fp->addDependencies( a ); }
		else for ( auto d : p.deps ) p.fp->addDependency( *ps[d].fp );
		for ( auto d : p.deps ) log += pbt::fmt( " p%u", d );
		if ( i == 0u && views.size() > 1u && t.chance( 30 ) )
		{
			// A merged view of the views of one image.
			crg::ImageViewIdArray a;
			for ( auto & v : views ) if ( v.data->image == views[0].data->image && v.data->info.subresourceRange.aspectMask == views[0].data->info.subresourceRange.aspectMask ) a.push_back( v );
			if ( a.size() > 1u ) views.push_back( p.fp->mergeViews( a ) );
		}
		auto nu = t.below( 3u );
		for ( uint32_t u = 0u; u < nu; ++u )
		{
			Use use{ t.below( uint32_t( views.size() ) ), false, false, true };
			auto & v = views[use.res];
			switch ( t.below( 5u ) )
			{
			case 0: p.fp->addSampledView( v, u ); use.in = true; break;
			case 1: p.fp->addInputStorageView( v, u ); use.in = true; break;
			case 2: p.fp->addOutputStorageView( v, u ); use.out = true; break;
			case 3: p.fp->addTransferInOutView( v ); use.in = use.out = true; break;
			default: p.fp->addTransferOutputView( v ); use.out = true; break;
			}
			log += pbt::fmt( " %s%s%s", v.data->name.c_str(), use.in ? "r" : "", use.out ? "w" : "" );
			p.views.push_back( use );
		}
		nu = t.below( 3u );
		for ( uint32_t u = 0u; u < nu; ++u )
		{
			Use use{ t.below( nb ), false, false, true };
			auto & b = bufs[use.res];
			switch ( t.below( 6u ) )
			{
			case 0: p.fp->addUniformBuffer( b, u, 0u, 16u ); use.in = true; use.tracked = false; break;
			case 1: p.fp->addInputStorageBuffer( b, u, 0u, 16u ); use.in = true; break;
			case 2: p.fp->addOutputStorageBuffer( b, u, 0u, 16u ); use.out = true; break;
			case 3: p.fp->addTransferInOutBuffer( b, 0u, 16u ); use.in = use.out = true; break;
			case 4: p.fp->addTransferInputBuffer( b, 0u, 16u ); use.in = true; break;
			default: p.fp->addOutputStorageBufferView( b, VkBufferView( uintptr_t( 0x5000u ) ), u, 0u, 16u ); use.out = true; break;
			}
			log += pbt::fmt( " %s%s%s", b.name.c_str(), use.in ? "r" : "", use.out ? "w" : "" );
			p.bufs.push_back( use );
		}
		log += "\n";
		ps.push_back( std::move( p ) );
	}
	// The nearest writers of the resource behind a pass, along its dependencies; a pass which only reads it hides those behind it.
	std::function< void( uint32_t, std::function< int( P const & ) > const &, std::set< uint32_t > & ) > writers = [&]( uint32_t i, auto const & role, std::set< uint32_t > & out )
	{
		for ( auto d : ps[i].deps )
		{
			auto r = role( ps[d] );
			if ( r & 2 ) out.insert( d );
			else if ( !r ) writers( d, role, out );
		}
	};
	bool indirect = false;
	bool share = t.flag();
	crg::PassDependencyCache vcache, bcache;
	auto nq = t.range( 4u, 24u );
	for ( uint32_t q = 0u; q < nq; ++q )
	{
		auto a = t.below( np ), b = t.below( np );
		{
			auto v = t.pick( views );
			std::set< uint32_t > found;
			writers( a, [&]( P const & p ){ int r{}; for ( auto & u : p.views ) if ( uses( views[u.res], v ) ) r |= ( u.in ? 1 : 0 ) | ( u.out ? 2 : 0 ); return r; }, found );
			crg::PassDependencyCache own;
			bool got = ps[a].fp->dependsOn( *ps[b].fp, v, share ? vcache : own );
			c.check( got == ( found.count( b ) != 0u ), pbt::fmt( "view dependency: p%u %s p%u through %s", a, got ? "depends on" : "does not depend on", b, v.data->name.c_str() ) );
			if ( got ) { c.note( "through a view" ); if ( std::find( ps[a].deps.begin(), ps[a].deps.end(), b ) == ps[a].deps.end() ) indirect = true; }
		}
		{
			auto k = t.below( nb );
			std::set< uint32_t > found;
			// Uniform uses of a buffer are not tracked.
			writers( a, [&]( P const & p ){ int r{}; for ( auto & u : p.bufs ) if ( u.tracked && u.res == k ) r |= ( u.in ? 1 : 0 ) | ( u.out ? 2 : 0 ); return r; }, found );
			crg::PassDependencyCache own;
			bool got = ps[a].fp->dependsOn( *ps[b].fp, bufs[k], share ? bcache : own );
			c.check( got == ( found.count( b ) != 0u ), pbt::fmt( "buffer dependency: p%u %s p%u through %s", a, got ? "depends on" : "does not depend on", b, bufs[k].name.c_str() ) );
			if ( got ) { c.note( "through a buffer" ); if ( std::find( ps[a].deps.begin(), ps[a].deps.end(), b ) == ps[a].deps.end() ) indirect = true; }
		}
		bool direct = std::find( ps[a].deps.begin(), ps[a].deps.end(), b ) != ps[a].deps.end();
		c.check( ps[a].fp->dependsOn( *ps[b].fp ) == direct, pbt::fmt( "dependency: p%u on p%u", a, b ) );
	}
	c.sample = log;
	if ( indirect ) c.nt( log );
	w.destroy();
}

PBT_CHECK( "C21", "helpers", 150000, 1500000, "a view of a smaller level" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	auto eq = [&]( auto got, auto expected, std::string const & query )
	{
		c.check( got == expected, pbt::fmt( "%s: gives 0x%llx instead of 0x%llx", query.c_str(), static_cast< unsigned long long >( got ), static_cast< unsigned long long >( expected ) ) );
	};
	// Formats.
	{
		bool col = t.chance( 40 ); auto pickD = t.below( 7u );
		auto f = col ? colours[t.below( 3u )] : pickD < 3u ? depths[pickD] : pickD < 6u ? both[pickD - 3u] : stencils[0];
		eq( crg::isDepthFormat( f.f ), ( f.a & VK_IMAGE_ASPECT_DEPTH_BIT ) != 0u, "isDepthFormat" );
		eq( crg::isStencilFormat( f.f ), ( f.a & VK_IMAGE_ASPECT_STENCIL_BIT ) != 0u, "isStencilFormat" );
		eq( crg::isDepthStencilFormat( f.f ), f.a == DS, "isDepthStencilFormat" );
		eq( crg::isColourFormat( f.f ), f.a == VK_IMAGE_ASPECT_COLOR_BIT, "isColourFormat" );
		eq( crg::getAspectMask( f.f ), f.a, "getAspectMask" );
	}
	// Layouts and stages.
	auto & m = meanings[t.below( uint32_t( std::size( meanings ) ) )];
	eq( crg::getAccessMask( m.layout ), m.access, pbt::fmt( "getAccessMask of layout %d", int( m.layout ) ) );
	eq( crg::getStageMask( m.layout ), m.stage, pbt::fmt( "getStageMask of layout %d", int( m.layout ) ) );
	auto s = crg::makeLayoutState( m.layout );
	c.check( s.layout == m.layout && s.state.access == m.access && s.state.pipelineStage == m.stage, "makeLayoutState: not the layout's access and stage" );
	{
		struct { VkPipelineStageFlags s; VkAccessFlags a; } const table[] = {
			{ VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, VK_ACCESS_MEMORY_READ_BIT }, { VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT },
			{ LATE, DSR | DSW }, { VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT }, { VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT },
			{ VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_ACCESS_SHADER_READ_BIT }, { VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV, VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV }, { VK_PIPELINE_STAGE_HOST_BIT, 0u }, { VK_PIPELINE_STAGE_VERTEX_INPUT_BIT, 0u } };
		VkPipelineStageFlags flags{}; VkAccessFlags access{};
		for ( auto & e : table ) if ( t.chance( 30 ) ) { flags |= e.s; access |= e.a; }
		auto r = crg::getPipelineState( flags );
		c.check( r.pipelineStage == flags && r.access == access, pbt::fmt( "getPipelineState: of 0x%x gives access 0x%x, stage 0x%x", flags, r.access, r.pipelineStage ) );
	}
	// Images and their views.
	bool volume = t.chance( 35 );
	VkExtent3D e{ t.range( 1u, 300u ), t.range( 1u, 300u ), volume ? t.range( 1u, 40u ) : 1u };
	auto mips = t.range( 1u, 9u ), layers = volume ? 1u : t.range( 1u, 4u );
	VkImageUsageFlags usage = VK_IMAGE_USAGE_SAMPLED_BIT;
	auto img = w.handler->createImageId( crg::ImageData{ "img", 0u, volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, e, usage, mips, layers } );
	auto img2 = w.handler->createImageId( crg::ImageData{ "img2", 0u, volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, e, usage, mips, layers } );
	c.check( same( crg::getExtent( img ), e ) && crg::getMipLevels( img ) == mips && crg::getArrayLayers( img ) == layers && crg::getFormat( img ) == VK_FORMAT_R8G8B8A8_UNORM && crg::getImageType( img ) == ( volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D ), "image queries: not what the image was created with" );
	auto gen = [&]( crg::ImageId i )
	{
		VkImageSubresourceRange r{ VK_IMAGE_ASPECT_COLOR_BIT, t.below( mips ), 1u, 0u, 1u };
		r.levelCount = t.chance( 60 ) ? 1u : t.range( 1u, mips - r.baseMipLevel );
		auto type = VK_IMAGE_VIEW_TYPE_3D;
		if ( !volume || t.flag() )
		{
			auto depth = std::max( 1u, volume ? e.depth >> r.baseMipLevel : layers );
			bool whole = t.flag();
			r.baseArrayLayer = whole ? 0u : t.below( depth );
			r.layerCount = whole ? depth : t.range( 1u, depth - r.baseArrayLayer );
			type = t.flag() || r.layerCount > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
		}
		return crg::ImageViewData{ "v", i, 0u, type, t.chance( 85 ) ? VK_FORMAT_R8G8B8A8_UNORM : VK_FORMAT_R32_SFLOAT, r };
	};
	std::vector< crg::ImageViewId > ids;
	std::vector< crg::ImageViewData > datas;
	auto n = t.range( 2u, 5u );
	std::string log = pbt::fmt( "%ux%ux%u, %u mips, %u layers\n", e.width, e.height, e.depth, mips, layers );
	bool small = false;
	for ( uint32_t i = 0u; i < n; ++i )
	{
		auto d = gen( t.chance( 80 ) ? img : img2 );
		if ( t.chance( 12 ) ) d.info.flags = VK_IMAGE_VIEW_CREATE_FRAGMENT_DENSITY_MAP_DYNAMIC_BIT_EXT;
		auto v = w.handler->createViewId( d );
		ids.push_back( v ); datas.push_back( d );
		auto & r = d.info.subresourceRange;
		log += pbt::fmt( "v%u: type %d, mips %u+%u, layers %u+%u\n", i, int( d.info.viewType ), r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount );
		c.check( same( crg::getExtent( v ), e ) && crg::getMipLevels( v ) == r.levelCount && crg::getArrayLayers( v ) == r.layerCount && crg::getFormat( v ) == d.info.format && crg::getImageType( v ) == ( volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D ), "view queries: not what the view was created with" );
		VkExtent3D x = e;
		for ( uint32_t l = 0u; l < r.baseMipLevel; ++l ) x = { x.width > 1u ? x.width / 2u : 1u, x.height > 1u ? x.height / 2u : 1u, x.depth > 1u ? x.depth / 2u : 1u };
		auto got = crg::getMipExtent( v );
		c.check( same( got, x ), pbt::fmt( "getMipExtent: %ux%ux%u instead of %ux%ux%u", got.width, got.height, got.depth, x.width, x.height, x.depth ) );
		small |= r.baseMipLevel > 0u;
		auto vr = crg::getVirtualRange( d.image, d.info.viewType, r );
		c.check( same( vr, virt( d.image, d.info.viewType, r ) ), "getVirtualRange: not the slices of the viewed level" );
		for ( uint32_t j = 0u; j <= i; ++j )
		{
			bool expected = matches( d, datas[j] );
			c.check( crg::match( d, datas[j] ) == expected && crg::match( datas[j], d ) == expected, pbt::fmt( "match: v%u and v%u should %s", i, j, expected ? "match" : "not match" ) );
			if ( expected && i != j ) c.note( "matching views" );
		}
		c.check( crg::resolveView( v, t.below( 4u ) ) == v, "resolveView: a plain view is not itself" );
	}
	crg::ImageViewData md = datas[0];
	md.source = { ids.begin(), ids.end() };
	auto merged = w.handler->createViewId( md );
	for ( uint32_t i = 0u; i < n; ++i ) c.check( crg::resolveView( merged, i ) == ids[i], "resolveView: not the view of the index" );
	// Waited semaphores.
	crg::SemaphoreWaitArray waits;
	std::vector< VkSemaphore > sems, es; std::vector< VkPipelineStageFlags > stages, est;
	auto nw = t.below( 4u );
	for ( uint32_t i = 0u; i < nw; ++i )
	{
		crg::SemaphoreWait sw{ VkSemaphore( uintptr_t( t.chance( 25 ) ? 0u : 0x40u + i ) ), VkPipelineStageFlags( 1u << t.below( 10u ) ) };
		waits.push_back( sw );
		if ( sw.semaphore ) { es.push_back( sw.semaphore ); est.push_back( sw.dstStageMask ); }
	}
	crg::convert( waits, sems, stages );
	c.check( sems == es && stages == est, "convert: not the given semaphores and stages" );
	c.sample = log;
	if ( small ) c.nt( log );
	w.destroy();
}
